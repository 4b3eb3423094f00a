"""Reference model of the help output: which nodes are listed, how they are labelled and laid out."""
import unicodedata

from .spec import TYPES, U, node_value, LONG, SHORT


def cp_width(ch):
    o = ord(ch)
    if unicodedata.category(ch) in ('Mn', 'Me', 'Cf') and o != 0xAD:
        return 0
    return 2 if unicodedata.east_asian_width(ch) in 'WF' else 1


def width(b):
    s = b.decode('utf-8', 'ignore') if isinstance(b, bytes) else b
    return sum(cp_width(c) for c in s)


def value_suffix(n):
    if n.vrt or (n.vmin is None and n.vmax is None):
        return ''
    t = TYPES[n.T]
    lo = str(n.vmin) if n.vmin is not None else ('0' if t.lo == 0 else '-N')
    hi = str(n.vmax) if n.vmax is not None else 'N'
    return f'<{lo}-{hi}>'


def count_suffix(n):
    if n.min == n.max:
        return f'[{n.min}]'
    return f'[{n.min},{"N" if n.max == U else n.max}]'


def label(n, lp=LONG, sp=SHORT):
    if n.kind == 'root':
        return ''
    if n.kind == 'mode':
        return n.none or ' '
    if n.kind == 'pos':
        return f'<{n.disp}> {count_suffix(n)}'
    if n.kind == 'one_of':
        return n.disp or 'One of: '
    if n.kind == 'alias_group':
        return (n.disp or 'Alias Group: ')
    parts = []
    if n.long:
        parts.append(lp + n.long)
    if n.short:
        parts.append(sp + n.short)
    s = ','.join(parts) or n.none
    if n.sep:
        s += n.sep + (value_suffix(n) or '<Value>')
    elif n.kind != 'help' and n.min == n.max == 1:
        s += ' ' + (value_suffix(n) or '<Value>')
    if n.kind in ('multi', 'fwd'):
        s += ' ' + count_suffix(n)
    return s


class HelpModel:
    def __init__(self, root, lp=LONG, sp=SHORT):
        self.root, self.lp, self.sp = root, lp, sp
        self.help = next((c for c in root.children if c.kind == 'help'), None)

    def enabled(self, n, en):
        return not ((n.en is not None and not en[n.en]) or (n.en_req is not None and not en[n.en_req]))

    def children(self, n, flatten, top):
        if n.kind == 'mode' and n.none and not flatten and not top:
            return []
        return n.children

    def column(self, n, flatten, depth=0, bar=''):
        r = depth * 4 + width(bar + label(n, self.lp, self.sp)) + 4
        b = '┌ ' if n.kind in ('one_of', 'alias_group') else ''
        for c in self.children(n, flatten, False):
            r = max(r, self.column(c, flatten, depth + 1, b))
        return r

    def lines(self, n, flatten, en, depth=0, bar='', top=True):
        out = []
        lab = bar + label(n, self.lp, self.sp)
        if lab:
            out.append((depth, lab, n.desc or ''))
        kids = [c for c in self.children(n, flatten, top) if self.enabled(c, en)]
        group = n.kind in ('one_of', 'alias_group') and len(kids) > 1
        for i, c in enumerate(kids):
            b = '' if not group else '┌ ' if i == 0 else '└ ' if i == len(kids) - 1 else '├ '
            # anything below the first level is only ever listed in full
            out += self.lines(c, flatten, en, depth + 1, b, top=False)
        return out

    def find(self, toks, en):
        """Target node of a help path, or the token that names nothing."""
        n = self.root
        for t in toks:
            t = t.decode('utf-8', 'surrogateescape')
            for c in n.children:
                if not self.enabled(c, en):
                    continue
                names = ([self.lp + c.long] if c.long else []) + ([self.sp + c.short] if c.short else []) + \
                    ([c.none] if c.none else [])
                if t in names and not (c.long and t == self.sp + (c.short or '') and t.startswith(self.lp)):
                    n = c
                    break
            else:
                return None, t
        return n, None

    def text(self, target, en, columns=0, colour=False, wrap=None, flatten=None):
        h = self.help
        fl = bool(h.flat) or target is not self.root if flatten is None else flatten
        o = ''
        if h.pname:
            o += h.pname + (' ' + h.pversion if h.pversion else '') + '\n\n'
        if h.pintro:
            o += h.pintro + '\n\n'
        kids_all = fl
        dc = self.column_static(target, kids_all)
        lim = columns - dc if columns >= dc + 8 else None
        for depth, lab, desc in self.lines(target, fl, en):
            o += ('\033[31m' if colour else '') + ' ' * (4 * depth) + lab
            if desc:
                o += ('\033[32m' if colour else '') + ' ' * (dc - 4 * depth - width(lab))
                o += ('\n' + ' ' * dc).join(wrap(desc, lim) if lim is not None else [desc])
            o += '\n' + ('\033[0m' if colour else '')
        if h.paddendum:
            o += '\n' + h.paddendum + '\n'
        return o

    def column_static(self, target, flatten):
        """Column of the descriptions: from every node that can be listed, enabled or not."""
        r = width(label(target, self.lp, self.sp)) + 4
        b = '┌ ' if target.kind in ('one_of', 'alias_group') else ''
        kids = target.children
        if target.kind == 'mode' and target.none and not flatten:
            kids = []
        for c in kids:
            r = max(r, self.column(c, flatten, 1, b))
        return r


def wrap_words(desc, lim):
    """Greedy wrap for text whose only break opportunities are spaces and Han characters; a space
    belongs to the line before it, and a line may end in the space only if that still fits."""
    han = lambda c: '\u4e00' <= c <= '\u9fff'
    out = []
    s = desc
    while s:
        col, brk, cut = 0, 0, None
        for i, ch in enumerate(s):
            col += cp_width(ch)
            if col > lim:
                cut = brk or max(i, 1)
                break
            if i + 1 < len(s) and s[i + 1] != ' ' and (ch == ' ' or han(ch) or han(s[i + 1])):
                brk = i + 1
        if cut is None:
            out.append(s)
            break
        out.append(s[:cut])
        s = s[cut:].lstrip(' ')
    return out
