"""Reference model: what parsing a command line against a tree must produce, written independently of
the library as a small interpreter over spec.N trees."""
import unicodedata
from .spec import (N, TYPES, ParseError, U, LONG, SHORT, node_value, default_value, fmt_value)


class Err(Exception):
    def __init__(self, code, toks=()):
        self.code = code
        self.toks = list(toks)


def pictographic(ch):
    cp = ord(ch)
    return 0x2600 <= cp <= 0x27BF or (0x1F300 <= cp <= 0x1FAFF and not 0x1F3FB <= cp <= 0x1F3FF)


def graphemes(b):
    """Extended grapheme clusters for the restricted alphabet used by the generators: base characters
    followed by combining marks, variation selectors, ZWJ sequences and emoji modifiers."""
    s = b.decode('utf-8', 'surrogateescape')
    out = []
    for ch in s:
        cp = ord(ch)
        ext = (unicodedata.combining(ch) != 0 or cp in (0x200D, 0xFE0F) or 0x1F3FB <= cp <= 0x1F3FF)
        if out and (ext or (pictographic(ch) and out[-1].endswith('\u200d') and pictographic(out[-1][0]))):
            out[-1] += ch
        else:
            out.append(ch)
    return [g.encode('utf-8', 'surrogateescape') for g in out]


def lev(a, b):
    a, b = graphemes(a), graphemes(b)
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        cur = [i]
        for j, y in enumerate(b, 1):
            cur.append(min(prev[j] + 1, cur[-1] + 1, prev[j - 1] + (x != y)))
        prev = cur
    return prev[-1]


class Tok:
    __slots__ = ('p', 'n')  # prefix (None: as typed, 'L', 'S'), bytes

    def __init__(self, p, n):
        self.p, self.n = p, n

    def text(self, lp, sp):
        return {None: b'', 'N': b'', 'L': lp, 'S': sp}[self.p] + self.n

    def __repr__(self):
        return f'{self.p}{self.n!r}'


class Target:
    __slots__ = ('node', 'toks')

    def __init__(self, node, toks):
        self.node, self.toks = node, toks


class Outcome:
    __slots__ = ('ok', 'routes', 'code', 'toks', 'path', 'tables')

    def __init__(self, ok, routes=(), code=None, toks=(), path=()):
        self.ok, self.routes, self.code, self.toks, self.path = ok, routes, code, list(toks), path
        self.tables = None


class Model:
    def __init__(self, root, lp=LONG, sp=SHORT):
        self.root, self.lp, self.sp = root, lp.encode(), sp.encode()
        self.parents = {}
        for n, ps in root.walk():
            self.parents[id(n)] = ps

    # ------------------------------------------------------------------ helpers
    def enabled(self, n):
        if n.en is not None and not self.en[n.en]:
            return False
        if n.en_req is not None and not self.en[n.en_req]:
            return False
        return True

    def classify(self, n, t):
        """Interpret the label token t against the names node n has."""
        if t.p is not None:
            return t
        b = t.n
        if n.long and b.startswith(self.lp):
            return Tok('L', b[len(self.lp):])
        if n.short and b.startswith(self.sp) and not b.startswith(self.lp):
            return Tok('S', b[len(self.sp):])
        return Tok('N', b)

    def generic(self, t):
        if t.p is not None:
            return t
        b = t.n
        if b.startswith(self.lp):
            return Tok('L', b[len(self.lp):])
        if b.startswith(self.sp):
            return Tok('S', b[len(self.sp):])
        return Tok('N', b)

    def is_label(self, n, t):
        return (t.p, t.n) in n.names()

    def text(self, t):
        return t.text(self.lp, self.sp)

    def nodetok(self, n):
        s = n.tok()
        if (not n.ename and n.disp is None and n.kind not in ('one_of', 'alias_group')):
            if n.long:
                return self.lp + n.long.encode()
            if n.short:
                return self.sp + n.short.encode()
        if n.kind in ('one_of', 'alias_group') and not n.ename:
            d = n.disp or ('One of: ' if n.kind == 'one_of' else 'Alias Group: ')
            return d.encode() + b','.join(self.nodetok(c) for c in n.children)
        return s.encode()

    def find_names(self, n, refs):
        """Nodes under n's owning mode that the alias/dependent references name."""
        for m in self.parents[id(n)]:
            if m.kind == 'mode':
                break
        res = []
        for ref in refs:
            for c, _ in m.walk():
                if c is m:
                    continue
                if (ref.startswith('--') and c.long == ref[2:]) or \
                        (not ref.startswith('--') and c.short == ref[1:]):
                    res.append(c)
        return res, m

    # ------------------------------------------------------------- single node match
    def match_node(self, n, args, done, guard):
        """Try to consume tokens for leaf n.  Returns (new_args, [Target]) or None."""
        toks = list(args)
        err = None
        label = None
        values = None
        split_value = None

        def cls():
            return self.classify(n, toks[0])

        # 1. value separator: the label and value are in the same token
        if n.sep:
            first = toks[0]
            sep = n.sep.encode()
            i = first.n.find(sep)
            if i < 0:
                if self.is_label(n, self.generic(first)):
                    err = Err('missing_value_separator', [self.nodetok(n)])
                else:
                    return None
            else:
                val = first.n[i + len(sep):]
                if not val:
                    return None
                toks[0] = Tok(first.p, first.n[:i])
                toks.insert(1, Tok('N', val))
        # 2. short-form group expansion (flags)
        if not err and n.kind in ('flag', 'counting') and n.short and self.lp != self.sp:
            t = toks[0]
            if t.p is None:
                t = self.classify(n, t)
                if t.p == 'N':
                    t = None
            elif t.p == 'L' or t.p == 'N':
                t = None
            if t and t.p == 'S' and t.n and len(t.n) != len(n.short.encode()):
                g = graphemes(t.n)
                toks[0:1] = [Tok('S', x) for x in g]
        # 3. runtime disabled
        if not err and not self.enabled(n):
            return None
        # 4/5. end marker and counts
        rest = toks
        taken = []
        off = 1 if n.is_named else 0
        if not err and n.min is not None:
            avail = len(toks)
            if n.marker:
                cut = len(toks)
                for i in range(off, len(toks)):
                    if toks[i].n == n.marker.encode():
                        cut = i
                        break
                taken, rest = toks[:cut], toks[cut + 1:]
                avail = len(taken)
                if n.max != U and avail > n.max + off:
                    err = Err('maximum_count_exceeded', [self.nodetok(n)])
            if not err and avail < n.min + off:
                err = Err('minimum_count_not_reached', [self.nodetok(n)])
            if not err and not n.marker:
                k = avail if n.max == U else min(avail, n.max + off)
                taken, rest = toks[:k], toks[k:]
        # alias: needs its own label and values
        targets = None
        if not err and n.alias:
            cnt = n.min
            if cnt + 1 > len(toks):
                err = Err('too_few_values_for_alias', [self.nodetok(n)])
            else:
                if not self.is_label(n, self.classify(n, toks[0])):
                    return None
                vals = toks[1:cnt + 1]
                refs, m = self.find_names(n, n.alias)
                order = [c for c, _ in m.walk() if c in refs]
                targets = [Target(c, list(vals)) for c in order if self.enabled(c)]
                taken, rest = toks[:cnt + 1], toks[cnt + 1:]
        # dependent
        if not err and n.dep:
            refs, _ = self.find_names(n, n.dep)
            # reported in declaration order of the references' owners (children before)
            for c in self.dep_order(n, refs):
                if not any(t.node is c for t in done):
                    err = Err('dependent_argument_missing', [self.nodetok(c)])
                    break
        # label check
        if n.is_named and targets is None:
            t = toks[0] if (taken or err) else (toks[0] if toks else None)
            if t is None:
                return None
            if not taken and not err:
                taken, rest = toks[:1], toks[1:]
            if not self.is_label(n, self.classify(n, t) if t.p is None or t.p == 'N' else t):
                return None
        elif not n.is_named:
            if taken and taken[0].p in ('L', 'S'):
                return None
        if not guard(n):
            return None
        if err:
            raise err
        if targets is None:
            targets = [Target(n, taken[off:])]
        return rest, targets

    def dep_order(self, n, refs):
        return refs

    # ------------------------------------------------------------------ mode
    def mode_match(self, m, args):
        """Returns (mode, targets) for the mode that finally handles the tokens."""
        if m.none:
            if not args or (args[0].n != m.none.encode()) or args[0].p is not None:
                return None
            if not self.enabled(m):
                return None
            args = args[1:]
            if args:
                for c in m.children:
                    if c.kind == 'mode':
                        r = self.mode_match(c, args)
                        if r is not None:
                            return r
        if not self.enabled(m):
            return None
        done = []
        matched = set()
        while args:
            front = args[0]
            hit = None
            for i, c in enumerate(m.children):
                if c.kind == 'mode':
                    continue

                def guard(real, i=i):
                    if real.multistage:
                        return True
                    if not real.is_named:
                        return i not in matched
                    if i in matched:
                        raise Err('argument_has_already_been_set', [self.text(front)])
                    return True

                if c.kind in ('one_of', 'alias_group'):
                    if not self.enabled(c):
                        pass
                    for cc in c.children:
                        def g2(real, cc=cc, c=c):
                            if c.kind == 'one_of':
                                for t in done:
                                    if t.node is not cc and any(t.node is x for x in c.children):
                                        raise Err('one_of_selected_type_mismatch', [self.nodetok(c)])
                            return guard(real)
                        hit = self.match_node(cc, args, done, g2)
                        if hit:
                            break
                else:
                    hit = self.match_node(c, args, done, guard)
                if hit:
                    matched.add(i)
                    break
            if not hit:
                if len(matched) == len(m.children):
                    raise Err('unhandled_arguments', [self.text(t) for t in args])
                self.unknown(m, front)
            args, targets = hit
            done += targets
        return m, done

    def unknown(self, scope, t):
        q = self.generic(t)
        best, score = None, None
        for n, ps in scope.walk():
            if n is scope:
                continue
            chain = (n,) + ps[:-1]   # without the starting node
            if not all(self.enabled(x) for x in (n,) + ps):
                continue
            for p, name in n.names():
                d = lev(q.n, name)
                if score is None or d < score:
                    score = d
                    best = [Tok(p, name)] + list(ps[:-1])
        if best is None:
            raise Err('unknown_argument', [self.text(t)])
        toks = [self.text(t)]
        for x in reversed(best):
            toks.append(self.text(x) if isinstance(x, Tok) else self.nodetok(x))
        raise Err('unknown_argument_with_suggestion', toks)

    def suggestion_scores(self, scope, t):
        """All (distance, displayed text) candidates, for checking ties."""
        q = self.generic(t)
        res = []
        for n, ps in scope.walk():
            if n is scope or not all(self.enabled(x) for x in (n,) + ps):
                continue
            for p, name in n.names():
                res.append((lev(q.n, name), self.text(Tok(p, name)), n))
        return res

    # ------------------------------------------------------------------ values
    def parse_value(self, n, toks):
        t = n.ty
        try:
            if n.kind == 'flag':
                return True
            if t.elem:
                return [self.parse1(t.elem, x) for x in toks]
            if not toks:
                return t.default
            return self.parse1(t, toks[0])
        finally:
            pass

    def parse1(self, t, tok):
        try:
            return t.parse(tok.n)
        except ParseError:
            raise Err('failed_to_parse', [tok.n])

    def validate(self, n, v):
        lo, hi = n.vmin, n.vmax
        if lo is not None and v < lo:
            raise Err('minimum_value_not_reached', [self.nodetok(n)])
        if hi is not None and v > hi:
            raise Err('maximum_value_exceeded', [self.nodetok(n)])

    def mode_values(self, m, targets):
        slots = [c for c in m.children if c.kind != 'mode']
        vals = {}
        for t in targets:
            n = t.node
            if n.kind == 'counting':
                v = True
            else:
                v = self.parse_value(n, t.toks)
                self.validate(n, v)
            for i, c in enumerate(slots):
                if n is c or any(n is x for x in c.children):
                    break
            else:
                raise AssertionError
            if n.kind == 'counting':
                vals[i] = vals.get(i, 0) + 1
            else:
                if i in vals:
                    raise Err('argument_has_already_been_set', [self.nodetok(n)])
                if c.kind == 'one_of':
                    k, ty = node_value(c)
                    if k == 'var':
                        v = ([x for x in c.children if not x.no_result].index(n), v)
                vals[i] = v
        out = []
        for i, c in enumerate(slots):
            if c.no_result:
                continue
            if i not in vals:
                if c.required:
                    raise Err('missing_required_argument', [self.nodetok(c)])
                if c.en_req is not None:
                    if self.en[c.en_req]:
                        raise Err('missing_required_argument', [self.nodetok(c)])
                    v = c.en_default if c.en_default is not None else default_value(c)
                elif c.has_default:
                    v = c.default
                    if v is None and not (c.T and c.T.startswith('opt')):
                        v = default_value(c)
                else:
                    v = default_value(c)
                if c.kind != 'flag':
                    self.validate(c, v)
                vals[i] = v
        for i, c in enumerate(slots):
            if c.no_result:
                continue
            if c.multistage or any(x.multistage for x in c.children):
                self.validate(c, vals[i])
        return [fmt_value(c, vals[i]) for i, c in enumerate(slots) if not c.no_result]

    # ------------------------------------------------------------------ root
    def run(self, tokens, en=()):
        self.en = [x == '1' for x in en] + [False] * 16
        args = [Tok(None, t) for t in tokens]
        try:
            return self._run(args)
        except Err as e:
            o = Outcome(False, code=e.code, toks=e.toks)
            o.tables = getattr(self.root, 'tables', None)
            return o

    def _run(self, args):
        front = args[0] if args else Tok(None, b'')
        tokens_given = bool(args)
        for c in self.root.children:
            if c.kind == 'mode':
                r = self.mode_match(c, args)
                if r is None:
                    continue
                m, targets = r
                vals = self.mode_values_or_group(m, targets)
                return Outcome(True, routes=[(m.rid, vals)])
            if not args:
                continue
            if c.kind == 'help':
                hit = self.help_match(c, args)
                if hit is not None:
                    return Outcome(True, routes=[], code='help', toks=hit)
                continue
            hit = self.match_node(c, args, [], lambda n: True)
            if hit is None:
                continue
            rest, targets = hit
            if rest:
                raise Err('unhandled_arguments', [self.text(t) for t in rest])
            v = self.parse_value(c, targets[0].toks)
            self.validate(c, v)
            return Outcome(True, routes=[(c.rid, [fmt_value(c, v)])])
        if not tokens_given:
            raise Err('no_arguments_passed')
        self.unknown(self.root, front)

    def mode_values_or_group(self, m, targets):
        if not m.router:
            raise Err('mode_requires_arguments', [self.nodetok(m)])
        return self.mode_values(m, targets)

    def help_match(self, h, args):
        return None


MESSAGES = {
    'unknown_argument': 'Unknown argument',
    'unhandled_arguments': 'Unhandled arguments',
    'argument_has_already_been_set': 'Argument has already been set',
    'failed_to_parse': 'Failed to parse',
    'no_arguments_passed': 'No arguments passed',
    'minimum_value_not_reached': 'Minimum value not reached',
    'maximum_value_exceeded': 'Maximum value exceeded',
    'minimum_count_not_reached': 'Minimum count not reached',
    'maximum_count_exceeded': 'Maximum count exceeded',
    'unknown_argument_with_suggestion': 'Unknown argument: {}. Did you mean { }?',
    'mode_requires_arguments': 'Mode requires arguments',
    'missing_required_argument': 'Missing required argument',
    'too_few_values_for_alias': 'Too few values for alias',
    'dependent_argument_missing': 'Dependent argument missing (needs to be before the requiring token '
                                  'on the command line)',
    'one_of_selected_type_mismatch': 'Only one argument from a "One Of" can be used at once',
    'missing_value_separator': 'Expected a value separator',
}


def fmt_message(template, toks):
    """Reference implementation of the documented placeholder rules."""
    import re
    toks = list(toks)
    t = template.encode() if isinstance(template, str) else template
    if not re.search(rb'\{[^{}]*\}', t):
        return t + (b': ' + b', '.join(toks) if toks else b'')
    out, pos = b'', 0
    for m in re.finditer(rb'\{([^{}]*)\}', t):
        out += t[pos:m.start()]
        pos = m.end()
        if m.group(1):
            out += m.group(1).join(toks)
            toks = []
        elif toks:
            out += toks.pop(0)
    return out + t[pos:]


CODES = ['unknown_argument', 'unhandled_arguments', 'argument_has_already_been_set', 'failed_to_parse', 'no_arguments_passed',
         'minimum_value_not_reached', 'maximum_value_exceeded', 'minimum_count_not_reached', 'maximum_count_exceeded',
         'unknown_argument_with_suggestion']
CODES2 = ['mode_requires_arguments', 'missing_required_argument', 'too_few_values_for_alias', 'dependent_argument_missing',
          'one_of_selected_type_mismatch', 'missing_value_separator']
NUMBERS = {**{c: i for i, c in enumerate(CODES)}, **{c: 100 + i for i, c in enumerate(CODES2)}}


def translate(number, toks, tables):
    """The first table with an entry for the code wins; otherwise the documented untranslated text."""
    for t in tables:
        if number in t:
            return fmt_message(t[number], toks)
    return b'Untranslated error code (%d)' % number + (b': ' + b', '.join(toks) if toks else b'')


def message(o):
    if o.tables is None:
        return fmt_message(MESSAGES[o.code], o.toks)
    return translate(NUMBERS[o.code], o.toks, o.tables)
