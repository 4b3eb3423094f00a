"""Grapheme clusters and line break positions against perl's implementation of UAX 29 and UAX 14."""
import random
import unicodedata

from vt import build, engine, text

WORD = 'abcdefghijklmnopqrstuvwxyzABCéüßñçθλж'
PUNCT = [', ', '. ', '; ', ': ', '! ', '? ', '-', ' - ', ' "', '" ', ' (', ') ', ' [', '] ', " '", "' ", ' -', ' --', '...', '… ', ' …', '/', ' / ',
         ' “', '” ', ' «', '» ', ' — ', '—', '–', ' {', '} ', '* ', ' = ', '=', '<', '> ', '_', ' @', '#', '&', ' & ']
CJK = '日本語漢字一二三あいうえおカキクケコ'
KANA = 'ーっッ、。・'  # wide brackets: the library's documented LB30 approximation
HANGUL = '한국어글자가나다라각힣'
JAMO = 'ᄀ나ᅥᆨᆫ'
COMB = ['\u0301', '\u0308', '\u0304\u0301', '\u20dd', '\u0327']
EMOJI = ['😀', '👩‍👩‍👧‍👦', '👍🏽', '🇬🇧', '🇩🇪🇫🇷', '❤️', '☝🏿', '✋', '👨🏾‍🚀', '🏴󠁧󠁢󠁥󠁮󠁧󠁿', '⚽', '✌🏻']
OTHER = ['नमस्ते', 'क्षत्रिय', 'สวัสดี', 'שלום', 'مرحبا', 'ﷺ', '\u2014', '१२३', 'ไทย', 'ελληνικά', 'русский']


def rand_text(rng, kind):
    out = ''
    for _ in range(rng.randint(1, 22)):
        k = kind if kind != 'mixed' else rng.choice(['latin', 'punct', 'cjk', 'hangul', 'comb', 'emoji', 'latin'])
        word = ''.join(rng.choice(WORD) for _ in range(rng.randint(1, 9)))
        r = rng.random()
        if k == 'latin':
            out += word + rng.choice([' '] * 6 + ['  ', ', ', '. ', '-', ': '])
        elif k == 'punct':
            out += (word if r < .5 else '') + rng.choice(PUNCT)
        elif k == 'cjk':
            out += rng.choice(CJK) if r < .6 else rng.choice(KANA) if r < .75 else word + rng.choice(['', ' '])
        elif k == 'hangul':
            out += rng.choice(HANGUL) if r < .6 else rng.choice(JAMO) if r < .8 else ' '
        elif k == 'comb':
            out += rng.choice('aeio日カ가') + rng.choice([''] + COMB) + rng.choice(['', '', ' '])
        elif k == 'emoji':
            out += rng.choice(EMOJI) if r < .7 else word + ' ' if r < .85 else ' '
        elif k == 'other':
            out += rng.choice(OTHER) if r < .6 else word + ' '
    return out.strip(' ')


def runs_ok(s, limit):
    """No run of one kind of joining character longer than the library's configured look back."""
    n = m = 0
    for c in s:
        n = n + 1 if '\U0001f1e6' <= c <= '\U0001f1ff' else 0
        m = m + 1 if c == ' ' else 0
        if n > limit - 1 or m > limit - 2:
            return False
    return True


def class_sequences(rng, table, n):
    """Texts in which every ordered pair of line break classes meets directly, over spaces and over a combining
    character, and n random longer sequences of classes.  Left out: classes that force breaks or are unresolved, and the
    combinations where perl uses another published form of the rule than the library (numbers as a regular
    expression; combining characters inside hyphenated Hebrew, flags, brackets and spaces)."""
    by = {}
    for c in sorted(table):
        w, _, _, b = table[c]
        if c in SINCE_15 or c == 0xFF62 or (b == 'OP' and w == 2) or b in ('BK', 'CR', 'LF', 'NL', 'SG', 'XX', 'ZW', 'SP') or \
                (b == 'SA' and unicodedata.category(chr(c)) != 'Lo') or (b == 'BA' and unicodedata.category(chr(c)) == 'Zs'):
            continue
        by.setdefault(b, []).append(c)
    classes = sorted(by)
    plans = [((a, b), (i, '')) for a in classes for b in classes for i in ('', ' ', '  ', '\u0301')]
    for _ in range(n):
        ks = [rng.choice(classes) for _ in range(rng.choice([3, 3, 4]))]
        plans.append((ks, [rng.choice(['', '', '', ' ', ' ', '  ', '\u0301']) for _ in ks]))
    for ks, gaps in plans:
        marks = 'CM' in ks or 'ZWJ' in ks or '\u0301' in gaps
        base = [k for k in ks if k not in ('CM', 'ZWJ')]
        if any((a, b) in OTHER_FORM for a, b in zip(base, base[1:])) or ('ZWJ' in ks and {'OP', 'CP', 'CL', 'B2', 'QU'} & set(ks)) or \
                ('NU' in ks and {'IS', 'SY'} & set(ks)) or (marks and 'HL' in ks and {'HY', 'BA'} & set(ks)) or \
                (marks and list(ks).count('RI') > 1):
            continue
        s = 'ab '
        for k, g in zip(ks, gaps):
            s += ('a' if k in ('CM', 'ZWJ') and s[-1] == ' ' else '') + chr(rng.choice(by[k])) + g
        yield s + rng.choice(['x', '', '日']) + ' ab'


OTHER_FORM = {('CL', 'PO'), ('CL', 'PR'), ('CP', 'PO'), ('CP', 'PR'), ('PO', 'OP'), ('PR', 'OP')}


def check(rep):
    rep.rule = ('strings built from every break class and from realistic text are cut into grapheme clusters (must equal perl\'s) and '
                'wrapped at many widths (each line must fit, end at a UAX 14 opportunity where it has one, and not end early); '
                'distinct = (string, width)')
    u = text.unit()
    wide = text.unit(flags=build.PLAIN, extra=['-DAR_UTF8_TRAILING_WINDOW_SIZE=64'])
    build.require(build.compile_all([u, wide]))
    rng = engine.rng_for(rep, 'text')
    table = text.perl_table()
    by = {}
    prev = None
    edges = []
    for c in sorted(table):
        _, _, g, b = table[c]
        by.setdefault(g, []).append(c)
        by.setdefault('lb' + b, []).append(c)
        if prev is None or table[prev][2:] != (g, b) or prev != c - 1:
            edges += [x for x in (prev, c) if x is not None]
        prev = c
    rep.tick('break_classes', len(by))
    edges = sorted(set(edges))
    # grapheme clusters: each class boundary of the tables in a few contexts, and random class sequences
    strs = []
    pick = edges if rep.thorough else rng.sample(edges, min(len(edges), 4500))
    for c in pick:
        strs.append(rng.choice(['a', 'é', '가', '\U0001f600', '\u1100', '']) + chr(c) + rng.choice(['a', '\u0301', '\u11a8', '\u200d\u2764', '\u1161']))
        strs.append(chr(c) * 2 + rng.choice(['', 'x', '\u0903']))
    gk = [k for k in by if not k.startswith('lb') and k not in ('XX', 'Cn')]
    for _ in range(rep.scale(8000, 100000)):
        s = ''
        for _ in range(rng.randint(1, 10)):
            s += chr(rng.choice(by[rng.choice(gk)])) if rng.random() < .7 else rng.choice('ab 日') if rng.random() < .7 else rng.choice(EMOJI)
        strs.append(s)
    strs = [s for s in dict.fromkeys(strs) if runs_ok(s, 16)]
    ora = text.perl_text(strs)
    out, errs = text.run_lines(u.exe, [f't {s.encode().hex()}' for s in strs])
    for line, e in errs:
        rep.violation('crash', f'{line}: {e}', line)
    for s, (g, _), o in zip(strs, ora, out):
        if o is None:
            continue
        rep.count(s)
        rep.tick('clustered_strings')
        rep.tick('clusters', len(g))
        judge_clusters(rep, s, g, o)
    # a larger configured window must handle longer runs
    long = ['\U0001f1ec\U0001f1e7' * n + 'a' for n in range(1, 30)] + ['e' + '\u0301' * n for n in range(1, 60)] + \
        ['\U0001f469' + '\u200d\U0001f469' * n for n in range(1, 20)] + ['\U0001f1ec' * n for n in range(1, 60)]
    ora = text.perl_text(long)
    out, errs = text.run_lines(wide.exe, [f't {s.encode().hex()}' for s in long])
    for s, (g, _), o in zip(long, ora, out):
        rep.count(('w64', s))
        rep.tick('window_64_strings')
        judge_clusters(rep, s, g, o, 'window 64: ')

    # line breaks
    kinds = ['latin', 'punct', 'cjk', 'hangul', 'comb', 'emoji', 'mixed', 'other']
    strs = []
    for _ in range(rep.scale(9000, 120000)):
        s = rand_text(rng, rng.choice(kinds))
        if s and runs_ok(s, 16):
            strs.append(s)
    for c in pick:
        b = table[c][3]
        if c in SINCE_15 or table[c][2] in ('Control', 'CR', 'LF') or b in NUMERIC or (table[c][0] == 2 and b in ('OP', 'CP')):
            continue
        strs.append('ab ' + ('a' if b in ('CM', 'ZWJ') else '') + chr(c) + rng.choice(['ab', ' ab', '日本', chr(c) + ' x']) + ' ab')
    widths = [sorted({2, rng.randint(2, 12), rng.randint(2, 45), rng.choice([10, 20, 30, 80])}) for _ in strs]
    seqs = list(class_sequences(rng, table, rep.scale(7000, 200000)))
    rep.tick('class_sequences', len(seqs))
    for s in seqs:
        at, w = 0, []
        for c in s:
            at += table[ord(c)][0] if ord(c) in table else 1
            w.append(at)
        w = sorted({x for x in w[2:-2] if x >= 2})
        strs.append(s)
        widths.append(w if len(w) < 6 else sorted(rng.sample(w, 5)))
    ora = text.perl_text(strs)
    out, errs = text.run_lines(u.exe, [f't {s.encode().hex()} ' + ' '.join(map(str, w)) for s, w in zip(strs, widths)])
    for line, e in errs:
        rep.violation('crash', f'{line}: {e}', line)
    for s, ws, (_, opps), o in zip(strs, widths, ora, out):
        if o is None:
            continue
        f = o.split('\t')
        offs = [0]
        for c in s:
            offs.append(offs[-1] + len(c.encode()))
        ok = {offs[i] for i in opps}
        cols = [0]
        for c in s:
            cols.append(cols[-1] + (table[ord(c)][0] if ord(c) in table else 1))
        col = dict(zip(offs, cols))
        for w, seg in zip(ws, f[3:-1]):
            sp = text.spans(seg.split('=')[1])
            rep.count((s, w))
            rep.tick('wrapped_strings')
            bad = judge_lines(rep, s, w, sp, ok, col, offs)
            if bad:
                b = s.encode()
                lines = [b[i:i + n].decode('utf-8', 'replace') for i, n in sp or []]
                at = sorted(ok)
                rep.violation('line:' + bad[0], f'width {w}: {bad[1]}\n   lines {lines}\n   opportunities ' + '¦'.join(
                    b[i:j].decode('utf-8', 'replace') for i, j in zip([0] + at, at + [len(b)])), s.encode().hex() + f' {w}')
            elif len(sp) > 3 and rng.random() < .0004:
                rep.sample(f'width {w}: ' + '|'.join(s.encode()[i:i + n].decode() for i, n in sp))
    rep.need('clustered_strings', 8000)
    rep.need('wrapped_strings', 15000)
    rep.need('breaks_at_opportunity', 20000)
    rep.need('class_sequences', 9000)


SINCE_15 = {0x1DCD, 0x1DFC, 0x2057}     # line break class changed between Unicode 14 (the library's) and 15 (perl's)
NUMERIC = {'NU', 'PR', 'PO', 'IS', 'SY', 'CP', 'OP', 'CL', 'HY', 'QU', 'SA', 'CJ', 'XX', 'SG', 'AI', 'BK', 'NL', 'CB', 'ZW', 'HL', 'BA'}


def judge_clusters(rep, s, g, o, pre=''):
    got = [n for _, n in text.spans(o.split('\t')[1]) or []]
    want, at = [], 0
    for n in g:
        want.append(len(s[at:at + n].encode()))
        at += n
    if got != want:
        rep.violation(pre + 'cluster', f'{pre}{s!r} ({" ".join("%04X" % ord(c) for c in s)}): clusters of {got} bytes, expected {want}',
                      s.encode().hex())


def judge_lines(rep, s, w, sp, ok, col, offs):
    if sp is None:
        return 'stuck', 'iteration does not end'
    b = s.encode()
    for k, (i, n) in enumerate(sp):
        e = i + n
        if e not in col or i not in col:
            return 'inside', f'a line ends inside a code point at {e}'
        rep.tick('lines')
        width = col[e] - col[i]
        first = offs[offs.index(i) + 1]
        if width > w and e != first:
            # trailing spaces may hang over
            if col[i + len(b[i:e].rstrip(b' '))] - col[i] > w:
                return 'wide', f'line {k} is {width} columns'
        if k + 1 == len(sp):
            continue
        inner = [x for x in ok if i < x < e]
        fits = [x for x in ok if x > i and col[x] - col[i] <= w]
        if e in ok:
            rep.tick('breaks_at_opportunity')
            if fits and max(fits) > e and b[e:max(fits)].strip(b' '):
                return 'early', f'line {k} ends at {e} but {max(fits)} fits'
        else:
            rep.tick('forced_breaks')
            after = b[e:e + 1]
            if (inner or fits) and after != b' ':
                return 'illegal', f'line {k} ends at {e}, which is no opportunity, though it holds one'
    return None
