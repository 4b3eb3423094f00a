"""Code point, grapheme and line iteration walk any byte string completely, in order and in bounds."""
import re

from vt import build, engine, text

SEEDS = [b'', b'a', b' ', b'\t \n', 'é'.encode(), '→'.encode(), '日本語'.encode(), '👩‍👩‍👧‍👦'.encode(), '🇬🇧🇩🇪'.encode(), b'e\xcc\x81',
         'ä̈ öo'.encode(), '한글 각'.encode(), b'\r\n\r', b'foo bar-baz (qux)', '\u00a0\u2003\u3000x'.encode(), b'\x00a\x00',
         'नमस्ते'.encode(), 'ﷺ‏א'.encode()]
BAD = [b'\x80', b'\xbf', b'\xc0', b'\xc0\xaf', b'\xc3', b'\xdf', b'\xe0', b'\xe2\x86', b'\xe2', b'\xef', b'\xed\xa0\x80', b'\xf0',
       b'\xf0\x9f', b'\xf0\x9f\x91', b'\xf4\x90\x80\x80', b'\xf8', b'\xf8\x88\x80\x80\x80', b'\xff', b'\xfe\xff', b'\xc3(', b'\xe2(\xa1']


def make(rng):
    out = b''
    for _ in range(rng.randint(0, 7)):
        r = rng.random()
        out += rng.choice(SEEDS) if r < .5 else rng.choice(BAD) if r < .75 else \
            bytes(rng.randrange(256) for _ in range(rng.randint(1, 4))) if r < .9 else chr(rng.choice(
                [rng.randrange(0x80), rng.randrange(0x800), rng.randrange(0xD800), rng.randrange(0xE000, 0x110000)])).encode()
    if rng.random() < .3 and out:
        out = out[:rng.randint(0, len(out))]
    return out


def valid(b):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return None


def lev(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        prev, row[0] = row[0], i
        for j, y in enumerate(b, 1):
            prev, row[j] = row[j], min(row[j] + 1, row[j - 1] + 1, prev + (x != y))
    return row[len(b)]


def check(rep):
    rep.rule = ('arbitrary and malformed byte strings (exact size heap buffers, ASan and UBSan) iterated by code point, grapheme '
                'and line; pieces must be consecutive, complete, in order and finite; every code point decodes, measures and '
                'classifies as in Unicode 14 (perl tables); distinct = input string')
    u = text.unit()
    build.require(build.compile_all([u]))
    rng = engine.rng_for(rep, 'bytes')
    strs = list(dict.fromkeys(SEEDS + BAD + [a + b for a in BAD for b in BAD] + [b'ab ' + a for a in BAD] + [a + b' ab' for a in BAD] +
                              [make(rng) for _ in range(rep.scale(12000, 200000))]))
    # every two byte string, and every lead byte with every short tail
    strs += [bytes([a, b]) for a in range(0, 256, 1 if rep.thorough else 3) for b in (0, 32, 65, 0x80, 0xbf, 0xc3, 0xff)]
    strs += [bytes([a]) * n for a in range(256) for n in (1, 2, 3, 4, 5)]
    widths = [[rng.choice([0, 1, 2, 3, 5, 8, 20, 80, 10 ** 9]), rng.randint(1, 12)] for _ in strs]
    out, errs = text.run_lines(u.exe, [f't {text.hexs(s)} {a} {b}' for s, (a, b) in zip(strs, widths)])
    for line, e in errs:
        rep.violation('crash', f'input {line}: {e}', line)
    for s, ws, o in zip(strs, widths, out):
        if o is None:
            continue
        rep.count(s or None)
        bad = judge(rep, s, ws, o)
        if bad:
            rep.violation(bad[0], f'{s!r} widths {ws}: {bad[1]}\n   observed {o[:300]}', s.hex() + f' {ws}\n{o}')
        elif 6 < len(s) < 30 and rng.random() < .002:
            rep.sample(f'{s!r} => {o[:160]}')
    # edit distance over user perceived characters
    words = [make(rng) for _ in range(3000)]
    words = [w for w in words if len(w) < 40]
    pairs = [(rng.choice(words), rng.choice(words)) for _ in range(rep.scale(3000, 30000))]
    out, errs = text.run_lines(u.exe, [f'd {text.hexs(a)} {text.hexs(b)}' for a, b in pairs])
    for line, e in errs:
        rep.violation('distance-crash', f'input {line}: {e}', line)
    both = sorted({x for p in pairs for x in p})
    gs, _ = text.run_lines(u.exe, [f't {text.hexs(s)}' for s in both])
    split = {s: [s[i:i + n] for i, n in text.spans(g.split('\t')[1])] for s, g in zip(both, gs) if g}
    for (a, b), o in zip(pairs, out):
        if o is None or a not in split or b not in split:
            continue
        rep.count(('d', a, b))
        rep.tick('distances')
        want = lev(split[a], split[b])
        if int(o) != want:
            rep.violation('distance', f'distance({a!r}, {b!r}) = {o}, expected {want}', f'{a.hex()} {b.hex()}')
    # every code point
    table = text.perl_table()
    rows, errs = text.code_points(u.exe)
    for line, e in errs:
        rep.violation('table-crash', f'{line}: {e}', line)
    for c, (w, ws, _, _) in table.items():
        if c not in rows:
            continue
        ok, gw, gws = rows[c]
        rep.tick('code_points')
        if not ok:
            rep.violation('decode', f'U+{c:04X} is not decoded as one code point and one cluster', f'{c:x}')
        elif gw != w:
            rep.violation('width', f'U+{c:04X} measured {gw} columns, expected {w}', f'{c:x}')
        elif gws != ws:
            rep.violation('whitespace', f'U+{c:04X} whitespace {gws}, expected {ws}', f'{c:x}')
    rep.count(n=rep.cov.get('code_points', 0))
    rep.need('code_points', 280000)
    rep.need('well_formed', 500)
    rep.need('malformed', 3000)
    rep.need('distances', 1000)
    rep.need('wrapped_lines', 5000)


def judge(rep, s, ws, o):
    f = o.split('\t')
    if f[-1] != 'ok':
        return 'postincrement', 'post increment and copies disagree with pre increment'
    cp, gr = text.spans(f[0]), text.spans(f[1])
    for nm, sp in (('code point', cp), ('grapheme', gr)):
        if sp is None:
            return 'stuck', nm + ' iteration does not end'
        at = 0
        for i, n in sp:
            if i != at or n <= 0:
                return 'partition', f'{nm} pieces are not consecutive at {i}'
            at = i + n
        if at != len(s):
            return 'partition', f'{nm} pieces cover {at} of {len(s)} bytes'
    if not {i for i, _ in gr} <= {i for i, _ in cp}:
        return 'partition', 'a grapheme cluster starts inside a code point'
    ncp, ngr, width, wsp, size = (int(x) for x in f[2].split(','))
    if ngr != len(gr):
        return 'count', f'count is {ngr}, iterated {len(gr)}'
    v = valid(s)
    if v is not None:
        rep.tick('well_formed')
        got = [int(m) for m in re.findall(r'\+\d+:(\d+)', f[0])]
        if got != [ord(c) for c in v]:
            return 'decode', f'decoded {got}'
        if ncp != len(v) or (size != (len(v[0].encode()) if v else 0)):
            return 'count', f'code point count {ncp}, size {size}'
    else:
        rep.tick('malformed')
    spaces = {int(m.group(1)): m.group(2).endswith('w') for m in re.finditer(r'(\d+)\+\d+([^,]*)', f[0])}
    for w, seg in zip(ws, f[3:-1]):
        sp = text.spans(seg.split('=')[1])
        if sp is None:
            return 'stuck', f'line iteration of width {w} does not end'
        if w == 0:
            if sp:
                return 'lines', 'zero columns must give no lines'
            continue
        at = 0
        for i, n in sp:
            gap = s[at:i]
            if i < at or n <= 0 or (at == 0 and i != 0):
                return 'lines', f'lines of width {w} overlap or are empty'
            if not all(spaces.get(k) for k, _ in cp if at <= k < i):
                return 'lines', f'text {gap!r} lost between lines of width {w}'
            at = i + n
        rest = s[at:]
        if not all(spaces.get(k) for k, _ in cp if k >= at):
            return 'lines', f'text {rest!r} lost after the last line'
        rep.tick('wrapped_lines', len(sp))
    return None
