"""Command line generation: mostly valid lines for a tree, plus mutations."""
from .spec import TYPES, U, node_value

WORDS = [b'a', b'x', b'foo', b'bar', b'hello', b'value', b'file.txt', b'/tmp/a b', b'', b'-', b'--',
         b'0', b'42', b'-7', b'true', b'\xc3\xa9t\xc3\xa9', '日本'.encode(), b'a=b', b'=', b'-a', b'--foo',
         b'{}', b'%s', b'x' * 40, '👩‍👩‍👧'.encode(), b'n', b'NONE']
SAFE = [b'a', b'x', b'foo', b'bar', b'hello', b'file.txt', b'/tmp/a b', b'42', b'true',
        b'\xc3\xa9t\xc3\xa9', '日本'.encode(), b'x' * 40, b'q1', b'q2', b'w3', b'zz9']


def good_int(rng, lo, hi):
    k = rng.random()
    if k < .25:
        return rng.choice([lo, hi, 0 if lo <= 0 <= hi else lo])
    if k < .7:
        return rng.randint(max(lo, -20), min(hi, 30))
    return rng.randint(lo, hi)


def int_text(rng, v):
    s = str(v)
    r = rng.random()
    if r < .08:
        s = ('-' if v < 0 else '') + '0' * rng.randint(1, 3) + str(abs(v))
    elif r < .14 and v >= 0:
        s = '+' + s
    return s.encode()


def bad_text(rng, t):
    if t.lo is not None:
        return rng.choice([str(t.hi + 1).encode(), str(t.lo - 1).encode(), b'', b'x', b'1x', b'0x10',
                           b' 1', b'1 ', b'1.5', b'--5', b'+', b'-', b'+-3', b'1e3', b'9' * 30,
                           '１'.encode(), b'-' + b'9' * 25])
    if t.name == 'f64':
        return rng.choice([b'', b'x', b'1.5x', b'1,5', b'0x1p3', b' 1', b'1e400', b'--1', b'.', b'e5',
                           b'1e', b'+-1'])
    if t.name == 'bool':
        return rng.choice([b'', b'2', b'True', b'TRUE', b'yess', b'o', b'-1', b'10', b'enabled'])
    if t.name == 'theme':
        return rng.choice([b'', b'none', b'DARKK', b'LIGH', b'0'])
    if t.name == 'hex':
        return rng.choice([b'', b'xyz', b'1234567', b'FF', b'-1'])
    return rng.choice(WORDS)


def good_text(rng, t):
    if t.name.startswith('opt_'):
        return good_text(rng, TYPES[t.name[4:]])
    if t.lo is not None:
        return int_text(rng, good_int(rng, t.lo, t.hi))
    if t.name == 'f64':
        return rng.choice([b'0', b'1', b'-1', b'3.25', b'1e10', b'-2.5e-3', b'.5', b'5.', b'1E3',
                           b'0.1', b'123456789.123456789', b'4.9e-324', b'1.7976931348623157e308',
                           ('%r' % rng.uniform(-1e6, 1e6)).encode()])
    if t.name == 'bool':
        return rng.choice([b'true', b'yes', b'y', b'on', b'1', b'enable', b'false', b'no', b'n',
                           b'off', b'0', b'disable'])
    if t.name == 'theme':
        return rng.choice([b'NONE', b'DARK', b'LIGHT'])
    if t.name == 'hex':
        return rng.choice([b'0', b'ff', b'10', b'abc', b'123abc'])
    if t.name in ('sv', 'str'):
        return rng.choice(SAFE)
    raise AssertionError(t.name)


def value(rng, n, pbad=0.04):
    t = TYPES[n.T]
    if t.elem:
        t = t.elem
    if rng.random() < pbad:
        return bad_text(rng, t)
    if (n.vmin is not None or n.vmax is not None) and t.lo is not None and rng.random() < .9:
        lo = n.vmin if n.vmin is not None else max(t.lo, n.vmax - 40)
        hi = n.vmax if n.vmax is not None else min(t.hi, n.vmin + 40)
        v = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)])
        if rng.random() < .08:
            v = rng.choice([lo - 1, hi + 1])
        return int_text(rng, v)
    return good_text(rng, t)


def label(rng, n):
    names = []
    if n.long:
        names.append(b'--' + n.long.encode())
    if n.short:
        names.append(b'-' + n.short.encode())
    if n.none:
        names.append(n.none.encode())
    return rng.choice(names)


def occ(rng, n, pbad=.04):
    """(kind, tokens) for one use of node n."""
    k = n.kind
    if k in ('flag', 'counting'):
        cnt = n.min if n.alias else 0
        toks = [label(rng, n)]
        if cnt and cnt != U:
            toks += [rng.choice(SAFE) for _ in range(cnt)]
        return toks
    if n.alias:
        cnt = n.min
        vals = []
        tgt = getattr(n, 'alias_value_node', None)
        for _ in range(cnt):
            vals.append(value(rng, tgt or n, pbad))
    else:
        lo = n.min
        hi = n.max if n.max != U else lo + 4
        cnt = rng.randint(lo, hi)
        if rng.random() < pbad:
            cnt = max(0, rng.choice([lo - 1, hi + 1]))
        vals = [value(rng, n, pbad) for _ in range(cnt)]
    if not n.is_named:
        toks = vals
    elif n.sep and vals:
        if n.T in ('sv', 'str', 'opt_sv') and rng.random() < .3:  # the separator again, within the value
            i = rng.randint(0, len(vals[0])) if vals[0].isascii() else len(vals[0])
            vals = [vals[0][:i] + n.sep.encode() + vals[0][i:]] + vals[1:]
        toks = [label(rng, n) + n.sep.encode() + vals[0]] + vals[1:]
        if rng.random() < pbad:
            toks = [label(rng, n)] + vals
    else:
        toks = [label(rng, n)] + vals
    if n.marker and rng.random() < .92:
        toks = toks + [n.marker.encode()]
    return toks


def open_ended(n):
    return n.kind in ('multi', 'fwd') and not n.marker and n.min != n.max


def modes(root):
    """All (path, mode-like scope) pairs."""
    res = []

    def rec(m, path):
        res.append((path, m))
        for c in m.children:
            if c.kind == 'mode':
                rec(c, path + [c])
    for c in root.children:
        if c.kind == 'mode':
            rec(c, [c])
    return res


def group_shorts(rng, occs, singles, p=.35):
    """Merge adjacent single short flags into one group token."""
    out = []
    for o, n in occs:
        if (n is not None and n.kind in ('flag', 'counting') and not n.alias and n.short and
                len(o) == 1 and o[0] == b'-' + n.short.encode() and out and out[-1][1] == 'grp'
                and rng.random() < p):
            out[-1] = ([out[-1][0][0] + n.short.encode()], 'grp')
        elif (n is not None and n.kind in ('flag', 'counting') and not n.alias and n.short and
              len(o) == 1 and o[0] == b'-' + n.short.encode()):
            out.append((o, 'grp'))
        else:
            out.append((o, n))
    return out


def valid_line(rng, root, pbad=.02, incl=None, group=.35):
    """Tokens of a mostly valid line."""
    toks, named, tail = valid_parts(rng, root, pbad, incl)
    body = group_shorts(rng, named, None, group)
    return toks + [t for o, _ in body for t in o] + tail


def valid_parts(rng, root, pbad=.02, incl=None):
    """(mode tokens, [(tokens, node)] for each named argument used, remaining tokens)."""
    ms = modes(root)
    leafs = [c for c in root.children if c.kind not in ('mode', 'help')]
    if leafs and (not ms or rng.random() < .25):
        c = rng.choice(leafs)
        return [], [(occ(rng, c, pbad), c)], []
    routed = [x for x in ms if x[1].router]
    path, m = rng.choice(routed if routed and rng.random() < .95 else ms)
    toks = [p.none.encode() for p in path if p.none]
    named, tail, last = [], [], []
    p = rng.choice([.25, .5, .8]) if incl is None else incl
    for c in m.children:
        if c.kind == 'mode':
            continue
        req = c.required or c.en_req is not None
        pos_ = c.kind == 'pos'
        if not (rng.random() < (.97 if req else .8 if pos_ else p)):
            if pos_:
                pass
            if not pos_ or rng.random() < .5:
                continue
        if c.kind in ('one_of', 'alias_group'):
            ch = rng.choice(c.children)
            o = (occ(rng, ch, pbad), ch)
            (last if open_ended(ch) else named).append(o)
            if rng.random() < pbad:
                ch = rng.choice(c.children)
                o = (occ(rng, ch, pbad), ch)
                (last if open_ended(ch) else named).append(o)
            continue
        if c.kind == 'pos':
            tail.append((occ(rng, c, pbad), None))
            continue
        reps = 1
        if c.kind == 'counting':
            reps = rng.randint(1, 4)
        elif rng.random() < pbad:
            reps = 2
        for _ in range(reps):
            o = (occ(rng, c, pbad), c)
            (last if open_ended(c) else named).append(o)
    rng.shuffle(named)
    if rng.random() < .75:
        fix_deps(m, named)
    if len(last) > 1 and rng.random() < .9:
        last = [rng.choice(last)]
    if last and rng.random() < .9:
        tail = []
    return toks, named, [t for o, _ in tail + last for t in o]


def fix_deps(m, named):
    """Bubble requirements before their dependents."""
    for _ in range(4):
        for i, (o, n) in enumerate(named):
            if n is None or not n.dep:
                continue
            for j in range(i + 1, len(named)):
                x = named[j][1]
                if x is not None and any(r in ('--' + str(x.long), '-' + str(x.short)) for r in n.dep):
                    named.insert(i, named.pop(j))
                    break


def vocab(root):
    v = []
    for n, _ in root.walk():
        if n.long:
            v.append(b'--' + n.long.encode())
        if n.short:
            v.append(b'-' + n.short.encode())
        if n.none:
            v.append(n.none.encode())
        if n.marker:
            v.append(n.marker.encode())
        if n.sep and n.is_named:
            v.append((b'--' + n.long.encode() if n.long else b'-' + n.short.encode()) + n.sep.encode())
            v.append(v[-1] + b'5')
    sh = [n.short for n, _ in root.walk() if n.short and n.kind in ('flag', 'counting')]
    if len(sh) > 1:
        v.append(('-' + ''.join(sh[:2])).encode())
        v.append(('-' + ''.join(sh)).encode())
        v.append(('-' + sh[0] * 3).encode())
        v.append(('-' + sh[0] + 'Z').encode())
    return v or [b'x']


def mutate(rng, toks, voc, n=1):
    toks = list(toks)
    for _ in range(n):
        k = rng.randrange(9)
        if k == 0 and toks:
            del toks[rng.randrange(len(toks))]
        elif k == 1 and toks:
            i = rng.randrange(len(toks))
            toks.insert(i, toks[rng.randrange(len(toks))])
        elif k == 2 and len(toks) > 1:
            i, j = rng.randrange(len(toks)), rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 3:
            toks.insert(rng.randint(0, len(toks)), rng.choice(voc))
        elif k == 4:
            toks.insert(rng.randint(0, len(toks)), rng.choice(WORDS))
        elif k == 5 and toks:
            i = rng.randrange(len(toks))
            toks[i] = typo(rng, toks[i])
        elif k == 6 and toks:
            toks = toks[:rng.randrange(len(toks))]
        elif k == 7 and toks:
            toks[rng.randrange(len(toks))] = rng.choice(voc)
        elif k == 8 and len(toks) > 1:
            i = rng.randrange(len(toks))
            toks = toks[i:] + toks[:i]
    return toks


def typo(rng, t):
    try:
        s = list(t.decode())
    except UnicodeDecodeError:
        return t
    k = rng.randrange(4)
    a = rng.choice('abcxyz-=é0')
    if k == 0 and s:
        del s[rng.randrange(len(s))]
    elif k == 1:
        s.insert(rng.randint(0, len(s)), a)
    elif k == 2 and s:
        s[rng.randrange(len(s))] = a
    elif k == 3 and len(s) > 1:
        i = rng.randrange(len(s) - 1)
        s[i], s[i + 1] = s[i + 1], s[i]
    return ''.join(s).encode()


def lines(rng, root, n, pmut=.45, pbad=.03):
    """n token lists, mixing valid and mutated ones."""
    voc = vocab(root)
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .06:
            toks = [rng.choice(voc + WORDS) for _ in range(rng.randint(0, 6))]
        else:
            toks = valid_line(rng, root, pbad)
            if rng.random() < pmut:
                toks = mutate(rng, toks, voc, rng.choice([1, 1, 1, 2, 3]))
        out.append(toks)
    return out
