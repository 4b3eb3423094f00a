"""Random valid parse trees."""
from .spec import *  # noqa
from .spec import TYPES

LONGS = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'lambda',
         'mu-nu', 'out', 'output', 'in', 'input', 'verbose', 'version', 'dry-run', 'force', 'größe',
         'naïve', '設定', 'file', 'files', 'colour', 'color', 'jobs', 'job', 'all', 'any', 'ab', 'abc', 'x1',
         'max-depth', 'min-depth', 'depth']
SHORTS = list('abcdefghijklmnopqrstuvwxyzABCDEFG0123') + ['é', 'ß', 'λ', '日']
MODES = ['build', 'run', 'test', 'clean', 'push', 'pull', 'añadir', 'st', 'status', 'init']
DISPS = ['FILES', 'SRC', 'DST', 'ITEM', 'REST', 'ARGS...', 'größe']
SCAL = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f64', 'bool', 'sv', 'str', 'theme',
        'opt_i32', 'opt_theme']
VECS = ['vec_i32', 'vec_sv', 'vec_str', 'vec_u8', 'vec_f64', 'vec_i64', 'vec_theme']


class Names:
    def __init__(self, rng):
        self.rng = rng
        self.l = LONGS[:]
        self.s = SHORTS[:]
        rng.shuffle(self.l)
        rng.shuffle(self.s)

    def pick(self, short_only=.15, long_only=.35):
        r = self.rng.random()
        kw = {}
        if r < short_only:
            kw['short'] = self.s.pop()
            kw['desc'] = 'description of ' + kw['short']
        elif r < short_only + long_only:
            kw['long'] = self.l.pop()
        else:
            kw['long'] = self.l.pop()
            kw['short'] = self.s.pop()
        if 'desc' not in kw and self.rng.random() < .3:
            kw['desc'] = 'some text for ' + kw['long']
        return kw


def rdefault(rng, t):
    if t.name.startswith('opt_'):
        return rdefault(rng, TYPES[t.name[4:]]) if rng.random() < .6 else None
    if t.elem:
        return [rdefault(rng, t.elem) for _ in range(rng.randint(0, 3))]
    if t.lo is not None:
        return rng.randint(max(t.lo, -100), min(t.hi, 100))
    if t.name == 'f64':
        return rng.choice([0.5, -3.25, 1e10])
    if t.name == 'bool':
        return rng.random() < .5
    if t.name == 'theme':
        return rng.randrange(3)
    return rng.choice([b'dflt', b'', b'a b', 'ü'.encode()])


def presence(rng, kw, T, allow_req=True):
    r = rng.random()
    if r < .3 and allow_req:
        kw['required'] = True
    elif r < .6:
        kw['default'] = rdefault(rng, TYPES[T])


def rbounds(rng, kw, T):
    t = TYPES[T]
    if t.lo is None and T != 'f64':
        return
    if rng.random() > .35:
        return
    if T == 'f64':
        a, b = -2.5, 7.25
        kw['vrt'] = True
    else:
        a = rng.randint(max(t.lo + 1, -10), 5) if t.lo < 0 else rng.randint(1, 5)
        b = a + rng.randint(0, 20)
        kw['vrt'] = rng.random() < .4
    r = rng.random()
    if r < .6:
        kw['vmin'], kw['vmax'] = a, b
    elif r < .8:
        kw['vmin'] = a
    else:
        kw['vmax'] = b
    if kw.get('has') is None and 'required' not in kw:
        v = a if 'vmin' in kw else b
        kw['default'] = v


def rand_arg(rng, nm, extra=()):
    T = rng.choice(SCAL)
    kw = nm.pick()
    presence(rng, kw, T)
    rbounds(rng, kw, T)
    if rng.random() < .15 and kw.get('long'):
        kw['sep'] = rng.choice(['=', ':', '→', 'é'])
    return N('arg', T=T, **kw)


def rand_multi(rng, nm, last=False):
    T = rng.choice(VECS)
    kw = nm.pick()
    presence(rng, kw, T)
    r = rng.random()
    if r < .3:
        n = rng.randint(2, 3)
        kw['cmin'], kw['cmax'] = n, n
        if 'default' in kw:
            kw['default'] = [rdefault(rng, TYPES[T].elem) for _ in range(n)]
    else:
        if r < .6:
            kw['cmin'] = rng.randint(1, 3)
            if rng.random() < .5:
                kw['cmax'] = kw['cmin'] + rng.randint(1, 3)
        if not last:
            kw['marker'] = rng.choice([';', '--', 'END', '。'])
    return N('multi', T=T, **kw)


def rand_flag(rng, nm):
    return N('flag', **nm.pick(short_only=.35, long_only=.2))


def rand_counting(rng, nm):
    T = rng.choice(['u32', 'i32', 'u8', 'i64', 'lvl'])
    kw = nm.pick(short_only=.3, long_only=.2)
    r = rng.random()
    if r < .2 and T != 'lvl':
        kw['default'] = rng.randint(0, 4)
    elif r < .55:
        kw['vmax'] = rng.randint(1, 3)
        if rng.random() < .3:
            kw['vmin'] = 1
            kw['default'] = 1
    return N('counting', T=T, **kw)


def rand_group(rng, nm, kind):
    n = rng.randint(2, 4)
    ch = []
    T0 = rng.choice(['i32', 'sv', 'u16'])
    for _ in range(n):
        kw = nm.pick()
        r = rng.random()
        if kind == 'alias_group':
            if r < .2:
                kw['sep'] = '='
            ch.append(N('arg', T=T0, **kw))
        elif r < .3:
            ch.append(N('flag', **kw))
        elif r < .45:
            ch.append(N('multi', T=rng.choice(VECS), cmin=1, cmax=rng.choice([None, 2]), marker=';', **kw))
        else:
            T = rng.choice([x for x in SCAL if not x.startswith('opt')])
            rbounds(rng, kw, T)
            kw.pop('default', None)
            ch.append(N('arg', T=T, **kw))
    if all(c.kind == 'flag' for c in ch):
        ch.append(N('arg', T='i32', **nm.pick()))
    kw = {}
    if rng.random() < .5:
        kw['required'] = True
    else:
        if kind == 'alias_group':
            kw['default'] = rdefault(rng, TYPES[T0])
        else:
            i = rng.randrange(len(ch))
            kw['default'] = (i, rdefault(rng, TYPES[ch[i].T]))
    if rng.random() < .3:
        kw['disp'] = rng.choice(['choice', 'Pick one'])
    return N(kind, children=ch, **kw)


def rand_mode(rng, none, depth, en, focus):
    nm = Names(rng)
    kids = []
    n = rng.randint(2, 6)
    w = {'arg': 3, 'flag': 3, 'multi': 1, 'counting': 1, 'one_of': .7, 'alias_group': .4}
    w.update(focus.get('w', {}))
    sub = []
    if none and depth < 2:
        k = rng.choice([0, 0, 1, 2]) if depth == 0 else rng.choice([0, 0, 0, 1])
        ms = MODES[:]
        rng.shuffle(ms)
        ms = [x for x in ms if x != none]
        sub = [rand_mode(rng, ms[i], depth + 1, en, focus) for i in range(k)]
        kids += sub
    for _ in range(n):
        k = rng.choices(list(w), list(w.values()))[0]
        kids.append({'arg': rand_arg, 'flag': rand_flag, 'multi': rand_multi,
                     'counting': rand_counting}[k](rng, nm) if k not in ('one_of', 'alias_group')
                    else rand_group(rng, nm, k))
    below = {x for m in sub for c, _ in m.walk() for x in (('L', c.long), ('S', c.short)) if x[1]}

    def clash(c):
        return ('L', c.long) in below or ('S', c.short) in below

    # aliases
    cands = [c for c in kids if c.kind in ('arg', 'flag', 'counting', 'multi') and not c.alias and
             (c.min == c.max) and not c.en and not clash(c)]
    if rng.random() < focus.get('palias', .35) and cands:
        cnt = rng.choice(cands).min
        tg = [c for c in cands if c.min == cnt]
        tg = rng.sample(tg, rng.randint(1, min(len(tg), 2)))
        ref = tuple(('--' + c.long) if c.long and (not c.short or rng.random() < .6) else '-' + c.short
                    for c in tg)
        kw = nm.pick()
        if cnt == 0:
            a = N('flag', alias=ref, **kw)
        elif cnt == 1 and tg[0].kind == 'arg':
            a = N('arg', T=tg[0].T, alias=ref, **kw)
        else:
            a = N('multi', T=tg[0].T if tg[0].kind == 'multi' else 'vec_sv', cmin=cnt, cmax=cnt, alias=ref, **kw)
        a.alias_value_node = tg[0]
        kids.insert(rng.randint(len(sub), len(kids)), a)
    # dependents
    for c in kids:
        if c.kind in ('arg', 'flag', 'counting', 'multi') and not c.alias and rng.random() < focus.get('pdep', .12):
            o = [x for x in kids if x is not c and x.kind in ('arg', 'flag', 'counting') and not x.alias and not x.dep and
                     not clash(x)]
            if o and not c.required:
                x = rng.choice(o)
                c.dep = (('--' + x.long) if x.long else '-' + x.short,)
    # runtime enables
    for c in kids:
        if c.kind in ('arg', 'flag', 'counting', 'multi') and not c.alias and rng.random() < focus.get('pen', .1):
            if c.required:
                continue
            c.en = en.setdefault(len(en) % 4, len(en) % 4)
    tail = rng.random()
    if tail < .4:
        if rng.random() < .4:
            T = rng.choice([x for x in SCAL if not x.startswith('opt')])
            kw = {}
            presence(rng, kw, T)
            kids.append(N('pos', T=T, disp=rng.choice(DISPS), **kw))
            if rng.random() < .5:
                kw = {'cmin': rng.randint(0, 2)}
                if rng.random() < .4:
                    kw['cmax'] = kw['cmin'] + rng.randint(1, 2)
                kids.append(N('pos', T='vec_sv', disp='TAIL', **kw))
        else:
            T = rng.choice(VECS)
            kw = {}
            presence(rng, kw, T)
            r = rng.random()
            if kw.get('required'):
                kw['cmin'] = rng.randint(1, 2)
            elif r < .3:
                kw['cmin'], kw['cmax'] = 0, rng.randint(1, 3)
            if 'default' in kw and 'cmin' in kw:
                pass
            kids.append(N('pos', T=T, disp=rng.choice(DISPS), **kw))
    elif tail < .5:
        kids.append(N('fwd', none='--', **({'required': True, 'cmin': 1} if rng.random() < .3 else {})))
    elif tail < .65:
        kids.append(rand_multi(rng, nm, last=True))
    kw = {}
    if focus.get('men') and rng.random() < focus['men']:
        kw['en'] = en.setdefault(len(en) % 4, len(en) % 4)
    return N('mode', none=none, children=kids, router=True, **kw)


def rand_tree(rng, focus=None):
    focus = focus or {}
    en = {}
    kids = []
    nm = Names(rng)
    ms = MODES[:]
    rng.shuffle(ms)
    for _ in range(rng.choice([0, 0, 1, 2]) if focus.get('rootkids', True) else 0):
        if rng.random() < .6:
            kids.append(N('flag', router=True, **nm.pick()))
        else:
            kw = nm.pick()
            if rng.random() < .5:
                kids.append(N('arg', T='i32', vmin=rng.randint(-3, 1), vmax=rng.randint(5, 12), router=True, **kw))
            else:
                kids.append(N('arg', T=rng.choice(['i32', 'sv', 'theme']), router=True, **kw))
    for i in range(rng.choice([0, 1, 1, 2, 2])):
        kids.append(rand_mode(rng, ms.pop(), 0, en, focus))
    if not kids or rng.random() < .6 or not any(k.kind == 'mode' for k in kids):
        kids.append(rand_mode(rng, None, 0, en, focus))
    return root(*kids)


TEXT = ['the', 'a', 'quick', 'value', 'of', 'naïve', 'für', '設定', '日本語', 'file', 'name', 'when', 'used',
        'extraordinarily', 'Donaudampfschifffahrtsgesellschaft', 'x', '漢字', 'to', 'be', 'or', 'not']


def rand_text(rng, n):
    return ' '.join(rng.choice(TEXT) for _ in range(n))


def rand_help_tree(rng, words=4, colour=None):
    """A small random tree with a help node and descriptions."""
    while True:
        t = rand_tree(rng, {'pen': .3})
        if 5 <= sum(1 for _ in t.walk()) <= 16:
            break
    for n, _ in t.walk():
        if n.kind in ('root', 'one_of', 'alias_group') or (n.kind == 'mode' and not n.none):
            continue
        if n.desc is not None or rng.random() < .7:
            n.desc = rand_text(rng, rng.randint(2, words))
        if n.kind == 'mode' and n.children and rng.random() < .2 and len(t.children) > 1:
            n.en = 0
    h = N('help', long='help', short='H' if rng.random() < .5 else None, router=True,
          desc=rand_text(rng, words), flat=rng.random() < .5,
          fmt='arp::colour_help_formatter' if (rng.random() < .4 if colour is None else colour) else None,
          **{k: rand_text(rng, 1 if k == 'pname' else 3) for k in ('pname', 'pintro', 'paddendum')
             if rng.random() < .4})
    kids = list(t.children)
    i = len([c for c in kids if c.kind != 'mode'])
    kids.insert(rng.randint(0, i), h)
    return root(*kids)
