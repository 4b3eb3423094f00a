"""The meaning of a command line does not depend on how the library was built or configured, nor on the notation of the tree."""
import re

from vt import build, engine, gen, run, spec, trees

LONG, SHORT, NONE = 'L', 'S', 'N'
TREES = ['names', 'groups', 'seps', 'multis', 'aliases', 'deps', 'flags', 'counters', 'bounds', 'reqs', 'lists', 'nested', 'scalars']
PREFIXES = [('⟦⟦', '⟧'), ('//', '/'), ('++', '~'), ('ßß', '…'), ('\\\\\\', '%'), ('~+', '/'), ('🎈🎈🎈', 'é')]
EQUAL = ['/', '⟦', '+']
SUGGEST = re.compile(rb'\. Did you mean .*\?$', re.S)


def defs(lp, sp):
    return ['-DAR_LONG_PREFIX="%s"' % lp.replace('\\', '\\\\'), '-DAR_SHORT_PREFIX="%s"' % sp.replace('\\', '\\\\')]


def clean(toks):
    """Whether every '-' at the start of a token is a label prefix and no other could be mistaken for one."""
    for t in toks:
        body = t[2:] if t.startswith(b'--') else t[1:] if t.startswith(b'-') else t
        if t.startswith(b'-') and (not body or not (body[:1].isalpha() or body[0] >= 0x80)):
            return False
        if re.search(rb'(^|[^0-9A-Za-z\x80-\xff])-', body) or b'\0' in body:
            return False
        if any(x in t for x in (b'+', b'~', b'/', b'\\', b'%')) and not t.startswith(b'-'):
            return False
    return True


def mapped(t, lp, sp):
    if t.startswith(b'--'):
        return lp + t[2:]
    return sp + t[1:] if t.startswith(b'-') else t


def remessage(m, lp, sp):
    m = re.sub(rb'(?<!-)--(?=[^\s-])', b'\0', m)
    m = re.sub(rb'(?<![0-9A-Za-z\x80-\xff<-])-(?=[^\s-])', b'\1', m)
    return m.replace(b'\0', lp).replace(b'\1', sp)


def reroutes(r, lp, sp):
    """String values that look like labels were mapped together with the rest of the line."""
    def sub(x):
        v = bytes.fromhex(x.group(2))
        return x.group(1) + mapped(v, lp, sp).hex()
    return re.sub(r'\b([sS]:)([0-9a-f]*)', sub, r)


def exact(tree, toks):
    """Only complete labels, values and modes: no short groups, nothing unknown."""
    voc = set(gen.vocab(tree)[:0])
    for n, _ in tree.walk():
        if n.long:
            voc.add(b'--' + n.long.encode())
        if n.short:
            voc.add(b'-' + n.short.encode())
    seps = [n.sep.encode() for n, _ in tree.walk() if n.sep]
    for t in toks:
        if t.startswith(b'-') and t not in voc and not any(t.split(s)[0] in voc for s in seps):
            return False
    return True


def compare(rep, what, name, tree, cases, base, obs, lp=None, sp=None, same_width=True):
    lb, sb = (lp or '--').encode(), (sp or '-').encode()
    for c, o, x in zip(cases, base, obs):
        if engine.watch(rep, o) or engine.watch(rep, x):
            continue
        if lp is not None and re.search(rb'--(?![^\s,.])', o.msg):   # a '-' inside a short group
            continue
        rep.count((what, name, tuple(c.toks)))
        rep.tick('pairs_' + what)
        rep.tick('status_' + o.status)
        msg = o.msg if lp is None else remessage(o.msg, lb, sb)
        routes = o.routes if lp is None else reroutes(o.routes, lb, sb)
        got = x.msg
        if not same_width:
            msg, got = SUGGEST.sub(b'', msg), SUGGEST.sub(b'', got)
        if (o.status, o.calls, routes, msg) != (x.status, x.calls, x.routes, got):
            rep.violation(f'{what}:{name}:{o.status}->{x.status}',
                          f'[{name}] {c.show()}\n   reference build {o}\n   {what} build {x}\n   expected message '
                          f'{msg.decode("utf-8", "replace")}', engine.replay(name, tree, c) + f'\nbuild: {what}\n')


def check(rep):
    rep.rule = ('the same command lines given to builds of the same tree that differ in compiler, optimisation, string mode, notation, tuning '
                'parameters and configured prefixes; labels respelled with the configured prefixes; outcomes compared; distinct = '
                '(build, tree, tokens)')
    rng = engine.rng_for(rep, 'p28')
    names = TREES if rep.thorough else [TREES[0]] + rng.sample(TREES[1:], 2)
    ts = {n: trees.TREES[n]() for n in names}
    units = {}

    def unit(key, n, flags=(), cpp17=False, **kw):
        e = None
        if key.startswith('notation'):
            e = spec.NotationEmit(engine.rng_for(rep, 'p28', key, n), cpp17)
        units[key, n] = build.Unit(f'{n}_{len(units)}', spec.emit_tu(ts[n], cpp17=cpp17, e=e), flags=build.PLAIN + list(flags), **kw)
        for k, v in e.used.items() if e else ():
            rep.tick('notation_' + k, v)
    pres = PREFIXES if rep.thorough else [PREFIXES[0]] + rng.sample(PREFIXES[1:], 2)
    eqs = EQUAL if rep.thorough else rng.sample(EQUAL, 1)
    plan = []
    hn = ['help1', 'help2', 'help5'] if rep.thorough else ['help1']
    for n in hn:
        ts[n] = trees.TREES[n]()
        unit('base', n)
        unit('integral strings', n, ['-DAR_DISABLE_CPP20_STRINGS=true', '-DAR_MAX_CTS_SIZE=128'], cpp17=True)
        unit('window', n, ['-DAR_UTF8_TRAILING_WINDOW_SIZE=40'])
        unit('notation', n)
        unit('prefixes', n, defs(*PREFIXES[0]))
    for n in names:
        unit('base', n)
        unit('integral strings', n, ['-DAR_DISABLE_CPP20_STRINGS=true', '-DAR_MAX_CTS_SIZE=128'], cpp17=True)
        for k in ['notation'] + ['notation 2', 'notation 3'] * rep.thorough:
            unit(k, n)
            plan.append((k, n, None))
        plan.append(('integral strings', n, None))
        full = n == names[0] or rep.thorough
        for p in pres if full else [rng.choice(PREFIXES[1:])]:
            k = 'prefixes %s %s' % p
            unit(k, n, defs(*p))
            plan.append((k, n, p))
        for e in eqs if full else ():
            k = 'equal prefixes ' + e
            unit(k, n, defs(e, e))
            plan.append((k, n, (e, e)))
        if full:
            unit('optimised', n, ['-O2'])
            plan.append(('optimised', n, None))
            unit('window', n, ['-DAR_UTF8_TRAILING_WINDOW_SIZE=32'])
            plan.append(('window', n, None))
            unit('gcc', n, cxx='g++')
            plan.append(('gcc', n, None))
    build.compile_all(list(units.values()))
    build.require(list(units.values()))
    for n in names:
        tree = ts[n]
        r = engine.rng_for(rep, 'p28', n)
        lines = gen.lines(r, tree, rep.scale(1500, 8000), pmut=.4)
        # unknown labels of both kinds, near and far from the known ones, where the suggestion depends on what is a prefix
        voc = gen.vocab(tree)
        shorts = [n.short for n, _ in tree.walk() if n.short]
        modes = [[]] + [[p.none.encode() for p in path if p.none] for path, _ in gen.modes(tree)]
        for _ in range(rep.scale(500, 4000)):
            k = r.random()
            t = '-' + r.choice('abcdefghijklmnopqrstuvwxyzABCéλ設')
            if k < .25 and shorts:
                t += r.choice(shorts)
            elif k < .4:
                t = '--' + ''.join(r.choice('abdeilmnorst') for _ in range(r.randint(1, 4)))
            t = t.encode()
            if k > .7:
                t = gen.typo(r, r.choice(voc))
            lines.append(r.choice(modes) + [t])
        cases = [run.Case(t, en=engine.rand_en(r, tree)) for t in lines]
        base = run.run_cases(units['base', n].exe, cases)
        for k, m, p in plan:
            if m != n:
                continue
            if p is None:
                compare(rep, k.rstrip(' 23'), n, tree, cases, base, run.run_cases(units[k, n].exe, cases))
                continue
            sel = [(c, o) for c, o in zip(cases, base) if clean(c.toks)]
            if p[0] == p[1]:
                sel = [(c, o) for c, o in sel if exact(tree, c.toks) and o is not None and
                       not o.msg.startswith(b'Unknown argument')]
            lp, sp = p[0].encode(), p[1].encode()
            mc = [run.Case([mapped(t, lp, sp) for t in c.toks], en=c.en) for c, _ in sel]
            what = 'prefixes' if p[0] != p[1] else 'equal_prefixes'
            compare(rep, what, n, tree, mc, [o for _, o in sel], run.run_cases(units[k, n].exe, mc), *p,
                    same_width=len(p[0]) == 2 and len(p[1]) == 1)
    for n in hn:
        cases = [run.Case([], en='1' * 8, root='h')]
        cases += [run.Case([b'--help' if ts[n].children[0].long else b'-h'] + p, en='1' * 8) for p in engine.help_paths(ts[n])]
        base = run.run_cases(units['base', n].exe, cases)
        for k in ('integral strings', 'window', 'prefixes', 'notation'):
            lp, sp = PREFIXES[0] if k == 'prefixes' else ('--', '-')
            mc = [run.Case([mapped(t, lp.encode(), sp.encode()) for t in c.toks], en=c.en, root=c.root) for c in cases]
            obs = run.run_cases(units[k, n].exe, mc)
            for c, o, x in zip(mc, base, obs):
                if engine.watch(rep, o) or engine.watch(rep, x):
                    continue
                rep.count((k, n, tuple(c.toks)))
                rep.tick('help_texts', o.status in ('HELP', 'OK'))
                want = remessage(engine.help_text(o), lp.encode(), sp.encode())
                got = engine.help_text(x)
                if (o.status, want) != (x.status, got):
                    rep.violation(f'help:{k}:{n}', f'[{n}] help for {c.show()} differs in the {k} build\n{want.decode()}\n---\n'
                                  f'{got.decode("utf-8", "replace")}', engine.replay(n, ts[n], c))
    rep.need('help_texts', 60)
    for k in ('integral strings', 'optimised', 'gcc', 'window', 'prefixes', 'equal_prefixes', 'notation'):
        rep.need('pairs_' + k, 500)
    for k in ('named', 'list', 'moved'):
        rep.need('notation_' + k, 8)
    rep.need('status_OK', 2000)
    rep.need('status_PE', 1000)
