"""Declared value bounds are enforced exactly."""
from vt import engine, run, spec, gen


def edge_texts(t, n):
    vals = set()
    for b in (n.vmin, n.vmax):
        if b is None:
            continue
        if t.name == 'f64':
            import math
            for v in (b, math.nextafter(b, 1e9), math.nextafter(b, -1e9), b + 1, b - 1, -b, 0.0):
                vals.add(repr(v).encode())
        else:
            for d in (-2, -1, 0, 1, 2):
                vals.add(str(b + d).encode())
            vals.add(str(-b).encode())
    if t.lo is not None:
        for v in (t.lo, t.lo + 1, t.hi, t.hi - 1, 0, 1, -1, t.hi // 2, t.hi // 2 + 1, t.lo - 1, t.hi + 1):
            vals.add(str(v).encode())
    return sorted(vals)


def check(rep):
    rep.rule = ('for every bounded node every value at and around each bound and the ends of its type, alone and '
                'inside seeded lines, against the reference interpreter; distinct = (tree, tokens)')
    b = engine.Bench(rep, ['bounds', 'bounds2', 'counters'], rand=rep.scale(1, 16),
                     focus={'w': {'arg': 6, 'counting': 2}})
    engine.differential(rep, b, rep.scale(2500, 12000), pmut=.2)
    for name, tree, m, exe in b.items():
        rng = engine.rng_for(rep, 'edges', name)
        cases = []
        for path, md in gen.modes(tree):
            pre = [p.none.encode() for p in path if p.none]
            for n, ps in md.walk():
                if (n.vmin is None and n.vmax is None) or n.kind == 'counting' or md not in ps or \
                        any(p.kind == 'mode' and p is not md for p in ps[:ps.index(md)]):
                    continue
                t = spec.TYPES[n.T]
                for v in edge_texts(t, n):
                    for lab in ([b'--' + n.long.encode()] if n.long else []) + \
                            ([b'-' + n.short.encode()] if n.short else []) + ([None] if n.kind == 'pos' else []):
                        body = [v] if lab is None else [lab + n.sep.encode() + v] if n.sep else [lab, v]
                        for others in range(2):
                            ex = []
                            for c in md.children:
                                if c is n or c.kind not in ('arg', 'one_of') or n in c.children:
                                    continue
                                if c.required or (others and c.kind == 'arg' and not c.alias and rng.random() < .4):
                                    ex += gen.occ(rng, c.children[0] if c.children else c, 0)
                            cases.append(run.Case(pre + ex + body, en='1' * tree.nen))
        if cases:
            engine.judge(rep, name, tree, m, cases, run.run_cases(exe, cases))
            rep.tick('edge_lines', len(cases))
    for md, v in (('cnt', ['-v', '-w', '-vv', '-www', '-q', '-vw']), ('ct', ['-v', '-vv', '--aa', '20', '21'])):
        engine.exhaustive(rep, b, 'bounds', v, rep.scale(4, 5), prefix=(md,))
    engine.exhaustive(rep, b, 'counters', ['-v', '--ww', '-vv', '-x', '3'], rep.scale(4, 5), prefix=('bb',))
    rep.need('outcome_minimum_value_not_reached', 300)
    rep.need('outcome_maximum_value_exceeded', 300)
    rep.need('outcome_ok', 500)
