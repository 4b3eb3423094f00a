"""Exactly one router call per successful parse, none on failure, router exceptions propagate."""
from vt import engine, gen, run


def check(rep):
    rep.rule = ('lines over trees with many routers; router calls counted at the boundary against the '
                'reference interpreter, plus runs where the router itself throws; distinct = (tree, tokens)')
    b = engine.Bench(rep, ['nested', 'rootnodes', 'rootvals', 'groups', 'toggles', 'dupnames'],
                     rand=rep.scale(3, 24), focus={'rootkids': True})
    rel = lambda e, o: o.status not in ('OK', 'PE') or e.ok != (o.status == 'OK') or \
        (e.ok and (o.calls != 1 or o.routes.split('(')[0] != 'r%d' % e.routes[0][0])) or \
        (not e.ok and o.calls)
    engine.differential(rep, b, rep.scale(1500, 8000), messages=False, relevant=rel)
    # small scopes
    engine.exhaustive(rep, b, 'nested', ['build', 'one', 'deep', 'all', 'run', 'now', '--dry', '-j', '1'],
                      rep.scale(4, 5))
    engine.exhaustive(rep, b, 'rootnodes', ['--info', '-n', '5', 'mm', '--xx', '--sep=a', '-i'], rep.scale(4, 5))
    engine.exhaustive(rep, b, 'rootvals', ['--num', '-n', '-s=200', '-s=7', '5', '30', '--when', '--go', 'mm'],
                      rep.scale(4, 5))
    # throwing routers
    for name, tree, m, exe in b.items():
        rng = engine.rng_for(rep, 'boom', name)
        cases = []
        for toks in gen.lines(rng, tree, rep.scale(300, 2000), pmut=.2):
            cases.append(run.Case(toks, en=engine.rand_en(rng, tree), api=rng.choice('rct'),
                                  root=rng.choice('kf'), boom=rng.choice('bsp')))
        for c, o in zip(cases, run.run_cases(exe, cases)):
            if engine.watch(rep, o):
                continue
            e = m.run(c.toks, c.en)
            rep.count((name, 'boom', tuple(c.toks)) if c.toks else None)
            if e.ok:
                rep.tick('router_threw')
                good = o.status == {'b': 'RB', 's': 'SE', 'p': 'PE'}[c.boom] and o.calls == 1 and \
                    (c.boom == 'b' or b'router boom' in o.msg)
            else:
                good = o.status == 'PE' and o.calls == 0
            if not good:
                rep.violation(f'{name}:throwing-router:{o.status}',
                              f'[{name}] router throws {c.boom}: {c.show()}\n   observed {o}',
                              engine.replay(name, tree, c))
    rep.need('router_threw', 200)
    rep.need('outcome_ok', 1000)
