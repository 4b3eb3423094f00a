"""The outcome of a parse does not depend on what the same root, or a copy of it, did before."""
from vt import engine, gen, run, trees


def check(rep):
    rep.rule = ('each line is parsed once on a root of its own; then the same lines, in random orders with failing '
                'parses, throwing routers and help requests between them, on shared roots, copies of shared roots and '
                'moved-to roots; every outcome must be the first one; distinct = (tree, line, previous line)')
    use = ['groups', 'multis', 'counters', 'toggles', 'help0'] if not rep.thorough else \
        ['groups', 'multis', 'counters', 'toggles', 'help0', 'aliases', 'deps', 'nested', 'reqs', 'flags', 'bounds', 'counts']
    b = engine.Bench(rep, use, rand=rep.scale(2, 30), flags=engine.build.PLAIN + ['-DVT_COPY'], emit=trees.emit_mix,
                     more={'mix': trees.mix(), 'mixml': trees.mix()})
    for name, tree, m, exe in b.items():
        rng = engine.rng_for(rep, 'hist', name)
        base = []
        for toks in gen.lines(rng, tree, rep.scale(300, 2000), pmut=.4):
            base.append(run.Case(toks, en=engine.rand_en(rng, tree) if rng.random() < .4 else '1' * tree.nen,
                                 boom=rng.choice('nnnnbsp'), root='f'))
        run.run_cases_into(exe, base)
        seq = []
        for i in range(rep.scale(20, 40)):
            order = rng.sample(range(len(base)), len(base)) if i % 2 else \
                [rng.randrange(len(base)) for _ in range(len(base))]
            for j in order:
                x = base[j]
                seq.append(run.Case(x.toks, en=x.en, api='r', boom=x.boom, root=rng.choice('kkkkyvv'), meta=j))
        run.run_cases_into(exe, seq, tmo=120)
        prev = None
        for c in seq:
            a, o = base[c.meta].obs, c.obs
            if engine.watch(rep, o) or engine.watch(rep, a):
                continue
            rep.count((name, c.meta, prev))
            rep.tick('reparses_' + o.status)
            rep.tick({'k': 'same_object', 'y': 'copied_object', 'v': 'moved_object'}[c.root])
            if (o.status, o.calls, o.routes, o.msg) != (a.status, a.calls, a.routes, a.msg):
                p = base[prev].show() if prev is not None else '-'
                rep.violation(f'{name}:{a.status}->{o.status}', f'[{name}] {c.show()}\n   alone: {a}\n   later: {o}\n'
                              f'   preceded by {p}', engine.replay(name, tree, c) + f'preceded by: {p}\n')
            elif prev is not None and len(c.toks) > 2 and len(rep.samples) < 10 and rng.random() < .01:
                rep.sample(f'[{name}] {c.show()} after {base[prev].show()} => {o}'[:260])
            prev = c.meta
    for k in ('same_object', 'copied_object', 'moved_object'):
        rep.need(k, 2000)
    for k in ('OK', 'PE', 'RB'):
        rep.need('reparses_' + k, 1000)
