"""Policies, nodes, parsers, formatters and validators written by the user are treated as the library's own."""
from vt import build, engine, gen, run, spec, trees

USER = '#include "vt_user.hpp"\n'
TREES = ['scalars', 'lists', 'multis', 'flags', 'seps', 'nested', 'reqs', 'bounds', 'aliases', 'deps', 'groups', 'toggles', 'toggles2',
         'rootnodes', 'rootvals', 'names', 'counts', 'bounds2', 'counters', 'deps2', 'dupnames']
CORE = ['scalars', 'lists', 'reqs', 'toggles', 'names', 'counters']
HELPS = ['help1', 'help2', 'help3', 'help4', 'help5']
NEED = ('node_flag', 'node_counting', 'node_arg', 'node_multi', 'node_pos', 'long_name', 'short_name', 'description_t', 'display_name_t',
        'none_name_t', 'error_name_t', 'mapped_strings', 'value_separator_t', 'token_end_marker_t', 'default_value', 'required',
        'min_count', 'fixed_count', 'max_count', 'custom_parser', 'min_max_value', 'min_value', 'max_value', 'runtime_enable',
        'runtime_enable_required', 'router', 'translator', 'formatter', 'rt_formatter')


def check(rep):
    rep.rule = ('the same command lines given to a tree of the library\'s own policies and nodes and to the same tree with random ones replaced '
                'by equivalents that user code defines; status, routed calls, values, messages and help texts compared; distinct = (variant, '
                'tree, tokens)')
    rng = engine.rng_for(rep, 'p30')
    rest = [n for n in TREES if n not in CORE]
    names = CORE + (rest if rep.thorough else rng.sample(rest, 4))
    nv = {n: 4 if rep.thorough else 2 if n in CORE else 1 for n in names}
    ts = {n: trees.TREES[n]() for n in names + HELPS}
    units = {n: [] for n in ts}

    def unit(n, k):
        e = None
        if k:
            fm = 'formatter' if k % 2 else 'rt_formatter'
            p = 1 if k == 1 else rng.choice((.3, .5, .75))
            e = spec.UserEmit(engine.rng_for(rep, 'p30', n, k), p=p, formatter=fm)
        units[n].append(build.Unit(f'{n}_{"user%d" % k if k else "own"}', spec.emit_tu(ts[n], extra=USER * bool(k), e=e),
                                   flags=build.PLAIN))
        for x, c in e.used.items() if e else ():
            rep.tick('user_' + x, c)
    for n in names:
        for k in range(nv[n] + 1):
            unit(n, k)
    helps = HELPS if rep.thorough else rng.sample(HELPS, 2)
    for n in helps:
        for k in range(4 if rep.thorough else 3):
            unit(n, k)
    build.compile_all([u for n in ts for u in units[n]])
    build.require([u for n in ts for u in units[n]])

    for n in names:
        tree = ts[n]
        r = engine.rng_for(rep, 'p30', n)
        lines = gen.lines(r, tree, rep.scale(1500, 8000), pmut=.45)
        cases = [run.Case(t, en=engine.rand_en(r, tree)) for t in lines]
        base = run.run_cases(units[n][0].exe, cases)
        for u in units[n][1:]:
            for c, o, x in zip(cases, base, run.run_cases(u.exe, cases)):
                if engine.watch(rep, o) or engine.watch(rep, x):
                    continue
                rep.count((u.name, tuple(c.toks)))
                rep.tick('status_' + o.status)
                if (o.status, o.calls, o.routes, o.msg) != (x.status, x.calls, x.routes, x.msg):
                    rep.violation(f'{n}:{o.status}->{x.status}', f'[{n}] {c.show()}\n   library\'s own types {o}\n   user types '
                                  f'{x}', engine.replay(n, tree, c) + f'\n{u.src}\n')
    for n in helps:
        opt = [b'--help' if ts[n].children[0].long else b'-h']
        r = engine.rng_for(rep, 'p30', n)
        paths = engine.help_paths(ts[n])
        # without run time data a formatter cannot know what is disabled
        for u, rt in zip(units[n][1:], (False, True, False)):
            cases = [run.Case(opt + p if p is not None else [], en=engine.rand_en(r, ts[n]) if i else '1' * 8,
                              root='h' if p is None else 'k') for p in [None] + paths for i in range(3 if rt else 1)]
            for c, o, x in zip(cases, run.run_cases(units[n][0].exe, cases), run.run_cases(u.exe, cases)):
                if engine.watch(rep, o) or engine.watch(rep, x):
                    continue
                rep.count((u.name, tuple(c.toks), c.en))
                rep.tick('help_runtime' if rt else 'help_compile_time', o.status in ('HELP', 'OK'))
                if (o.status, engine.help_text(o)) != (x.status, engine.help_text(x)):
                    rep.violation(f'help:{n}', f'[{n}] help for {c.show()} with user types differs\n'
                                  f'{engine.help_text(o).decode("utf-8", "replace")}\n---\n'
                                  f'{engine.help_text(x).decode("utf-8", "replace")}', engine.replay(n, ts[n], c))
    for x in NEED:
        rep.need('user_' + x, 1)
    rep.need('status_OK', 8000)
    rep.need('status_PE', 8000)
    rep.need('help_runtime', 20)
    rep.need('help_compile_time', 12)
