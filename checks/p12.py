"""A runtime disabled node behaves as if it were not in the tree."""
from vt import engine, gen, run


def check(rep):
    rep.rule = ('lines over trees with runtime toggles under every toggle combination, naming enabled and disabled '
                'nodes and typos of them; a disabled node must be unmatched and unsuggested, its slot must hold its '
                'default; distinct = (tree, toggles, tokens)')
    b = engine.Bench(rep, ['toggles', 'toggles2', 'counters'], rand=rep.scale(4, 24),
                     focus={'pen': .7, 'men': .4})
    engine.differential(rep, b, rep.scale(2500, 10000), pmut=.3)
    t, m, exe = b.trees['toggles'], b.models['toggles'], b.units['toggles'].exe
    import itertools
    cases = []
    for en in itertools.product('01', repeat=3):
        en = ''.join(en)
        for pre, voc in ((['aa'], ['--one', '-1', '-13', '--two', '5', '--four', '-v']),
                         ([], ['bb', '--b1', 'cc', 'sub', '--s1', '--rootflag', '-R', '--anon', '4', '-a']),
                         (['cc'], ['sub', 'sub2', '--s1', '--s2', '4', '--cf'])):
            for n in range(0, rep.scale(3, 4)):
                for x in itertools.product(voc, repeat=n):
                    cases.append(run.Case([y.encode() for y in pre + list(x)], en=en))
    engine.judge(rep, 'toggles', t, m, cases, run.run_cases(exe, cases))
    rep.tick('small_scope_lines', len(cases))
    cases = []
    for en in itertools.product('01', repeat=4):
        for n in range(0, rep.scale(3, 4)):
            for x in itertools.product(['', 'aa', 'bb', 'ab', '--one', '-1', '--two', '5', '--three', '-4', '-A', '-i', '--anon', '-m', ';'],
                                       repeat=n):
                cases.append(run.Case([y.encode() for y in x], en=''.join(en)))
    t, m, exe = b.trees['toggles2'], b.models['toggles2'], b.units['toggles2'].exe
    engine.judge(rep, 'toggles2', t, m, cases, run.run_cases(exe, cases))
    rep.tick('small_scope_lines', len(cases))
    rep.need('outcome_ok', 500)
    rep.need('outcome_unknown_argument_with_suggestion', 500)
