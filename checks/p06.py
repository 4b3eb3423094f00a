"""Required arguments, defaults and implicit defaults."""
from vt import engine, run


def check(rep):
    rep.rule = ('lines that leave out random subsets of required / defaulted / plain arguments, against the '
                'reference interpreter; distinct = (tree, tokens)')
    b = engine.Bench(rep, ['reqs', 'groups', 'scalars', 'toggles', 'lists'], rand=rep.scale(2, 20))
    engine.differential(rep, b, rep.scale(1500, 8000), pmut=.2)
    # every subset of the optional pieces of one mode, present or absent
    pieces = {
        ('reqs', 'aa'): [('--r1', '3'), ('--d1', '8'), ('--i1', '9'), ('--r2', '1', ';'), ('--d2', '2', ';'),
                         ('-f',), ('-v',), ('--o1', '4'), ('--o2', '5'), ('pp',)],
        ('reqs', 'bb'): [('-v',), ('--th', 'DARK'), ('--nm', 'n'), ('12',)],
        ('reqs', 'cc'): [('-v',), ('--pi', '1.5'), ('--yn', 'no'), ('3', '4')],
        ('lists', 'reqd'): [('5',), ('6',)],
        ('lists', 'dflt'): [('5',), ('6',)],
        ('groups', 'oo'): [('-o',), ('-n', '4'), ('pp',)],
        ('groups', 'pp'): [('--num', '4'), ('--kk', '4')],
        ('groups', 'gg'): [('--red', '4'), ('-o',)],
        ('groups', 'qq'): [('--color=4',), ('-v',)],
    }
    for (name, md), ps in pieces.items():
        cases = []
        for mask in range(1 << len(ps)):
            toks = [md]
            for i, p in enumerate(ps):
                if mask >> i & 1:
                    toks += p
            cases.append(run.Case([t.encode() for t in toks]))
        engine.judge(rep, name, b.trees[name], b.models[name], cases,
                     run.run_cases(b.units[name].exe, cases))
        rep.tick('subset_lines', len(cases))
    # runtime required argument, all toggles
    for en in ('000', '001', '010', '011', '100', '101', '110', '111'):
        cases = [run.Case([x.encode() for x in t], en=en) for t in
                 (['aa'], ['aa', '--four', '5'], ['aa', '--three'], ['aa', '--four'], ['aa', '--four', 'x'])]
        engine.judge(rep, 'toggles', b.trees['toggles'], b.models['toggles'], cases,
                     run.run_cases(b.units['toggles'].exe, cases, jobs=1))
    rep.need('outcome_ok', 1000)
    rep.need('outcome_missing_required_argument', 200)
