"""Value counts, end markers and forwarding arguments."""
from vt import engine


def check(rep):
    rep.rule = ('seeded lines plus every short token sequence over small vocabularies, for nodes with every '
                'kind of count bound and end marker, against the reference interpreter')
    b = engine.Bench(rep, ['counts', 'lists', 'multis', 'marks'], rand=rep.scale(1, 16),
                     focus={'w': {'multi': 6, 'arg': 1}})
    engine.differential(rep, b, rep.scale(2500, 12000))
    k = rep.scale(4, 5)
    E = lambda n, v, p, kk=k: engine.exhaustive(rep, b, n, v, kk, prefix=p)
    E('counts', ['--mn', '1', ';', '--fx', 'a', '-m', '2'], ('aa',))
    E('counts', ['1', ';', 'a', '2'], ('aa', '--mn', '7'), k + 1)
    E('counts', ['a', 'b', '--un', '--', '--mx'], ('bb',), k + 1)
    E('counts', ['a', '+', '7'], ('cc',), k + 2)
    E('counts', ['a', '--', '-g', '--go'], ('dd',), k + 1)
    E('counts', ['--li', '。', 'a', '--ls', '--nn', '3'], ('ee',), k)
    E('lists', ['1', 'a'], ('min',), k + 1)
    E('lists', ['x', 'y'], ('max',), k)
    E('lists', ['x', '-g', '--go'], ('minmax',), k + 1)
    E('lists', ['1', 'x'], ('fix',), k + 1)
    E('lists', ['1', '2'], ('reqd',), k)
    E('lists', ['1', '2'], ('dflt',), k)
    E('multis', ['--nums', '1', ';', '--strs', '-g'], ('mm',), k + 1)
    E('multis', ['--words', 'a', '--go', '-k', '2'], ('last',), k + 1)
    E('multis', ['-t', '1', '--', '2', '-q'], ('bound',), k + 1)
    E('multis', ['--', 'a', '-g', '--kk', '1'], ('fwd',), k + 1)
    E('multis', ['a', ';', 'b'], ('pmark',), k + 2)
    E('marks', ['a', ';', 'b'], ('pm',), k + 2)
    E('multis', ['++', '-v', 'a'], ('fwdmin',), k + 1)
    rep.need('outcome_ok', 1000)
    rep.need('outcome_minimum_count_not_reached', 100)
    rep.need('outcome_maximum_count_exceeded', 20)
