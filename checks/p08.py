"""An alias means exactly its targets."""
from vt import engine


def check(rep):
    rep.rule = ('lines mixing aliases with their targets, against the reference interpreter which expands an '
                'alias to its targets; plus every short line over alias vocabularies; distinct = (tree, tokens)')
    b = engine.Bench(rep, ['aliases', 'deps2', 'bounds2', 'counters'], rand=rep.scale(3, 24),
                     focus={'palias': 1.0})
    engine.differential(rep, b, rep.scale(1500, 8000), pmut=.3)
    k = rep.scale(4, 5)
    E = lambda n, v, p, kk=k: engine.exhaustive(rep, b, n, v, kk, prefix=p)
    E('aliases', ['--all', '-a', '--one', '-b', '-c', 'x', '-bc'], ('ff',))
    E('aliases', ['--both', '-B', '--xx', '--yy', '1', '-q', '2'], ('vv',))
    E('aliases', ['--pair', '--lo', '1', '2', '-g'], ('mm',), k + 1)
    E('deps2', ['--al', '--ta', '-u', '--on-ta', '1', '--num'], ('aa',))
    E('counters', ['-B', '-r', '-o', '--on', '-oB'], ('cc',))
    rep.need('outcome_ok', 500)
