"""Dependent arguments are only accepted after what they depend on."""
from vt import engine


def check(rep):
    rep.rule = ('lines with dependents before, after and without their requirements, against the reference '
                'interpreter; plus every short line over dependency vocabularies; distinct = (tree, tokens)')
    b = engine.Bench(rep, ['deps', 'deps2', 'counters'], rand=rep.scale(3, 24), focus={'pdep': .6})
    engine.differential(rep, b, rep.scale(2000, 8000), pmut=.3)
    k = rep.scale(4, 5)
    E = lambda n, v, p, kk=k: engine.exhaustive(rep, b, n, v, kk, prefix=p)
    E('deps', ['--base', '-b', '--val', '1', '--both', '-f', '-Z'], ('dd',))
    E('deps', ['--self-req', '1', '-c', '--many', 'a', ';'], ('ee',))
    E('deps2', ['--num', '1', '-f', '-x', '--needs-num', '--al', '--on-ta'], ('aa',))
    E('deps2', ['-a', '1', '-b', '--cc', '--dd'], ('bb',), k + 1)
    E('deps2', ['-g', '--pp', '1', '--qq'], ('cc',), k + 1)
    E('counters', ['-v', '-d', '-vd', '-dv', '--dep'], ('bb',))
    rep.need('outcome_dependent_argument_missing', 500)
    rep.need('outcome_ok', 500)
