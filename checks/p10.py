"""one_of and alias_group selection."""
from vt import engine


def check(rep):
    rep.rule = ('lines using none, one, several or repeated members of exclusive and equivalent groups, against '
                'the reference interpreter; plus every short line over group vocabularies; distinct = (tree, tokens)')
    b = engine.Bench(rep, ['groups', 'names', 'deps2', 'counts'], rand=rep.scale(3, 24),
                     focus={'w': {'one_of': 4, 'alias_group': 3, 'arg': 1, 'flag': 1}})
    engine.differential(rep, b, rep.scale(2000, 8000), pmut=.35)
    k = rep.scale(4, 5)
    E = lambda n, v, p, kk=k: engine.exhaustive(rep, b, n, v, kk, prefix=p)
    E('groups', ['--num', '-n', '3', '--str', '-f', '-o', '-fo'], ('oo',))
    E('groups', ['--num', '3', '--flag', '--strv', '--kk'], ('pp',), k)
    E('groups', ['--aa', '--bb', '--cc', '--dd', '--ee', '7'], ('hh',), k)
    E('groups', ['--red', '-r', '--rouge', '4', '-o'], ('gg',), k)
    E('groups', ['--colour', '-c', '--color=4', '--color', 'x', '-v'], ('qq',), k)
    E('groups', ['--list', '1', ';', '--th', 'DARK', '--xx'], ('mm',), k)
    E('names', ['--alpha', '1', '--alphas', '-n', '--必須'], ('server',), k)
    E('counts', ['--li', '。', 'a', '--nn', '3'], ('ee',), k)
    rep.need('outcome_ok', 500)
    rep.need('outcome_one_of_selected_type_mismatch', 200)
