"""Routed values equal what the tokens say."""
from vt import engine


def check(rep):
    rep.rule = ('seeded lines (valid and mutated) over handcrafted and random trees; the call the router '
                'receives is compared with the reference interpreter; distinct = distinct (tree, tokens)')
    b = engine.Bench(rep, ['scalars', 'lists', 'multis', 'reqs', 'seps', 'marks'] if not rep.thorough else
                     ['scalars', 'lists', 'multis', 'reqs', 'flags', 'seps', 'nested', 'groups', 'marks'],
                     rand=rep.scale(4, 40))
    engine.differential(rep, b, rep.scale(1500, 6000), messages=False,
                        relevant=lambda e, o: e.ok or o.status == 'OK')
    rep.need('outcome_ok', 1000)
