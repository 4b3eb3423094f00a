"""Repeatable flags count every occurrence."""
from vt import engine, run


def check(rep):
    rep.rule = ('lines with counting flags repeated separately, grouped and interleaved, against the reference '
                'interpreter; distinct = (tree, tokens)')
    b = engine.Bench(rep, ['counters', 'flags', 'bounds', 'reqs'], rand=rep.scale(2, 16),
                     focus={'w': {'counting': 5, 'flag': 3, 'arg': 1}})
    engine.differential(rep, b, rep.scale(2000, 8000), pmut=.25)
    k = rep.scale(4, 5)
    E = lambda n, v, p, kk=k: engine.exhaustive(rep, b, n, v, kk, prefix=p)
    E('counters', ['-a', '-b', '--aa', '-ab', '-f', '-c', 'x'], ('aa',))
    E('counters', ['-v', '--vv', '-vvv', '--ww', '-d'], ('bb',))
    E('flags', ['-v', '-vv', '--verbose', '-av', '-l', '-vb'], ('gg',))
    # long runs: the u8 counter must not be confused by many occurrences below its limit
    cases = []
    for n in (1, 2, 3, 10, 100, 254, 255):
        cases.append(run.Case([b'aa'] + [b'-a'] * n))
        cases.append(run.Case([b'aa', b'-' + b'a' * n]))
        cases.append(run.Case([b'aa'] + [b'-ba', b'--aa', b'-fa'][:1 + n % 2] * min(n, 80)))
    for n in (1, 300, 1000):
        cases.append(run.Case([b'aa', b'-' + b'b' * n]))
        cases.append(run.Case([b'aa'] + [b'-b'] * n))
    engine.judge(rep, 'counters', b.trees['counters'], b.models['counters'], cases,
                 run.run_cases(b.units['counters'].exe, cases))
    rep.need('outcome_ok', 1500)
