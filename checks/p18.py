"""Errors carry the right code, tokens and closest suggestion."""
from vt import engine, gen, run


def check(rep):
    rep.rule = ('mistyped and malformed lines; the complete message of the exception is compared with the text '
                'derived from the reference interpreter (code, tokens, closest name); distinct = (tree, tokens)')
    b = engine.Bench(rep, ['names', 'nested', 'flags', 'toggles', 'seps', 'counts', 'nearby'], rand=rep.scale(2, 20))
    engine.differential(rep, b, rep.scale(1500, 8000), pmut=.7)
    for name, tree, m, exe in b.items():
        rng = engine.rng_for(rep, 'typo', name)
        voc = gen.vocab(tree)
        pre = [[]] + [[p.none.encode() for p in path if p.none] for path, _ in gen.modes(tree)]
        cases = []
        # nothing behind a prefix, or so little that every name is far
        tiny = [b'--', b'-', b'---', b'--e', b'-e', '--\u0301'.encode(), '--設'.encode(), '-語'.encode(), '--🎈'.encode(), b'--..', b'--????????']
        for t in tiny:
            cases += [run.Case(p + [t] + tail, en=engine.rand_en(rng, tree)) for p in pre for tail in ([], [b'1'], [b'--'])]
        for _ in range(rep.scale(1500, 8000)):
            t = rng.choice(voc)
            for _ in range(rng.choice([1, 1, 2, 3])):
                t = gen.typo(rng, t)
            cases.append(run.Case(rng.choice(pre) + [t], en=engine.rand_en(rng, tree)))
        engine.judge(rep, name, tree, m, cases, run.run_cases(exe, cases))
    rep.need('outcome_unknown_argument_with_suggestion', 2000)
    for c in ('unhandled_arguments', 'argument_has_already_been_set', 'failed_to_parse',
              'missing_required_argument', 'minimum_count_not_reached', 'no_arguments_passed',
              'mode_requires_arguments', 'missing_value_separator'):
        rep.need('outcome_' + c, 10)
