"""Equivalent spellings and orders of one command line, through every parse overload, against each other."""
from checks import p01
from vt import engine, gen, run


def names(n):
    return ({'--' + n.long} if n.long else set()) | ({'-' + n.short} if n.short else set())


def closed(toks, n):
    """Whether where the argument's values end does not depend on what follows."""
    return not gen.open_ended(n) and (not n.marker or toks[-1] == n.marker.encode())


def related(a, b):
    """Whether two arguments used on one line are ordered by the documentation."""
    if a is b:
        return True
    return bool(set(a.dep or ()) & names(b) or set(b.dep or ()) & names(a) or a.alias or b.alias)


def respell(rng, toks, n):
    labs = ([b'--' + n.long.encode()] if n.long else []) + ([b'-' + n.short.encode()] if n.short else [])
    if len(labs) < 2 or n.none:
        return toks
    t = toks[0]
    for lb in labs:
        if t == lb or (n.sep and t.startswith(lb + n.sep.encode())):
            return [rng.choice(labs) + t[len(lb):]] + toks[1:]
    return toks


def permute(rng, occs):
    """A random linear extension of the original order restricted to related pairs."""
    left = list(occs)
    out = []
    while left:
        free = [i for i, (_, n) in enumerate(left) if not any(related(m, n) for _, m in left[:i])]
        out.append(left.pop(rng.choice(free)))
    return out


def check(rep):
    rep.rule = ('each generated line is parsed in its original form and in variants with arguments permuted, names '
                'respelled, short flags grouped or separated, through all four overloads with ten kinds of container and iterator; all must agree; distinct = '
                '(tree, baseline tokens, variant tokens)')
    use = ['flags', 'aliases', 'deps', 'names'] if not rep.thorough else \
        ['flags', 'aliases', 'deps', 'names', 'multis', 'groups', 'counters', 'seps', 'counts', 'toggles', 'nested', 'reqs']
    b = engine.Bench(rep, use, rand=rep.scale(2, 30), flags=engine.build.PLAIN + ['-DVT_APIS'])
    for name, tree, m, exe in b.items():
        rng = engine.rng_for(rep, 'meta', name)
        cases, sets = [], []
        root_names = set().union(*[names(c) for c in tree.children if c.kind != 'mode'])
        for _ in range(rep.scale(1500, 8000)):
            pre, occs, tail = gen.valid_parts(rng, tree, pbad=0)
            if not all(closed(o, n) for o, n in occs) or (not pre and
                                                          any(root_names & names(n) for _, n in occs)):
                continue
            en = engine.rand_en(rng, tree) if rng.random() < .3 else '1' * tree.nen
            flat = lambda os: pre + [t for o, _ in os for t in o] + tail
            base = run.Case(flat(occs), en=en, root='f', meta='base')
            vs = []
            perm = permute(rng, occs)
            vs.append(('order', flat(perm)))
            sp = [(respell(rng, o, n), n) for o, n in occs]
            vs.append(('spelling', flat(sp)))
            vs.append(('grouping', flat(gen.group_shorts(rng, occs, None, .8))))
            allv = permute(rng, [(respell(rng, o, n), n) for o, n in perm])
            vs.append(('order', flat(gen.group_shorts(rng, allv, None, .8))))
            row = [base]
            for kind, toks in vs:
                if toks != base.toks:
                    row.append(run.Case(toks, en=en, api=rng.choice('rcat'), root=rng.choice('kf'), meta=kind))
            for api in rng.sample('catsldimoe', 3):
                row.append(run.Case(base.toks, en=en, api=api, root=rng.choice('kf'), meta='overload'))
            sets.append(row)
            cases += row
        # the overloads also agree on lines that are wrong, and on bytes no command line has
        voc = gen.vocab(tree)
        for _ in range(rep.scale(500, 5000)):
            toks = p01.hostile_line(rng, tree, voc) if rng.random() < .5 else gen.lines(rng, tree, 1, pmut=.9)[0]
            en = engine.rand_en(rng, tree)
            base = run.Case(toks, en=en, root='f', meta='base')
            row = [base] + [run.Case(toks, en=en, api=api, root=rng.choice('kf'), meta='hostile')
                            for api in rng.sample('ctsldioe' if any(b'\0' in t for t in toks) else 'catsldimoe', 3)]
            sets.append(row)
            cases += row
        run.run_cases_into(exe, cases)
        for row in sets:
            o0 = row[0].obs
            if engine.watch(rep, o0):
                continue
            for c in row[1:]:
                o = c.obs
                if engine.watch(rep, o):
                    continue
                rep.count((name, tuple(row[0].toks), tuple(c.toks), c.meta))
                rep.tick('variants_' + c.meta)
                if o0.status == 'OK':
                    rep.tick('accepted_baselines')
                    bad = (o.status, o.calls, o.routes) != (o0.status, o0.calls, o0.routes)
                elif c.meta in ('overload', 'hostile'):
                    bad = (o.status, o.calls, o.msg) != (o0.status, o0.calls, o0.msg)
                elif c.meta in ('spelling', 'grouping'):
                    bad = (o.status, o.calls) != (o0.status, o0.calls)
                else:
                    bad = False
                if bad:
                    rep.violation(f'{name}:{c.meta}', f'[{name}] {row[0].show()} => {o0}\n   {c.meta}: {c.show()} => {o}',
                                  engine.replay(name, tree, c) + 'baseline: ' + row[0].show() + '\n')
                elif len(c.toks) > 3:
                    rep.sample(f'[{name}] {row[0].show()} == {c.show()} => {o}'[:260])
    for k in ('order', 'spelling', 'grouping', 'overload', 'hostile'):
        rep.need('variants_' + k, 200)
    rep.need('accepted_baselines', 2000)
