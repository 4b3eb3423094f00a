"""Differential engine: real parses of generated command lines against the reference model."""
import re
import random
import zlib

from . import build, gen, model, randtree, run, spec, trees


def rng_for(rep, *salt):
    return random.Random(f'{rep.seed}/' + '/'.join(map(str, salt)))


def describe(tree):
    return spec.Emit().node(tree)


class Bench:
    """A set of compiled trees."""

    def __init__(self, rep, named, rand=0, focus=None, flags=build.PLAIN, cxx='clang++', std='c++20',
                 extra='', cpp17=False, rand_first=0, more=None, emit=None):
        self.rep = rep
        self.trees = {}
        for n in named:
            self.trees[n] = trees.TREES[n]()
        for i in range(rand_first, rand_first + rand):
            self.trees[f'rand{i}'] = randtree.rand_tree(random.Random(f'{rep.seed}/tree/{i}'), focus)
        self.trees.update(more or {})
        emit = emit or (lambda n, t: spec.emit_tu(t, cpp17=cpp17, extra=extra))
        self.units = {n: build.Unit(n, emit(n, t), flags=flags, cxx=cxx,
                                    std=std) for n, t in self.trees.items()}
        build.compile_all(list(self.units.values()))
        build.require(list(self.units.values()))
        rep.cov['trees'] = rep.cov.get('trees', 0) + len(self.trees)
        self.models = {n: model.Model(t) for n, t in self.trees.items()}

    def items(self):
        return [(n, self.trees[n], self.models[n], self.units[n].exe) for n in self.trees]


def want_routes(e):
    return ''.join(f'r{r}(' + ';'.join(v) + ')' for r, v in e.routes)


def verdict(e, o, messages=True):
    """None if the observation agrees with the model, else (key, text)."""
    if e.ok:
        want = want_routes(e)
        if o.status == 'OK' and o.calls == 1 and o.routes == want:
            return None
        return f'ok->{o.status}', 'expected one routed call ' + want
    if o.status == 'PE' and o.calls == 0:
        if not messages or o.msg == model.message(e):
            return None
        return f'{e.code}->message', 'expected error: ' + model.message(e).decode('utf-8', 'replace')
    return f'{e.code}->{o.status}', 'expected error: ' + model.message(e).decode('utf-8', 'replace')


def rand_en(rng, t):
    return ''.join(rng.choice('0111') for _ in range(t.nen)) or '0'


def replay(name, tree, case):
    return (f'tree {name}:\n{describe(tree)}\n\ncase (id en api/root/boom tokens-hex): {case.line()}\n'
            f'tokens: {case.show()}\n')


def watch(rep, o):
    """Account for watchdog expiries; True if the observation is unusable."""
    if o is None or o.status in ('TIMEOUT', 'SKIPPED'):
        rep.inconclusive += 1
        return True
    return False


def differential(rep, bench, n, lines=None, relevant=None, messages=True, apis='rrca', roots='kkf',
                 pmut=.45, tmo=30):
    """Runs n generated lines per tree.  relevant(e, o) limits what counts as a violation."""
    for name, tree, m, exe in bench.items():
        rng = rng_for(rep, 'lines', name)
        ls = lines(rng, tree, n) if lines else gen.lines(rng, tree, n, pmut=pmut)
        cases = []
        for toks in ls:
            api = rng.choice(apis)
            if api == 'a' and any(b'\0' in t for t in toks):
                api = 'r'
            cases.append(run.Case(toks, en=rand_en(rng, tree), api=api, root=rng.choice(roots)))
        obs = run.run_cases(exe, cases, tmo=tmo)
        judge(rep, name, tree, m, cases, obs, messages, relevant)


def exhaustive(rep, bench, name, vocab, k, prefix=(), messages=True, relevant=None, limit=None):
    """Every token sequence over vocab of length 0..k after prefix, compared with the model."""
    import itertools
    tree, m, exe = bench.trees[name], bench.models[name], bench.units[name].exe
    cases = []
    for n in range(k + 1):
        for t in itertools.product(vocab, repeat=n):
            cases.append(run.Case([x.encode() if isinstance(x, str) else x for x in prefix + t],
                                  root='k', api='r'))
    if limit and len(cases) > limit:
        r = rng_for(rep, 'exh', name, str(prefix))
        cases = r.sample(cases, limit)
    else:
        rep.tick('exhaustive_spaces')
    judge(rep, name, tree, m, cases, run.run_cases(exe, cases), messages, relevant)
    rep.tick('small_scope_lines', len(cases))


def judge(rep, name, tree, m, cases, obs, messages=True, relevant=None):
    for c, o in zip(cases, obs):
        if watch(rep, o):
            if o is not None and o.status == 'TIMEOUT':
                rep.violation(f'{name}:hang', 'parse did not terminate: ' + c.show(),
                              replay(name, tree, c))
            continue
        e = m.run(c.toks, c.en)
        rep.count((name, c.en, tuple(c.toks)) if c.toks else None)
        rep.tick('outcome_' + (e.code or 'ok'))
        v = verdict(e, o, messages)
        if v and (relevant is None or relevant(e, o)):
            rep.violation(f'{name}:{v[0]}', f'[{name}] {c.show()}\n   {v[1]}\n   observed {o}',
                          replay(name, tree, c))
        elif len(c.toks) > 2 and zlib.crc32(c.line().encode()) % 97 == 0:
            rep.sample(f'[{name}] {c.show()} => {o}'[:300])


def help_text(o):
    """The text an execution gave: help that was returned or routed, or else the error."""
    m = re.match(r'r\d+\(h:([0-9a-f]*)\)$', o.routes or '')
    return bytes.fromhex(m.group(1)) if m else o.msg


def help_paths(tree):
    """Label sequences leading to every node that help can be asked for."""
    res = [[]]

    def rec(x, p):
        for c in x.children:
            for nm in (['--' + c.long] if c.long else []) + (['-' + c.short] if c.short else []) + \
                    ([c.none] if c.none else []):
                res.append(p + [nm.encode()])
            if c.none:
                rec(c, p + [c.none.encode()])
    rec(tree, [])
    return res


def judge_help(rep, name, tree, hm, cases, obs, cols, wrap):
    """Help text seen at the help router (or returned by root.help()) against the help model."""
    colour = bool(hm.help.fmt)
    for c, o in zip(cases, obs):
        if watch(rep, o):
            if o is not None and o.status == 'TIMEOUT':
                rep.violation(f'{name}:hang', 'help did not terminate: ' + c.show(), replay(name, tree, c))
            continue
        en = [x == '1' for x in c.en] + [False] * 16
        tgt, bad = hm.find(c.toks[1:], en)
        rep.count((name, c.en, cols, tuple(c.toks), c.root == 'h'))
        if tgt is None:
            want = b'Unknown argument: ' + bad.encode('utf-8', 'surrogateescape')
            ok = o.status == 'PE' and o.msg == want and o.calls == 0
            got = o.msg
            rep.tick('unknown_paths')
        else:
            want = hm.text(tgt, en, cols or 0, colour, wrap).encode()
            if c.root == 'h':
                ok, got = o.status == 'HELP' and o.msg == want, o.msg
            elif o.status == 'OK' and o.calls == 1 and 'h:' in o.routes:
                got = bytes.fromhex(o.routes.split('h:')[1][:-1])
                ok = got == want
            else:
                ok, got = False, b''
            rep.tick('help_texts')
            rep.tick('help_lines', want.count(b'\n'))
        if not ok:
            w, g = want.decode('utf-8', 'replace').split('\n'), got.decode('utf-8', 'replace').split('\n')
            diff = [(a, b) for a, b in zip(w + [''] * 99, g + [''] * 99) if a != b][:3]
            rep.violation(f'{name}:help', f'[{name}] columns={cols} {c.show()} -> {o.status}\n   differing lines '
                          f'(expected, observed): {diff}', replay(name, tree, c) + f'columns: {cols}\n')
