"""Policies are called back in the documented life cycle: recorded call traces against a trace specification."""
import re

from vt import build, engine, gen, model, randtree, run, spec, trees
from vt.spec import TYPES, U, arg, counting, flag, fwd, mode, multi, pos, root

EV = re.compile(r'^([pvmcr])(\d+)(?:@(\d+))?(?:=(.*))?$')
# Problems that only the second stage (conversion, missing values, validation) can find
LATE = {'failed_to_parse', 'minimum_value_not_reached', 'maximum_value_exceeded', 'missing_required_argument',
        'mode_requires_arguments', 'argument_has_already_been_set'}


def lifecycle():
    return root(
        mode('go', arg('i32', '--alpha', '-a', default=7), arg('i32', '--sep', '-s', sep='=', default=1),
             counting('u32', '--verbose', '-v'), flag('--flag', '-f'), flag('-g', desc='gg'),
             multi('vec_i32', '--nums', '-n', marker=';', default=[4]), arg('i32', '--zero', '-z', default=0), multi('vec_i32', '--none', cmin=2, cmax=2, default=[]), arg('i32', '--dis', '-d', en=0),
             arg('i32', '--dep', dep=('--alpha',), default=3), arg('i32', '--al', '-A', alias=('--alpha', '--dis')),
             pos('i32', 'ONE', default=2), pos('vec_i32', 'REST', cmin=0, cmax=3)),
        mode('nest', mode('deep', arg('i32', '--alpha', '-a', required=True), multi('vec_i32', '--two', cmin=2, cmax=2),
                          counting('u32', '-v', desc='vv')), arg('i32', '--beta', '-b')),
        mode(None, spec.one_of(arg('i32', '--left', '-l'), arg('i32', '--right', '-r'), default=(0, 5)),
             arg('i32', '--alpha', '-a', default=7), pos('vec_i32', 'ALL')))


def num(i, k):
    return f'traits::integral_constant<{i * 10 + k}>'


def instrument(tree):
    """Attaches the recording policies.  Returns (source of the tree, {id: node}, {id: depth})."""
    ids, depth = {}, {}
    restore = []
    for i, (n, ps) in enumerate(tree.walk()):
        if n.kind in ('root', 'one_of', 'alias_group', 'help'):
            continue
        ids[i], depth[i] = n, len(ps) + 1
        raw = []
        if n.kind != 'mode' or n.none:
            raw += [f'vt::spy_pre_low<{num(i, 2)}>{{}}', f'vt::spy_pre_high<{num(i, 1)}>{{}}',
                    f'vt::spy_pre_mid<{num(i, 3)}>{{}}']
        group = any(p.kind in ('one_of', 'alias_group') for p in ps[:1])
        if n.kind in ('arg', 'multi', 'pos', 'counting') and not n.alias:
            if not group:
                raw += [f'vt::spy_val_low<{num(i, 5)}>{{}}', f'vt::spy_val_high<{num(i, 4)}>{{}}']
            if n.kind != 'counting':
                t = TYPES[n.T].elem or TYPES[n.T]
                raw.append(f'vt::spy_parse<{num(i, 6)},{t.cpp}>{{}}')
            if n.has_default and not group:
                raw.append(f'vt::spy_missing<{num(i, 7)},{n.ty.cpp}>{{{n.ty.lit(n.default)}}}')
                n.has_default = False
                restore.append(n)
        n.raw = tuple(raw)
    src = spec.emit_tu(tree, extra='').replace('#include "vt_main.hpp"', '#include "vt_spy.hpp"')
    for n in restore:
        n.has_default = True
    return src, ids, depth


def holds(v, x):
    return re.search(r'(?:^|[\[,:])(?:[iu]32:)%d(?:[,\]]|$)' % x, v) is not None


class Trace:
    def __init__(self, text):
        self.ev = []
        for w in text.split():
            k, i, d, v = EV.match(w).groups()
            self.ev.append((k, int(i), int(d) if d else None, v))

    def of(self, kinds):
        return [e for e in self.ev if e[0] in kinds]


def judge(tree, mod, ids, depth, c, o, rep):
    """None, or what is wrong with the trace of this parse."""
    t = Trace(o.extra[0][6:] if o.extra else '')
    rep.tick('events', len(t.ev))
    for k in 'pvmc':
        rep.tick('events_' + k, len(t.of(k)))
    # stages in order
    order = ''.join(k for k, *_ in t.ev)
    if not re.match(r'^p*[cvm]*r?$', order):
        return 'stages out of order: ' + order
    # every call belongs to a known node and is given that node and its owner(s)
    for k, i, d, v in t.ev:
        if k != 'r' and (i // 10 not in ids or d < 2 or d > depth[i // 10]):
            return f'{k}{i} called with {d} nodes'
    # policies of a node in priority order, without another node in between
    prev = None
    for k, i, d, v in t.of('p'):
        if i % 10 == 3 and prev != i - 2:
            return f'pre-parse policy of priority 790 of node {i // 10} called out of turn'
        if i % 10 == 2 and prev != i + 1:
            return f'pre-parse policy of priority 50 of node {i // 10} called out of turn'
        prev = i
    en = [x == '1' for x in c.en] + [False] * 16
    for k, i, d, v in t.of('p'):
        n = ids[i // 10]
        if i % 10 == 2 and n.en is not None and not en[n.en]:
            return 'a policy below a disabling one was called'
    vs = t.of('v')
    for j, (k, i, d, v) in enumerate(vs):
        if i % 10 == 5 and (j == 0 or vs[j - 1][1] != i - 1 or vs[j - 1][3] != v):
            return f'validation of node {i // 10} not in priority order'
    bad = [e for e in vs if holds(e[3], 13) or (e[1] % 10 == 5 and holds(e[3], 26))]
    e = mod.run(c.toks, c.en)
    rep.tick('outcome_' + (e.code or 'ok'))
    if bad:
        # a refusal ends the parse there and then, with the refusing policy's error
        k, i, d, v = bad[0]
        if t.ev[-1] != bad[0]:
            return 'the parse went on after a validation refused'
        code = 1001 if i % 10 == 4 else 1002
        want = b'Untranslated error code (%d): %s' % (code, mod.nodetok(ids[i // 10]))
        rep.tick('refusals')
        if o.status != 'PE' or o.calls or o.msg != want:
            return f'expected {want!r}'
        return None
    if not e.ok:
        if o.status != 'PE' or o.calls or o.msg != model.message(e):
            return 'expected ' + model.message(e).decode('utf-8', 'replace')
        if e.code not in LATE and t.of('cvm'):
            return 'conversion began although the command line is rejected'
        return None
    if engine.verdict(e, o):
        return engine.verdict(e, o)[1]
    if order[-1] != 'r' or order.count('r') != 1:
        return 'no call to the router at the end'
    # successful parse: exactly the right conversions, replacements and validations
    target = [n for n, _ in tree.walk() if n.rid == e.routes[0][0] and n.router][0]
    slots = [x for x in target.children if not x.no_result]
    vals = e.routes[0][1]
    back = {id(n): i for i, n in ids.items()}
    seen = set()
    for n, val in zip(slots, vals):
        if id(n) not in back:
            continue
        i = back[id(n)]
        conv = [bytes.fromhex(x[3]) for x in t.ev if x[0] == 'c' and x[1] == i * 10 + 6]
        miss = [x for x in t.ev if x[0] == 'm' and x[1] == i * 10 + 7]
        val4 = [x[3] for x in vs if x[1] == i * 10 + 4]
        val5 = [x[3] for x in vs if x[1] == i * 10 + 5]
        seen |= {i * 10 + 6, i * 10 + 7, i * 10 + 4, i * 10 + 5}
        if n.kind in ('arg', 'multi', 'pos'):
            if n.has_default and bool(miss) == bool(conv):
                if not (n.kind == 'pos' and TYPES[n.T].elem and not conv):
                    return f'node {i}: {len(conv)} conversions and {len(miss)} replacements'
            if len(miss) > 1:
                return f'node {i} replaced {len(miss)} times'
            if conv:
                got = [TYPES[n.T].elem.parse(x) for x in conv] if TYPES[n.T].elem else TYPES[n.T].parse(conv[0])
                if len(conv) != (len(got) if TYPES[n.T].elem else 1) or n.ty.fmt(got) != val:
                    return f'node {i}: conversions {conv} do not make up {val}'
        if n.kind == 'flag' or n.alias:
            continue
        if val4 != val5 or set(val4) != {val}:
            return f'node {i}: validated {val4} / {val5}, delivered {val}'
        if not n.multistage and len(val4) != 1:
            return f'node {i}: validated {len(val4)} times'
    for k, i, d, v in t.of('cvm'):
        if i not in seen and not any(p.kind in ('one_of', 'alias_group') for p in mod.parents[id(ids[i // 10])][:1]):
            return f'{k}{i} called for a node outside the routed mode'
    return None


def focus_tree(r):
    """A random tree of plain nodes holding 32 bit integers."""
    while True:
        t = randtree.rand_tree(r, {'rootkids': False, 'pen': .2})
        if sum(1 for _ in t.walk()) > 14:
            continue
        ok = True
        for n, ps in t.walk():
            if n.kind in ('one_of', 'alias_group', 'fwd', 'help') or n.ename or n.custom or n.vmin is not None or n.vmax is not None:
                ok = False
            if n.T and n.T not in ('i32', 'vec_i32', 'bool', 'u32'):
                vec = bool(TYPES[n.T].elem)
                n.T = 'u32' if n.kind == 'counting' else 'vec_i32' if vec else 'i32'
                if n.has_default and n.kind != 'flag':
                    n.default = r.choice([[3, 4], []]) if vec else r.choice([0, 3])
            if n.kind == 'counting' and n.has_default and not isinstance(n.default, int):
                n.default = 2
        if ok:
            return t


def lines(r, tree, n):
    out = []
    for toks in gen.lines(r, tree, n, pmut=.3, pbad=.01):
        k = r.random()
        num = [i for i, t in enumerate(toks) if re.match(rb'^\d+$', t)]
        for i in num:
            toks[i] = b'%d' % r.choice([1, 2, 3, 5, 8, 13, 26, 40]) if k < .35 else b'%d' % r.choice([1, 2, 3, 5, 8, 40])
        out.append(toks)
    return out


def check(rep):
    rep.rule = ('command lines given to trees whose every node carries recording policies (two or three per phase, in reverse priority '
                'order); the recorded call trace must satisfy the life cycle specification; distinct = (tree, toggles, tokens)')
    ts = {'lifecycle': lifecycle()}
    r = engine.rng_for(rep, 'spy')
    for i in range(rep.scale(3, 16)):
        ts[f'rand{i}'] = focus_tree(r)
    prep = {}
    units = {}
    for n, t in ts.items():
        src, ids, depth = instrument(t)
        prep[n] = (ids, depth, model.Model(t))
        units[n] = build.Unit(n, src)
    build.compile_all(list(units.values()))
    build.require(list(units.values()))
    for n, t in ts.items():
        ids, depth, mod = prep[n]
        r = engine.rng_for(rep, 'spy', n)
        cases = [run.Case(x, en=engine.rand_en(r, t), root=r.choice('kf')) for x in lines(r, t, rep.scale(4000, 20000))]
        for c, o in zip(cases, run.run_cases(units[n].exe, cases)):
            if engine.watch(rep, o):
                continue
            rep.count((n, c.en, tuple(c.toks)))
            v = judge(t, mod, ids, depth, c, o, rep) if o.status in ('OK', 'PE') else 'unexpected end'
            if v:
                rep.violation(f'{n}:{v.split(":")[0][:40]}', f'[{n}] {c.show()}\n   {v}\n   observed {o}\n   trace '
                              f'{o.extra[0][:600] if o.extra else ""}', engine.replay(n, t, c))
    for k in 'pvmc':
        rep.need('events_' + k, 1000)
    rep.need('refusals', 200)
    rep.need('outcome_ok', 1000)
