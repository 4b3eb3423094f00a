"""Help layout: description column and wrapping to the terminal, with and without colour."""
import concurrent.futures as cf
import random

from vt import engine, helpmodel, randtree, run


def check(rep):
    rep.rule = ('help text on pseudo terminals of many widths, compared with a reference layout, on streams with any formatting state, '
                'plus checks that no wrapped line exceeds the terminal and that colour changes nothing else; distinct = (tree, width, path)')
    more = {}
    for i in range(rep.scale(2, 16)):
        for col in (False, True):
            more[f'layout{i}{"c" if col else "d"}'] = randtree.rand_help_tree(random.Random(f'{rep.seed}/lay/{i}'), 24,
                                                                          colour=col)
    b = engine.Bench(rep, ['help3', 'help4', 'help5'], more=more)
    seen = {}
    for name, tree, _, exe in b.items():
        hm = helpmodel.HelpModel(tree)
        lab = ('--' + hm.help.long if hm.help.long else '-' + hm.help.short).encode()
        rng = engine.rng_for(rep, 'w' if name.startswith('layout') else name)
        paths = engine.help_paths(tree)
        dc = hm.column_static(tree, bool(hm.help.flat))
        widths = sorted({0, 1, 20, dc, dc + 7, dc + 8, dc + 9, dc + 12, 80, 100, 132, 255, 65535} |
                        {rng.randint(dc, dc + 90) for _ in range(rep.scale(12, 80))})
        work = []
        for cols in widths:
            cases = [run.Case([], root='h', en='1' * max(1, tree.nen))]
            rng2 = random.Random(f'{rep.seed}/{cols}')
            for p in [[]] + rng2.sample(paths, min(len(paths), 4)):
                cases.append(run.Case([lab] + p, en='1' * max(1, tree.nen) if rng2.random() < .6 else
                                      '0' * max(1, tree.nen)))
            work.append((cols, cases))
        with cf.ThreadPoolExecutor(8) as ex:
            results = list(ex.map(lambda w: run.run_cases(exe, w[1], cols=w[0], jobs=1), work))
        for (cols, cases), obs in zip(work, results):
            engine.judge_help(rep, name, tree, hm, cases, obs, cols, helpmodel.wrap_words)
            rep.tick('terminal_widths')
            for c, o in zip(cases, obs):
                if o is None or o.status not in ('OK', 'HELP'):
                    continue
                txt = o.msg if c.root == 'h' else bytes.fromhex(o.routes.split('h:')[1][:-1]) \
                    if 'h:' in o.routes else b''
                for esc in (b'\033[31m', b'\033[32m', b'\033[0m'):
                    txt = txt.replace(esc, b'')
                # the plain and the coloured rendering of the same request
                base = {'help4': 'L', 'help5': 'L'}.get(name, name[:-1] if name.startswith('layout') else None)
                if base:
                    k = (base, cols, c.en, tuple(c.toks), c.root)
                    if k in seen:
                        rep.tick('colour_pairs')
                        if seen[k] != txt:
                            rep.violation(f'{base}:colour', f'{name} {c.show()} columns={cols}: coloured text differs',
                                          engine.replay(name, tree, c))
                    seen.setdefault(k, txt)
                tgt, _ = hm.find(c.toks[1:], [x == '1' for x in c.en] + [False] * 16)
                tdc = hm.column_static(tgt, bool(hm.help.flat) or tgt is not tree) if tgt else 0
                if tgt is not None and cols >= tdc + 8:
                    body = txt.decode('utf-8', 'replace')
                    for fixed in (hm.help.pintro, hm.help.paddendum, hm.help.pname):
                        if fixed:
                            body = body.replace(fixed, '')
                    for ln in body.split('\n'):
                        rep.tick('measured_lines')
                        if helpmodel.width(ln) > cols:
                            rep.violation(f'{name}:overflow', f'{name} {c.show()} columns={cols}: line is wider: {ln!r}',
                                          engine.replay(name, tree, c))
    rep.need('measured_lines', 2000)
    rep.need('colour_pairs', 50)
