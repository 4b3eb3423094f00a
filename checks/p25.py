"""All library memory comes from the configured allocator, goes back to it, and a refusal is reported cleanly."""
import concurrent.futures as cf
import os
import subprocess
import tempfile

from vt import build, engine, gen, run, spec, trees

QUICK = ['groups', 'aliases', 'counts', 'deps2', 'scalars', 'help0', 'rootnodes']
BAD_ALLOC = b'St9bad_alloc'.hex()


def check(rep):
    rep.rule = ('lines parsed with the library\'s memory coming from a ledger allocator, then again with each of its requests '
                'refused in turn; distinct = (tree, tokens, refused request)')
    names = QUICK if not rep.thorough else sorted(trees.TREES)
    us = [build.Unit('al_' + n, spec.emit_tu(trees.TREES[n]()).replace('"vt_main.hpp"', '"vt_alloc.hpp"')
                     .replace('vt::run(', 'vt::run_alloc('), flags=build.PLAIN) for n in names]
    build.require(build.compile_all(us))

    def go(w):
        u, n = w
        t = trees.TREES[n]()
        rng = engine.rng_for(rep, 'alloc', n)
        cases = [run.Case(x) for x in gen.lines(rng, t, rep.scale(260, 4000))]
        if any(c.kind == 'help' for c in t.children):
            # cheaper: whole help texts dominate the cost
            cases = cases[:rep.scale(80, 500)] + [run.Case([], root='h')] + [run.Case([b'--help'] + p) for p in engine.help_paths(t)[:6]]
        for i, c in enumerate(cases):
            c.cid = i
        with tempfile.TemporaryDirectory(prefix='vt_') as d:
            with open(d + '/in', 'w') as f:
                f.write('\n'.join(c.line() for c in cases) + '\n')
            try:
                p = subprocess.run([u.exe, d + '/in', d + '/out'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                   timeout=rep.scale(300, 6000), env={**os.environ, **run.SAN_ENV})
                rc, err = p.returncode, p.stderr.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired:
                rc, err = 'timeout', ''
            out = open(d + '/out').read().split('\n') if os.path.exists(d + '/out') else []
        return n, cases, rc, err, out

    with cf.ThreadPoolExecutor(8) as ex:
        for n, cases, rc, err, out in ex.map(go, zip(us, names)):
            end = None
            seen = 0
            for ln in out:
                f = ln.split('\t')
                if f[0] == 'END':
                    end = f
                    continue
                if len(f) < 8 or not f[5].startswith('N'):
                    # columns: id calls routes status msg N F S extras (msg may be empty)
                    if ln:
                        rep.inconclusive += 1
                    continue
                seen += 1
                c = cases[int(f[0])]
                req, ref, surv = int(f[5][1:]), int(f[6][1:]), int(f[7][1:])
                rep.count((n, tuple(c.toks)), 1 + ref)
                rep.keys |= {(n, tuple(c.toks), i) for i in range(ref)}
                rep.tick('requests', req)
                rep.tick('refused', ref)
                rep.tick('outcome_' + f[3])
                helped = '(h:' in f[2] or f[3] == 'HELP'
                for x in f[8:]:
                    kind = x[:7]
                    if kind == 'REFUSED' and helped and ('HELP' in x or '(h:' in x) and (
                            ' HELP ' in x or ' OK' in x or x.endswith('h:')):
                        # a standard stream swallows its buffer's exception: the text is cut short
                        rep.tick('help_text_cut_by_refusal')
                        continue
                    what = {'LEFT': 'blocks left after the parse', 'REFUSED': 'a refused request is not reported as std::bad_alloc',
                            'ROUTED': 'router called although the parse failed', 'LEAK': 'a refused request leaks',
                            'AFTER': 'the next parse after a refusal differs',
                            'BLOCK': 'block returned wrongly'}
                    k = next((v for a, v in what.items() if x.startswith(a)), x)
                    rep.violation(f'{n}:{k}', f'[{n}] {k} ({x[:200]}): {c.show()}', f'{n}\n{c.show()}\n{ln[:3000]}')
                if seen % 97 == 5 and len(rep.samples) < 10:
                    rep.sample(f'[{n}] {c.show()} => {req} requests, {ref} refused, {surv} without effect')
            if rc == 'timeout':
                rep.inconclusive += 1
            elif end is None or rc != 0:
                c = cases[seen] if seen < len(cases) else None
                rep.violation(f'{n}:died', f'[{n}] process ended ({rc}) when a request was refused: {c and c.show()}\n{err[-600:]}',
                              f'{n}\n{c and c.show()}\n{err[-3000:]}')
            elif end[1] != '0':
                rep.violation(f'{n}:live', f'[{n}] {end[1]} of {end[2]} blocks never returned', f'{n}\n{end}')
            else:
                rep.tick('blocks_returned', int(end[2]))
    rep.need('refused', 3000)
    rep.need('outcome_OK', 100)
