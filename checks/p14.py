"""Concurrent parses of one shared root: no data race, and the outcome of each is what it is alone."""
import concurrent.futures as cf
import os
import re
import subprocess
import tempfile

from vt import build, engine, gen, run, spec, trees


def tu(n, tree):
    return trees.emit_mix(n, tree).replace('"vt_main.hpp"', '"vt_threads.hpp"').replace('vt::run(', 'vt::run_threads(')


def check(rep):
    rep.rule = ('threads replay recorded lines in their own orders on one const root built before they start, with yields '
                'and delays injected inside parsers and routers, under ThreadSanitizer; each outcome must equal the one '
                'obtained alone; distinct = (tree, line) and the overlap count is the number of parses that began while '
                'another was running')
    use = ['groups', 'counters', 'scalars', 'help0', 'aliases'] if not rep.thorough else \
        ['groups', 'counters', 'scalars', 'help0', 'aliases', 'multis', 'deps', 'reqs', 'flags', 'bounds', 'nested', 'toggles',
         'seps', 'counts', 'help1']
    use += ['mix', 'mixml']
    ts = {n: trees.mix() if n.startswith('mix') else trees.TREES[n]() for n in use}
    units = {n: build.Unit('tsan_' + n, tu(n, t), flags=['-O0', '-g1', '-fsanitize=thread'], libs=['-pthread'])
             for n, t in ts.items()}
    build.compile_all(list(units.values()))
    build.require(list(units.values()))

    def one(job):
        n, k = job
        rng = engine.rng_for(rep, 'thr', n, k)
        tree = ts[n]
        cases = [run.Case(t, en='1' * tree.nen, api=rng.choice('rrct'), boom=rng.choice('nnnnbp'))
                 for t in gen.lines(rng, tree, rep.scale(150, 400), pmut=.4)]
        if n.startswith('mix'):
            cases += [run.Case([b'--help'] + p, en='1' * tree.nen) for p in engine.help_paths(tree)[:12]]
        if n.startswith('help'):
            cases = cases[:60] + [run.Case([b'--help'] + p, en='1' * tree.nen) for p in engine.help_paths(tree)[:12]]
        for i, c in enumerate(cases):
            c.cid = i
        with tempfile.TemporaryDirectory(prefix='vt_') as d:
            with open(os.path.join(d, 'in'), 'w') as f:
                f.write('\n'.join(c.line() for c in cases) + '\n')
            env = {**os.environ, 'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'}
            try:
                p = subprocess.run([units[n].exe, 'in', 'out', str([8, 3, 16][k % 3]), str(rep.scale(6, 30))], cwd=d, env=env,
                                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                   timeout=300 if not rep.thorough else 3000)
                rc, err = p.returncode, p.stderr.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired:
                rc, err = 'timeout', ''
            out = open(os.path.join(d, 'out'), errors='replace').read() if os.path.exists(os.path.join(d, 'out')) else ''
        return n, k, cases, rc, err, out

    jobs = [(n, k) for k in range(rep.scale(2, 12)) for n in use]
    with cf.ThreadPoolExecutor(3) as ex:
        for n, k, cases, rc, err, out in ex.map(one, jobs):
            bad = [x for x in out.splitlines() if x.startswith('BAD')]
            done = re.search(r'^DONE\t(\d+)\t(\d+)', out, re.M)
            if rc == 'timeout':
                rep.violation(f'{n}:hang', f'[{n}] threads did not finish')
            elif 'WARNING: ThreadSanitizer' in err:
                i = err.index('WARNING: ThreadSanitizer')
                at = re.findall(r'#\d+ .*?include/(arg_router/\S+?):', err[i:])
                rep.violation(f'{n}:race:{at[0] if at else ""}', f'[{n}] data race\n' + err[i:i + 1500],
                              engine.describe(ts[n]) + '\n' + err[:6000])
            elif rc != 0 or not done:
                rep.violation(f'{n}:died', f'[{n}] rc={rc} ' + run._summary(err), engine.describe(ts[n]) + '\n' + err[:6000])
            for x in bad[:3]:
                f = x.split('\t')
                c = cases[int(f[1])]
                rep.violation(f'{n}:differs', f'[{n}] {c.show()}: alone | concurrent\n   ' + '\t'.join(f[2:])[:600],
                              engine.replay(n, ts[n], c))
            if done:
                rep.count(n=int(done.group(1)))
                rep.keys |= {(n, tuple(c.toks)) for c in cases}
                rep.tick('concurrent_parses', int(done.group(1)))
                rep.tick('overlapping_parses', int(done.group(2)))
                rep.tick('thread_runs')
                rep.sample(f'[{n}] {[8, 3, 16][k % 3]} threads, {len(cases)} lines: {done.group(1)} parses, '
                           f'{done.group(2)} began while another was running')
    rep.need('overlapping_parses', 3000)
