"""No token sequence causes undefined behaviour, a crash, a hang, a leak or a foreign exception."""
import concurrent.futures as cf
import os
import random
import re
import subprocess
import tempfile

from vt import build, engine, gen, randtree, run, spec, trees

NASTY = [b'', b'-', b'--', b'---', b'-' * 40, b'=', b'--=', b'-=', b'\0', b'-\0', b'--\0', b'\x80', b'\xff', b'\xc3', b'-\xc3',
         b'--\xe2\x86', b'\xf0\x9f\x91', b'-\xf0\x9f', b'-a\xc3', b'\xe2\x86\x92', b'\xed\xa0\x80', b'\xf8\x88\x80\x80\x80',
         '👩‍👩‍👧‍👦'.encode(), b'-' + '🇬🇧🇩🇪'.encode(), b'-e\xcc\x81\xcc\x81', b'\xef\xbb\xbf--x', b'%n%s', b'{}', b'{, }', b'9' * 400,
         b'1e999', b'-0', b'nan', b'inf', b'0x7f', b'\xd9\xa1']


def hostile(rng, voc):
    r = rng.random()
    if r < .25:
        return rng.choice(NASTY)
    if r < .4:
        return bytes(rng.randrange(256) for _ in range(rng.randint(0, 8)))
    t = rng.choice(voc)
    if r < .55:
        return t + rng.choice(NASTY)
    if r < .65:
        return rng.choice(NASTY) + t
    if r < .8 and t:
        i = rng.randrange(len(t))
        return t[:i] + bytes([rng.randrange(256)]) + t[i + rng.randint(0, 1):]
    if r < .9 and t:
        return t[:rng.randint(0, len(t))]
    return t


def hostile_line(rng, tree, voc):
    r = rng.random()
    if r < .4:
        toks = gen.mutate(rng, gen.valid_line(rng, tree), voc, rng.randint(0, 2))
        for _ in range(rng.randint(1, 3)):
            toks.insert(rng.randint(0, len(toks)), hostile(rng, voc))
        return toks
    if r < .5:
        toks = gen.valid_line(rng, tree)
        if toks:
            i = rng.randrange(len(toks))
            toks[i] = hostile(rng, [toks[i]])
        return toks
    return [hostile(rng, voc) for _ in range(rng.randint(0, 8))]


def fuzz(rep, fz, jobs=3):
    """Several libFuzzer processes with different seeds."""
    runs = rep.scale(9000, 400000) // jobs
    tree = trees.TREES['fuzz']()

    def one(j):
        with tempfile.TemporaryDirectory(prefix='vt_') as d:
            corpus = os.path.join(d, 'corpus')
            os.mkdir(corpus)
            rng = engine.rng_for(rep, 'corpus', j)
            for i in range(100):
                with open(os.path.join(corpus, str(i)), 'wb') as f:
                    f.write(bytes([rng.randrange(4)]) + b'\xf8'.join(gen.valid_line(rng, tree)))
            p = subprocess.run([fz.exe, f'-runs={runs}', f'-seed={rep.seed * 100 + j}', '-max_len=160', '-timeout=25',
                                '-rss_limit_mb=4096', '-artifact_prefix=' + d + '/', '-print_final_stats=1', corpus],
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=d, env={**os.environ, **run.SAN_ENV},
                               timeout=700 if not rep.thorough else 9000)
            art = [x for x in os.listdir(d) if x.startswith(('crash-', 'timeout-', 'oom-', 'leak-'))]
            data = open(os.path.join(d, art[0]), 'rb').read() if art else b''
            return p.returncode, p.stderr.decode('utf-8', 'replace'), data

    with cf.ThreadPoolExecutor(jobs) as ex:
        for rc, err, data in ex.map(one, range(jobs)):
            m = re.findall(r'cov: (\d+) ft: (\d+)', err)
            n = re.search(r'number_of_executed_units: (\d+)', err)
            rep.tick('fuzz_executions', int(n.group(1)) if n else 0)
            rep.cov['fuzz_coverage_edges'] = max(rep.cov.get('fuzz_coverage_edges', 0), int(m[-1][0]) if m else 0)
            rep.evaluations += int(n.group(1)) if n else 0
            if rc != 0:
                rep.violation('fuzz', 'fuzz target failed on ' + repr(data) + '\n' + run._summary(err) + '\n' +
                              '\n'.join(x for x in err.splitlines() if 'MONITOR' in x), data.hex() + '\n' + err[-3000:])


def check(rep):
    rep.rule = ('hostile byte strings as tokens, through every parse overload, under ASan + UBSan with allocation '
                'accounting, under memcheck, and coverage guided; distinct = (tree, tokens)')
    names = ['flags', 'seps', 'groups', 'aliases', 'help0']
    if rep.thorough:
        names += ['multis', 'counts', 'toggles', 'names', 'scalars', 'nested', 'reqs', 'bounds', 'deps', 'rootnodes', 'lists', 'help1']
    fz = build.Unit('fuzz', f'''#include "vt_fuzz.hpp"
static auto make([[maybe_unused]] const bool* en) {{ return {spec.Emit().node(trees.TREES['fuzz']())}; }}
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {{
    static const auto root = make(nullptr);
    return vt::fuzz_one(root, data, size);
}}
''', flags=['-O0', '-g1', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=fuzzer,address,undefined',
            '-fno-sanitize-recover=all', build.SAN[-1]])
    vgs = [build.Unit('vg_' + n, spec.emit_tu(trees.TREES[n]()), flags=['-O0', '-g1']) for n in
           (['aliases'] if not rep.thorough else ['flags', 'groups', 'counts', 'aliases', 'toggles', 'help0'])]
    with cf.ThreadPoolExecutor(1) as ex:
        job = ex.submit(build.compile_all, [fz] + vgs, 3)
        b = engine.Bench(rep, names, rand=rep.scale(0, 16), flags=build.SAN)
        job.result()
    build.require([fz] + vgs)

    pool = cf.ThreadPoolExecutor(1)
    fuzzed = pool.submit(fuzz, rep, fz)

    def status(name, tree, cases, obs):
        for c, o in zip(cases, obs):
            if o is None or o.status == 'SKIPPED':
                rep.inconclusive += 1
                continue
            rep.count((name, tuple(c.toks)) if c.toks else None)
            rep.tick('outcome_' + o.status)
            bad = None
            if o.status in ('CRASH', 'TIMEOUT'):
                bad = o.status.lower()
            elif o.status not in ('OK', 'PE'):
                bad = 'foreign exception'
            elif (o.status == 'OK') != (o.calls == 1):
                bad = f'{o.calls} router calls'
            elif any(x.startswith('LEAK') for x in o.extra):
                bad = 'allocation not released'
            elif 'DIFFERS' in o.extra:
                bad = 'repeated parse differs'
            if bad:
                msg = (o.msg or b'').decode('utf-8', 'replace')
                at = re.search(r'include/arg_router/(\S+?):', msg)
                rep.violation(f'{name}:{bad}:{at.group(1) if at else ""}', f'[{name}] {bad}: {c.show()}\n   {o} {o.extra}',
                              engine.replay(name, tree, c))
            elif len(rep.samples) < 10 and len(c.toks) > 2:
                rep.sample(f'[{name}] {c.show()} => {o}'[:200])

    for name, tree, m, exe in b.items():
        rng = engine.rng_for(rep, 'hostile', name)
        voc = gen.vocab(tree) + [x.none.encode() for x, _ in tree.walk() if x.none]
        cases = []
        for _ in range(rep.scale(1500, 20000)):
            toks = hostile_line(rng, tree, voc)
            api = rng.choice('rrcat')
            if api == 'a':
                toks = [t.replace(b'\0', b'') for t in toks]
            cases.append(run.Case(toks, en=engine.rand_en(rng, tree), api=api, root=rng.choice('kkkf')))
        cases += [run.Case([], api=a, root=r) for a in 'rcatz' for r in 'kf']
        # size extremes
        lab = [v for v in voc if v.startswith(b'-')] or voc
        for n in (200, 2000):
            cases.append(run.Case([rng.choice(lab) for _ in range(n)]))
            cases.append(run.Case([rng.choice(voc)] + [b'x'] * n))
            cases.append(run.Case([b'-' + b'a' * n]))
            cases.append(run.Case([b'--' + 'é'.encode() * n]))
            cases.append(run.Case([rng.choice(voc), b'9' * n]))
        rep.tick('sanitized_parses', len(cases))
        status(name, tree, cases, run.run_cases(exe, cases, tmo=60))

    for u in vgs:
        name = u.name[3:]
        tree = trees.TREES[name]()
        rng = engine.rng_for(rep, 'vg', name)
        voc = gen.vocab(tree)
        cases = [run.Case(hostile_line(rng, tree, voc) if rng.random() < .5 else gen.valid_line(rng, tree),
                          en=engine.rand_en(rng, tree), root=rng.choice('kf')) for _ in range(rep.scale(240, 3000))]
        status(name + ':memcheck', tree, cases, run.run_cases(
            ['valgrind', '-q', '--error-exitcode=9', '--exit-on-first-error=yes', '--track-origins=no',
             '--leak-check=no', u.exe], cases, tmo=300))
        rep.tick('memcheck_parses', len(cases))

    fuzzed.result()
    pool.shutdown()
    rep.need('sanitized_parses', 5000)
    rep.need('fuzz_executions', 4000)
    rep.need('memcheck_parses', 100)
    rep.need('outcome_OK', 500)
