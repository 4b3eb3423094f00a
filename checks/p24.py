"""The carriers of tokens and values behave as plain sequences and values under any history of operations."""
import concurrent.futures as cf
import os
import subprocess

from vt import build, run

MACHINES = ['tokens', 'any8', 'any16', 'any48', 'view', 'target']


def check(rep):
    rep.rule = ('random operation histories on the token adapter, type erased value, dynamic string view and parse target, compared '
                'after every operation with standard containers, live object and owner counts, under ASan and UBSan; distinct = '
                'abstract states (contents kinds and recent operations)')
    u = build.Unit('carriers', '#include "vt_carriers.hpp"\nint main(int c, char** v) { return vt::carriers(c, v); }\n', flags=build.SAN)
    build.require(build.compile_all([u]))
    work = [(m, rep.seed * 1000 + i) for m in MACHINES for i in range(rep.scale(6, 60))]

    def go(w):
        try:
            p = subprocess.run([u.exe, w[0], str(w[1]), str(rep.scale(3000, 20000))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600,
                               env={**os.environ, **run.SAN_ENV})
            return p.returncode, p.stdout.decode(), p.stderr.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            return 'timeout', '', ''
    with cf.ThreadPoolExecutor(8) as ex:
        for (m, s), (rc, out, err) in zip(work, ex.map(go, work)):
            f = out.strip().split('\t')
            if rc == 'timeout':
                rep.inconclusive += 1
            elif rc != 0:
                rep.violation(f'{m}:crash', f'{m} seed {s}: {run._summary(err)}', f'{m} {s}\n{err[:6000]}')
            elif f[0] == 'BAD':
                what, trace = (bytes.fromhex(x).decode('utf-8', 'replace') for x in f[2:4])
                rep.violation(f'{m}:{what}', f'{m} seed {s}: {what} after: {trace[-300:]}', f'{m} {s}\n{what}\n{trace}')
            else:
                rep.count((m, s), int(f[2]))
                rep.keys |= {(m, s, i) for i in range(int(f[3]))}
                rep.tick('operations_' + m, int(f[2]))
                rep.tick('states_' + m, int(f[3]))
                rep.sample(f'{m} seed {s}: {f[2]} operations, {f[3]} distinct states, no disagreement')
    for m in MACHINES:
        rep.need('operations_' + m, 10000)
