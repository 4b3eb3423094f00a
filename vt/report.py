"""Verdicts: evidence, known findings, replay files, exit codes."""
import json
import os
import sys
import time
import traceback

from .build import HERE, HarnessError

KNOWN = os.path.join(HERE, 'known_findings.txt')


def known_findings(pid):
    """Lines '<property> | <key> | <text>' of open findings."""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if line.startswith('open: '):
                p, key, text = [x.strip() for x in line[6:].split(' | ', 2)]
                if p == 'property=' + pid:
                    res[key] = text
    return res


class Report:
    def __init__(self, pid, level='exploration'):
        self.pid, self.level = pid, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.violations = {}
        self.cov = {}
        self.assumptions = []
        self.rule = ''
        self.inconclusive = 0
        self.minimums = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def scale(self, q, t):
        return t if self.thorough else q

    def count(self, key=None, n=1):
        """One evaluation; key (hashable) identifies the distinct non-trivial observation, or None."""
        self.evaluations += n
        if key is not None:
            self.keys.add(key)

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def tick(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def need(self, name, at_least):
        """The run is inconclusive unless counter `name` reached `at_least`."""
        self.minimums.append((name, at_least))

    def violation(self, key, what, replay=None):
        self.violations.setdefault(key, (what, replay))

    def write(self):
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.keys),
               'rule': self.rule, 'samples': self.samples or ['(none)']}
        cov.update({k: v for k, v in self.cov.items()})
        cov['inconclusive'] = self.inconclusive
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations), 'assumptions': self.assumptions}
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write('\n')

    def finish(self):
        self.write()
        known = known_findings(self.pid)
        new = []
        for key, (what, replay) in self.violations.items():
            if key in known:
                print(f'KNOWN-FINDING: property={self.pid} {known[key]}')
            else:
                new.append((key, what, replay))
        if new:
            d = os.path.join(HERE, 'build', 'replay')
            os.makedirs(d, exist_ok=True)
            for i, (key, what, replay) in enumerate(new[:5]):
                path = os.path.join(d, f'{self.pid}_{i}.txt')
                with open(path, 'w') as f:
                    f.write(f'property {self.pid}\nkey {key}\n{what}\n')
                    if replay:
                        f.write(replay if isinstance(replay, str) else json.dumps(replay, indent=1))
                        f.write('\n')
                print(f'  {key}: {what[:1500]}')
                print(f'VIOLATION property={self.pid} replay={path}')
            print(f'{self.pid}: {len(new)} violations in {self.evaluations} evaluations')
            return 1
        short = [(n, m, self.cov.get(n, 0)) for n, m in self.minimums if self.cov.get(n, 0) < m]
        if short or self.evaluations == 0 or len(self.keys) < 2:
            print(f'{self.pid}: inconclusive, too little was observed: {short} '
                  f'evaluations={self.evaluations} distinct={len(self.keys)}')
            return 2
        if self.inconclusive > max(3, self.evaluations // 100):
            print(f'{self.pid}: inconclusive, {self.inconclusive} watchdog expiries')
            return 2
        print(f'{self.pid}: held on {self.evaluations} evaluations, {len(self.keys)} distinct '
              f'({time.time() - self.t0:.0f}s) {json.dumps(self.cov)[:600]}')
        return 0


def main(pid, fn):
    rep = Report(pid)
    try:
        fn(rep)
        rc = rep.finish()
    except HarnessError as e:
        print(f'{pid}: HARNESS ERROR\n{e}')
        rc = 2
    except Exception:
        traceback.print_exc()
        print(f'{pid}: HARNESS ERROR')
        rc = 2
    sys.stdout.flush()
    return rc
