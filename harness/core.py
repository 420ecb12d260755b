"""Evidence, violations and known findings of one check run."""
import json
import os
import re
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS')


def known_findings():
    """{property: {key: text}} of recorded (unrepaired) defects."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', line)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


class Ctx:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.thorough = self.tier == 'thorough'
        self.deadline = self.t0 + (780 if not self.thorough else 3000)
        self.violations = []
        self.known = known_findings().get(pid, {})
        self.hit_known = {}
        self.cov = dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[])
        self.distinct = set()
        self.assumptions = []
        self.stop_after = 5

    def log(self, *a):
        print(f'[{self.pid} {time.time() - self.t0:6.1f}s]', *a, flush=True)

    def sample(self, s):
        if len(self.cov['samples']) < 4:
            self.cov['samples'].append(s)

    def count(self, key=None, n=1):
        """One more evaluated case; `key` identifies it when it is non-trivial."""
        self.cov['evaluations'] += n
        if key is not None:
            self.distinct.add(key)

    def violate(self, what, replay, key=None):
        """Record a violation; `key` identifies a specific failing input that may
        be listed as a known finding."""
        if key is not None and key in self.known:
            self.hit_known[key] = self.known[key]
            return
        self.violations.append((what, replay))
        self.log('violation:', what[:1500])

    @property
    def enough(self):
        return len(self.violations) >= self.stop_after

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        self.cov['distinct_nontrivial'] = len(self.distinct)
        ev = dict(
            property=self.pid, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick',
            seed=self.seed, level=self.level, coverage=self.cov,
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations),
        )
        p = os.path.join(EVID, f'{self.pid}.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)
        for k, t in self.hit_known.items():
            print(f'KNOWN-FINDING: property={self.pid} {k}: {t}', flush=True)
        if self.violations:
            for i, (what, replay) in enumerate(self.violations[:5]):
                rp = os.path.join(EVID, f'{self.pid}.replay{i}.json')
                with open(rp, 'w') as f:
                    json.dump(dict(property=self.pid, what=what, case=replay), f, default=str)
                print(f'  {what[:2000]}', flush=True)
                print(f'VIOLATION property={self.pid} replay={rp}', flush=True)
            return 1
        self.log(f'held on {self.cov["evaluations"]} evaluations ({self.cov["distinct_nontrivial"]} distinct)')
        return 0


def main_exit(rc):
    sys.stdout.flush()
    os._exit(rc)
