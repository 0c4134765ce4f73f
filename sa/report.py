"""Obligations, verdicts, known findings and evidence."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Broken(Exception):
    """the analysis lost an anchor: error exit, never a verdict"""


def known_findings():
    """{(pid, key): text} for the open findings; fixed entries suppress nothing"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.rstrip('\n')
            if line.startswith('finding: '):
                # finding: property=<id> key=<rule::construct> <text>
                parts = line.split(' ', 3)
                pid = parts[1].split('=', 1)[1]
                key = parts[2].split('=', 1)[1]
                out[(pid, key)] = parts[3] if len(parts) > 3 else ''
    return out


class Report:
    def __init__(self, pid, tier, rule, seed=1):
        self.pid, self.tier, self.rule, self.seed = pid, tier, rule, seed
        self.t0 = time.time()
        self.ob = []            # (rule, construct, status, detail)
        self.analysed = {}
        self.assumptions = []
        self.floor = 1

    def ok(self, rule, construct, detail=''):
        self.ob.append((rule, construct, 'ok', detail))

    def undecided(self, rule, construct, detail):
        self.ob.append((rule, construct, 'undecided', detail))

    def bad(self, rule, construct, detail):
        self.ob.append((rule, construct, 'violated', detail))

    def add(self, rule, construct, status, detail=''):
        if status != 'vacuous':          # a path no representative point takes
            self.ob.append((rule, construct, status, detail))

    def note(self, key, val):
        self.analysed[key] = val

    def count(self, key, n=1):
        self.analysed[key] = self.analysed.get(key, 0) + n

    def finish(self):
        known = known_findings()
        n = len(self.ob)
        bad, und, okn = {}, {}, 0
        for r, c, s, d in self.ob:
            if s == 'ok':
                okn += 1
            elif s == 'undecided':
                und.setdefault((r, c), []).append(d)
            else:
                bad.setdefault((r, c), []).append(d)
        viol, kn = [], []
        for (r, c), ds in sorted(bad.items()):
            key = (r + '::' + c).replace(' ', '_')
            if (self.pid, key) in known:
                kn.append((key, ds))
            else:
                viol.append((key, ds))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rep = os.path.join(VERIF, 'evidence', '%s.report.txt' % self.pid)
        with open(rep, 'w') as f:
            f.write('property %s  tier %s\nrule: %s\n' % (self.pid, self.tier, self.rule))
            f.write('obligations %d, discharged %d, undecided %d, violated %d\n' % (
                n, okn, sum(map(len, und.values())), sum(map(len, bad.values()))))
            for key, ds in viol:
                f.write('\nVIOLATION %s\n' % key)
                for d in ds[:10]:
                    f.write('  %s\n' % d)
            for key, ds in kn:
                f.write('\nKNOWN %s\n  %s\n' % (key, ds[0]))
            for (r, c), ds in sorted(und.items()):
                f.write('\nundecided %s::%s (%d)\n  %s\n' % (r, c, len(ds), ds[0]))
        constructs = sorted({c for _, c, _, _ in self.ob})
        cov = {
            'explanation': self.rule,
            'obligations': n,
            'discharged': okn,
            'undecided': sum(map(len, und.values())),
            'known_finding_obligations': sum(len(ds) for _, ds in kn),
            'constructs': len(constructs),
            'analysed': self.analysed,
            'rules': sorted({r for r, _, _, _ in self.ob}),
            'samples': constructs[:12],
            'undecided_samples': ['%s::%s %s' % (r, c, str(ds[0])[:160]) for (r, c), ds in sorted(und.items())][:8],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'assumptions': self.assumptions, 'violations': len(viol), 'wall_s': round(time.time() - self.t0, 3)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        for key, ds in kn:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[(self.pid, key)] or key))
        print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d known), %d constructs, %.1fs' % (
            self.pid, n, okn, cov['undecided'], sum(map(len, bad.values())), len(kn), len(constructs), time.time() - self.t0))
        if viol:
            for key, ds in viol:
                print('  %s\n      %s' % (key, str(ds[0])[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        if n < self.floor:
            print('analysis broken: only %d obligations (at least %d expected)' % (n, self.floor))
            return 2
        if cov['undecided'] * 2 > n:
            print('analysis broken: more than half of the obligations are undecided')
            return 2
        return 0
