"""Verdict, evidence and known-findings plumbing shared by all checks."""
import json
import os
import re
import sys
import time

from .project import AnalysisBroken, VERIF

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.findings = []     # (key, text)
        self.undecided = []
        self.units = {}
        self.rule = ''
        self.assumptions = []
        self.floors = []

    def count(self, what, n=1):
        self.units[what] = self.units.get(what, 0) + n

    def ok(self, text=None):
        self.obligations += 1
        self.discharged += 1
        if text and len(self.samples) < 12:
            self.samples.append(text)

    def bad(self, key, text):
        self.obligations += 1
        if (key, text) not in self.findings:
            self.findings.append((key, text))

    def unknown(self, text):
        self.obligations += 1
        self.undecided.append(text)

    def floor(self, what, got, least):
        """the rule must still have something to decide, or the check is broken"""
        self.floors.append((what, got, least))
        if got < least:
            raise AnalysisBroken('%s: only %d %s found, at least %d were confirmed when the rule was written'
                                 % (self.pid, got, what, least))

    def finish(self):
        try:
            known = [k for k in json.load(open(KNOWN))['known'] if k['property'] == self.pid]
        except FileNotFoundError:
            known = []
        viol = []
        used = {}
        for key, text in self.findings:
            hit = [k for k in known if k['key'] == key]
            used[key] = used.get(key, 0) + 1
            if hit and used[key] <= hit[0].get('count', 1):
                if used[key] == 1:
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, hit[0]['what']))
            else:
                viol.append((key, text))
        for u in self.undecided:
            print('note: undecided (not counted as held): ' + u)
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        cov = dict(explanation=self.rule, obligations=self.obligations, discharged=self.discharged,
                   undecided=len(self.undecided), known=len(self.findings) - len(viol), samples=self.samples or ['(none)'],
                   analysed=self.units)
        with open(os.path.join(ev, self.pid + '.json'), 'w') as fh:
            json.dump(dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
                           level='other', coverage=cov, assumptions=self.assumptions,
                           wall_s=round(time.time() - self.t0, 2), violations=len(viol)), fh, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d known; analysed %s; %.1f s' % (
            self.pid, self.obligations, self.discharged, len(self.undecided), len(self.findings) - len(viol),
            ', '.join('%d %s' % (v, k) for k, v in sorted(self.units.items())), time.time() - self.t0))
        if viol:
            d = os.path.join(ev, 'replay')
            os.makedirs(d, exist_ok=True)
            for n, (key, text) in enumerate(viol):
                p = os.path.join(d, '%s-%d.txt' % (self.pid, n))
                with open(p, 'w') as fh:
                    fh.write('rule: %s\nkey: %s\n%s\n' % (self.rule, key, text))
                print(text)
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        return 0
