"""Findings, evidence and exit status of one property check."""
import json
import os
import re
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    """A violated obligation: `key` names the construct stably (no line numbers)."""

    def __init__(self, key, msg, sample='', where=()):
        self.key, self.msg, self.sample, self.where = key, msg, sample, list(where)

    def text(self):
        return '%s: %s%s%s' % (self.key, self.msg, ' [%s]' % self.sample if self.sample else '', ' at ' + ', '.join(self.where) if self.where else '')


class Report:
    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.findings = []
        self.undecided = []
        self.analysed = set()
        self.subjects = 0          # things the rule was applied to
        self.facts = 0             # identities decided
        self.points = 0            # valuations
        self.proved = 0            # facts settled syntactically, for all valuations
        self.proved_what = []
        self.samples = []
        self.extra = {}
        self.t0 = time.time()

    def bad(self, key, msg, sample='', where=()):
        if any(f.key == key and f.msg == msg for f in self.findings):
            return
        if sum(1 for f in self.findings if f.key == key) < 3:
            self.findings.append(Finding(key, msg, sample, where))

    def undec(self, key, why):
        self.undecided.append('%s: %s' % (key, why))

    def subject(self, name, **kw):
        self.subjects += 1
        if len(self.samples) < 60:
            d = {'subject': name}
            d.update(kw)
            self.samples.append(d)

    def proof(self, what):
        self.proved += 1
        self.facts += 1
        if len(self.proved_what) < 80:
            self.proved_what.append(what)


def known(prop):
    """Known findings: lines `known: property=<id> key=<construct> <text>`."""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def finish(rep, tier, seed):
    kn = known(rep.prop)
    new, old = [], {}
    for f in rep.findings:
        if f.key in kn:
            old.setdefault(f.key, f)
        else:
            new.append(f)
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = {
        'explanation': 'Static value-flow analysis of the source (no execution). Rule: ' + rep.rule,
        'subjects_analysed': rep.subjects,
        'procedures_analysed': len(rep.analysed),
        'procedures': sorted(rep.analysed)[:200],
        'facts_decided': rep.facts,
        'facts_by_syntactic_identity': rep.proved,
        'identities': rep.proved_what,
        'valuations': rep.points,
        'undecided': rep.undecided[:60],
        'known_findings': sorted(old),
        'violations': [f.text() for f in new],
        'samples': rep.samples,
    }
    cov.update(rep.extra)
    with open(os.path.join(ev, rep.prop + '.json'), 'w') as f:
        json.dump({'property': rep.prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
                   'wall_s': round(time.time() - rep.t0, 3)}, f, indent=1)
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s' % (rep.prop, kn[k]))
    for u in rep.undecided[:10]:
        print('undecided: ' + u)
    if new:
        path = os.path.join(ev, rep.prop + '.replay.txt')
        with open(path, 'w') as f:
            f.write('property %s\nrule: %s\n\n' % (rep.prop, rep.rule))
            for x in new:
                f.write('%s\n  %s\n  valuation: %s\n  where: %s\n\n' % (x.key, x.msg, x.sample, '; '.join(x.where)))
        for x in new:
            print(x.text())
        print('VIOLATION property=%s replay=%s' % (rep.prop, path))
        return 1
    if rep.facts == 0:
        print('no obligation of %s could be decided' % rep.prop)
        return 2
    print('%s: %d subjects, %d facts (%d for all valuations), %d undecided' % (rep.prop, rep.subjects, rep.facts, rep.proved, len(rep.undecided)))
    return 0
