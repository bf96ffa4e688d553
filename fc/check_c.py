"""Entry point of the checks of the bundled solver library."""
import importlib
import re
import threading
from fa.report import Report
from fa.par import parmap
from . import kit
from .kit import prog, sizes, size_consts

MODS = {'P58': 'wrap', 'P61': 'hidden', 'P50': 'vec', 'P51': 'dense', 'P52': 'multistep', 'P53': 'output', 'P54': 'weights', 'P55': 'stepctl', 'P56': 'newton', 'P57': 'options', 'P60': 'own', 'P62': 'start', 'P65': 'driver', 'P64': 'linear', 'P66': 'sensdq', 'P67': 'roots'}


def task(prop, name, fn, rule):
    r = Report(prop, rule)
    try:
        fn(r)
    except Exception as e:
        # what is already certain is reported; the rest of the task is not decided
        if isinstance(e, kit.Diverges):
            r.bad(name, 'a loop does not end', '', [str(e)])
        for what, site in kit.DEFINITE[:3]:
            r.bad(name, what, '', [kit.site_text(site)])
        why = str(e) if isinstance(e, kit.Unsupported) else '%s: %s' % (type(e).__name__, e)
        r.undec(name, why)
        r.crash = not isinstance(e, kit.Unsupported)
    r.analysed = getattr(r, 'analysed', set())
    return r


# what the ODE properties of the Fortran layer rest on inside the bundled solver: (module, pattern of task names, one task in so many)
RESTS = {
    'P27': [('P58', 'nvector|callbacks', 1), ('P50', '', 2)],
    'P28': [('P62', '', 1), ('P58', 'callbacks|fcvodes', 1)],
    'P29': [('P53', '', 1), ('P65', '', 1), ('P52', '', 2), ('P64', '', 2), ('P54', '', 2), ('P55', '', 4), ('P56', '', 4), ('P50', '', 2), ('P51', '', 1)],
    'P30': [('P65', '', 1), ('P62', '', 1), ('P57', '', 1), ('P64', '', 2), ('P55', '', 4), ('P56', '', 4)],
    'P31': [('P60', '', 1)],
    'P32': [('P57', '', 1), ('P62', '', 1), ('P54', '', 1), ('P65', '', 1), ('P58', 'callbacks|fcvodes', 1)],
}


def collect(rep, prop, mods, tier, seed):
    P = prog()
    for e in P.errors:
        rep.undec('front end', e)
    tasks = []
    for mod, pat, step in mods:
        m = importlib.import_module('fc.' + MODS[mod])
        sel = [t for t in m.tasks(tier, seed) if re.search(pat, t[0])]
        tasks += [(t[0], t[1], m.RULE) for t in sel[seed % step::step]]
    res = parmap(lambda t: task(prop, *t), tasks, timeout=200 if tier == 'quick' else 700)
    rep.analysed = rep.analysed or set()
    for (name, _, _), (st, r) in zip(tasks, res):
        if st == 'error':
            rep.undec(name, r.strip().splitlines()[-1] if r.strip() else 'failed')
            continue
        rep.subject(name, facts=r.facts, undecided=len(r.undecided))
        rep.facts += r.facts
        rep.points += r.points
        rep.proved += r.proved
        rep.undecided += r.undecided
        rep.analysed |= r.analysed
        for f in r.findings:
            if not any(g.key == f.key and g.msg == f.msg for g in rep.findings) and len(rep.findings) < 40:
                rep.findings.append(f)


def extend(rep, prop, tier, seed):
    """the part of an ODE property that the solver library has to keep"""
    if prop in RESTS:
        rep.rule += '; in the bundled solver: ' + '; '.join(importlib.import_module('fc.' + MODS[m]).RULE for m, _, _ in RESTS[prop])
        collect(rep, prop, RESTS[prop], tier, seed)
    return rep


def run(prop, repo, tier, seed):
    m = importlib.import_module('fc.' + MODS[prop])
    rep = Report(prop, m.RULE)
    rep.lang = 'bundled C'
    collect(rep, prop, [(prop, '', 1)], tier, seed)
    return rep
