"""P07: documented forms are accepted through the umbrella import, and array forms act element by element."""
from . import witness
from .lift import lifted
from .opcheck import OpEngine, check_op
from .check_ops import merge_op
from .report import Report
from .par import parmap

RULE = ('(1) every documented form type-checks in a program that uses the umbrella module only (type-checker witnesses); '
        '(2) for array arguments of any extent, mixed kinds and scalar operands spread over arrays, the value of each element and the adjoint of every variable equal those of the element-wise definition')


def run(prop, repo, tier, seed):
    rep = Report(prop, RULE)
    eng = OpEngine(OpEngine.load(repo))
    ops = lifted(tier)
    n = {'quick': 15, 'thorough': 150}[tier]

    def one(op):
        if op is None:
            r = Report(prop, RULE)
            witness.check(repo, r)
            return r
        return check_op(eng, op, seed, n, ('value', 'adj', 'abort', 'bounds'))
    res = parmap(one, [None] + ops, timeout=240 if tier == 'quick' else 700)
    st, w = res[0]
    if st == 'error':
        rep.undec('witnesses', w.strip().splitlines()[-1] if w.strip() else 'failed')
    else:
        rep.facts += w.facts
        rep.findings += w.findings
        rep.undecided += w.undecided
        rep.extra.update(w.extra)
        rep.subjects += w.subjects
        rep.samples += w.samples
    for op, (st, r) in zip(ops, res[1:]):
        merge_op(rep, op, st, r, ('value', 'adj', 'abort', 'bounds', 'stale'))
    return rep
