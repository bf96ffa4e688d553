"""P01-P06: value, derivative and non-interference of every operation."""
from . import ops
from .opcheck import *
from .report import Report
from .par import parmap

SETS = {
    'P01': (ops.UNARY, ('adj', 'bounds'), ('adj', 'stale', 'bounds'),
            'for an arbitrary tape and argument, the adjoint of every recorded variable after the registered propagation rules have run equals its '
            'start value plus seed times the derivative of the documented function (central difference at 60+ digits of the definition)'),
    'P02': (ops.BINARY, ('adj', 'bounds'), ('adj', 'stale', 'bounds'),
            'as for unary functions, for every mixture of variable and plain arguments, including aliased arguments and neutral constants'),
    'P03': (ops.ARRAY, ('value', 'adj', 'abort', 'bounds'), ('value', 'adj', 'stale', 'abort', 'bounds'),
            'for every array extent (including zero), the value equals the definition and every element of every variable argument receives seed times partial derivative'),
    'P04': (ops.LPDF, ('value', 'adj', 'abort', 'bounds'), ('value', 'adj', 'stale', 'abort', 'bounds'),
            'log density value and partial derivatives equal the documented density summed over the data, for every data length'),
    'P05': (ops.UNARY + ops.BINARY + ops.REALOPS, ('value', 'abort'), ('value', 'abort'),
            'the value of the result equals the documented function on every branch, and no error stop is reachable inside the domain'),
    'P14': (ops.UNARY + ops.BINARY + ops.ARRAY + [o for o in ops.LPDF if not o.real], ('inert',), ('inert',),
            'the machine state after the registered propagation rules have run differs from the state before only in the adjoint cells of recorded nodes: '
            'heads, sizes, registry (location and rule of every node, old and new) and every other tape cell are the same'),
    'P06': (ops.UNARY + ops.BINARY + ops.ARRAY + [o for o in ops.LPDF if not o.real], ('disturb',), ('disturb',),
            'below the heads, the node registry (location and propagation rule of each node) and every tape cell are the same before and after the operation'),
}


INERT = {'i': 'locations of all nodes identical before and after the sweep', 'chain': 'propagation rules of all nodes identical before and after the sweep',
         'heads': 'number of nodes identical before and after the sweep', 'tapehead': 'number of tape cells identical before and after the sweep', 'size': 'tape size identical before and after the sweep'}


def run(prop, repo, tier, seed):
    opl, want, kinds, rule = SETS[prop]
    rep = Report(prop, rule)
    eng = OpEngine(OpEngine.load(repo))
    np_ = {'quick': 140, 'thorough': 1500}[tier] if prop != 'P03' else {'quick': 60, 'thorough': 400}[tier]

    def one(op):
        return check_op(eng, op, seed, np_, want)
    for op, (st, r) in zip(opl, parmap(one, opl, timeout=700 if tier == 'thorough' else 300)):
        merge_op(rep, op, st, r, kinds)
    if prop in ('P01', 'P02', 'P03', 'P04', 'P14'):
        rl = rules(eng.prog)
        rep.extra['propagation_rules_analysed'] = [k for k in rl if k in rep.analysed]
        if prop == 'P14':
            rep.extra['propagation_rules_not_reached'] = [k for k in rl if k not in rep.analysed]
    return rep


def merge_op(rep, op, st, r, kinds):
    if st == 'error':
        rep.undec(op.name, r.strip().splitlines()[-1] if r.strip() else 'failed')
        return
    if r.undecided:
        rep.undec(op.name, r.undecided)
    rep.analysed |= set(p for p in r.procs if not p.startswith('hz_'))
    rep.facts += r.facts
    rep.points += r.points
    for p in r.proved:
        rep.proof('%s: %s' % (op.name, INERT[p] if 'inert' in kinds else {'i': 'locations of earlier nodes unchanged', 'chain': 'propagation rules of earlier nodes unchanged', 'S': 'cells of earlier records unchanged'}[p]))
    rep.subject(op.name, form=op.expr, args=' '.join('%s:%s%s' % (n, 'var' if k == 'v' else 'real', list(d) or '') for n, k, d, _ in op.args),
                valuations=r.points, facts=r.facts, guard_sides_exercised='%d/%d' % r.guards)
    for f in r.findings:
        if f.kind in kinds:
            rep.bad(op.name, f.msg, f.sample, f.where)


def rules(prog):
    """Subroutines that can serve as propagation rules: one node argument, outside the registry module."""
    out = []
    for m in prog.modules.values():
        if m.name.startswith('hz_') or m.name == 'fazang_vari_mod':
            continue
        for p in m.procs.values():
            d = p.decls.get(p.args[0]) if len(p.args) == 1 else None
            if not p.isfunc and d is not None and d.ts.base == 'class' and d.ts.name == 'vari':
                out.append(p.key)
    return sorted(out)
