"""P07, second half: element-wise value and derivative of every elemental operation on arrays."""
from .ops import UNARY, BINARY, Op


def idx(dims, sizes):
    if len(dims) == 1:
        return [(i,) for i in range(sizes[dims[0]])]
    return [(i, j) for i in range(sizes[dims[0]]) for j in range(sizes[dims[1]])]


def get(x, ix):
    for i in ix:
        x = x[i]
    return x


def build(vals, dims, sizes):
    if len(dims) == 1:
        return [vals[(i,)] for i in range(sizes[dims[0]])]
    return [[vals[(i, j)] for j in range(sizes[dims[1]])] for i in range(sizes[dims[0]])]


def lift(op, ranks, tag):
    """op with the arguments of the given ranks (0, 1 or 2)."""
    full = ('m', 'n')
    dd = [full[:r] if r != 1 else ('n',) for r in ranks]
    res = max(dd, key=len)
    args = [(n, k, d, dom) for (n, k, _, dom), d in zip(op.args, dd)]

    def one(a, ix):
        return {n: (get(a[n], ix) if d else a[n]) for (n, k, d, dom) in args}

    def f(a):
        sz = {d: a['#' + d] for d in res}
        out = {}
        for ix in idx(res, sz):
            out[ix] = op.f(one(a, ix))
        return build(out, res, sz)

    def all_ok(fn):
        if fn is None:
            return None

        def g(a):
            sz = {d: a['#' + d] for d in res}
            return all(fn(one(a, ix)) for ix in idx(res, sz))
        return g
    return Op(op.name + tag, op.expr, args, f, res=res, ok=all_ok(op.ok), okv=all_ok(op.okv), tol=op.tol, use='use fazang')


def lifted(tier):
    out = []
    for op in UNARY:
        if op.name == 'plus':
            continue
        out.append(lift(op, (1,), '_1d'))
        if tier != 'quick' or op.name in ('sin', 'neg', 'abs', 'acosh', 'inv'):
            out.append(lift(op, (2,), '_2d'))
    for op in BINARY:
        for r, t in (((1, 1), '_11'), ((0, 1), '_01'), ((1, 0), '_10')):
            out.append(lift(op, r, t))
        if tier != 'quick' or op.name in ('add_vv', 'mul_vd', 'pow_vd'):
            for r, t in (((2, 2), '_22'), ((0, 2), '_02'), ((2, 0), '_20')):
                out.append(lift(op, r, t))
    return out
