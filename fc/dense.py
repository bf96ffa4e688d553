"""P51: dense matrices and the dense direct solver."""
import itertools
import numpy as np
from .kit import *

RULE = ('for every shape analysed, each dense matrix operation stores exactly the documented entries (column-major) and touches nothing else; '
        'after factorisation and solution of an n by n system the result satisfies A x = b for every nonsingular A and b, with row exchanges keeping all '
        'multipliers at most one in magnitude, and a factorisation that meets no usable pivot is reported')


class M:
    def __init__(self):
        self.k = K()

    def mat(self, m, n, name=None):
        k = self.k
        A = k.call('SUNDenseMatrix', m, n, k.ctx())
        if name:
            d = k.call('SUNDenseMatrix_Data', A)
            for i in range(m):
                for j in range(n):
                    k.st('double', k.f('%s%d%d' % (name, i, j)), d, 8 * (j * m + i))
        return A

    def ent(self, A, m, n):
        """entries read through the column access functions"""
        k = self.k
        return [[k.ld('double', k.call('SUNDenseMatrix_Column', A, j), 8 * i) for j in range(n)] for i in range(m)]


def mats(e, name, m, n):
    return np.array([[np.asarray(e['%s%d%d' % (name, i, j)], dtype=F) for j in range(n)] for i in range(m)])   # m n pts


def solve(A, b):
    """A: n n pts, b: n pts, long double elimination with pivoting"""
    A, b = A.copy(), b.copy()
    n, p = b.shape
    ix = np.arange(p)
    for k in range(n):
        l = k + np.argmax(np.abs(A[k:, k]), axis=0)
        rk = A[k].copy()
        A[k] = A[l, :, ix].T
        A[l, :, ix] = rk.T
        bk = b[k].copy()
        b[k] = b[l, ix]
        b[l, ix] = bk
        for i in range(k + 1, n):
            with np.errstate(all='ignore'):
                f = A[i, k] / A[k, k]
            A[i] -= f * A[k]
            b[i] -= f * b[k]
    x = np.zeros_like(b)
    with np.errstate(all='ignore'):
        for i in range(n - 1, -1, -1):
            x[i] = (b[i] - sum(A[i, j] * x[j] for j in range(i + 1, n))) / A[i, i]
    return x


def singularise(n, name='a'):
    def pre(env, rng):
        m = len(env['%s00' % name])
        kind = rng.integers(0, 8, m)
        c = rng.integers(0, n, m)
        for j in range(n):
            for i in range(n):
                nm = '%s%d%d' % (name, i, j)
                v = env[nm]
                v = np.where((kind == 0) & (c == j), F(0), v)          # zero column
                v = np.where((kind == 1) & (c == i), F(0), v)          # zero row
                v = np.where((kind == 2) & (rng.random(m) < .5), F(0), v)  # sparse
                v = np.where((kind == 3) & (i == j), F(0), v)          # zero diagonal
                env[nm] = v
        if n > 1:
            for j in range(n):
                env['%s1%d' % (name, j)] = np.where(kind == 4, env['%s0%d' % (name, j)], env['%s1%d' % (name, j)])
        return env
    return pre


def rank_def(e, n, name='a'):
    A = mats(e, name, n, n)
    p = A.shape[2]
    s = np.zeros(p, bool)
    B = A.astype(float)
    for q in range(p):
        s[q] = np.linalg.matrix_rank(B[:, :, q]) < n
    return s


def tasks(tier, seed):
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)] if tier == 'quick' else [(m, n) for m in range(1, 6) for n in range(1, 6)]
    cap = 40
    out = []
    A_, npts = sym('c'), 150 if tier == 'quick' else 1000

    def shp(fns):
        s = list(shapes)
        for c in sizes(fns, (), cap):
            if c > 3:
                s.append((c, c))
        return s

    def ops(rep):
        for m, n in shp(['SUNMatScaleAdd_Dense', 'SUNMatScaleAddI_Dense', 'SUNMatCopy_Dense', 'SUNMatZero_Dense', 'SUNMatMatvec_Dense']):
            rng = [(i, j) for i in range(m) for j in range(n)]

            def unchanged(w, X, nm):
                return [('entry (%d,%d) of %s' % (i, j, nm), w.ent(X, m, n)[i][j], sym('%s%d%d' % (nm, i, j))) for i, j in rng]
            key = ' of a %d by %d matrix' % (m, n)
            for f in ('SUNMatScaleAdd', 'SUNMatCopy', 'SUNMatClone', 'SUNMatZero', 'SUNMatScaleAddI', 'SUNMatMatvec', 'access'):
                w = M()
                A = w.mat(m, n, 'a')
                k = w.k
                if f == 'SUNMatScaleAdd':
                    B = w.mat(m, n, 'b')
                    r = k.call(f, A_, A, B)
                    E = w.ent(A, m, n)
                    ps = [('entry (%d,%d)' % (i, j), E[i][j], (lambda i, j: lambda e: e['c'] * e['a%d%d' % (i, j)] + e['b%d%d' % (i, j)])(i, j)) for i, j in rng] + unchanged(w, B, 'b')
                elif f == 'SUNMatCopy':
                    B = w.mat(m, n, 'b')
                    r = k.call(f, A, B)
                    E = w.ent(B, m, n)
                    ps = [('entry (%d,%d)' % (i, j), E[i][j], sym('a%d%d' % (i, j))) for i, j in rng] + unchanged(w, A, 'a')
                elif f == 'SUNMatClone':
                    B = k.call(f, A)
                    r = 0
                    ps = [('rows', k.call('SUNDenseMatrix_Rows', B), m), ('columns', k.call('SUNDenseMatrix_Columns', B), n),
                          ('storage of its own', k.call('SUNDenseMatrix_Data', B) != k.call('SUNDenseMatrix_Data', A), True)] + unchanged(w, A, 'a')
                    ps += [('entry (%d,%d)' % (i, j), w.ent(B, m, n)[i][j], 0.0) for i, j in rng]
                elif f == 'SUNMatZero':
                    r = k.call(f, A)
                    ps = [('entry (%d,%d)' % (i, j), w.ent(A, m, n)[i][j], 0.0) for i, j in rng]
                elif f == 'SUNMatScaleAddI':
                    r = k.call(f, A_, A)
                    E = w.ent(A, m, n)
                    ps = [('entry (%d,%d)' % (i, j), E[i][j], (lambda i, j: lambda e: e['c'] * e['a%d%d' % (i, j)] + (i == j))(i, j)) for i, j in rng]
                elif f == 'SUNMatMatvec':
                    x, y = k.vec(n, 'x'), k.vec(m, 'y')
                    r = k.call(f, A, x, y)
                    yv = k.data(y, m)
                    ps = [('component %d' % i, yv[i], (lambda i: lambda e: sum(e['a%d%d' % (i, j)] * e['x%d' % j] for j in range(n)))(i)) for i in range(m)]
                    ps += unchanged(w, A, 'a') + [('argument component %d' % j, k.data(x, n)[j], sym('x%d' % j)) for j in range(n)]
                else:
                    r = 0
                    cp = k.call('SUNDenseMatrix_Cols', A)
                    d = k.call('SUNDenseMatrix_Data', A)
                    ps = [('rows', k.call('SUNDenseMatrix_Rows', A), m), ('columns', k.call('SUNDenseMatrix_Columns', A), n),
                          ('entries stored', k.call('SUNDenseMatrix_LData', A), m * n), ('id', k.call('SUNMatGetID', A), 0)]
                    ps += [('column %d' % j, k.call('SUNDenseMatrix_Column', A, j) == P(d.o, 8 * j * m), True) for j in range(n)]
                    ps += [('column table %d' % j, k.ld('ptr', cp, 8 * j) == P(d.o, 8 * j * m), True) for j in range(n)]
                decide(rep, f + key, k, ps + [('status', r, 0)], seed, npts, rtol=1e-12, atol=1e-13)
        # shapes that do not match are refused
        for (m, n), (p, q) in (((2, 3), (3, 2)), ((2, 2), (2, 3)), ((2, 2), (3, 2))):
            for f in ('SUNMatCopy', 'SUNMatScaleAdd'):
                w = M()
                A, B = w.mat(m, n, 'a'), w.mat(p, q, 'b')
                r = w.k.call(f, A, B) if f == 'SUNMatCopy' else w.k.call(f, A_, A, B)
                decide(rep, '%s of %dx%d and %dx%d' % (f, m, n, p, q), w.k, [('is refused', not_(icmp('eq', r, 0)), True)] +
                       [('left operand entry', w.ent(A, m, n)[i][j], sym('a%d%d' % (i, j))) for i in range(m) for j in range(n)] +
                       [('right operand entry', w.ent(B, p, q)[i][j], sym('b%d%d' % (i, j))) for i in range(p) for j in range(q)], seed, 20)
    out.append(('dense matrix operations', ops))

    def lu(n, raw):
        def go(rep):
            for alias in (False, True):
                w = M()
                k = w.k
                A = w.mat(n, n, 'a')
                b = k.vec(n, 'b')
                if raw:
                    cols = k.call('SUNDenseMatrix_Cols', A)
                    pv = k.buf(8 * n, 'pivots')
                    r = k.call('SUNDlsMat_denseGETRF', cols, n, n, pv)
                    k.when(icmp('eq', r, 0), True)
                    F_ = w.ent(A, n, n)
                    k.call('SUNDlsMat_denseGETRS', cols, n, pv, k.call('N_VGetArrayPointer', b))
                    x = k.data(b, n)
                    s = 0
                    keep = []
                    last = None
                else:
                    LS = k.call('SUNLinSol_Dense', b, A, k.ctx())
                    ini = k.call('SUNLinSolInitialize', LS)
                    r = k.call('SUNLinSolSetup', LS, A)
                    last = k.call('SUNLinSolLastFlag', LS)
                    k.when(icmp('eq', r, 0), True)
                    F_ = w.ent(A, n, n)
                    xv = b if alias else k.vec(n)
                    ok = icmp('eq', r, 0)
                    s = k.call('SUNLinSolSolve', LS, A, xv, b, sym('tol'))
                    x = k.data(xv, n)
                    keep = [] if alias else [('right-hand side component %d' % i, k.data(b, n)[i], sym('b%d' % i)) for i in range(n)]
                    keep += [('status of solution', s, 0), ('status of initialisation', ini, 0)]
                key = '%s system of order %d%s' % ('raw dense' if raw else 'dense', n, ' in place' if alias else '')
                pre = singularise(n)
                cache = {}

                def xs(i):
                    def f(e):
                        if 'x' not in cache:
                            cache['x'] = solve(mats(e, 'a', n, n), np.array([e['b%d' % j] for j in range(n)]))
                        return cache['x'][i]
                    return f

                nons = lambda e: ~rank_def(e, n)
                decide(rep, key, k, [('solution component %d' % i, x[i], xs(i)) for i in range(n)] + keep + [('factorisation succeeds', icmp('eq', r, 0), True)] + (
                    [('last flag', last, 0)] if last is not None else []),
                       seed, npts, rtol=1e-8, atol=1e-12, pre=pre, assume_=nons, relate=False, conds=False)
                below = [('multiplier (%d,%d) is at most one' % (i, j), fcmp('fle', fn('fabs', F_[i][j]), 1.0000001), True) for j in range(n) for i in range(j + 1, n)]
                if below:
                    decide(rep, key, k, below, seed + 1, npts, pre=pre, assume_=nons, relate=False)
                decide(rep, key, k, [('a matrix without a usable pivot is reported', icmp('eq', r, 0), False)], seed + 2, npts, pre=pre,
                       assume_=lambda e: zero_pivot(e, n), relate=False, faults=False, conds=False)
                if raw:
                    break
        return go

    def zero_pivot(e, n):
        """zero column, zero row or two equal rows (exactly singular also in floating point)"""
        A = mats(e, 'a', n, n)
        z = (np.all(A == 0, axis=0)).any(axis=0) | (np.all(A == 0, axis=1)).any(axis=0)
        return z
    for n in ((1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6)):
        for raw in (False, True):
            out.append(('%s LU order %d' % ('raw' if raw else 'SUNLinSol', n), lu(n, raw)))

    def refuse(rep):
        for what in ('not square', 'length'):
            w = M()
            k = w.k
            A = w.mat(2, 3 if what == 'not square' else 2)
            y = k.vec(2 if what == 'not square' else 3)
            r = k.call('SUNLinSol_Dense', y, A, k.ctx())
            decide(rep, 'dense solver for a system that does not fit (%s)' % what, k, [('is refused', r == NULL, True)], seed, 5)
        for m, n in ((0, 1), (1, 0), (-1, 2)):
            w = M()
            decide(rep, 'dense matrix %d by %d' % (m, n), w.k, [('is refused', w.k.call('SUNDenseMatrix', m, n, w.k.ctx()) == NULL, True)], seed, 5)
    out.append(('refusals', refuse))

    def direct(rep):
        """array-level kernels"""
        for m, n in shp(['SUNDlsMat_denseScale', 'SUNDlsMat_denseAddIdentity', 'SUNDlsMat_denseMatvec', 'SUNDlsMat_denseCopy']):
            for f in ('SUNDlsMat_denseScale', 'SUNDlsMat_denseCopy', 'SUNDlsMat_denseAddIdentity', 'SUNDlsMat_denseMatvec'):
                if f.endswith('Identity') and m != n:
                    continue
                w = M()
                k = w.k
                A = w.mat(m, n, 'a')
                ca = k.call('SUNDenseMatrix_Cols', A)
                rng = [(i, j) for i in range(m) for j in range(n)]
                if f.endswith('Scale'):
                    k.call(f, A_, ca, m, n)
                    ps = [('entry (%d,%d)' % (i, j), w.ent(A, m, n)[i][j], (lambda i, j: lambda e: e['c'] * e['a%d%d' % (i, j)])(i, j)) for i, j in rng]
                elif f.endswith('Copy'):
                    B = w.mat(m, n, 'b')
                    k.call(f, ca, k.call('SUNDenseMatrix_Cols', B), m, n)
                    ps = [('entry (%d,%d)' % (i, j), w.ent(B, m, n)[i][j], sym('a%d%d' % (i, j))) for i, j in rng]
                elif f.endswith('Identity'):
                    k.call(f, ca, n)
                    ps = [('entry (%d,%d)' % (i, j), w.ent(A, m, n)[i][j], (lambda i, j: lambda e: e['a%d%d' % (i, j)] + (i == j))(i, j)) for i, j in rng]
                else:
                    x, y = k.vec(n, 'x'), k.vec(m)
                    k.call(f, ca, k.call('N_VGetArrayPointer', x), k.call('N_VGetArrayPointer', y), m, n)
                    ps = [('component %d' % i, k.data(y, m)[i], (lambda i: lambda e: sum(e['a%d%d' % (i, j)] * e['x%d' % j] for j in range(n)))(i)) for i in range(m)]
                decide(rep, '%s of a %d by %d matrix' % (f, m, n), k, ps, seed, npts, rtol=1e-12, atol=1e-13)
        for n in (1, 2, 3):
            # Cholesky: A = G G' + I
            w = M()
            k = w.k
            A = w.mat(n, n)
            d = k.call('SUNDenseMatrix_Data', A)
            g = {(i, j): k.f('g%d%d' % (i, j)) for i in range(n) for j in range(n)}
            for i in range(n):
                for j in range(n):
                    s = 0.0
                    for q in range(n):
                        s = fop('fadd', s, fop('fmul', g[i, q], g[j, q]))
                    k.st('double', fop('fadd', s, 1.0 if i == j else 0.0) if j <= i else undef('upper triangle'), d, 8 * (j * n + i))
            b = k.vec(n, 'b')
            cols = k.call('SUNDenseMatrix_Cols', A)
            r = k.call('SUNDlsMat_densePOTRF', cols, n)
            k.call('SUNDlsMat_densePOTRS', cols, n, k.call('N_VGetArrayPointer', b))
            cache = {}

            def xs(i):
                def f(e):
                    if 'x' not in cache:
                        G = mats(e, 'g', n, n)
                        A = np.einsum('iqp,jqp->ijp', G, G) + np.eye(n)[:, :, None]
                        cache['x'] = solve(A, np.array([e['b%d' % j] for j in range(n)]))
                    return cache['x'][i]
                return f
            decide(rep, 'Cholesky system of order %d' % n, k, [('status', r, 0)] + [('solution component %d' % i, k.data(b, n)[i], xs(i)) for i in range(n)], seed, npts, rtol=1e-7)
    out.append(('dense array kernels', direct))
    return out
