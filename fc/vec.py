"""P50: serial vector operations."""
import numpy as np
from .kit import *

RULE = ('each N_Vector operation of the serial vector (reached through the generic N_V... entry and its operation table), for every '
        'length analysed and every way its arguments may coincide, stores exactly the documented element values, returns the '
        'documented reduction, leaves its other arguments unchanged and touches no memory outside the vectors')


def cols(env, names):
    return [env[x] for x in names]


def ptrn(n):
    """ways in which n input vectors and one output may coincide"""
    if n == 1:
        return ['xz', 'xx']
    return ['xyz', 'xyx', 'xyy', 'xxz', 'xxx']


class S:
    """one scenario: named vectors of length n"""

    def __init__(self, n, fused=False, shared=False):
        self.shared, self.arrays = shared, {}
        self.k = K()
        self.n = n
        self.v = {}
        self.fused = fused

    def vec(self, name, **kw):
        if name not in self.v:
            self.v[name] = self.k.vec(self.n, name, **kw)
            if self.fused:
                self.k.call('N_VEnableFusedOps_Serial', self.v[name], 1)
        return self.v[name]

    def arr(self, ps):
        """array of pointers; the same array for the same pointers when arrays are shared"""
        c = repr(ps)
        if not self.shared or c not in self.arrays:
            self.arrays[c] = self.k.parr(ps)
        return self.arrays[c]

    def x(self, name):
        """valuation -> array of the initial elements"""
        return lambda e: [e['%s%d' % (name, i)] for i in range(self.n)]


def finish(rep, key, s, spec, ret=None, seed=1, npts=200, extra=(), rv=None, **kw):
    """spec: vector name -> (function of valuation giving the elements); the other vectors keep their values"""
    pairs = []
    for nm, v in s.v.items():
        got = s.k.data(v, s.n)
        for i in range(s.n):
            if nm in spec:
                if spec[nm] is None:
                    continue
                pairs.append(('element %d of the result' % i, got[i], (lambda f, i: lambda e: f(e)[i])(spec[nm], i)))
            else:
                pairs.append(('element %d of argument %s' % (i, nm), got[i], sym('%s%d' % (nm, i))))
    if ret is not None:
        pairs.append(('returned value', rv, ret))
    pairs += list(extra)
    return decide(rep, key, s.k, pairs, seed, npts, **kw)


def op2(f):
    return lambda e, X, Y: [f(a, b) for a, b in zip(X, Y)]


def rel(names, n):
    """valuations with related scalars and repeated values"""
    def pre(env, rng):
        if not env:
            return env
        m = len(next(iter(env.values())))
        for a, b in names:
            if a in env and b in env:
                u = rng.random(m)
                env[b] = np.where(u < .15, env[a], np.where(u < .3, -env[a], env[b]))
        return env
    return pre


def run(rep, tier, seed):
    base = (0, 1, 2, 3, 4, 5) if tier == 'quick' else range(0, 17)
    cap = 70 if tier == 'quick' else 300
    npts = 240 if tier == 'quick' else 2000
    specs = []

    def unary(name, call, f, dom=None, scal=()):
        for pat in ptrn(1):
            def go(n, rep, pat=pat):
                s = S(n)
                x = s.vec('x', dom=dom)
                z = x if pat[-1] == 'x' else s.vec('z')
                call(s.k, x, z)
                spec = {pat[-1]: lambda e: f(e, s.x('x')(e))}
                if pat[-1] != 'x':
                    pass
                return finish(rep, '%s(%s) length %d' % (name, pat, n), s, spec, seed=seed, npts=npts, assume_=None)
            specs.append((name, go))

    def binary(name, call, f, pats=None, dom=None):
        for pat in pats or ptrn(2):
            def go(n, rep, pat=pat):
                s = S(n)
                x = s.vec('x', dom=dom)
                y = s.vec(pat[1], dom=dom)
                z = s.vec(pat[2])
                call(s.k, x, y, z)
                spec = {pat[2]: lambda e: f(e, s.x('x')(e), s.x(pat[1])(e))}
                return finish(rep, '%s(%s) length %d' % (name, pat, n), s, spec, seed=seed, npts=npts, pre=rel([('a', 'b')], n))
            specs.append((name, go))

    A, B = sym('a'), sym('b')
    binary('N_VLinearSum', lambda k, x, y, z: k.call('N_VLinearSum', A, x, B, y, z),
           lambda e, X, Y: [e['a'] * p + e['b'] * q for p, q in zip(X, Y)])
    binary('N_VProd', lambda k, x, y, z: k.call('N_VProd', x, y, z), op2(lambda p, q: p * q))
    binary('N_VDiv', lambda k, x, y, z: k.call('N_VDiv', x, y, z), op2(lambda p, q: p / q), dom=real)
    unary('N_VScale', lambda k, x, z: k.call('N_VScale', A, x, z), lambda e, X: [e['a'] * p for p in X])
    unary('N_VAbs', lambda k, x, z: k.call('N_VAbs', x, z), lambda e, X: [np.abs(p) for p in X])
    unary('N_VInv', lambda k, x, z: k.call('N_VInv', x, z), lambda e, X: [1 / p for p in X], dom=real)
    unary('N_VAddConst', lambda k, x, z: k.call('N_VAddConst', x, B, z), lambda e, X: [p + e['b'] for p in X])
    unary('N_VCompare', lambda k, x, z: k.call('N_VCompare', A, x, z), lambda e, X: [np.where(np.abs(p) >= e['a'], F(1), F(0)) for p in X])

    def const(n, rep):
        s = S(n)
        z = s.vec('z')
        s.k.call('N_VConst', A, z)
        finish(rep, 'N_VConst length %d' % n, s, {'z': lambda e: [e['a']] * n}, seed=seed, npts=npts)
    specs.append(('N_VConst', const))

    def reduction(name, f, nin, doms=(None, None, None), minlen=1, pats=None):
        for pat in pats or {1: ['x'], 2: ['xy', 'xx'], 3: ['xyw', 'xxw', 'xyx']}[nin]:
            def go(n, rep, pat=pat):
                if n < minlen:
                    return
                s = S(n)
                vs = [s.vec(c, dom=doms[i]) for i, c in enumerate(pat)]
                r = s.k.call(name, *vs)
                finish(rep, '%s(%s) length %d' % (name, pat, n), s, {}, lambda e: f(*[s.x(c)(e) for c in pat]), rv=r, seed=seed, npts=npts, rtol=1e-12, atol=1e-14)
            specs.append((name, go))

    def tot(xs, z=F(0)):
        r = z
        for x in xs:
            r = r + x
        return r

    def mx(xs):
        r = F(0)
        for x in xs:
            r = np.maximum(r, x)
        return r

    def mn(xs):
        r = xs[0]
        for x in xs[1:]:
            r = np.minimum(r, x)
        return r
    msk = mixed(real, 0, 0, 1)
    reduction('N_VDotProd', lambda X, Y: tot(a * b for a, b in zip(X, Y)), 2, minlen=0)
    reduction('N_VMaxNorm', lambda X: mx(np.abs(a) for a in X), 1, minlen=0)
    reduction('N_VMin', lambda X: mn(X), 1)
    reduction('N_VL1Norm', lambda X: tot(np.abs(a) for a in X), 1, minlen=0)
    reduction('N_VWL2Norm', lambda X, W: np.sqrt(tot(np.square(a * b) for a, b in zip(X, W))), 2, minlen=0)
    reduction('N_VWrmsNorm', lambda X, W: np.sqrt(tot(np.square(a * b) for a, b in zip(X, W)) / len(X)), 2)
    reduction('N_VWrmsNormMask', lambda X, W, M: np.sqrt(tot(np.where(m > 0, np.square(a * b), 0) for a, b, m in zip(X, W, M)) / len(X)), 3,
              doms=(None, None, msk))
    reduction('N_VWSqrSumLocal', lambda X, W: tot(np.square(a * b) for a, b in zip(X, W)), 2, minlen=0)
    reduction('N_VWSqrSumMaskLocal', lambda X, W, M: tot(np.where(m > 0, np.square(a * b), 0) for a, b, m in zip(X, W, M)), 3,
              doms=(None, None, msk), minlen=0)
    BIG = F(1.7976931348623157e308)

    def minq(X, Y):
        r = BIG
        for a, b in zip(X, Y):
            r = np.where((b != 0) & (a / np.where(b == 0, 1, b) < r), a / np.where(b == 0, 1, b), r)
        return r
    reduction('N_VMinQuotient', minq, 2, doms=(None, mixed(real, 0)), minlen=1, pats=['xy'])

    def invtest(n, rep):
        for pat in ('xz', 'xx'):
            s = S(n)
            x = s.vec('x', dom=mixed(real, 0, 0, 1))
            z = x if pat == 'xx' else s.vec('z')
            r = s.k.call('N_VInvTest', x, z)
            ok = lambda e: np.logical_and.reduce([np.ones_like(e['x0'], bool)] + [a != 0 for a in s.x('x')(e)]) if n else True

            def el(e):
                X, Z = s.x('x')(e), s.x(pat[1])(e)
                return [np.where(a != 0, 1 / np.where(a == 0, 1, a), o) for a, o in zip(X, Z)]
            finish(rep, 'N_VInvTest(%s) length %d' % (pat, n), s, {pat[1]: el}, (lambda e: ok(e).astype(np.int64)) if n else 1, rv=r, seed=seed, npts=npts)
    specs.append(('N_VInvTest', invtest))

    def constr(n, rep):
        s = S(n)
        c = s.vec('c', dom=among(-2., -1., 0., 1., 2.))
        x = s.vec('x', dom=mixed(real, 0))
        m = s.vec('m')
        r = s.k.call('N_VConstrMask', c, x, m)

        def viol(e):
            out = []
            for q, p in zip(s.x('c')(e), s.x('x')(e)):
                out.append(((q == 2) & (p <= 0)) | ((q == 1) & (p < 0)) | ((q == -1) & (p > 0)) | ((q == -2) & (p >= 0)))
            return out
        finish(rep, 'N_VConstrMask length %d' % n, s, {'m': lambda e: [v.astype(F) for v in viol(e)]},
               (lambda e: (~np.logical_or.reduce(viol(e))).astype(np.int64)) if n else 1, rv=r, seed=seed, npts=npts)
    specs.append(('N_VConstrMask', constr))

    # --- operations on several vectors, with and without the fused kernels
    for fused in (False, True):
        tag = ' fused' if fused else ''

        def lincomb(n, rep, fused=fused, tag=tag):
            for nv in (1, 2, 3, 4):
                for al in (None, 0) + ((nv - 1,) if nv > 1 and not fused else ()):
                    if al and al > 0:
                        continue            # the output may only be the first vector
                    s = S(n, fused)
                    X = [s.vec('x%d_' % i) for i in range(nv)]
                    c = [s.k.f('c%d' % i) for i in range(nv)]
                    z = X[al] if al is not None else s.vec('z')
                    r = s.k.call('N_VLinearCombination', nv, s.k.darr(c), s.arr(X), z)
                    nm = 'x%d_' % al if al is not None else 'z'
                    spec = {nm: lambda e: [tot(e['c%d' % i] * e['x%d_%d' % (i, j)] for i in range(nv)) for j in range(n)]}
                    finish(rep, 'N_VLinearCombination%s nvec %d output %s length %d' % (tag, nv, nm, n), s, spec, 0, rv=r, seed=seed, npts=npts // 2)
        specs.append(('N_VLinearCombination' + tag, lincomb))

        def sam(n, rep, fused=fused, tag=tag):
            for nv in (1, 2, 3):
                for al in (False, True, ' in the same array'):
                    s = S(n, fused, al not in (False, True))
                    x = s.vec('x')
                    Y = [s.vec('y%d_' % i) for i in range(nv)]
                    Z = Y if al else [s.vec('z%d_' % i) for i in range(nv)]
                    a = [s.k.f('a%d' % i) for i in range(nv)]
                    r = s.k.call('N_VScaleAddMulti', nv, s.k.darr(a), x, s.arr(Y), s.arr(Z))
                    spec = {('y%d_' if al else 'z%d_') % i: (lambda i: lambda e: [e['a%d' % i] * e['x%d' % j] + e['y%d_%d' % (i, j)] for j in range(n)])(i) for i in range(nv)}
                    finish(rep, 'N_VScaleAddMulti%s nvec %d%s length %d' % (tag, nv, (al if al not in (False, True) else ' in place') if al else '', n), s, spec, 0, rv=r, seed=seed, npts=npts // 2)
        specs.append(('N_VScaleAddMulti' + tag, sam))

        def dpm(n, rep, fused=fused, tag=tag):
            for nv in (1, 2, 3):
                s = S(n, fused)
                x = s.vec('x')
                Y = [s.vec('y%d_' % i) for i in range(nv)]
                d = s.k.darr([s.k.f('d%d' % i) for i in range(nv)])
                r = s.k.call('N_VDotProdMulti', nv, x, s.arr(Y), d)
                ex = [('dot product %d' % i, s.k.ld('double', d, 8 * i), (lambda i: lambda e: tot(e['x%d' % j] * e['y%d_%d' % (i, j)] for j in range(n)))(i)) for i in range(nv)]
                finish(rep, 'N_VDotProdMulti%s nvec %d length %d' % (tag, nv, n), s, {}, 0, rv=r, extra=ex, seed=seed, npts=npts // 2, rtol=1e-12, atol=1e-14)
        specs.append(('N_VDotProdMulti' + tag, dpm))

        def lsva(n, rep, fused=fused, tag=tag):
            for nv in (1, 2, 3):
                for pat, one in [(p, o) for p in ptrn(2) for o in (False, True) if not o or len(set(p)) < 3]:
                    s = S(n, fused, one)
                    g = {c: [s.vec('%s%d_' % (c, i)) for i in range(nv)] for c in sorted(set(pat))}
                    r = s.k.call('N_VLinearSumVectorArray', nv, A, s.arr(g[pat[0]]), B, s.arr(g[pat[1]]), s.arr(g[pat[2]]))
                    spec = {'%s%d_' % (pat[2], i): (lambda i: lambda e: [e['a'] * e['x%d_%d' % (i, j)] + e['b'] * e['%s%d_%d' % (pat[1], i, j)] for j in range(n)])(i) for i in range(nv)}
                    finish(rep, 'N_VLinearSumVectorArray%s (%s%s) nvec %d length %d' % (tag, pat, ' in the same array' if one else '', nv, n), s, spec, 0, rv=r, seed=seed, npts=npts // 2, pre=rel([('a', 'b')], n))
        specs.append(('N_VLinearSumVectorArray' + tag, lsva))

        def scva(n, rep, fused=fused, tag=tag):
            for nv in (1, 2, 3):
                for al in (False, True, ' in the same array'):
                    s = S(n, fused, al not in (False, True))
                    X = [s.vec('x%d_' % i) for i in range(nv)]
                    Z = X if al else [s.vec('z%d_' % i) for i in range(nv)]
                    c = [s.k.f('c%d' % i) for i in range(nv)]
                    r = s.k.call('N_VScaleVectorArray', nv, s.k.darr(c), s.arr(X), s.arr(Z))
                    spec = {('x%d_' if al else 'z%d_') % i: (lambda i: lambda e: [e['c%d' % i] * e['x%d_%d' % (i, j)] for j in range(n)])(i) for i in range(nv)}
                    finish(rep, 'N_VScaleVectorArray%s nvec %d%s length %d' % (tag, nv, (al if al not in (False, True) else ' in place') if al else '', n), s, spec, 0, rv=r, seed=seed, npts=npts // 2)
                s = S(n, fused)
                Z = [s.vec('z%d_' % i) for i in range(nv)]
                r = s.k.call('N_VConstVectorArray', nv, A, s.arr(Z))
                finish(rep, 'N_VConstVectorArray%s nvec %d length %d' % (tag, nv, n), s, {'z%d_' % i: lambda e: [e['a']] * n for i in range(nv)}, 0, rv=r, seed=seed, npts=npts // 2)
        specs.append(('N_VScaleVectorArray' + tag, scva))

        def wva(n, rep, fused=fused, tag=tag):
            if n == 0:
                return
            for nv in (1, 2, 3):
                for mask in (False, True):
                    s = S(n, fused)
                    X = [s.vec('x%d_' % i) for i in range(nv)]
                    W = [s.vec('w%d_' % i) for i in range(nv)]
                    d = s.k.darr([s.k.f('d%d' % i) for i in range(nv)])
                    if mask:
                        m = s.vec('m', dom=msk)
                        r = s.k.call('N_VWrmsNormMaskVectorArray', nv, s.arr(X), s.arr(W), m, d)
                    else:
                        r = s.k.call('N_VWrmsNormVectorArray', nv, s.arr(X), s.arr(W), d)
                    ex = [('norm %d' % i, s.k.ld('double', d, 8 * i), (lambda i: lambda e: np.sqrt(tot(
                        (np.where(e['m%d' % j] > 0, 1, 0) if mask else 1) * np.square(e['x%d_%d' % (i, j)] * e['w%d_%d' % (i, j)]) for j in range(n)) / n))(i)) for i in range(nv)]
                    finish(rep, 'N_VWrmsNorm%sVectorArray%s nvec %d length %d' % ('Mask' if mask else '', tag, nv, n), s, {}, 0, rv=r, extra=ex, seed=seed, npts=npts // 2, rtol=1e-12)
        specs.append(('N_VWrmsNormVectorArray' + tag, wva))

        def samva(n, rep, fused=fused, tag=tag):
            for nv, ns in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3)):
                for al in (False, True, ' in the same array'):
                    s = S(n, fused, al not in (False, True))
                    X = [s.vec('x%d_' % i) for i in range(nv)]
                    Y = [[s.vec('y%d_%d_' % (j, i)) for i in range(nv)] for j in range(ns)]
                    Z = Y if al else [[s.vec('z%d_%d_' % (j, i)) for i in range(nv)] for j in range(ns)]
                    a = [s.k.f('a%d' % j) for j in range(ns)]
                    YY = s.arr([s.arr(y) for y in Y])
                    ZZ = s.arr([s.arr(z) for z in Z])
                    r = s.k.call('N_VScaleAddMultiVectorArray', nv, ns, s.k.darr(a), s.arr(X), YY, ZZ)
                    spec = {('y%d_%d_' if al else 'z%d_%d_') % (j, i): (lambda i, j: lambda e: [e['a%d' % j] * e['x%d_%d' % (i, p)] + e['y%d_%d_%d' % (j, i, p)] for p in range(n)])(i, j)
                            for i in range(nv) for j in range(ns)}
                    finish(rep, 'N_VScaleAddMultiVectorArray%s nvec %d nsum %d%s length %d' % (tag, nv, ns, (al if al not in (False, True) else ' in place') if al else '', n), s, spec, 0, rv=r, seed=seed, npts=npts // 3)
        specs.append(('N_VScaleAddMultiVectorArray' + tag, samva))

        def lcva(n, rep, fused=fused, tag=tag):
            for nv, ns in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 4)):
                for al in (False, True, ' in the same array'):
                    s = S(n, fused, al not in (False, True))
                    X = [[s.vec('x%d_%d_' % (j, i)) for i in range(nv)] for j in range(ns)]
                    Z = X[0] if al else [s.vec('z%d_' % i) for i in range(nv)]
                    c = [s.k.f('c%d' % j) for j in range(ns)]
                    XX = s.arr([s.arr(x) for x in X])
                    r = s.k.call('N_VLinearCombinationVectorArray', nv, ns, s.k.darr(c), XX, s.arr(Z))
                    spec = {('x0_%d_' if al else 'z%d_') % i: (lambda i: lambda e: [tot(e['c%d' % j] * e['x%d_%d_%d' % (j, i, p)] for j in range(ns)) for p in range(n)])(i) for i in range(nv)}
                    finish(rep, 'N_VLinearCombinationVectorArray%s nvec %d nsum %d%s length %d' % (tag, nv, ns, (al if al not in (False, True) else ' in place') if al else '', n), s, spec, 0, rv=r, seed=seed, npts=npts // 3)
        specs.append(('N_VLinearCombinationVectorArray' + tag, lcva))

    # --- construction, cloning, access
    def clones(n, rep):
        s = S(n)
        x = s.vec('x')
        k = s.k
        c = k.call('N_VClone', x)
        z = [('length of a clone', k.call('N_VGetLength', c), n), ('id of a clone', k.call('N_VGetVectorID', c), 0)]
        d1, d2 = k.call('N_VGetArrayPointer', x), k.call('N_VGetArrayPointer', c)
        z.append(('clone has storage of its own', n == 0 or (d1 != d2 and d2 != NULL), True))
        if n:
            k.call('N_VConst', A, c)
            z += [('element %d of a clone' % i, v, sym('a')) for i, v in enumerate(k.data(c, n))]
            z += [('element %d of the original' % i, v, sym('x%d' % i)) for i, v in enumerate(k.data(x, n))]
            u = k.call('N_VMake_Serial', n, d1, k.ctx())
            z.append(('N_VMake_Serial refers to the given data', k.call('N_VGetArrayPointer', u) == d1, True))
            z.append(('length', k.call('N_VGetLength', u), n))
            k.call('N_VDestroy', u)
            z += [('data given to N_VMake_Serial survive its destruction', k.s.mem[d1.o].freed, False)]
        for cnt in (1, 3):
            arr = k.call('N_VCloneVectorArray', cnt, x)
            ds = []
            for i in range(cnt):
                w = k.call('N_VGetVecAtIndexVectorArray', arr, i)
                z.append(('vector %d of an array' % i, k.call('N_VGetLength', w), n))
                z.append(('vector %d of an array' % i, w == k.ld('ptr', arr, 8 * i), True))
                ds.append(k.call('N_VGetArrayPointer', w))
            if n:
                z.append(('vectors of an array are distinct', len(set(ds)) == cnt, True))
            k.call('N_VSetVecAtIndexVectorArray', arr, cnt - 1, c)
            z.append(('N_VSetVecAtIndexVectorArray', k.ld('ptr', arr, 8 * (cnt - 1)) == c, True))
        decide(rep, 'clone and access length %d' % n, k, z, seed, 20)
    specs.append(('N_VClone', clones))
    return specs, base, cap


IMPL = {'N_VClone': ['N_VClone_Serial', 'N_VCloneEmpty_Serial']}


def tasks(tier, seed):
    specs, base, cap = run(None, tier, seed)
    by = {}
    for name, go in specs:
        by.setdefault(name, []).append(go)
    out = []
    for name, gos in by.items():
        fn = name.split()[0]
        impl = [fn + '_Serial', fn.replace('Local', '') + '_Serial', fn]
        ns = [x for x in sizes(impl, base, cap) if x in base or x > 5]

        def one(rep, gos=gos, ns=ns):
            for n in ns:
                for g in gos:
                    g(n, rep)
        out.append((name + ' lengths ' + ','.join(map(str, ns)), one))
    return out
