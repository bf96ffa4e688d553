"""P54: error weights and the norms built from them."""
from .cvk import *

RULE = ('the error weight of every component is the reciprocal of relative tolerance times magnitude plus absolute tolerance, for scalar and per-component '
        'tolerances and for each sensitivity with its own scaling; a vanishing weight denominator is reported; norms are the weighted root mean square and, '
        'with sensitivities, the largest over all vectors; unusable tolerances are refused and leave the ones in force')
ILL = -22


def tasks(tier, seed):
    out = []
    npts = 300 if tier == 'quick' else 3000
    NS = (1, 2, 3, 5) if tier == 'quick' else range(1, 10)
    zero = lambda f: mixed(f, 0.0)

    def wrms(x, w):
        return np.sqrt(sum((a * b) ** 2 for a, b in zip(x, w)) / len(x))

    def weights(tol, n):
        def go(rep):
            k = Cv(BDF, n, 0, tol=None)
            rt = k.f('rt', zero(pos))
            y, w = k.vec(n, 'x', dom=zero(real)), k.vec(n, 'w')
            at = [k.f('at%d' % i, zero(pos)) for i in range(n)]
            if n % 2:                                # a weight function of the user was in force before
                k.call('CVodeWFtolerances', k.mem, k.hook('user_ewt', lambda st, a, ty: 0))
            if tol == 'ss':
                r = k.call('CVodeSStolerances', k.mem, rt, at[0])
            else:
                a = k.vec(n, vals=at)
                r = k.call('CVodeSVtolerances', k.mem, rt, a)
                k.setdata(a, [7.0] * n)         # a later change of the caller's vector has no effect
            k.when(icmp('eq', r, 0), True)
            ef = k.m('cv_efun')
            r = k.E.invoke(k.s, ef, [y, w, k.mem])
            A = lambda e, i: e['at%d' % (i if tol == 'sv' else 0)]
            good = lambda e: np.logical_and.reduce([(A(e, i) > 0) | (e['rt'] * np.abs(e['x%d' % i]) > 0) for i in range(n)])
            ps = [('status', r, lambda e: np.where(good(e), 0, -1)), ('marked as user supplied', k.m('cv_user_efun'), 0)]
            for i in range(n):
                ps.append(('weight %d' % i, ite(icmp('eq', r, 0), k.data(w, n)[i], 0.0), (lambda i: lambda e: np.where(good(e), 1 / (e['rt'] * np.abs(e['x%d' % i]) + A(e, i)), 0))(i)))
                ps.append(('argument %d' % i, k.data(y, n)[i], sym('x%d' % i)))
            decide(rep, 'weights with %s tolerances, %d components' % ('scalar' if tol == 'ss' else 'vector', n), k, ps, seed, npts,
                   assume_=lambda e: np.logical_and.reduce([e['rt'] >= 0] + [e['at%d' % i] >= 0 for i in range(n)]))
        return go
    for n in NS:
        for tol in ('ss', 'sv'):
            out.append(('weights %s %d' % (tol, n), weights(tol, n)))

    def sens(tol, n, Ns):
        def go(rep):
            k = Cv(BDF, n, Ns, tol=None, stol=None)
            r = k.call('CVodeSStolerances', k.mem, k.f('rtol', zero(pos)), k.f('atol', zero(pos)))
            k.when(icmp('eq', r, 0), True)
            k.call('CVodeSetSensErrCon', k.mem, 1)
            pb = [k.f('pbar%d' % s, lambda r, m: np.where(r.random(m) < .2, 1, pos(r, m) * np.where(r.random(m) < .5, -1, 1))) for s in range(Ns)]
            if tol == 'ee':
                r0 = k.call('CVodeSetSensParams', k.mem, k.darr([0.0] * Ns), k.darr(pb), NULL)
                k.when(icmp('eq', r0, 0), True)
                r = k.call('CVodeSensEEtolerances', k.mem)
                a = lambda e, s, i: e['atol'] / np.abs(e['pbar%d' % s])
                rt = lambda e: e['rtol']
            else:
                srt = k.f('srt', zero(pos))
                rt = lambda e: e['srt']
                if tol == 'ss':
                    av = [k.f('sat%d' % s, zero(pos)) for s in range(Ns)]
                    b = k.darr(av)
                    r = k.call('CVodeSensSStolerances', k.mem, srt, b)
                    for s in range(Ns):
                        k.st('double', 9.0, b, 8 * s)
                    a = lambda e, s, i: e['sat%d' % s]
                else:
                    vs = [k.vec(n, 'sat%d_' % s, dom=zero(pos)) for s in range(Ns)]
                    r = k.call('CVodeSensSVtolerances', k.mem, srt, k.parr(vs))
                    for v in vs:
                        k.setdata(v, [9.0] * n)
                    a = lambda e, s, i: e['sat%d_%d' % (s, i)]
            k.when(icmp('eq', r, 0), True)
            xs = [k.vec(n, 'x%d_' % s, dom=zero(real)) for s in range(Ns)]
            ws = [k.vec(n, 'w%d_' % s) for s in range(Ns)]
            k.setm('cv_e_data', k.mem)
            r = k.call('cvSensEwtSet', k.mem, k.parr(xs), k.parr(ws))
            good = lambda e: np.logical_and.reduce([(a(e, s, i) > 0) | (rt(e) * np.abs(e['x%d_%d' % (s, i)]) > 0) for i in range(n) for s in range(Ns)])
            ps = [('status', icmp('eq', r, 0), good)]
            for s in range(Ns):
                for i in range(n):
                    ps.append(('sensitivity %d weight %d' % (s + 1, i), ite(icmp('eq', r, 0), k.data(ws[s], n)[i], 0.0),
                               (lambda s, i: lambda e: np.where(good(e), 1 / (rt(e) * np.abs(e['x%d_%d' % (s, i)]) + a(e, s, i)), 0))(s, i)))
                    ps.append(('sensitivity %d argument %d' % (s + 1, i), k.data(xs[s], n)[i], sym('x%d_%d' % (s, i))))
            decide(rep, 'sensitivity weights (%s), %d of %d' % (tol, Ns, n), k, ps, seed, npts,
                   assume_=lambda e: np.logical_and.reduce([e['rtol'] >= 0, e['atol'] >= 0] + [e[x] >= 0 for x in list(e) if x.startswith('sat') or x == 'srt']
                                                           + [e[x] != 0 for x in list(e) if x.startswith('pbar')]))
        return go
    for n, Ns in ((1, 1), (2, 1), (1, 3), (2, 2), (3, 2), (1, 5)):
        for tol in ('ee', 'ss', 'sv'):
            out.append(('sens weights %s %d %d' % (tol, n, Ns), sens(tol, n, Ns)))

    def norms(n, Ns):
        def go(rep):
            k = Cv(BDF, n, Ns)
            xs = [k.vec(n, 'x%d_' % s) for s in range(Ns)]
            ws = [k.vec(n, 'w%d_' % s, dom=pos) for s in range(Ns)]
            nm = lambda e: np.max([wrms([e['x%d_%d' % (s, i)] for i in range(n)], [e['w%d_%d' % (s, i)] for i in range(n)]) for s in range(Ns)], axis=0)
            r = k.call('cvSensNorm', k.mem, k.parr(xs), k.parr(ws))
            old = k.f('old', pos)
            r2 = k.call('cvSensUpdateNorm', k.mem, old, k.parr(xs), k.parr(ws))
            decide(rep, 'norm over %d sensitivities of %d' % (Ns, n), k, [('norm', r, nm), ('combined norm', r2, lambda e: np.maximum(e['old'], nm(e)))], seed, npts)
        return go
    for n, Ns in ((1, 1), (2, 1), (2, 2), (1, 4), (3, 3)):
        out.append(('norms %d %d' % (n, Ns), norms(n, Ns)))

    def refuse(rep):
        names = ['cv_reltol', 'cv_Sabstol', 'cv_itol', 'cv_atolmin0', 'cv_efun', 'cv_reltolS', 'cv_itolS']
        TY['cv_atolmin0'] = ('i32', 4)
        for what in range(10):
            for pre_sv in (False, True):
                k = Cv(BDF, 2, 2)
                v = k.vec(2, 'okat', dom=pos)
                for i in range(2):
                    k.when(fcmp('flt', 0.0, sym('okat%d' % i)))
                if pre_sv:
                    k.call('CVodeSVtolerances', k.mem, 1e-3, v)
                was = {m: k.m(m) for m in names}
                neg = lambda r, n: -pos(r, n)
                bad = k.f('bad', neg)
                k.when(fcmp('flt', bad, 0.0))
                other = k.f('other', pos)
                k.when(fcmp('flt', 0.0, other))
                vb = k.vec(2, vals=[other, bad])
                vg = k.vec(2, vals=[other, other])
                r, x = {
                    0: lambda: (k.call('CVodeSStolerances', k.mem, bad, other), ILL),
                    1: lambda: (k.call('CVodeSStolerances', k.mem, other, bad), ILL),
                    2: lambda: (k.call('CVodeSVtolerances', k.mem, bad, vg), ILL),
                    3: lambda: (k.call('CVodeSVtolerances', k.mem, other, vb), ILL),
                    4: lambda: (k.call('CVodeSensSStolerances', k.mem, bad, k.darr([1.0, 1.0])), ILL),
                    5: lambda: (k.call('CVodeSensSStolerances', k.mem, other, k.darr([1.0, bad])), ILL),
                    6: lambda: (k.call('CVodeSensSStolerances', k.mem, other, NULL), ILL),
                    7: lambda: (k.call('CVodeSensSVtolerances', k.mem, bad, k.parr([vg, vg])), ILL),
                    8: lambda: (k.call('CVodeSensSVtolerances', k.mem, other, k.parr([vg, vb])), ILL),
                    9: lambda: (k.call('CVodeSensSVtolerances', k.mem, other, NULL), ILL)}[what]()
                decide(rep, 'refused tolerances %d%s' % (what, ' after vector tolerances' if pre_sv else ''), k,
                       [('status', r, x)] + [('%s stays' % m[3:], eqv(k.m(m), was[m]), True) for m in names], seed, 60)
        for f, args in (('CVodeSStolerances', (1e-3, 1e-3)), ('CVodeSVtolerances', (1e-3, NULL)), ('CVodeSensSStolerances', (1e-3, NULL)),
                        ('CVodeSensSVtolerances', (1e-3, NULL)), ('CVodeSensEEtolerances', ()), ('CVodeWFtolerances', (NULL,))):
            k = Cv(BDF, 1)
            decide(rep, f + ' without a solver', k, [('status', k.call(f, NULL, *args), -21)], seed, 20)
            if 'Sens' in f:
                decide(rep, f + ' without sensitivities', k, [('status', k.call(f, k.mem, *args), -40)], seed, 20)
    out.append(('refused tolerances', refuse))

    def user(rep):
        k = Cv(BDF, 2)
        p = k.hook('user_ewt', lambda st, a, ty: 0)
        r = k.call('CVodeWFtolerances', k.mem, p)
        decide(rep, 'user-supplied weights', k, [('status', r, 0), ('weight function', k.m('cv_efun') == p, True), ('marked as user supplied', k.m('cv_user_efun'), 1)], seed, 20)
    out.append(('user weights', user))
    return out

