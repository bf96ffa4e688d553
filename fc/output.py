"""P53: solution, derivatives and sensitivities delivered between steps."""
from math import factorial
from .cvk import *

RULE = ('the k-th derivative delivered at time t, for the state and for each sensitivity, is the k-th derivative of the stored interpolating polynomial at t; '
        'a time outside the last step, an order of derivative above the current order, a sensitivity index out of range or a missing vector is refused with '
        'the matching code and nothing is written')

OK, BAD_K, BAD_T, BAD_DKY, NO_SENS, BAD_IS, MEM_NULL = 0, -24, -25, -26, -40, -45, -21


def tasks(tier, seed):
    out = []
    npts = 160 if tier == 'quick' else 1500
    orders = [(BDF, q) for q in range(1, 6)] + [(ADAMS, q) for q in ((1, 2, 7, 12) if tier == 'quick' else range(1, 13))]
    U = 2.220446049250313e-16

    def times(env, rng):
        n = len(env['tn'])
        u = rng.choice([0., 0., 1., .5, .25, .9, 1.3, -.4, -3., 5.], n) + rng.choice([0., 1e-3], n) * rng.random(n)
        env['hu'] = np.where(rng.random(n) < .5, env['h'], env['hu'])
        env['t'] = env['tn'] - u.astype(F) * env['hu']
        env['tret'] = env['t']
        return env

    def inside(e, t='t'):
        """the time lies within the last step"""
        a, b = e['tn'] - e['hu'], e['tn']
        return (np.minimum(a, b) <= e[t]) & (e[t] <= np.maximum(a, b))

    def clear(e, t='t'):
        """not within rounding of an end of the step"""
        fz = 1e3 * U * (np.abs(e['tn']) + np.abs(e['hu']))
        return inside(e, t) | ((np.abs(e[t] - e['tn']) > fz) & (np.abs(e[t] - e['tn'] + e['hu']) > fz))

    def poly(e, cols, k, t='t'):
        r = 0
        for j in range(k, len(cols)):
            r = r + F(factorial(j)) / factorial(j - k) * (e[t] - e['tn']) ** (j - k) * e['h'] ** F(-j) * e[cols[j]]
        return r

    def solver(lmm, q, Ns=2):
        k = Cv(lmm, 2, Ns)
        k.history(q, 1)
        k.setm('cv_h', k.f('h', mixed(lambda r, n: pos(r, n) * np.where(r.random(n) < .5, -1, 1), 1.0, -1.0)))
        k.setm('cv_hu', k.f('hu', lambda r, n: pos(r, n) * np.where(r.random(n) < .5, -1, 1)))
        k.setm('cv_tn', k.f('tn'))
        return k

    def keep(k):
        ps = []
        for j in range(len(k.z)):
            for i in range(2):
                ps.append(('history', k.column(j)[i], k.z[j][i]))
                for s in range(k.Ns):
                    ps.append(('sensitivity history', k.columnS(j, s)[i], k.zS[j][s][i]))
        return ps

    def same_sign(e):
        return np.sign(e['h']) == np.sign(e['hu'])

    def one(lmm, q, kd, how):
        def go(rep):
            k = solver(lmm, q)
            o = k.vec(2, 'old')
            o2 = k.vec(2, 'oldb')
            t, tname = sym('t'), 't'
            k.dom['t'] = None
            names = ['z%d_%%d' % j for j in range(q + 1)]
            who = [(o, 'old', names)]
            tb = k.buf(8, 'returned time')
            extra = []
            if how == 'state':
                r = k.call('CVodeGetDky', k.mem, t, kd, o)
            elif how == 'one':
                r = k.call('CVodeGetSensDky1', k.mem, t, kd, 1, o)
                who = [(o, 'old', ['zs%d_1_%%d' % j for j in range(q + 1)]), (o2, 'oldb', None)]
            elif how == 'all':
                r = k.call('CVodeGetSensDky', k.mem, t, kd, k.parr([o, o2]))
                who = [(o, 'old', ['zs%d_0_%%d' % j for j in range(q + 1)]), (o2, 'oldb', ['zs%d_1_%%d' % j for j in range(q + 1)])]
            else:
                k.dom['tret'] = None
                tname = 'tret'
                k.setm('cv_tretlast', sym('tret'))
                if how == 'sens':
                    r = k.call('CVodeGetSens', k.mem, tb, k.parr([o, o2]))
                    who = [(o, 'old', ['zs%d_0_%%d' % j for j in range(q + 1)]), (o2, 'oldb', ['zs%d_1_%%d' % j for j in range(q + 1)])]
                else:
                    r = k.call('CVodeGetSens1', k.mem, tb, 1, o)
                    who = [(o, 'old', ['zs%d_1_%%d' % j for j in range(q + 1)]), (o2, 'oldb', None)]
                extra.append(('returned time', k.ld('double', tb), sym('tret')))
            bad_k = kd < 0 or kd > q
            ps = [('status', r, lambda e: np.where(inside(e, tname), OK, BAD_T) if not bad_k else np.full(len(e['tn']), BAD_K))] + extra
            for v, old, cols in who:
                for i in range(2):
                    def spec(e, i=i, old=old, cols=cols):
                        w = e['%s%d' % (old, i)]
                        if bad_k or cols is None:
                            return w
                        return np.where(inside(e, tname), poly(e, [c % i for c in cols], kd, tname), w)
                    ps.append(('component %d' % i, k.data(v, 2)[i], spec))
            key = '%s derivative %d at order %d (%s)' % ({'state': 'state', 'one': 'single sensitivity', 'all': 'sensitivity', 'sens': 'delivered sensitivity',
                                                          'sens1': 'delivered single sensitivity'}[how], kd, q, 'BDF' if lmm == BDF else 'Adams')
            decide(rep, key, k, ps + keep(k), seed, npts, pre=times, assume_=lambda e: clear(e, tname) & same_sign(e), rtol=1e-8, atol=1e-9)
        return go
    for lmm, q in orders:
        for kd in (range(-1, q + 2) if q <= 5 else (0, 1, 2, q, q + 1)):
            for how in ('state', 'one', 'all'):
                if how != 'state' and tier == 'quick' and kd not in (0, 1, q, q + 1, -1):
                    continue
                out.append(('%d %d %d %s' % (lmm, q, kd, how), one(lmm, q, kd, how)))
        for how in ('sens', 'sens1'):
            out.append(('%d %d %s' % (lmm, q, how), one(lmm, q, 0, how)))

    def refuse(rep):
        t, T = sym('t'), None
        one = lambda k, o: k.parr([o, o])
        calls = [
            ('CVodeGetDky', lambda k, o: (NULL, t, 0, o), MEM_NULL, 1), ('CVodeGetDky', lambda k, o: (k.mem, t, 0, NULL), BAD_DKY, 1),
            ('CVodeGetSensDky1', lambda k, o: (NULL, t, 0, 0, o), MEM_NULL, 1), ('CVodeGetSensDky1', lambda k, o: (k.mem, t, 0, 0, NULL), BAD_DKY, 1),
            ('CVodeGetSensDky1', lambda k, o: (k.mem, t, 0, -1, o), BAD_IS, 1), ('CVodeGetSensDky1', lambda k, o: (k.mem, t, 0, 2, o), BAD_IS, 1),
            ('CVodeGetSensDky', lambda k, o: (k.mem, t, 0, NULL), BAD_DKY, 1), ('CVodeGetSensDky1', lambda k, o: (k.mem, t, 0, 0, o), NO_SENS, 0),
            ('CVodeGetSensDky', lambda k, o: (k.mem, t, 0, one(k, o)), NO_SENS, 0), ('CVodeGetSensDky', lambda k, o: (NULL, t, 0, one(k, o)), MEM_NULL, 1),
            ('CVodeGetSens', lambda k, o: (NULL, k.buf(8), one(k, o)), MEM_NULL, 1), ('CVodeGetSens1', lambda k, o: (NULL, k.buf(8), 0, o), MEM_NULL, 1),
            ('CVodeGetSens', lambda k, o: (k.mem, k.buf(8), one(k, o)), NO_SENS, 0), ('CVodeGetSens1', lambda k, o: (k.mem, k.buf(8), 0, o), NO_SENS, 0),
            ('CVodeGetSens1', lambda k, o: (k.mem, k.buf(8), 2, o), BAD_IS, 1), ('CVodeGetSens1', lambda k, o: (k.mem, k.buf(8), -1, o), BAD_IS, 1),
            ('CVodeGetSens', lambda k, o: (k.mem, k.buf(8), NULL), BAD_DKY, 1), ('CVodeGetSens1', lambda k, o: (k.mem, k.buf(8), 0, NULL), BAD_DKY, 1)]
        for what, (f, args, x, on) in enumerate(calls):
            k = solver(BDF, 2)
            k.dom['t'] = None
            o = k.vec(2, 'old')
            k.setm('cv_sensi', on)
            if f in ('CVodeGetSens', 'CVodeGetSens1'):
                k.setm('cv_tretlast', t)
            r = k.call(f, *args(k, o))
            decide(rep, 'refused request %d' % what, k, [('status', r, x)] + [('component %d' % i, k.data(o, 2)[i], sym('old%d' % i)) for i in range(2)] + keep(k),
                   seed, 40, pre=times)
    out.append(('refusals', refuse))

    def sizes_(n, Ns):
        def go(rep):
            k = Cv(BDF, n, Ns)
            k.history(2)
            for f in ('h', 'hu'):
                k.setm('cv_' + f, k.f(f, pos))
            k.setm('cv_tn', k.f('tn'))
            k.dom['tret'] = None
            k.setm('cv_tretlast', sym('tret'))
            o = [k.vec(n) for _ in range(Ns)]
            r = k.call('CVodeGetSens', k.mem, k.buf(8), k.parr(o))

            def pre(env, rng):
                env['tret'] = env['tn'] - rng.random(len(env['tn'])).astype(F) * env['hu']
                return env
            ps = [('status', r, 0)]
            for s in range(Ns):
                for i in range(n):
                    ps.append(('sensitivity %d component %d' % (s + 1, i), k.data(o[s], n)[i],
                               (lambda s, i: lambda e: poly(e, ['zs%d_%d_%d' % (j, s, i) for j in range(3)], 0, 'tret'))(s, i)))
            decide(rep, '%d sensitivities of %d states' % (Ns, n), k, ps, seed, npts, pre=pre, rtol=1e-8)
        return go
    for n, Ns in ((1, 1), (1, 3), (3, 1), (2, 3), (4, 5)):
        out.append(('sizes %d %d' % (n, Ns), sizes_(n, Ns)))

    def compute(rep):
        """state and sensitivities assembled from prediction and correction"""
        k = Cv(BDF, 2, 2)
        k.history(1)
        c = k.vec(2, 'c')
        y = k.vec(2)
        r = k.call('CVodeComputeState', k.mem, c, y)
        cs = [k.vec(2, 'cs%d_' % s) for s in range(2)]
        ys = [k.vec(2) for s in range(2)]
        r2 = k.call('CVodeComputeStateSens', k.mem, k.parr(cs), k.parr(ys))
        y1 = k.vec(2)
        r3 = k.call('CVodeComputeStateSens1', k.mem, 1, cs[0], y1)
        ps = [('status', x, 0) for x in (r, r2, r3)]
        for i in range(2):
            ps.append(('state %d' % i, k.data(y, 2)[i], (lambda i: lambda e: e['z0_%d' % i] + e['c%d' % i])(i)))
            ps.append(('single sensitivity %d' % i, k.data(y1, 2)[i], (lambda i: lambda e: e['zs0_1_%d' % i] + e['cs0_%d' % i])(i)))
            for s in range(2):
                ps.append(('sensitivity %d %d' % (s, i), k.data(ys[s], 2)[i], (lambda i, s: lambda e: e['zs0_%d_%d' % (s, i)] + e['cs%d_%d' % (s, i)])(i, s)))
        decide(rep, 'assembled state', k, ps + keep(k), seed, npts)
    out.append(('assembled state', compute))
    return out
