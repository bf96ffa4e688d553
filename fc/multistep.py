"""P52: coefficients and history array of the multistep formulas."""
from math import comb
from .cvk import *

RULE = ('every update of the history array and every set of formula coefficients is exact for any sequence of past step sizes: prediction shifts the '
        'stored polynomial by h and its undoing restores it, rescaling by eta and changes of order keep the polynomial through the data points the lower or '
        'higher order formula retains, the corrector polynomial has the prescribed roots, and a completed step adds the correction times that polynomial '
        'and records the step size; sensitivities are treated exactly as the state')


def pmul(p, q):
    r = [0] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] = r[i + j] + a * b
    return r


def pev(p, x):
    r = 0 * x
    for a in p[::-1]:
        r = r * x + a
    return r


def pint(p, lo, hi, k=0):
    """integral of x^k p(x)"""
    return sum(a * (hi ** (i + 1 + k) - lo ** (i + 1 + k)) / (i + 1 + k) for i, a in enumerate(p))


def xis(e, q, key='h', first=True):
    """distances (t_n - t_{n-i})/h, i = 1, 2, ... when the step in progress is h"""
    h = e[key]
    s, out = h, []
    for i in range(1, q + 2):
        out.append(s / h)
        s = s + e['tau%d' % i]
    return out


def xip(e, q, key='h'):
    """the same distances once the step is completed (tau1 is the last step)"""
    s, out = 0 * e[key], []
    for i in range(1, q + 2):
        s = s + e['tau%d' % i]
        out.append(s / e[key])
    return out


def bdf(e, q):
    """corrector polynomial and error coefficients of the fixed-leading-coefficient BDF formula of order q"""
    xi = xis(e, q)
    a0 = -sum(F(1) / j for j in range(1, q + 1))
    xs = -a0 - sum(1 / x for x in xi[:q - 1])           # 1/xi*
    L = [F(1) + 0 * e['h']]
    for x in xi[:q - 1]:
        L = pmul(L, [1, 1 / x])
    L = pmul(L, [1, xs])
    ah = -sum(1 / x for x in xi[:q])
    A1 = 1 - ah + a0
    A2 = 1 + q * A1
    t = {2: np.abs(A1 / (a0 * A2)), 5: np.abs(A2 * xs * xi[q - 1] / L[q])}
    if q == 1:
        t[1] = 1 + 0 * e['h']
    else:
        A3 = a0 + F(1) / q
        A4 = ah + 1 / xi[q - 1]
        t[1] = np.abs(xs / L[q] * (1 - A4 + A3) / A3)
    A5 = a0 - F(1) / (q + 1)
    A6 = ah - 1 / xi[q]
    t[3] = np.abs((1 - A6 + A5) / A2 * xi[q] / ((q + 2) * A5))
    t[4] = e['nlscoef'] / t[2]
    return L, t


def adams(e, q):
    xi = xis(e, q)
    one = F(1) + 0 * e['h']
    m = [one]
    for x in xi[:q - 1]:
        m = pmul(m, [1, 1 / x])
    M0 = pint(m, F(-1), F(0))
    L = [one] + [a / (i + 1) / M0 for i, a in enumerate(m)]
    if q == 1:
        t = {1: one, 5: one, 2: one / 2, 3: one / 12}
    else:
        t = {2: np.abs(pint(m, F(-1), F(0), 1) / M0 / xi[q - 1]), 5: xi[q - 1] / L[q]}
        p = [one]
        for x in xi[:q - 2]:
            p = pmul(p, [1, 1 / x])
        t[1] = np.abs(q * pint(p, F(-1), F(0), 1) / p[-1])
        mm = pmul(m, [1, 1 / xi[q - 1]])
        t[3] = np.abs(pint(mm, F(-1), F(0), 1) / M0 / (q + 1))
    t[4] = e['nlscoef'] / t[2]
    return L, t


def tasks(tier, seed):
    out = []
    npts = 120 if tier == 'quick' else 1000
    Q = {BDF: range(1, 6), ADAMS: range(1, 13)}
    big = (1, 2, 3, 5) if tier == 'quick' else range(1, 13)

    def coeffs(lmm, q, qwait):
        def go(rep):
            k = Cv(lmm, 1)
            k.history(q)
            k.steps(q=q)
            k.setm('cv_nlscoef', k.f('nlscoef', pos))
            k.setm('cv_qwait', qwait)
            for j in range(14):         # leftovers of earlier orders
                if j != 0:
                    k.setm('cv_l', k.f('oldl%d' % j) if j <= 12 else 0.0, j) if j < 13 else None
            for j in range(1, 6):
                k.setm('cv_tq', k.f('oldtq%d' % j), j)
            nst = k.i('nst', 0, 4)
            k.setm('cv_nst', nst)
            k.setm('cv_gammap', k.f('gammap', pos))
            k.call('cvSet', k.mem)
            spec = bdf if lmm == BDF else adams
            cache = {}

            def get(i, which):
                def f(e):
                    if 'v' not in cache:
                        cache['v'] = spec(e, q)
                    return cache['v'][which][i]
                return f
            ps = [('coefficient l[%d]' % i, k.m('cv_l', i), get(i, 0)) for i in range(q + 1)]
            ps += [('error coefficient tq[%d]' % i, k.m('cv_tq', i), get(i, 1) if i in (2, 4, 5) or qwait == 1 or q == 1 and (lmm == ADAMS and i in (1, 3)) else
                    sym('oldtq%d' % i)) for i in range(1, 6)]
            gam = lambda e: e['h'] / get(1, 0)(e)
            ps += [('leading coefficient', k.m('cv_rl1'), lambda e: 1 / get(1, 0)(e)), ('gamma', k.m('cv_gamma'), gam),
                   ('gamma ratio', k.m('cv_gamrat'), lambda e: np.where(e['nst'] > 0, gam(e) / e['gammap'], 1)),
                   ('step size', k.m('cv_h'), sym('h'))] + [('recorded step %d' % j, k.m('cv_tau', j), sym('tau%d' % j)) for j in range(1, q + 1)]
            decide(rep, '%s order %d%s' % ('BDF' if lmm == BDF else 'Adams', q, '' if qwait == 1 else ' (order not under review)'), k, ps, seed, npts, rtol=1e-7)
        return go
    for lmm in (BDF, ADAMS):
        for q in Q[lmm]:
            for qw in (1, 2):
                out.append(('coefficients %d %d %d' % (lmm, q, qw), coeffs(lmm, q, qw)))

    def all_cols(k, spec, q, what, specS=None):
        """obligations for every column: spec(z, j) with z[j] the old column values at one component"""
        ps = []
        for i in range(k.n):
            z = ['z%d_%d' % (j, i) for j in range(len(k.z))]
            for j in range(q + 1):
                ps.append(('column %d component %d' % (j, i), k.column(j)[i], (lambda z, j: lambda e: spec(e, [e[c] for c in z], j))(z, j)))
        for s in range(k.Ns):
            for i in range(k.n):
                z = ['zs%d_%d_%d' % (j, s, i) for j in range(len(k.zS))]
                for j in range(q + 1):
                    ps.append(('sensitivity %d column %d component %d' % (s + 1, j, i), k.columnS(j, s)[i], (lambda z, j: lambda e: spec(e, [e[c] for c in z], j))(z, j)))
        return ps

    def predict(q, tstop):
        def go(rep):
            for lmm in (BDF, ADAMS):
                if q > 5 and lmm == BDF:
                    continue
                k = Cv(lmm, 2, 3 if q < 4 or tier != 'quick' else 2)
                k.history(q)
                h = k.steps(real, q=q)
                k.setm('cv_tn', k.f('tn'))
                if tstop:
                    k.setm('cv_tstopset', 1)
                    k.setm('cv_tstop', k.f('tstop'))
                k.call('cvPredict', k.mem)
                ps = all_cols(k, lambda e, z, j: sum(comb(i, j) * z[i] for i in range(j, q + 1)), q, 'prediction')

                def tn(e):
                    t = e['tn'] + e['h']
                    return np.where((t - e['tstop']) * e['h'] > 0, e['tstop'], t) if tstop else t
                ps.append(('time', k.m('cv_tn'), tn))
                decide(rep, 'prediction at order %d%s' % (q, ' with a stop time' if tstop else ''), k, ps, seed, npts)
                k.call('cvRestore', k.mem, sym('tn'))
                ps = all_cols(k, lambda e, z, j: z[j], q, 'undo') + [('time', k.m('cv_tn'), sym('tn'))]
                decide(rep, 'undone prediction at order %d' % q, k, ps, seed, npts, atol=1e-10)
        return go
    for q in big:
        for ts in (False, True):
            out.append(('predict %d %s' % (q, ts), predict(q, ts)))

    def rescale(q):
        def go(rep):
            for Ns in (0, 1, 3):
                k = Cv(BDF if q <= 5 else ADAMS, 2, Ns)
                k.history(q, 1)
                k.steps(q=q)
                k.setm('cv_hscale', k.f('hscale', pos))
                k.setm('cv_eta', k.f('eta', pos))
                k.call('cvRescale', k.mem)
                ps = all_cols(k, lambda e, z, j: z[j] * e['eta'] ** j, q, '')
                if len(k.z) > q + 1:
                    ps += [('spare column component %d' % i, k.column(q + 1)[i], k.z[q + 1][i]) for i in range(2)]
                for f in ('cv_h', 'cv_next_h', 'cv_hscale'):
                    ps.append((f[3:], k.m(f), lambda e: e['hscale'] * e['eta']))
                decide(rep, 'rescaling at order %d with %d sensitivities' % (q, Ns), k, ps, seed, npts)
        return go
    for q in big:
        out.append(('rescale %d' % q, rescale(q)))

    # ---- order changes: the stored polynomial keeps the data the new formula retains
    def poly(q, cols):
        return lambda e, x: pev([e[c] if isinstance(c, str) else c for c in cols], x)

    def order(lmm, q, dq):
        def go(rep):
            k = Cv(lmm, 1, 3 if q < 4 or tier != 'quick' else 2)
            k.history(q, 1)
            k.steps(q=q)
            qmax = k.m('cv_qmax')
            if dq > 0 and lmm == BDF:
                k.setm('cv_indx_acor', qmax)
                if qmax > q + 1:
                    k.symvec(k.zn(qmax), 'ac')
                    for s in range(2):
                        k.symvec(k.znS(qmax, s), 'acs%d_' % s)
                ac = 'ac%d' if qmax > q + 1 else 'z%d_' % (q + 1) + '%d'
                acs = 'acs%d_%d' if qmax > q + 1 else 'zs%d_' % (q + 1) + '%d_%d'
            k.setm('cv_qprime', q + dq)
            k.setm('cv_eta', k.f('eta', pos))
            k.setm('cv_qwait', 0)
            k.call('cvAdjustParams', k.mem)
            new = q + dq
            ps = [('order', k.m('cv_q'), new), ('order plus one', k.m('cv_L'), new + 1), ('steps before the next review', k.m('cv_qwait'), new + 1 if dq else 0),
                  ('step size', k.m('cv_h'), lambda e: e['h'] * e['eta'])]
            for who in ['state'] + ['sensitivity %d' % (s + 1) for s in range(2)]:
                if who == 'state':
                    old = ['z%d_0' % j for j in range(q + 1)]
                    got = [k.column(j)[0] for j in range(new + 1)]
                    a = ac % 0 if dq > 0 and lmm == BDF else None
                else:
                    s = int(who[-1]) - 1
                    old = ['zs%d_%d_0' % (j, s) for j in range(q + 1)]
                    got = [k.columnS(j, s)[0] for j in range(new + 1)]
                    a = acs % (s, 0) if dq > 0 and lmm == BDF else None

                def g(e, got=got):
                    return [e['ev'](c) / e['eta'] ** j for j, c in enumerate(got)]

                def o(e, old=old):
                    return [e[c] for c in old]
                one = F(1)
                dual = lambda f: f
                pts = []
                if dq == 0:
                    for j in range(q + 1):
                        ps.append(('%s column %d' % (who, j), got[j], (lambda c, j: lambda e: e[c] * e['eta'] ** j)(old[j], j)))
                    continue
                # value and slope at t_n are kept
                for j in (0, 1):
                    ps.append(('%s column %d' % (who, j), got[j], (lambda c, j: lambda e: e[c] * e['eta'] ** j)(old[j], j)))
                D = lambda p: [i * c for i, c in enumerate(p)][1:]
                keep = q - 2 if dq < 0 else q - 1
                for r in range(1, keep + 1):
                    if lmm == BDF:
                        def res(e, r=r, g=g, o=o):
                            x = -xip(e, q)[r - 1]
                            sc = sum(np.abs(c * x ** i) for i, c in enumerate(o(e))) + sum(np.abs(c * x ** i) for i, c in enumerate(g(e)))
                            return np.abs(pev(g(e), x) - pev(o(e), x)) <= 1e-8 * sc
                        ps.append(('%s keeps the value %d steps back' % (who, r), True, res))
                    elif dq < 0:
                        def res(e, r=r, g=g, o=o):
                            x = -xip(e, q)[r - 1]
                            sc = sum(np.abs(c * x ** i) for i, c in enumerate(D(o(e)))) + sum(np.abs(c * x ** i) for i, c in enumerate(D(g(e))))
                            return np.abs(pev(D(g(e)), x) - pev(D(o(e)), x)) <= 1e-8 * sc
                        ps.append(('%s keeps the slope %d steps back' % (who, r), True, res))
                if dq > 0 and lmm == BDF:
                    def top(e, a=a):
                        xi = xip(e, q)          # xi_1 = tau1/h: the completed step
                        # increment of the predictor over the retained polynomial, divided differences of the last correction
                        hs = e['h']
                        x = [F(1) + 0 * hs]
                        s = hs
                        for j in range(1, q):
                            s = s + e['tau%d' % (j + 1)]
                            x.append(s / hs)
                        prod = np.ones_like(hs)
                        for v in x[1:]:
                            prod = prod * v
                        xs = sum(F(1) / j for j in range(1, q + 1)) - sum(1 / v for v in x[:q - 1]) if q > 1 else F(1)
                        return (xs - 1 / x[q - 1]) / prod * e[a] * e['eta'] ** (q + 1)
                    ps.append(('%s new column' % who, got[q + 1], top))
                elif dq > 0:
                    ps.append(('%s new column' % who, got[q + 1], 0.0))
                    for j in range(2, q + 1):
                        ps.append(('%s column %d' % (who, j), got[j], (lambda c, j: lambda e: e[c] * e['eta'] ** j)(old[j], j)))
            pre = None
            if dq > 0 and lmm == BDF:
                def pre(env, rng):
                    env['tau1'] = env['h'] * 1      # the last completed step is the current scale
                    return env
            decide(rep, '%s order %d to %d' % ('BDF' if lmm == BDF else 'Adams', q, new), k, ps, seed, npts, pre=pre, rtol=1e-7)
        return go
    for lmm in (BDF, ADAMS):
        mx = max(Q[lmm])
        for q in (Q[lmm] if lmm == BDF or tier != 'quick' else (1, 2, 3, 4, 5, 6, 11, 12)):
            if q > 1:
                out.append(('order %d %d down' % (lmm, q), order(lmm, q, -1)))
            if q < mx:
                out.append(('order %d %d up' % (lmm, q), order(lmm, q, 1)))
            out.append(('order %d %d same' % (lmm, q), order(lmm, q, 0)))

    def complete(lmm, q, qwait):
        def go(rep):
            for Ns in (0, 3 if q < 4 or tier != 'quick' else 2):
                k = Cv(lmm, 2, Ns)
                qmax = k.m('cv_qmax')
                k.history(q)
                k.steps(q=q)
                for j in range(q + 1):
                    k.setm('cv_l', k.f('l%d' % j), j)
                k.symvec(k.m('cv_acor'), 'ac')
                for s in range(Ns):
                    k.symvec(k.arr('cv_acorS', s), 'acs%d_' % s)
                k.setm('cv_tq', k.f('tq5'), 5)
                k.setm('cv_qwait', qwait)
                nst = k.i('nst', 0, 5)
                k.setm('cv_nst', nst)
                k.setm('cv_saved_tq5', k.f('stq5'))
                spare = {}
                if q < qmax:
                    spare = {None: k.symvec(k.zn(qmax), 'old')}
                    for s in range(Ns):
                        spare[s] = k.symvec(k.znS(qmax, s), 'olds%d_' % s)
                k.call('cvCompleteStep', k.mem)
                ps = []
                for j in range(q + 1):
                    for i in range(2):
                        if j != qmax or qwait != 2:
                            ps.append(('column %d component %d' % (j, i), k.column(j)[i], (lambda j, i: lambda e: e['z%d_%d' % (j, i)] + e['l%d' % j] * e['ac%d' % i])(j, i)))
                        for s in range(Ns):
                            ps.append(('sensitivity %d column %d component %d' % (s + 1, j, i), k.columnS(j, s)[i],
                                       (lambda j, i, s: lambda e: e['zs%d_%d_%d' % (j, s, i)] + e['l%d' % j] * e['acs%d_%d' % (s, i)])(j, i, s)))
                ps += [('steps taken', k.m('cv_nst'), lambda e: e['nst'] + 1), ('last step size', k.m('cv_hu'), sym('h')), ('last order', k.m('cv_qu'), q),
                       ('recorded step 1', k.m('cv_tau', 1), sym('h')), ('steps before review', k.m('cv_qwait'), qwait - 1)]
                for j in range(2, q + 1):
                    ps.append(('recorded step %d' % j, k.m('cv_tau', j), sym('tau%d' % (j - 1))))
                if q == 1:
                    ps.append(('recorded step 2', k.m('cv_tau', 2), lambda e: np.where(e['nst'] >= 1, e['tau1'], e['tau2'])))
                if q < qmax:
                    sv = qwait == 2
                    for w, old in spare.items():
                        v = k.zn(qmax) if w is None else k.znS(qmax, w)
                        for i in range(2):
                            ps.append(('saved correction %s component %d' % ('' if w is None else 'of sensitivity %d' % (w + 1), i), k.data(v, 2)[i],
                                       sym(('ac%d' % i) if w is None else 'acs%d_%d' % (w, i)) if sv else old[i]))
                    ps.append(('saved error coefficient', k.m('cv_saved_tq5'), sym('tq5' if sv else 'stq5')))
                    if sv:
                        ps.append(('column of the saved correction', k.m('cv_indx_acor'), qmax))
                decide(rep, 'completed %s step of order %d, %d before review' % ('BDF' if lmm == BDF else 'Adams', q, qwait), k, ps, seed, npts)
        return go
    for lmm, q in [(BDF, 1), (BDF, 2), (BDF, 3), (BDF, 4), (BDF, 5), (ADAMS, 1), (ADAMS, 3), (ADAMS, 12)]:
        for qw in (1, 2, 3):
            out.append(('complete %d %d %d' % (lmm, q, qw), complete(lmm, q, qw)))
    return out
