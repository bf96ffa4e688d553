"""P55: error test, step size and order selection, first step, failure handling."""
from .cvk import *

RULE = ('a step is accepted exactly when the weighted local error of state (and sensitivities, when controlled) is at most one; a rejected step restores '
        'the history and time, shrinks the step by the documented factor within its limits, lowers the order after repeated failures, restarts at order one, '
        'and gives up with the matching code after the permitted number of failures or at the smallest step; the next order and step follow the documented '
        'error estimates, thresholds and limits; the first step lies between its bounds')

TRY_AGAIN, PREDICT_AGAIN, DO_TEST = 5, 3, 2
ERR_FAILURE, CONV_FAILURE = -3, -4
PREV_CONV, PREV_ERR = 7, 8
wide = lambda r, n: np.exp(r.uniform(-13, 3, n)).astype(F)
big = lambda r, n: np.exp(r.uniform(2.1, 5, n)).astype(F)
small = lambda r, n: np.exp(r.uniform(-13, -2.1, n)).astype(F)
sgn = lambda f: lambda r, n: f(r, n) * np.where(r.random(n) < .3, -1, 1)


def tasks(tier, seed):
    out = []
    npts = 400 if tier == 'quick' else 4000
    cases = [(BDF, 1), (BDF, 2), (BDF, 4), (BDF, 5), (ADAMS, 1), (ADAMS, 3), (ADAMS, 12)]
    if tier != 'quick':
        cases = [(BDF, q) for q in range(1, 6)] + [(ADAMS, q) for q in range(1, 13)]

    # ------------------------------------------------ choice of the next step and order
    def prepare(lmm, q, qwait, Ns, con):
        def go(rep):
            n = 2
            k = Cv(lmm, n, Ns)
            k.history(q)
            qmax = k.m('cv_qmax')
            full = q == qmax
            for nm, v in [('w', k.m('cv_ewt'))] + [('ws%d_' % s, k.arr('cv_ewtS', s)) for s in range(Ns)]:
                k.symvec(v, nm, pos)
            k.symvec(k.m('cv_acor'), 'ac', wide)
            for s in range(Ns):
                k.symvec(k.arr('cv_acorS', s), 'acs%d_' % s, wide)
            if not full:
                k.symvec(k.zn(qmax), 'old', wide)
                for s in range(Ns):
                    k.symvec(k.znS(qmax, s), 'olds%d_' % s, wide)
            for j in range(1, 6):
                k.setm('cv_tq', k.f('tq%d' % j, wide), j)
            k.setm('cv_saved_tq5', k.f('stq5', mixed(wide, 0.0)))
            h = k.f('h', sgn(pos))
            for f in ('cv_h', 'cv_hscale', 'cv_next_h'):
                k.setm(f, h)
            k.setm('cv_tau', h, 1)
            k.setm('cv_tau', k.f('tau2', pos), 2)
            k.setm('cv_hmax_inv', k.f('hmi', mixed(pos, 0.0)))
            k.setm('cv_etamax', k.f('etamax', lambda r, m: np.array([1, 10, 1e4], dtype=F)[r.integers(0, 3, m)]))
            k.setm('cv_qwait', qwait)
            k.setm('cv_errconS', con)
            k.setm('cv_nst', 3)
            dsm = k.f('dsm', lambda r, m: np.minimum(wide(r, m), 1))
            k.call('cvPrepareNextStep', k.mem, dsm)
            memo = {}

            def model(e):
                if memo:
                    return memo
                one = np.ones_like(e['h'])
                L = q + 1
                use = range(Ns) if con else ()

                def eta(bias, x, p):
                    return 1 / (np.where(bias * x > 0, bias * x, 0) ** (one / p) + F(1e-6))

                def nrm(c, cs):
                    v = wrms([c(i) for i in range(n)], [e['w%d' % i] for i in range(n)])
                    for s in use:
                        v = np.maximum(v, wrms([cs(s, i) for i in range(n)], [e['ws%d_%d' % (s, i)] for i in range(n)]))
                    return v
                eq = eta(6, e['dsm'], L)
                em = ep = 0 * one
                if q > 1:
                    em = eta(6, e['tq1'] * nrm(lambda i: e['z%d_%d' % (q, i)], lambda s, i: e['zs%d_%d_%d' % (q, s, i)]), q)
                if not full:
                    cq = e['tq5'] / np.where(e['stq5'] == 0, 1, e['stq5']) * (e['h'] / e['tau2']) ** L
                    ep = eta(10, e['tq3'] * nrm(lambda i: e['ac%d' % i] - cq * e['old%d' % i], lambda s, i: e['acs%d_%d' % (s, i)] - cq * e['olds%d_%d' % (s, i)]), L + 1)
                    ep = np.where(e['stq5'] == 0, 0, ep)
                best = np.maximum(em, np.maximum(eq, ep))
                if qwait != 0:
                    best, dq = eq, 0 * one
                else:
                    dq = np.where(best == eq, 0, np.where(best == em, -1, 1))
                dq = np.where(best < 1.5, 0, dq)
                et = np.minimum(best, e['etamax'])
                et = et / np.maximum(1, np.abs(e['h']) * e['hmi'] * et)
                et = np.where(best < 1.5, 1, et)
                hold = e['etamax'] == 1
                memo.update(eta=np.where(hold, 1, et), q=(q + np.where(hold, 0, dq)).astype(np.int64),
                            up=(dq == 1) & ~hold, wait=np.where(hold, max(qwait, 2), qwait if qwait else 2))
                return memo
            ps = [('next order', k.m('cv_qprime'), lambda e: model(e)['q']), ('step ratio', k.m('cv_eta'), lambda e: model(e)['eta']),
                  ('next step size', k.m('cv_hprime'), lambda e: model(e)['eta'] * e['h']), ('current step size', k.m('cv_h'), sym('h')),
                  ('steps before review', k.m('cv_qwait'), lambda e: model(e)['wait']), ('order', k.m('cv_q'), q)]
            for j in range(q + 1):
                for i in range(n):
                    ps.append(('column %d component %d' % (j, i), k.column(j)[i], sym('z%d_%d' % (j, i))))
            if not full and lmm == BDF:
                for i in range(n):
                    ps.append(('saved correction %d' % i, k.data(k.zn(qmax), n)[i], (lambda i: lambda e: np.where(model(e)['up'], e['ac%d' % i], e['old%d' % i]))(i)))
                    for s in range(Ns if con else 0):
                        ps.append(('saved correction %d of sensitivity %d' % (i, s + 1), k.data(k.znS(qmax, s), n)[i],
                                   (lambda i, s: lambda e: np.where(model(e)['up'], e['acs%d_%d' % (s, i)], e['olds%d_%d' % (s, i)]))(i, s)))
            decide(rep, 'next step after %s order %d, review in %d, %d sensitivities%s' % (NAME[lmm], q, qwait, Ns, ' controlled' if con else ''), k, ps, seed, npts,
                   assume_=lambda e: np.isfinite(e['h']))
        return go
    for lmm, q in cases:
        for qw in (0, 1, 3):
            for Ns, con in ((0, 0), (2, 0), (3, 1)):
                out.append(('next step %d %d %d %d %d' % (lmm, q, qw, Ns, con), prepare(lmm, q, qw, Ns, con)))

    # ------------------------------------------------ common set-up of a rejected attempt
    def attempt(lmm, q, Ns):
        k = Cv(lmm, 2, Ns)
        k.history(q)
        h = k.f('h', sgn(pos))
        for f in ('cv_h', 'cv_hscale', 'cv_next_h'):
            k.setm(f, h)
        for j in range(1, q + 2):
            k.setm('cv_tau', k.f('tau%d' % j, pos), j)
        k.setm('cv_hmin', k.f('hmin', mixed(lambda r, n: np.exp(r.uniform(-5, 1, n)).astype(F), 0.0)))
        k.setm('cv_tn', k.f('tn'))
        k.setm('cv_etamax', 10.0)
        k.setm('cv_nst', 5)
        k.setm('cv_qwait', 2)
        k.setm('cv_qprime', q)
        return k

    def names(k, q):
        """(label, column extractor, symbol names) of state and sensitivities"""
        r = [('state', lambda j: k.column(j), [['z%d_%d' % (j, i) for j in range(q + 1)] for i in range(2)])]
        for s in range(k.Ns):
            r.append(('sensitivity %d' % (s + 1), (lambda s: lambda j: k.columnS(j, s))(s), [['zs%d_%d_%d' % (j, s, i) for j in range(q + 1)] for i in range(2)]))
        return r

    def ptr_long(k, name, v):
        b = k.buf(8, name)
        k.st('i64', v, b)
        return b

    def ptr_int(k, name, v):
        b = k.buf(4, name)
        k.st('i32', v, b)
        return b

    def errtest(lmm, q, nef, maxnef, Ns, frc=0, fsrc=0):
        def go(rep):
            k = attempt(lmm, q, Ns)
            k.frc, k.fsrc = frc, fsrc
            k.setm('cv_maxnef', maxnef)
            k.setm('cv_tq', k.f('tq2', wide), 2)
            nrm = k.f('nrm', wide)
            k.setm('cv_nfe', 7)
            k.setm('cv_nfSe', 11)
            nflag, pn, pl, pd = ptr_int(k, 'flag', 0), ptr_int(k, 'failures', nef), ptr_long(k, 'count', 40), k.buf(8, 'dsm')
            r = k.call('cvDoErrorTest', k.mem, nflag, sym('saved'), nrm, pn, pl, pd)
            k.dom['saved'] = real
            dsm = lambda e: e['nrm'] * e['tq2']
            ok = lambda e: dsm(e) <= 1
            end = lambda e: ~ok(e) & ((np.abs(e['h']) <= e['hmin'] * F(1.000001)) | (nef + 1 == maxnef))
            redo = lambda e: ~ok(e) & ~end(e)
            lo = lambda e, f: np.maximum(f, e['hmin'] / np.abs(e['h']))
            stage = 'shrink' if nef + 1 <= 3 else 'drop' if q > 1 else 'restart'
            L = q + 1

            def eta(e):
                if stage != 'shrink':
                    return lo(e, F(0.1))
                x = lo(e, np.maximum(F(0.1), 1 / ((6 * dsm(e)) ** (F(1) / L) + F(1e-6))))
                return np.minimum(x, F(0.2)) if nef + 1 >= 2 else x
            code = TRY_AGAIN
            if stage == 'restart':
                code = -8 if frc < 0 else -11 if frc > 0 else (-41 if fsrc < 0 else -44 if fsrc > 0 else TRY_AGAIN) if Ns else TRY_AGAIN
            ps = [('outcome', r, lambda e: np.where(ok(e), 0, np.where(end(e), ERR_FAILURE, code))),
                  ('local error', k.ld('double', pd), dsm), ('failures in this step', k.ld('i32', pn), lambda e: nef + np.where(ok(e), 0, 1)),
                  ('total failures', k.ld('i64', pl), lambda e: 40 + np.where(ok(e), 0, 1)),
                  ('time', k.m('cv_tn'), lambda e: np.where(ok(e), e['tn'], e['saved'])),
                  ('flag for the next attempt', ite(icmp('eq', r, TRY_AGAIN), k.ld('i32', nflag), 0), lambda e: np.where(redo(e) & (code == TRY_AGAIN), PREV_ERR, 0)),
                  ('step size', ite(icmp('eq', r, TRY_AGAIN), k.m('cv_h'), 0.0), lambda e: np.where(redo(e) & (code == TRY_AGAIN), e['h'] * eta(e), 0)),
                  ('growth limit', ite(icmp('eq', r, TRY_AGAIN), k.m('cv_etamax'), 0.0), lambda e: np.where(redo(e) & (code == TRY_AGAIN), 1, 0)),
                  ('order', k.m('cv_q'), lambda e: np.where(redo(e) & (stage == 'drop'), q - 1, q)),
                  ('order plus one', k.m('cv_L'), lambda e: np.where(redo(e) & (stage == 'drop'), q, q + 1))]
            ps += [('evaluations reported beyond those made', iop('sub', k.m('cv_nfe'), k.ncalls('rhs')), 7),
                   ('sensitivity evaluations reported beyond those made', iop('sub', k.m('cv_nfSe'), iop('add', k.ncalls('sens'), k.ncalls('sens1'))), 11)]
            for f in ('cv_hscale', 'cv_next_h'):
                ps.append((f[3:], k.m(f), lambda e: e['h'] * np.where(redo(e), eta(e), 1)))
            if stage != 'shrink':
                ps.append(('steps before review', k.m('cv_qwait'), lambda e: np.where(redo(e), q if stage == 'drop' else 10, 2)))
            again = icmp('eq', r, TRY_AGAIN)
            if stage == 'drop':
                # same result as undoing the step and then lowering the order (decided exactly under P52)
                t = attempt(lmm, q, Ns)
                t.call('cvRestore', t.mem, sym('saved'))
                t.setm('cv_qprime', q - 1)
                t.setm('cv_eta', ite(again, fop('fdiv', k.m('cv_h'), sym('h')), 1.0))
                t.call('cvAdjustParams', t.mem)
            for lab, get, nm in names(k, q):
                for i in range(2):
                    for j in range(q + 1):
                        v = ite(again, get(j)[i], 0.0)
                        if stage == 'shrink':
                            f = (lambda nm, i, j: lambda e: restored([e[x] for x in nm[i]], j) * eta(e) ** j)(nm, i, j)
                        elif stage == 'drop':
                            if j == q:
                                continue
                            s_ = None if lab == 'state' else int(lab.split()[1]) - 1
                            f = (lambda v: lambda e: e['ev'](v))(t.column(j)[i] if s_ is None else t.columnS(j, s_)[i])
                        elif j == 0:
                            f = (lambda nm, i: lambda e: restored([e[x] for x in nm[i]], 0))(nm, i)
                        else:
                            def f(e, nm=nm, i=i, lab=lab):
                                y = [restored([e['z0_%d' % a], e['z1_%d' % a]], 0) for a in range(2)]
                                yd = [U['f%d' % a](e['saved'], *y) for a in range(2)]
                                if lab == 'state':
                                    return e['h'] * eta(e) * yd[i]
                                sv = [restored([e['zs0_%d_%d' % (s, a)], e['zs1_%d_%d' % (s, a)]], 0) for s in range(Ns) for a in range(2)]
                                return e['h'] * eta(e) * U['g%d_%d' % (int(lab.split()[1]) - 1, i)](e['saved'], *y, *sv)
                        ps.append(('%s column %d component %d' % (lab, j, i), v, (lambda f: lambda e: np.where(redo(e) & (code == TRY_AGAIN), f(e), 0))(f)))
                        ps.append(('%s column %d component %d kept' % (lab, j, i), ite(icmp('eq', r, 0), get(j)[i], 0.0), (lambda x: lambda e: np.where(ok(e), e[x], 0))(nm[i][j])))
            U = ufs_of(2, Ns)
            if stage == 'restart':
                for ev in k.events('user:sens'):
                    yv, fv, sv = ev.data[1]
                    for a in range(2):
                        ps.append(('derivative handed to the sensitivity right-hand side %d' % a, ite(ev.pc, fv[a], 0.0),
                                   (lambda a, pc: lambda e: np.where(e['ev'](pc), U['f%d' % a](e['saved'], *[restored([e['z0_%d' % b], e['z1_%d' % b]], 0) for b in range(2)]), 0))(a, ev.pc)))
            decide(rep, 'error test, %s order %d, %d earlier failures of %d, %d sensitivities, status %d %d' % (NAME[lmm], q, nef, maxnef, Ns, frc, fsrc), k, ps, seed, npts,
                   ufs=U, rtol=1e-7, atol=1e-9)
        return go
    qs = [(BDF, 1), (BDF, 2), (BDF, 3), (BDF, 5), (ADAMS, 1), (ADAMS, 4)] if tier == 'quick' else cases
    for lmm, q in qs:
        for nef in range(0, 7):
            for Ns in (0, 3):
                out.append(('error test %d %d %d %d' % (lmm, q, nef, Ns), errtest(lmm, q, nef, 7, Ns)))
        out.append(('error test limit %d %d' % (lmm, q), errtest(lmm, q, 2, 3, 1)))
    for frc in (-1, 1):
        out.append(('error test rhs %d' % frc, errtest(BDF, 1, 4, 7, 0, frc)))
        out.append(('error test rhs sens %d' % frc, errtest(BDF, 1, 4, 7, 2, frc)))
        out.append(('error test sens rhs %d' % frc, errtest(BDF, 1, 4, 7, 2, 0, frc)))

    # ------------------------------------------------ failed corrections
    FATAL = {-6: -6, -7: -7, -8: -8, -31: -31, -41: -41, -51: -51, -999: -16, -16: -16}
    RECOV = {902: CONV_FAILURE, 9: -10, 12: -43, 10: -15}

    def nflag_(lmm, q, ncf, flag, Ns):
        def go(rep):
            k = attempt(lmm, q, Ns)
            k.setm('cv_maxncf', 10)
            k.setm('cv_eta', k.f('eta0', unit))
            fl, pn, pl = ptr_int(k, 'flag', flag), ptr_int(k, 'failures', ncf), ptr_long(k, 'count', 40)
            k.dom['saved'] = real
            r = k.call('cvHandleNFlag', k.mem, fl, sym('saved'), pn, pl)
            end = lambda e: (np.abs(e['h']) <= e['hmin'] * F(1.000001)) | (ncf + 1 == 10)
            eta = lambda e: np.maximum(F(0.25), e['hmin'] / np.abs(e['h'])) if flag != 10 else e['eta0']
            if flag == 0:
                st = lambda e: DO_TEST + 0 * e['h'].astype(np.int64)
            elif flag < 0:
                st = lambda e: FATAL[flag] + 0 * e['h'].astype(np.int64)
            else:
                st = lambda e: np.where(end(e), RECOV[flag], PREDICT_AGAIN)
            ps = [('outcome', r, st), ('failures in this step', k.ld('i32', pn), ncf + (flag > 0)) if flag >= 0 else ('count', 0, 0),
                  ('total failures', k.ld('i64', pl), 40 + (flag != 0)), ('time', k.m('cv_tn'), sym('saved') if flag else sym('tn'))]
            again = icmp('eq', r, PREDICT_AGAIN)
            red = (lambda e: ~end(e)) if flag > 0 else (lambda e: np.zeros(len(e['h']), bool))
            if flag > 0:
                ps.append(('flag for the next attempt', ite(again, k.ld('i32', fl), 0), lambda e: np.where(red(e), PREV_CONV, 0)))
                ps.append(('growth limit', ite(again, k.m('cv_etamax'), 0.0), lambda e: np.where(red(e), 1, 0)))
            for f in ('cv_h', 'cv_hscale', 'cv_next_h'):
                ps.append((f[3:], k.m(f), lambda e: e['h'] * np.where(red(e), eta(e), 1)))
            for lab, get, nm in names(k, q):
                for i in range(2):
                    for j in range(q + 1):
                        f = (lambda nm, i, j: lambda e: restored([e[x] for x in nm[i]], j) * np.where(red(e), eta(e), 1) ** j)(nm, i, j) if flag else sym(nm[i][j])
                        ps.append(('%s column %d component %d' % (lab, j, i), get(j)[i], f))
            decide(rep, 'failed correction %d, %s order %d, %d earlier failures, %d sensitivities' % (flag, NAME[lmm], q, ncf, Ns), k, ps, seed, npts, rtol=1e-8, atol=1e-10)
        return go
    for flag in [0] + list(FATAL) + list(RECOV):
        for ncf in (0, 8, 9):
            for (lmm, q), Ns in (((BDF, 1), 3), ((BDF, 3), 0), ((ADAMS, 2), 1)):
                if flag > 0 or ncf == 0:
                    out.append(('failed correction %d %d %d %d' % (flag, ncf, q, Ns), nflag_(lmm, q, ncf, flag, Ns)))

    # ------------------------------------------------ first step
    def first(Ns, con, where):
        def go(rep):
            n = 1 if where and 'rec' in where else 2
            k = Cv(BDF, n, Ns)
            k.setm('cv_errconS', con)
            k.setm('cv_e_data', k.mem)
            k.setm('cv_y', k.vec(n, 'work'))
            if Ns:
                pb = [k.f('pbar%d' % s, pos) for s in range(Ns)]
                for s in range(Ns):
                    k.st('double', pb[s], k.m('cv_pbar'), 8 * s)
            t0 = k.f('tn')
            k.setm('cv_tn', t0)
            tout = k.f('tout')
            y = k.symvec(k.zn(0), 'y', real)
            yd = k.symvec(k.zn(1), 'yd', mixed(real, 0.0))
            for s in range(Ns):
                k.symvec(k.znS(0, s), 's%d_' % s)
                k.symvec(k.znS(1, s), 'sd%d_' % s)
            k.symvec(k.m('cv_ewt'), 'w', pos)
            for s in range(Ns):
                k.symvec(k.arr('cv_ewtS', s), 'ws%d_' % s, pos)
            lim, lim2 = k.f('lim', lambda r, m: np.exp(r.uniform(-12, 1, m)).astype(F)), k.f('lim2', lambda r, m: np.exp(r.uniform(-12, 1, m)).astype(F))
            base_f, base_s = k.h_rhs, k.h_sens
            far = lambda t, l: fcmp('flt', l, fn('fabs', fop('fsub', t, t0)))

            def hf(st, a, ty):
                base_f(st, a, ty)
                return {None: 0, 'rec': ite(far(a[0], lim), 1, 0), 'fat': ite(far(a[0], lim), -1, 0)}[where and where[0]]

            def hs(st, a, ty):
                base_s(st, a, ty)
                return {None: 0, 'rec': ite(far(a[1], lim2), 1, 0), 'fat': ite(far(a[1], lim2), -1, 0)}[where and where[1]]
            k.E.hooks['user_rhs'], k.E.hooks['user_sens'] = hf, hs
            h_in = k.f('hin')
            k.setm('cv_h', h_in)
            k.setm('cv_nfe', 7)
            k.setm('cv_nfSe', 11)
            r = k.call('cvHin', k.mem, tout)
            U = ufs_of(n, Ns)
            memo = {}

            def model(e):
                if memo:
                    return memo
                N = len(e['tn'])
                st, hh = np.zeros(N, dtype=np.int64), e['hin'].copy()
                with np.errstate(all='ignore'):
                    for p in range(N):
                        st[p], v = one({x: e[x][p] for x in e if x != 'ev'})
                        if v is not None:
                            hh[p] = v
                memo.update(st=st, h=hh)
                return memo

            def one(e):
                td = e['tout'] - e['tn']
                dist = abs(td)
                rnd = F(2.220446049250313e-16) * max(abs(e['tn']), abs(e['tout']))
                if td == 0 or dist < 2 * rnd:
                    return -27, None
                sg = 1 if td > 0 else -1
                lb = 100 * rnd
                use = range(Ns) if con else ()
                Y, Yd, W = ([e['%s%d' % (c, i)] for i in range(n)] for c in ('y', 'yd', 'w'))
                S, Sd, WS = ([[e['%s%d_%d' % (c, s, i)] for i in range(n)] for s in range(Ns)] for c in ('s', 'sd', 'ws'))
                inv = max(abs(b) / (F(0.1) * abs(a) + e['rtol'] * abs(a) + e['atol']) for a, b in zip(Y, Yd))
                for s in use:
                    inv = max([inv] + [abs(b) / (F(0.1) * abs(a) + e['rtol'] * abs(a) + e['atol'] / abs(e['pbar%d' % s])) for a, b in zip(S[s], Sd[s])])
                ub = F(0.1) * dist
                if ub * inv > 1:
                    ub = 1 / inv
                hg = np.sqrt(lb * ub)
                if ub < lb:
                    return 0, sg * hg
                hs = hg
                for c1 in range(1, 5):
                    good = False
                    for c2 in range(4):
                        x = sg * hg
                        t = e['tn'] + x
                        yy = [a + x * b for a, b in zip(Y, Yd)]
                        rc = (1 if where[0] == 'rec' else -1) if where and where[0] and abs(t - e['tn']) > e['lim'] else 0
                        kind = 'f'
                        if rc == 0 and use:
                            rc = (1 if where[1] == 'rec' else -1) if where and where[1] and abs(t - e['tn']) > e['lim2'] else 0
                            kind = 's'
                        if rc < 0:
                            return (-8 if kind == 'f' else -41), None
                        if rc == 0:
                            good = True
                            break
                        hg = hg * F(0.2)
                    if not good:
                        if c1 <= 2:
                            return (-10 if kind == 'f' else -43), None
                        hn = hs
                        break
                    hs = hg
                    fv = [U['f%d' % i](t, *yy) for i in range(n)]
                    nr = wrms([(a - b) / x for a, b in zip(fv, Yd)], W)
                    if use:
                        ss = [a + x * b for s in range(Ns) for a, b in zip(S[s], Sd[s])]
                        for s in use:
                            gv = [U['g%d_%d' % (s, i)](t, *yy, *ss) for i in range(n)]
                            nr = max(nr, wrms([(a - b) / x for a, b in zip(gv, Sd[s])], WS[s]))
                    hn = np.sqrt(2 / nr) if nr * ub * ub > 2 else np.sqrt(hg * ub)
                    if c1 == 4:
                        break
                    ra = hn / hg
                    if .5 < ra < 2:
                        break
                    if c1 > 1 and ra > 2:
                        hn = hg
                        break
                    hg = hn
                h0 = F(0.5) * hn
                h0 = min(max(h0, lb), ub)
                return 0, sg * h0
            ps = [('outcome', r, lambda e: model(e)['st']), ('first step', ite(icmp('eq', r, 0), k.m('cv_h'), 0.0), lambda e: np.where(model(e)['st'] == 0, model(e)['h'], 0)),
                  ('evaluations reported beyond those made', iop('sub', k.m('cv_nfe'), k.ncalls('rhs')), 7), ('sensitivity evaluations reported beyond those made', iop('sub', k.m('cv_nfSe'), k.ncalls('sens')), 11)]

            def pre(env, rng):
                N = len(env['tn'])
                m = rng.random(N)
                env['tout'] = np.where(m < .1, env['tn'] * (1 + F(1e-16)), np.where(m < .2, env['tn'] * (1 + F(3e-15)), np.where(m < .25, env['tn'], env['tout'])))
                return env
            decide(rep, 'first step with %d sensitivities%s, %s' % (Ns, ' controlled' if con else '', where), k, ps, seed, 150 if tier == 'quick' else 1500, ufs=U, pre=pre, rtol=1e-7,
                   assume_=lambda e: np.logical_and.reduce([e['rtol'] > 0, e['atol'] > 0] + [e['pbar%d' % s] > 0 for s in range(Ns)]))
        return go
    for Ns, con in ((0, 0), (2, 0), (2, 1)):
        for where in (None, ('rec', None), ('fat', None)) + (((None, 'rec'), (None, 'fat'), ('rec', 'rec')) if con else ()):
            N = 1 if where and 'rec' in where and Ns else Ns
            out.insert(0, ('first step %d %d %s' % (N, con, where), first(N, con, where)))

    # ------------------------------------------------ a whole step under every short sequence of failures
    CONVF, RHSF, CORR = 902, 9, {'N': 902, 'R': 9, 'F': -8, 'L': -7}
    SC = {'n': 902, 'r': 12, 'f': -41, 'l': -7}

    def whole(q, Ns, ism, con, script, qwait=2):
        """script: outcome of each attempt; N R F L: the state correction fails, E: its error test fails; then with staggered sensitivities
        1 / -: the evaluation at the corrected state fails recoverably / fatally, n r f l: the sensitivity correction, e: its error test; A: accepted"""
        def go(rep):
            n = 1
            k = Cv(BDF, n, Ns, ism)
            for need in ('cvNls', 'cvStgrNls', 'cvSet', 'cvStep'):
                if k.P.find(need) is None:
                    raise Unsupported(need + ' not found')
            k.setm('cv_errconS', con)
            k.history(q)
            h = k.f('h', sgn(pos))
            for f in ('cv_h', 'cv_hscale', 'cv_next_h', 'cv_hprime'):
                k.setm(f, h)
            for j in range(1, q + 2):
                k.setm('cv_tau', k.f('tau%d' % j, pos), j)
            k.setm('cv_tn', k.f('tn'))
            for f, v in (('cv_etamax', 10.0), ('cv_nst', 5), ('cv_qwait', qwait), ('cv_qprime', q), ('cv_maxnef', 7), ('cv_maxncf', 10), ('cv_hmin', -1.0), ('cv_hmax_inv', 0.0),
                         ('cv_eta', 1.0), ('cv_nfe', 7), ('cv_ncfn', 20), ('cv_ncfnS', 30), ('cv_netf', 40), ('cv_netfS', 50)):
                k.setm(f, v)
            k.setm('cv_y', k.vec(n, 'yout'))
            k.when(fcmp('flt', 0.0, fn('fabs', h)))
            stag = Ns and ism != SIM
            for t in range(len(script)):
                for nm, L in (('acn%d' % t, 'E'), ('acs%d' % t, 'e')):
                    c = fcmp('fle', fop('fmul', k.f(nm, big if L == script[t] else small), sym('tq2')), 1.0)
                    k.when(not_(c) if L == script[t] else c)
            k.dom['tq2'] = pos
            log = []

            def att(st):
                v = st.vars.get('att', 0)
                if isn(v) or v > len(script):
                    raise Unsupported('attempts depend on data')
                return v

            def h_set(st, a, ty):
                old, k.s = k.s, st
                for j in range(1, 6):
                    k.setm('cv_tq', k.f('tq%d' % j, pos), j)
                for j in range(q + 1):
                    k.setm('cv_l', k.f('l%d' % j, pos), j)
                k.s = old

            def h_nls(st, a, ty):
                v = att(st)
                if v >= len(script):
                    k.E.fault(st, 'another attempt after the step was decided')
                    st.dead = True
                    return 0
                st.vars['att'] = v + 1
                old, k.s = k.s, st
                log.append((v, a[1], k.m('cv_tn'), k.column(0)[0], k.m('cv_h'), st.pc))
                k.symvec(k.m('cv_acor'), 'ac%d_' % v)
                k.setm('cv_acnrm', sym('acn%d' % v))
                k.setdata(k.m('cv_y'), [k.f('yc%d' % v)])
                if Ns and ism == SIM:
                    for s in range(Ns):
                        k.symvec(k.arr('cv_acorS', s), 'as%d_%d_' % (v, s))
                k.s = old
                return CORR.get(script[v], 0)

            def h_stg(st, a, ty):
                v = att(st) - 1
                old, k.s = k.s, st
                for s in range(Ns):
                    k.symvec(k.arr('cv_acorS', s), 'as%d_%d_' % (v, s))
                k.setm('cv_acnrmS', sym('acs%d' % v))
                k.setm('cv_acnrmScur', 1)
                k.s = old
                return SC.get(script[v], 0)

            def h_f(st, a, ty):
                v = att(st) - 1
                k.h_rhs(st, a, ty)
                return {'1': 1, '-': -1}.get(script[v], 0)
            TY['cv_acnrmScur'] = ('i32', 4)
            k.E.hooks.update(cvNls=h_nls, cvStgrNls=h_stg, cvSet=h_set, user_rhs=h_f)
            r = k.call('cvStep', k.mem)
            # ---- reference
            ncf = ncfS = nef = nefS = 0
            ends = {'A': 0, 'F': -8, 'L': -7, '-': -8, 'f': -41, 'l': -7}[script[-1]]
            cnt = dict(ncfn=20, ncfnS=30, netf=40, netfS=50, nfe=7)
            facs = []
            for c in script:
                if c in 'NRFL':
                    cnt['ncfn'] += 1
                elif c == 'E':
                    cnt['netf'] += 1
                elif stag:
                    cnt['nfe'] += 1
                    if c in 'nrfl1':
                        cnt['ncfnS'] += 1
                    if c == 'e':
                        cnt['netfS'] += 1
                # step reduction
                if c in 'NRnr1':
                    facs.append(lambda e: F(0.25))
                elif c in 'Ee':
                    if c == 'E':
                        nef += 1
                    else:
                        nefS += 1
                    facs.append((lambda m, nm: lambda e: min_(np.maximum(F(0.1), 1 / ((6 * e[nm] * e['tq2']) ** (F(1) / (q + 1)) + F(1e-6))), m))(
                        nef if c == 'E' else nefS, ('acn%d' if c == 'E' else 'acs%d') % (len(facs))))
                else:
                    facs.append(lambda e: F(1))
                if stag and c not in 'NRFLE':
                    nef = 0         # the state's counter starts again once its error test has passed

            def min_(x, m):
                return np.minimum(x, F(0.2)) if m >= 2 else x

            def H(e, t):
                x = e['h']
                for f in facs[:t]:
                    x = x * f(e)
                return x
            last = len(script) - 1
            ok = ends == 0
            ps = [('status', r, ends)]
            for v, flag, tn, z0, hh, pc in log:
                want = 6 if v == 0 else PREV_CONV if script[v - 1] in 'NRnr1' else PREV_ERR
                ps += [('attempt %d is told why the previous one failed' % (v + 1), flag, want, pc),
                       ('attempt %d time' % (v + 1), tn, (lambda v: lambda e: e['tn'] + H(e, v))(v), pc),
                       ('attempt %d step size' % (v + 1), hh, (lambda v: lambda e: H(e, v))(v), pc),
                       ('attempt %d prediction' % (v + 1), z0, (lambda v: lambda e: sum(e['z%d_0' % j] * (H(e, v) / e['h']) ** j for j in range(q + 1)))(v), pc)]
            ps.append(('attempts', k.s.vars.get('att', 0), len(script)))
            for c, v in cnt.items():
                if c != 'nfe' or 1:
                    ps.append(('counter ' + c, k.m('cv_' + c), v))
            ps.append(('time', k.m('cv_tn'), lambda e: e['tn'] + (H(e, last) if ok else 0)) if script[-1] != '-' else ('-', 0, 0))
            ps.append(('steps', k.m('cv_nst'), 6 if ok else 5))
            from math import comb

            def pred(e, z, j):
                return sum(comb(i, j) * e[z % i] * (H(e, last) / e['h']) ** i for i in range(j, q + 1))
            if ok:
                ps += [('step taken', k.m('cv_hu'), lambda e: H(e, last)), ('step size', k.m('cv_h'), lambda e: H(e, last)), ('order used', k.m('cv_qu'), q),
                       ('local error vector', k.data(k.m('cv_acor'), 1)[0], lambda e: e['tq2'] * e['ac%d_0' % last])]
                for j in range(q + 1):
                    ps.append(('column %d' % j, k.column(j)[0], (lambda j: lambda e: pred(e, 'z%d_0', j) + e['l%d' % j] * e['ac%d_0' % last])(j)))
                    for s in range(Ns):
                        ps.append(('sensitivity %d column %d' % (s + 1, j), k.columnS(j, s)[0],
                                   (lambda j, s: lambda e: pred(e, 'zs%%d_%d_0' % s, j) + e['l%d' % j] * e['as%d_%d_0' % (last, s)])(j, s)))
                for s in range(Ns):
                    ps.append(('local error vector of sensitivity %d' % (s + 1), k.data(k.arr('cv_acorS', s), 1)[0], (lambda s: lambda e: e['tq2'] * e['as%d_%d_0' % (last, s)])(s)))

                def nxt(e):
                    d = e['acn%d' % last] * e['tq2']
                    if stag and con:
                        d = np.maximum(d, e['acs%d' % last] * e['tq2'])
                    x = 1 / ((6 * d) ** (F(1) / (q + 1)) + F(1e-6))
                    return H(e, last) * (np.where(x < 1.5, 1, np.minimum(x, 10)) if len(script) == 1 else 1)
                ps.append(('next step size', k.m('cv_hprime'), nxt))
                ps.append(('growth limit', k.m('cv_etamax'), 10.0))
                ps.append(('steps before review', k.m('cv_qwait'), qwait - 1 if len(script) == 1 else max(qwait - 1, 2)))
            decide(rep, 'step of order %d, %d sensitivities (mode %d%s), attempts %s' % (q, Ns, ism, ', controlled' if con else '', script), k, ps, seed, 100, rtol=1e-7, atol=1e-9,
                   ufs=ufs_of(n, Ns))
        return go
    from itertools import product

    def words(fails, ends, m):
        for r in range(m + 1):
            for w in product(fails, repeat=r):
                for t in ends:
                    yield ''.join(w) + t
    deep = 2 if tier == 'quick' else 4

    def group(nm, runs):
        def go(rep):
            for a in runs:
                whole(*a)(rep)
        out.append((nm, go))
    for q in (1, 3):
        group('whole step %d' % q, [(q, 0, STG, 0, w) for w in words('NRE', 'AFL', deep)])
        group('whole step simultaneous %d' % q, [(q, 2, SIM, 1, w) for w in words('NE', 'AF', deep)])
        for con in (0, 1) if q == 1 or tier != 'quick' else (1,):
            fails = 'NEr1n' + ('e' if con else '')
            ws = list(words(fails, 'AF-f', deep))
            for c in range(0, len(ws), 40):
                group('whole step staggered %d %d %d' % (q, con, c), [(q, 2, STG, con, w) for w in ws[c:c + 40]])
    return out
