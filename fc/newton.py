"""P56: the corrector: residual, Newton iteration, convergence test, linear set-up decision."""
from .cvk import *

RULE = ('the correction solves rl1*z1 + c - gamma*f(t, z0+c) = 0 for the state and for every sensitivity by Newton steps: each step solves with the negative residual at the newest iterate '
        'and is accepted by the documented convergence test in the weights of that vector; the linear set-up is called exactly when documented and told why; divergence or too many '
        'iterations retries once with a fresh Jacobian before reporting; failures of user functions and of the linear solver are handed on with the matching code')
CONT, RECVR = 901, 902
for _n in 'cv_acnrmcur cv_acnrmScur sens_solve sens_solve_idx cv_jcur'.split():
    TY[_n] = ('i32', 4)
N_ = 2


def tasks(tier, seed):
    out = []
    npts = 300 if tier == 'quick' else 2500
    wide = lambda r, n: np.exp(r.uniform(-6, 4, n)).astype(F)

    # ------------------------------------------------ the corrector inside a step
    def corrector(kind, Ns, con, nflag=6, nst=5, nstlp=3, force=0, J=1, j0=0, fr=(), sr=(), ur=(), vr=(), idx=0, gam=False):
        """fr, sr, ur, vr: {count: status} of set-up, solve, right-hand side, sensitivity right-hand side"""
        fr, sr, ur, vr = dict(fr), dict(sr), dict(ur), dict(vr)
        ism = {'state': STG, 'sim': SIM, 'stg': STG, 'stg1': STG1}[kind]
        SIMU, SEN = kind == 'sim', kind in ('stg', 'stg1')
        which = ([None] if not SEN else []) + (list(range(Ns)) if kind in ('sim', 'stg') else [idx] if kind == 'stg1' else [])

        def go(rep):
            k = Cv(BDF, N_, Ns, ism)
            k.setm('cv_errconS', con)
            ini = {'state': 'cvNlsInit', 'sim': 'cvNlsInitSensSim', 'stg': 'cvNlsInitSensStg', 'stg1': 'cvNlsInitSensStg1'}
            k.history(1)
            k.setm('cv_y', k.vec(N_, 'work'))
            t = k.f('t')
            k.setm('cv_tn', t)
            for c in ('rl1', 'gamma', 'delp', 'crate', 'crateS'):
                k.setm('cv_' + c, k.f(c, (lambda r, n: np.exp(r.uniform(-7, 1, n)).astype(F)) if c == 'gamma' else pos))
            k.setm('cv_acnrm', k.f('acnrm0', pos))
            k.setm('cv_acnrmS', k.f('acnrmS0', pos))
            k.setm('cv_acnrmcur', 0)
            k.setm('cv_acnrmScur', 0)
            k.setm('cv_tq', k.f('tol', wide), 4)
            k.setm('cv_gamrat', k.f('gamrat', lambda r, n: r.uniform(.2, 1.8, n).astype(F)) if gam else 1.0)
            k.setm('cv_gammap', k.f('gammap', pos))
            k.setm('cv_nst', nst)
            k.setm('cv_nstlp', nstlp)
            k.setm('cv_msbp', 20)
            k.setm('cv_forceSetup', force)
            for c, v in (('cv_nfe', 100), ('cv_nfSe', 200), ('cv_nsetups', 300), ('cv_nsetupsS', 400), ('cv_nni', 500), ('cv_nniS', 600)):
                k.setm(c, v)
            if kind == 'stg1':
                for s in range(Ns):
                    k.st('i64', 700 + s, k.m('cv_nniS1'), 8 * s)
                    k.st('i64', 800 + s, k.m('cv_nfSe'), 0) if False else None
            k.setm('convfail', 7)
            k.setm('cv_jcur', 0)
            W = {None: k.symvec(k.m('cv_ewt'), 'w', pos)}
            for s in range(Ns):
                W[s] = k.symvec(k.arr('cv_ewtS', s), 'w%d_' % s, pos)
            if SEN:                     # the state has been corrected
                k.symvec(k.m('cv_y'), 'yn')
                k.symvec(k.m('cv_ftemp'), 'fn')
            k.symvec(k.m('cv_acor'), 'old')
            for s in range(Ns):
                k.symvec(k.arr('cv_acorS', s), 'old%d_' % s)
            cnt = k.buf(8, 'solve count')
            k.st('i64', 0, cnt)
            par = k.f('par', lambda r, n: np.where(r.random(n) < .5, r.uniform(.8, 1.2, n), r.uniform(.05, 1.6, n)).astype(F))
            scale = k.f('scale', lambda r, n: np.exp(r.uniform(-12, 2, n)).astype(F))

            def status(c, base, table):
                r = 0
                for i in sorted(table):
                    r = ite(icmp('eq', c, base + i), table[i], r)
                return r

            def nth(st, what, base):
                """number of this call, counted here and not by the code"""
                c = st.vars[what]
                st.vars[what] = iop('add', c, 1)
                return iop('add', c, base)
            for what in ('setup', 'rhs', 'sens'):
                k.s.vars[what] = 0

            def h_setup(st, a, ty):
                old, k.s = k.s, st
                try:
                    c = nth(st, 'setup', 300)
                    k.E.event(st, 'user:setup', (c, a[1], a[0]), (k.data(a[2], N_), k.data(a[3], N_)))
                    k.E.store(st, 'i32', ite(icmp('eq', a[1], 1), 1, J), a[4])
                    return status(c, 300, fr)
                finally:
                    k.s = old

            def h_solve(st, a, ty):
                old, k.s = k.s, st
                try:
                    c = k.ld('i64', cnt)
                    b = k.data(a[1], N_)
                    w = k.data(a[2], N_)
                    k.E.event(st, 'user:solve', (c,), (b, w, k.data(a[3], N_), k.data(a[4], N_)))
                    k.st('i64', iop('add', c, 1), cnt)
                    for i in range(N_):
                        k.wr(st, a[1], i, mk('uf', 'f', 'D%d' % i, par, scale, i2f(c), *b))
                    return status(c, 0, sr)
                finally:
                    k.s = old
            rhs0, sens0, sens10 = k.h_rhs, k.h_sens, k.h_sens1

            def h_f(st, a, ty):
                rhs0(st, a, ty)
                return status(nth(st, 'rhs', 100), 100, ur)

            def h_s(st, a, ty, f=None):
                (sens10 if kind == 'stg1' else sens0)(st, a, ty)
                return status(nth(st, 'sens', 200), 200, vr)
            k.hook('lin_setup', h_setup)
            k.hook('lin_solve', h_solve)
            k.setm('cv_lsetup', P('@lin_setup', 0))
            k.setm('cv_lsolve', P('@lin_solve', 0))
            r0 = k.call(ini[kind], k.mem)
            k.E.hooks['user_rhs'], k.E.hooks['user_sens'], k.E.hooks['user_sens1'] = h_f, h_s, h_s
            NLSp = k.m({'state': 'NLS', 'sim': 'NLSsim', 'stg': 'NLSstg', 'stg1': 'NLSstg1'}[kind])
            content = k.ld('ptr', NLSp, k.off('_generic_SUNNonlinearSolver', 'content'))
            NC = '_SUNNonlinearSolverContent_Newton'
            k.put(NC, content, 'jcur', j0, 'i32')
            k.put(NC, content, 'niters', 71, 'i64')         # left over from an earlier solve
            k.put(NC, content, 'nconvfails', 73, 'i64')
            k.put(NC, content, 'curiter', 2, 'i32')
            if kind == 'stg1':
                k.setm('sens_solve_idx', idx)
            if SEN:
                r = k.call('cvStgrNls', k.mem) if kind == 'stg' else k.call('cvStgr1Nls', k.mem, idx)
            else:
                r = k.call('cvNls', k.mem, nflag)
            U = ufs_of(N_, Ns)
            rr = np.random.default_rng(5).uniform(-1, 1, (N_, N_))

            def dsol(i):
                def f(p, sc, c, *b):
                    # a contraction or expansion by the sampled factor
                    return p * b[i] + sc * F(0.3) * np.sin(sum(F(rr[i][j]) * b[j] for j in range(N_)) + c) * p ** (c + 1)
                return f
            for i in range(N_):
                U['D%d' % i] = dsol(i)
            memo = {}

            def one(e, j):
                g = lambda x: e[x][j]
                sc = lambda f, *a: f(*[np.asarray(x, dtype=F) for x in a])
                z = lambda s, c: [g('z%d_%d' % (c, i)) for i in range(N_)] if s is None else [g('zs%d_%d_%d' % (c, s, i)) for i in range(N_)]
                w = lambda s: [g('w%d' % i) for i in range(N_)] if s is None else [g('w%d_%d' % (s, i)) for i in range(N_)]
                M = dict(fails=0, nfe=100, nfSe=200, nset=300, it=0, solves=[], setups=[], fs=[])
                rate = 'crateS' if SEN else 'crate'
                S = dict(crate=g('crate'), crateS=g('crateS'), delp=g('delp'), gamrat=g('gamrat') if gam else F(1), gammap=g('gammap'), nstlp=nstlp, force=force, acnrm=g('acnrm0'), acnrmS=g('acnrmS0'))
                if not SEN:
                    M['convfail'] = 0 if nflag in (6, 8) else 2
                    call = nflag in (7, 8) or nst == 0 or nst >= nstlp + 20 or abs(S['gamrat'] - 1) > F(0.3)
                    if force:
                        call, M['convfail'] = True, 2
                else:
                    M['convfail'] = 7
                    call = False
                jcur, jbad = j0, False
                cor = {s: [F(0)] * N_ for s in which}
                y = [g('yn%d' % i) for i in range(N_)] if SEN else None
                fy = [g('fn%d' % i) for i in range(N_)] if SEN else None
                yS = {}

                def resid():
                    nonlocal y, fy
                    res = {}
                    if None in which:
                        y = [a + b for a, b in zip(z(None, 0), cor[None])]
                        fy = [sc(U['f%d' % i], g('t'), *y) for i in range(N_)]
                        x = ur.get(M['nfe'] - 100, 0)
                        M['nfe'] += 1
                        if x:
                            return -8 if x < 0 else 9
                        res[None] = [g('rl1') * z(None, 1)[i] + cor[None][i] - g('gamma') * fy[i] for i in range(N_)]
                    ss = [s for s in which if s is not None]
                    if ss:
                        for s in ss:
                            yS[s] = [a + b for a, b in zip(z(s, 0), cor[s])]
                        x = vr.get(M['nfSe'] - 200, 0)
                        M['nfSe'] += 1
                        M['fs'].append((list(fy), list(y)))
                        if x:
                            return -41 if x < 0 else 12
                        for s in ss:
                            a = [v for q in ss for v in yS[q]]
                            fS = [sc(U['g%d_%d' % (s, i)], g('t'), *(y + a)) for i in range(N_)]
                            res[s] = [g('rl1') * z(s, 1)[i] + cor[s][i] - g('gamma') * fS[i] for i in range(N_)]
                    return res
                while True:
                    st = 0
                    R = resid()
                    if not isinstance(R, dict):
                        st = R
                        break
                    if call:
                        if jbad:
                            M['convfail'] = 1
                        M['setups'].append((M['convfail'], list(y), list(fy)))
                        x = fr.get(M['nset'] - 300, 0)
                        M['nset'] += 1
                        jcur = 1 if M['convfail'] == 1 else J
                        S.update(gamrat=F(1), gammap=g('gamma'), crate=F(1), crateS=F(1), nstlp=nst)
                        if not SEN:
                            S['force'] = 0
                        if x:
                            st = -6 if x < 0 else RECVR
                            break
                    m = 0
                    while True:
                        M['it'] += 1
                        d = {}
                        for s in which:
                            c = len(M['solves'])
                            b = [-v for v in R[s]]
                            M['solves'].append((b, w(s), list(y), list(fy)))
                            d[s] = [sc(U['D%d' % i], g('par'), g('scale'), F(c), *b) for i in range(N_)]
                            x = sr.get(c, 0)
                            if x:
                                st = -7 if x < 0 else RECVR
                                break
                        if st:
                            break
                        for s in which:
                            cor[s] = [a + b for a, b in zip(cor[s], d[s])]
                        nr = {s: wrms(d[s], w(s)) for s in which}
                        Del = max(nr.values())
                        if m > 0:
                            S[rate] = max(F(0.3) * S[rate], Del / S['delp'])
                        if Del * min(F(1), S[rate]) / g('tol') <= 1:
                            if kind == 'state':
                                S['acnrm'] = nr[None] if m == 0 else wrms(cor[None], w(None))
                            elif kind == 'sim':
                                a = {s: wrms(cor[s], w(s)) for s in which}
                                S['acnrm'] = max(a.values()) if con else a[None]
                            elif kind == 'stg' and con:
                                S['acnrmS'] = max(wrms(cor[s], w(s)) for s in which)
                            jcur = 0
                            break
                        if m >= 1 and Del > 2 * S['delp']:
                            st = RECVR
                            break
                        S['delp'] = Del
                        m += 1
                        if m >= 3:
                            st = RECVR
                            break
                        R = resid()
                        if not isinstance(R, dict):
                            st = R
                            break
                    if st > 0 and not jcur:
                        M['fails'] += 1
                        call = jbad = True
                        cor = {s: [F(0)] * N_ for s in which}
                        continue
                    break
                M['fails'] += st != 0
                M.update(st=st, cor=cor, S=S, jcur=jcur)
                M['y'] = y if SEN else [a + b for a, b in zip(z(None, 0), cor[None])]
                M['yS'] = {s: [a + b for a, b in zip(z(s, 0), cor[s])] for s in which if s is not None}
                return M

            def model(e):
                if not memo:
                    with np.errstate(all='ignore'):
                        memo['L'] = [one(e, j) for j in range(len(e['t']))]
                return memo['L']

            def V_(f, ty=F):
                return lambda e: np.array([f(m) for m in model(e)], dtype=ty)
            if r is None:
                raise Unsupported('no result: %s' % [(x.kind, x.site, x.data) for x in k.s.events[-4:]])
            ok = icmp('eq', r, 0)
            ps = [('initialisation', r0, 0), ('status', r, V_(lambda m: m['st'], np.int64)),
                  ('evaluations', k.m('cv_nfe'), V_(lambda m: m['nfe'], np.int64)), ('sensitivity evaluations', k.m('cv_nfSe'), V_(lambda m: m['nfSe'], np.int64)),
                  ('set-ups', k.m('cv_nsetups'), V_(lambda m: m['nset'], np.int64)), ('sensitivity set-ups', k.m('cv_nsetupsS'), V_(lambda m: 400 + (m['nset'] - 300 if SEN else 0), np.int64)),
                  ('iterations', k.m('cv_nni'), V_(lambda m: 500 + (0 if SEN else m['it']), np.int64)), ('sensitivity iterations', k.m('cv_nniS'), V_(lambda m: 600 + (m['it'] if kind == 'stg' else 0), np.int64)),
                  ('solves', k.ld('i64', cnt), V_(lambda m: len(m['solves']), np.int64))]
            ps += [('iterations of the last solve', k.get(NC, content, 'niters', 'i64'), V_(lambda m: m['it'], np.int64)),
                   ('failures of the last solve', k.get(NC, content, 'nconvfails', 'i64'), V_(lambda m: m['fails'], np.int64)),
                   ('solver keeps the Jacobian marked current', k.get(NC, content, 'jcur', 'i32'), V_(lambda m: m['jcur'], np.int64))]
            if kind == 'stg1':
                for s in range(Ns):
                    ps.append(('iterations of sensitivity %d' % (s + 1), k.ld('i64', k.m('cv_nniS1'), 8 * s), V_(lambda m, s=s: 700 + s + (m['it'] if s == idx else 0), np.int64)))
            for c, nm in (('crate', 'rate'), ('crateS', 'sensitivity rate'), ('delp', 'last update norm'), ('gamrat', 'gamma ratio'), ('gammap', 'gamma at set-up'), ('acnrm', 'correction norm'), ('acnrmS', 'sensitivity correction norm')):
                ps.append((nm, k.m('cv_' + c) if c not in ('acnrm', 'acnrmS') else ite(ok, k.m('cv_' + c), 0.0), V_(lambda m, c=c: m['S'][c] if c not in ('acnrm', 'acnrmS') or m['st'] == 0 else 0)))
            ps.append(('last set-up step', k.m('cv_nstlp'), V_(lambda m: m['S']['nstlp'], np.int64)))
            ps.append(('forced set-up pending', k.m('cv_forceSetup'), V_(lambda m: m['S']['force'], np.int64)))
            ps.append(('Jacobian current', ite(ok, k.m('cv_jcur'), 0), 0))
            for s in which:
                A = k.data(k.m('cv_acor') if s is None else k.arr('cv_acorS', s), N_)
                Y = k.data(k.m('cv_y') if s is None else k.arr('cv_yS', s), N_)
                for i in range(N_):
                    nm = 'state' if s is None else 'sensitivity %d' % (s + 1)
                    ps.append(('correction of %s %d' % (nm, i), ite(ok, A[i], 0.0), V_(lambda m, s=s, i=i: m['cor'][s][i] if m['st'] == 0 else 0)))
                    ps.append(('corrected %s %d' % (nm, i), ite(ok, Y[i], 0.0), V_(lambda m, s=s, i=i: (m['y'] if s is None else m['yS'][s])[i] if m['st'] == 0 else 0)))
            for s in set([None] + list(range(Ns))):
                for c in (0, 1):
                    Z = k.column(c) if s is None else k.columnS(c, s)
                    for i in range(N_):
                        ps.append(('history %s %d %d' % (s, c, i), Z[i], sym('z%d_%d' % (c, i) if s is None else 'zs%d_%d_%d' % (c, s, i))))
            # what the linear solver was given, solve by solve
            evs = k.events('user:solve')
            for x in range(3 * len(which)):
                for what, nm in enumerate(('right-hand side', 'weights', 'iterate', 'derivative')):
                    for i in range(N_):
                        v = 0.0
                        for ev in evs:
                            v = ite(and_(ev.pc, icmp('eq', ev.data[0][0], x)), ev.data[1][what][i], v)
                        ps.append(('%s %d of solve %d' % (nm, i, x + 1), v, V_(lambda m, x=x, what=what, i=i: m['solves'][x][what][i] if len(m['solves']) > x else 0)))
            for x in range(2):
                v = 0
                q = [0.0] * (2 * N_)
                for ev in k.events('user:setup'):
                    c = and_(ev.pc, icmp('eq', ev.data[0][0], 300 + x))
                    v = ite(c, iop('add', ev.data[0][1], 1), v)
                    q = [ite(c, n, o) for n, o in zip(ev.data[1][0] + ev.data[1][1], q)]
                ps.append(('reason of set-up %d' % (x + 1), v, V_(lambda m, x=x: m['setups'][x][0] + 1 if len(m['setups']) > x else 0, np.int64)))
                for i in range(2 * N_):
                    ps.append(('point of set-up %d, %d' % (x + 1, i), q[i], V_(lambda m, x=x, i=i: (m['setups'][x][1] + m['setups'][x][2])[i] if len(m['setups']) > x else 0)))
            key = 'corrector %s, %d sensitivities%s, entry %d, step %d, last set-up %d%s, jacobian %d %d, failures %s %s %s %s' % (
                kind, Ns, ' controlled' if con else '', nflag, nst, nstlp, ' forced' if force else '', J, j0, fr, sr, ur, vr)
            # whether a ratio exactly on the limit needs a set-up is a matter of rounding
            off = (lambda e: np.abs(np.abs(e['gamrat'] - 1) - F(0.3)) > 1e-12) if gam else None
            decide(rep, key, k, ps, seed, npts, ufs=U, rtol=1e-7, atol=1e-11, assume_=off)
        out.append(('corrector %s %d %d %d %d %d %d%d %s%s%s%s %d %d' % (kind, Ns, con, nflag, nst, force, J, j0, fr, sr, ur, vr, idx, gam), go))

    # decision about the set-up
    for nf in (6, 7, 8):
        corrector('state', 0, 0, nf, gam=nf == 6)
        corrector('sim', 2, 1, nf, gam=nf == 6)
    for kind, Ns in (('state', 0), ('sim', 1)):
        corrector(kind, Ns, 0, nst=0, nstlp=0)
        corrector(kind, Ns, 0, nst=23, nstlp=3)
        corrector(kind, Ns, 0, nst=22, nstlp=3)
        corrector(kind, Ns, 0, force=1)
        corrector(kind, Ns, 1, nflag=8, force=1)
    # iteration, retry with a fresh Jacobian
    for kind, Ns, con in (('state', 0, 0), ('state', 2, 1), ('sim', 1, 0), ('sim', 2, 1), ('stg', 1, 0), ('stg', 3, 1), ('stg', 2, 0)):
        for J, j0 in ((0, 0), (1, 0), (1, 1)):
            corrector(kind, Ns, con, J=J, j0=j0)
            if kind in ('state', 'sim'):
                corrector(kind, Ns, con, nflag=7, J=J, j0=j0)
    for idx in (0, 1, 2):
        corrector('stg1', 3, 0, idx=idx)
        corrector('stg1', 3, 1, idx=idx, j0=1)
    # failures
    for c in (-1, 1):
        for kind, Ns in (('state', 0), ('sim', 2), ('stg', 2), ('stg1', 2)):
            if kind in ('state', 'sim'):
                for at in (0, 1, 2):
                    corrector(kind, Ns, 0, ur={at: c})
                corrector(kind, Ns, 0, nflag=7, fr={0: c}, J=0)
            corrector(kind, Ns, 0, fr={(0 if kind in ('stg', 'stg1') else 1): c}, nflag=7, J=0)
            corrector(kind, Ns, 0, fr={0: c}, J=1)
            for at in (0, 1, 2, 4):
                corrector(kind, Ns, 0, sr={at: c})
            if Ns:
                for at in (0, 1, 2):
                    corrector(kind, Ns, 0, vr={at: c})
    from . import newton2
    return out + newton2.tasks(tier, seed)
