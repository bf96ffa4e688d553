"""P64: the linear system of the corrector: Jacobian, I - gamma*J, when it is renewed, its solution and failures."""
from .cvk import *

RULE = ('the matrix handed to the linear solver is I - gamma*J with J the caller\'s Jacobian or the documented difference quotient, renewed exactly when the documented rule says and kept otherwise; '
        'a solve returns the solver\'s answer (scaled for a changed gamma with BDF only) and the class of its status; settings are stored as given or refused without effect')
LI32 = 'iterative matrixbased jacDQ jbad scalesol jtimesDQ user_linsys last_flag'.split()
LI64 = 'msbj nje nfeDQ nstlj npe nli nps ncfl njtsetup njtimes'.split()
LPTR = 'jac J_data LS A savedJ ytemp x ycur fcur pset psolve pfree P_data jtsetup jtimes jt_f jt_data linsys A_data'.split()
LTY = {x: ('i32', 4) for x in LI32}
LTY.update({x: ('i64', 8) for x in LI64})
LTY.update({x: ('ptr', 8) for x in LPTR})
REC = 'CVLsMemRec'
MEM_NULL, LMEM_NULL, ILL = -1, -2, -3


class Ln(Cv):
    def l(self, name):
        return self.get(REC, self.m('cv_lmem'), name, *[LTY.get(name, ('double', 8))[0]])

    def setl(self, name, v):
        self.put(REC, self.m('cv_lmem'), name, v, LTY.get(name, ('double', 8))[0])

    def mat(self, A, n):
        return [[self.ld('double', self.call('SUNDenseMatrix_Column', A, j), 8 * i) for j in range(n)] for i in range(n)]

    def setmat(self, A, n, name):
        out = [[self.f('%s%d_%d' % (name, i, j)) for j in range(n)] for i in range(n)]
        for j in range(n):
            c = self.call('SUNDenseMatrix_Column', A, j)
            for i in range(n):
                self.st('double', out[i][j], c, 8 * i)
        return out


def tasks(tier, seed):
    out = []
    npts = 300 if tier == 'quick' else 3000

    def st(fn):
        out.append((fn.__name__.replace('_', ' '), fn))
        return fn
    SR = np.sqrt(F(2.0) ** -52)

    # --------------------------------------------- set-up: Jacobian, renewal, I - gamma J, factorisation
    def setup(n, jac, nst, nstlj, msbj, convfail, lmm=BDF, rc=0, lsrc=0, at=0, again=False, writes=None, j=1):
        """jac: 'dq' or 'user'; rc: status of the right-hand side / Jacobian at its at-th call; lsrc: status of the factorisation"""
        def go(rep):
            k = Ln(lmm, n)
            if jac == 'user':
                uj = k.hook('user_jac', lambda st, a, ty: ujac(k, st, a))
                r1 = k.call('CVodeSetJacFn', k.mem, uj)
                if again:       # the data of the problem is replaced afterwards
                    k.udata = k.buf(8, 'other data')
                    k.call('CVodeSetUserData', k.mem, k.udata)
            else:
                r1 = k.call('CVodeSetJacFn', k.mem, NULL) if again else 0
            ini = k.call('cvLsInitialize', k.mem)
            A = k.l('A')
            old = k.setmat(A, n, 'a')
            sv = k.setmat(k.l('savedJ'), n, 's')
            g, gp = k.f('gamma', real), k.f('gammap', real)
            k.setm('cv_gamma', g)
            k.setm('cv_gammap', gp)
            k.setm('cv_nst', nst)
            h = k.f('h', lambda r, m: real(r, m) * np.where(r.random(m) < .3, 1e9, 1))
            k.setm('cv_h', h)
            t = k.f('t')
            k.setm('cv_tn', t)
            k.setl('nstlj', nstlj)
            k.setl('msbj', msbj)
            k.setl('nje', 40)
            k.setl('nfeDQ', 70)
            k.setl('last_flag', 99)
            w = k.symvec(k.m('cv_ewt'), 'w', pos)
            y = k.vec(n, 'yp', dom=mixed(real, 0.0))
            z0 = k.f('quiet', among(0.0, 1.0))
            fy = k.vec(n)
            fv = [fop('fmul', z0, k.f('fp%d' % i)) for i in range(n)]
            k.setdata(fy, fv)
            jc = k.buf(4, 'jcur')
            k.st('i32', 5, jc)
            tmp = [k.vec(n, 'tmp%d_' % i) for i in range(3)]
            seen = []

            def ujac(k, st, a):
                old_, k.s = k.s, st
                try:
                    tt, yy, ff, J, ud = a[:5]
                    seen.append(1)
                    k.E.event(st, 'user:jac', (tt, ud), (k.data(yy, n), k.data(ff, n), [x for row in k.mat(J, n) for x in row]))
                    for c in range(n):
                        col = k.call('SUNDenseMatrix_Column', J, c)
                        for i in range(n):
                            if writes is None or (i, c) in writes:
                                k.st('double', mk('uf', 'f', 'J%d_%d' % (i, c), tt, *k.data(yy, n)), col, 8 * i)
                    return rc
                finally:
                    k.s = old_
            rhs0 = k.h_rhs
            cnt = []

            def h_f(st, a, ty):
                rhs0(st, a, ty)
                cnt.append(1)
                return rc if len(cnt) - 1 == at else 0
            k.E.hooks['user_rhs'] = h_f

            def h_fac(st, a, ty):
                old_, k.s = k.s, st
                try:
                    k.E.event(st, 'factor', (a[0], a[1]), [x for row in k.mat(a[1], n) for x in row])
                    return lsrc
                finally:
                    k.s = old_
            k.hook('SUNLinSolSetup_Dense', h_fac)
            was = k.record('CVodeMemRec', k.mem)
            r = k.call('cvLsSetup', k.mem, convfail, y, fy, jc, *tmp)
            U = ufs_of(n)
            rr = np.random.default_rng(11).uniform(-1, 1, (n, n, n + 2))

            def jf(i, c):
                return lambda tt, *yy: sum(F(rr[i][c][q]) * np.sin(yy[q] + F(.3)) for q in range(n)) + F(rr[i][c][n]) * tt + F(rr[i][c][n + 1])
            for i in range(n):
                for c in range(n):
                    U['J%d_%d' % (i, c)] = jf(i, c)

            def new(e):
                b = nst == 0 or nst >= nstlj + msbj or convfail == 2
                dg = np.abs(e['gamma'] / e['gammap'] - 1)
                return np.full(len(dg), b) | ((convfail == 1) & (dg < F(0.2)))

            def fnew(e, i):
                return e['quiet'] * e['fp%d' % i]

            def J(e, i, c):
                if jac == 'user':
                    v = 0 * e['t'] if writes is not None and (i, c) not in writes else U['J%d_%d' % (i, c)](e['t'], *[e['yp%d' % q] for q in range(n)])
                else:
                    fn = np.sqrt(sum((fnew(e, q) * e['w%d' % q]) ** 2 for q in range(n)) / n)
                    mi = np.where(fn != 0, 1000 * np.abs(e['h']) * F(2.0) ** -52 * n * fn, 1)
                    inc = np.maximum(SR * np.abs(e['yp%d' % c]), mi / e['w%d' % c])
                    yy = [e['yp%d' % q] + (inc if q == c else 0) for q in range(n)]
                    v = (U['f%d' % i](e['t'], *yy) - fnew(e, i)) / inc
                return np.where(new(e), v, e['s%d_%d' % (i, c)])
            failed = rc != 0 and (jac == 'user' or at < n)
            stf = lambda e: np.where(new(e) & failed, np.sign(rc), lsrc)
            okj = lambda e: ~(new(e) & failed)
            ps = [('set Jacobian', r1, 0), ('initialisation', ini, 0), ('status', r, lambda e: stf(e).astype(np.int64)),
                  ('Jacobian is current', k.ld('i32', jc), lambda e: new(e).astype(np.int64)),
                  ('Jacobians evaluated', k.l('nje'), lambda e: 40 + new(e).astype(np.int64)), ('step of last Jacobian', k.l('nstlj'), lambda e: np.where(new(e), nst, nstlj)),
                  ('right-hand sides for Jacobians', k.l('nfeDQ'), lambda e: 70 + np.where(new(e) & (jac == 'dq'), at + 1 if failed else n, 0))]
            if not failed:
                ps.append(('last status', k.l('last_flag'), lsrc))
            else:
                ps.append(('last status', k.l('last_flag'), lambda e: np.where(new(e), -6 if rc < 0 else -7, lsrc)))
            evs = k.events('factor')
            for i in range(n):
                for c in range(n):
                    v = 0.0
                    for ev in evs:
                        v = ite(ev.pc, ev.data[1][i * n + c], v)
                    ps.append(('system matrix %d %d' % (i, c), v, lambda e, i=i, c=c: np.where(okj(e), (i == c) - e['gamma'] * J(e, i, c), 0)))
                    ps.append(('kept Jacobian %d %d' % (i, c), k.mat(k.l('savedJ'), n)[i][c], lambda e, i=i, c=c: np.where(okj(e), J(e, i, c), e['s%d_%d' % (i, c)])))
            x = 0
            for ev in evs:
                x = iop('add', x, ite(ev.pc, 1, 0))
                ps.append(('matrix factored', ev.data[0][1] == A, True))
                ps.append(('solver used', ev.data[0][0] == k.LS, True))
            ps.append(('factorisations', x, lambda e: okj(e).astype(np.int64)))
            for i in range(n):
                if not failed or jac == 'user':
                    ps.append(('point %d' % i, k.data(y, n)[i], sym('yp%d' % i)))
                ps.append(('derivative %d' % i, k.data(fy, n)[i], fv[i]))
                ps.append(('weight %d' % i, k.data(k.m('cv_ewt'), n)[i], w[i]))
            for ev in k.events('user:jac'):
                ps += [('time of the Jacobian', ev.data[0][0], t), ('data of the Jacobian', ev.data[0][1] == k.udata, True)]
                ps += [('state of the Jacobian %d' % i, ev.data[1][0][i], sym('yp%d' % i)) for i in range(n)]
                ps += [('derivative of the Jacobian %d' % i, ev.data[1][1][i], fv[i]) for i in range(n)]
            for ev in k.events('user:rhs'):
                ps += [('time of the right-hand side', ev.data[0][0], t), ('data of the right-hand side', ev.data[0][3] == k.udata, True)]
            now = k.record('CVodeMemRec', k.mem)
            ps += [(m + ' stays', eqv(now[m], was[m]), True) for m in now]
            decide(rep, 'set-up %s%s, %d states, step %d, last %d, every %d, reason %d, status %d at %d, factorisation %d%s' % (
                jac, ' again' if again else '', n, nst, nstlj, msbj, convfail, rc, at, lsrc, '' if writes is None else ' partial'), k, ps, seed, npts, ufs=U, rtol=1e-6, atol=1e-9,
                pre=lambda e, r: near(e, r))
        out.append(('set-up %s %d %d %d %d %d %d %d %d %d %s %s' % (jac, n, nst, nstlj, msbj, convfail, lmm, rc, lsrc, at, again, writes), go))

    def near(e, r):
        # half of the points have a ratio of gammas around the limit of the rule
        m = r.random(len(e['gamma'])) < .5
        e['gamma'] = np.where(m, e['gammap'] * r.uniform(.7, 1.3, len(m)), e['gamma']).astype(F)
        return e
    for jac in ('dq', 'user'):
        for cf in (0, 1, 2):
            setup(2, jac, 0, 0, 51, cf)
            setup(2, jac, 30, 10, 51, cf)
            setup(2, jac, 60, 10, 51, cf)
            setup(2, jac, 61, 10, 51, cf)
            setup(2, jac, 13, 10, 3, cf, ADAMS)
        for n in (1, 2, 3, 4):
            setup(n, jac, 5, 4, 51, 2)
            setup(n, jac, 5, 4, 51, 1)
        setup(2, jac, 5, 4, 51, 2, again=True)
        for c in (-1, 1, -3, 4):
            for cf in (0, 2):
                setup(2, jac, 5, 4, 51, cf, rc=c)
        for c in (-801, -802, 1, 2, 808):
            setup(2, jac, 5, 4, 51, 2, lsrc=c)
            setup(2, jac, 5, 4, 51, 0, lsrc=c)
    for at in (1, 2):
        for c in (-1, 1):
            setup(3, 'dq', 5, 4, 51, 2, rc=c, at=at)
    setup(2, 'user', 5, 4, 51, 2, writes=((0, 1),))
    setup(3, 'user', 0, 0, 51, 0, writes=((0, 0), (2, 1)))

    # --------------------------------------------- solve
    UNREC = (-801, -802, -803, -805, -808, -809, -810, -811)
    REC_ = (802, 803, 805, 806, 807, 808)

    def solve(n, lmm, rc, scal=1, Ns=0, ism=STG, sens=0, off=False):
        def go(rep):
            k = Ln(lmm, n, Ns, ism)
            if off:
                k.call('CVodeSetLinearSolutionScaling', k.mem, 0)
            ini = k.call('cvLsInitialize', k.mem)
            k.setm('cv_gamrat', k.f('gamrat', lambda r, m: np.where(r.random(m) < .2, 1, r.uniform(.2, 1.9, m)).astype(F)))
            k.setm('sens_solve', sens)
            k.setm('cv_tq', k.f('tol', pos), 4)
            b, w, y, f = (k.vec(n, x, dom=pos if x == 'w' else None) for x in ('b', 'w', 'y', 'f'))
            a = k.setmat(k.l('A'), n, 'a')
            k.symvec(k.l('x'), 'stale')
            k.setl('ncfl', 30)
            k.setl('nli', 20)
            k.setl('last_flag', 77)

            def h(st, ar, ty):
                old_, k.s = k.s, st
                try:
                    k.E.event(st, 'linsolve', (ar[0], ar[1], ar[2], ar[3], ar[4]), (k.data(ar[2], n), k.data(ar[3], n)))
                    bb = k.data(ar[3], n)
                    for i in range(n):
                        k.wr(st, ar[2], i, mk('uf', 'f', 'X%d' % i, *bb))
                    return rc
                finally:
                    k.s = old_
            k.hook('SUNLinSolSolve_Dense', h)
            was = k.record('CVodeMemRec', k.mem)
            lw = k.record(REC, k.m('cv_lmem'))
            r = k.call('cvLsSolve', k.mem, b, w, y, f)
            U = {'X%d' % i: (lambda i: lambda *v: sum(F(.3 + i - .4 * q) * v[q] for q in range(n)) + F(.1) * i)(i) for i in range(n)}
            code = 0 if rc == 0 else -1 if rc in UNREC else 1
            if rc == 801:
                code = 0            # at the first iteration a reduced residual is accepted
            ps = [('initialisation', ini, 0), ('status', r, code), ('last status', k.l('last_flag'), rc), ('failures', k.l('ncfl'), 30 + (rc != 0)), ('iterations', k.l('nli'), 20)]
            on = lmm == BDF and not off
            for i in range(n):
                x = (lambda e, i=i: U['X%d' % i](*[e['b%d' % q] for q in range(n)]) * (2 / (1 + e['gamrat']) if on else 1))
                ps.append(('solution %d' % i, k.data(b, n)[i], x))
                for v, nm in ((w, 'w'), (y, 'y'), (f, 'f')):
                    ps.append(('%s %d' % (nm, i), k.data(v, n)[i], sym('%s%d' % (nm, i))))
                for j in range(n):
                    ps.append(('matrix %d %d' % (i, j), k.mat(k.l('A'), n)[i][j], a[i][j]))
            evs = k.events('linsolve')
            ps.append(('solves', len(evs), 1))
            for ev in evs:
                ps += [('solver', ev.data[0][0] == k.LS, True), ('system', ev.data[0][1] == k.l('A'), True), ('tolerance', ev.data[0][4], 0.0)]
                ps += [('first guess %d' % i, ev.data[1][0][i], 0.0) for i in range(n)] + [('right-hand side %d' % i, ev.data[1][1][i], sym('b%d' % i)) for i in range(n)]
            now = k.record('CVodeMemRec', k.mem)
            ps += [(m + ' stays', eqv(now[m], was[m]), True) for m in now]
            ln = k.record(REC, k.m('cv_lmem'))
            ps += [(m + ' stays', eqv(ln[m], lw[m]), True) for m in ln if m not in ('last_flag', 'ncfl', 'nli', 'ycur', 'fcur')]
            decide(rep, 'solve %s, %d states, status %d, %d sensitivities %d %d%s' % (NAME[lmm], n, rc, Ns, ism, sens, ' unscaled' if off else ''), k, ps, seed, npts, ufs=U)
        out.append(('solve %d %d %d %d %d %d %d' % (n, lmm, rc, Ns, ism, sens, off), go))
    for lmm in (BDF, ADAMS):
        for n in (1, 3):
            solve(n, lmm, 0)
        for c in UNREC + REC_ + (801,):
            solve(2, lmm, c)
        solve(2, lmm, 0, Ns=2, ism=STG)
        solve(2, lmm, 0, Ns=2, ism=STG, sens=1)
        solve(2, lmm, 0, Ns=2, ism=SIM)
        solve(2, lmm, 0, Ns=2, ism=STG1, sens=1)
    solve(2, BDF, 0, off=True)

    # --------------------------------------------- the whole: set-up with the real factorisation, then solve
    @st
    def set_up_then_solve(rep):
        for n in (1, 2, 3):
            for lmm in (BDF, ADAMS):
                k = Ln(lmm, n)
                uj = k.hook('user_jac', lambda s, a, ty: jac(s, a))

                def jac(s, a):
                    old_, k.s = k.s, s
                    for c in range(n):
                        col = k.call('SUNDenseMatrix_Column', a[3], c)
                        for i in range(n):
                            k.st('double', sym('j%d_%d' % (i, c)), col, 8 * i)
                    k.s = old_
                    return 0
                for i in range(n):
                    for c in range(n):
                        k.f('j%d_%d' % (i, c), real)
                r0 = k.call('CVodeSetJacFn', k.mem, uj)
                r1 = k.call('cvLsInitialize', k.mem)
                k.setm('cv_gamma', k.f('gamma', pos))
                k.setm('cv_gammap', 1.0)
                k.setm('cv_gamrat', 1.0)
                k.setm('cv_nst', 0)
                k.setm('cv_tn', 0.0)
                jc = k.buf(4)
                k.st('i32', 0, jc)
                y, f, w = k.vec(n, 'y'), k.vec(n, 'f'), k.vec(n, 'w')
                r2 = k.call('cvLsSetup', k.mem, 0, y, f, jc, k.vec(n), k.vec(n), k.vec(n))
                k.when(icmp('eq', r2, 0), True)
                b = k.vec(n, 'b')
                r3 = k.call('cvLsSolve', k.mem, b, w, y, f)
                x = k.data(b, n)
                ps = [('statuses %d' % i, q, 0) for i, q in enumerate((r0, r1, r3))]
                for i in range(n):
                    v = x[i]
                    for c in range(n):
                        v = fop('fsub', v, fop('fmul', fop('fmul', sym('gamma'), sym('j%d_%d' % (i, c))), x[c]))
                    ps.append(('equation %d' % i, v, sym('b%d' % i)))
                decide(rep, 'set-up then solve %s %d' % (NAME[lmm], n), k, ps, seed, npts, rtol=1e-6, atol=1e-6)

    # --------------------------------------------- attaching
    @st
    def attaching(rep):
        for lmm in (BDF, ADAMS):
            k = Ln(lmm, 2, ls=False)
            A = k.call('SUNDenseMatrix', 2, 2, k.ctx())
            LS = k.call('SUNLinSol_Dense', k.y0, A, k.ctx())
            was = k.record('CVodeMemRec', k.mem)

            def kept(tag, st_, code):
                now = k.record('CVodeMemRec', k.mem)
                decide(rep, 'CVodeSetLinearSolver ' + tag, k, [('status', st_, code)] + [(m + ' stays', eqv(now[m], was[m]), True) for m in now], seed, 5)
            kept('without a solver object', k.call('CVodeSetLinearSolver', NULL, LS, A), MEM_NULL)
            kept('without a linear solver', k.call('CVodeSetLinearSolver', k.mem, NULL, A), ILL)
            kept('without a matrix', k.call('CVodeSetLinearSolver', k.mem, LS, NULL), ILL)
            for nm in ('CVodeSetJacFn', 'CVodeSetEpsLin', 'CVodeSetLSNormFactor', 'CVodeSetJacEvalFrequency', 'CVodeSetLinearSolutionScaling', 'CVodeSetJacTimesRhsFn', 'CVodeSetLinSysFn'):
                arg = 0.0 if nm in ('CVodeSetEpsLin', 'CVodeSetLSNormFactor') else 0 if nm in ('CVodeSetJacEvalFrequency', 'CVodeSetLinearSolutionScaling') else NULL
                kept('is needed by ' + nm, k.call(nm, k.mem, arg), LMEM_NULL)
                kept('and a solver by ' + nm, k.call(nm, NULL, arg), MEM_NULL)
            for nm in GET:
                b = k.buf(8)
                k.st('i64', 1234, b)
                kept('is needed by CVodeGet' + nm, k.call('CVodeGet' + nm, k.mem, b), LMEM_NULL)
                kept('and a solver by CVodeGet' + nm, k.call('CVodeGet' + nm, NULL, b), MEM_NULL)
                decide(rep, 'CVodeGet' + nm, k, [('nothing delivered', k.ld('i64', b), 1234)], seed, 5)
            for rounds in (1, 2):
                r = k.call('CVodeSetLinearSolver', k.mem, LS, A)
                now = k.record('CVodeMemRec', k.mem)
                mine = {'cv_linit': '@cvLsInitialize', 'cv_lsetup': '@cvLsSetup', 'cv_lsolve': '@cvLsSolve', 'cv_lfree': '@cvLsFree'}
                ps = [('status', r, 0)] + [(m + ' stays', eqv(now[m], was[m]), True) for m in now if m not in mine and m != 'cv_lmem' and m in was]
                ps += [(m, now[m].o, f) for m, f in mine.items()]
                ps += [('linear solver', k.l('LS') == LS, True), ('matrix', k.l('A') == A, True), ('Jacobian by differences', k.l('jacDQ'), 1), ('data of the Jacobian', k.l('J_data') == k.mem, True),
                       ('scaled for a changed gamma', k.l('scalesol'), 1 if lmm == BDF else 0), ('direct', k.l('iterative'), 0), ('matrix based', k.l('matrixbased'), 1),
                       ('own linear system', k.l('user_linsys'), 0), ('step frequency', k.l('msbj'), 51), ('tolerance factor', k.l('eplifac'), 0.05), ('status kept', k.l('last_flag'), 0)]
                ps += [(c, k.l(c), 0) for c in LI64 if c != 'msbj']
                decide(rep, 'CVodeSetLinearSolver %s, %s' % (NAME[lmm], 'again' if rounds == 2 else 'first'), k, ps, seed, 5)
    GET = {'NumJacEvals': 'nje', 'NumLinRhsEvals': 'nfeDQ', 'NumPrecEvals': 'npe', 'NumPrecSolves': 'nps', 'NumLinIters': 'nli', 'NumLinConvFails': 'ncfl',
           'NumJTSetupEvals': 'njtsetup', 'NumJtimesEvals': 'njtimes', 'LastLinFlag': 'last_flag'}

    # --------------------------------------------- settings
    def setting(k, rep, key, call, status, changes):
        was, lw = k.record('CVodeMemRec', k.mem), k.record(REC, k.m('cv_lmem'))
        r = call()
        now, ln = k.record('CVodeMemRec', k.mem), k.record(REC, k.m('cv_lmem'))
        ps = [('status', r, status)] + [(m + ' stays', eqv(now[m], was[m]), True) for m in now]
        sf = status if callable(status) else (lambda e: np.full(1, status))
        for m in ln:
            if m in changes:
                f = changes[m]
                if isinstance(f, V.P):
                    ps.append((m, eqv(ln[m], f), True))
                else:
                    ps.append((m, ln[m], lambda e, m=m, f=f: np.where(sf(e) == 0, f(e) if callable(f) else e['ev'](f), e['ev'](lw[m]))))
            elif m in lw:
                ps.append((m + ' stays', eqv(ln[m], lw[m]), True))
        decide(rep, key, k, ps, seed, npts)

    @st
    def settings(rep):
        for lmm in (BDF, ADAMS):
            k = Ln(lmm, 3)
            for x in LI64 + ['eplifac', 'nrmfac']:
                k.setl(x, k.f('l_' + x) if x not in LI64 else sym('l_' + x, 'i'))
            x = k.f('x', mixed(real, 0.0))
            setting(k, rep, 'CVodeSetEpsLin', lambda: k.call('CVodeSetEpsLin', k.mem, x), lambda e: np.where(e['x'] < 0, ILL, 0), {'eplifac': lambda e: np.where(e['x'] == 0, F(0.05), e['x'])})
            setting(k, rep, 'CVodeSetLSNormFactor', lambda: k.call('CVodeSetLSNormFactor', k.mem, x), 0, {'nrmfac': lambda e: np.where(e['x'] > 0, e['x'], np.sqrt(F(3)))})
            i = sym('i', 'i')
            setting(k, rep, 'CVodeSetJacEvalFrequency', lambda: k.call('CVodeSetJacEvalFrequency', k.mem, i), lambda e: np.where(e['i'] < 0, ILL, 0), {'msbj': lambda e: np.where(e['i'] == 0, 51, e['i'])})
            k.dom['b'] = among(0, 1)
            setting(k, rep, 'CVodeSetLinearSolutionScaling %s' % NAME[lmm], lambda: k.call('CVodeSetLinearSolutionScaling', k.mem, sym('b', 'i')), 0 if lmm == BDF else ILL, {'scalesol': lambda e: e['b']})
            u = P('@user_jac', 0)
            setting(k, rep, 'CVodeSetJacFn', lambda: k.call('CVodeSetJacFn', k.mem, u), 0, {'jac': u, 'jacDQ': 0, 'J_data': k.udata})
            dq = k.P.find('cvLsDQJac')
            setting(k, rep, 'CVodeSetJacFn back to differences', lambda: k.call('CVodeSetJacFn', k.mem, NULL), 0, {'jac': P('@cvLsDQJac', 0), 'jacDQ': 1, 'J_data': k.mem})

    @st
    def reports(rep):
        for nm, fl in GET.items():
            k = Ln(BDF, 2)
            for m in LI64:
                k.setl(m, sym('l_' + m, 'i'))
            k.setl('last_flag', sym('l_last_flag', 'i'))
            k.dom['l_last_flag'] = lambda r, n: r.integers(-900, 900, n)
            b = k.buf(8)
            setting(k, rep, 'CVodeGet' + nm, lambda: k.call('CVodeGet' + nm, k.mem, b), 0, {})
            decide(rep, 'CVodeGet%s value' % nm, k, [('value', k.ld('i64', b), sym('l_' + fl, 'i'))], seed, 40)
        k = Ln(BDF, 2)
        for m in LI64:
            k.setl(m, sym('l_' + m, 'i'))
        bs = [k.buf(8) for _ in range(8)]
        setting(k, rep, 'CVodeGetLinSolveStats', lambda: k.call('CVodeGetLinSolveStats', k.mem, *bs), 0, {})
        decide(rep, 'CVodeGetLinSolveStats values', k, [(f, k.ld('i64', b), sym('l_' + f, 'i')) for f, b in zip('nje nfeDQ nli ncfl npe nps njtsetup njtimes'.split(), bs)], seed, 40)

    @st
    def initialisation(rep):
        for uj in (0, 1):
            k = Ln(BDF, 2)
            if uj:
                k.call('CVodeSetJacFn', k.mem, P('@user_jac', 0))
            for m in LI64:
                if m not in ('msbj',):
                    k.setl(m, sym('l_' + m, 'i'))
            other = k.buf(8)
            k.setm('cv_user_data', other)
            mine = dict(J_data=other if uj else k.mem, savedJ=None)
            r = k.call('cvLsInitialize', k.mem)
            ps = [('status', r, 0), ('data of the Jacobian', k.l('J_data') == mine['J_data'], True), ('Jacobian', k.l('jac').o, '@user_jac' if uj else '@cvLsDQJac'),
                  ('storage for the Jacobian', k.l('savedJ') != k.l('A') and k.l('savedJ').o != 0, True), ('set-up is called', k.m('cv_lsetup').o, '@cvLsSetup')]
            ps += [(c, k.l(c), 0) for c in LI64 if c not in ('msbj',)]
            decide(rep, 'cvLsInitialize %d' % uj, k, ps, seed, 20)
            J = k.l('savedJ')
            decide(rep, 'cvLsInitialize %d again' % uj, k, [('status', k.call('cvLsInitialize', k.mem), 0), ('same storage', k.l('savedJ') == J, True)], seed, 5)
            k.hook('SUNLinSolInitialize_Dense', lambda st, a, ty: -801)
            decide(rep, 'cvLsInitialize %d refused by the linear solver' % uj, k, [('status', k.call('cvLsInitialize', k.mem), -801), ('status kept', k.l('last_flag'), -801)], seed, 5)
    return out
