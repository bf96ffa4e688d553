"""Scenarios with a configured solver object (the library's own creation calls are analysed to build it)."""
from .kit import *

I32 = '''cv_lmm cv_itol cv_sensi cv_Ns cv_ism cv_errconS cv_itolS cv_tstopset cv_q cv_qprime cv_next_q cv_qwait cv_L cv_qmax cv_mxhnil
cv_maxnef cv_maxncf cv_nhnil cv_qu cv_indx_acor cv_nscon cv_taskc cv_irfnd cv_nrtfn cv_jcur cv_convfail cv_qmax_alloc cv_qmax_allocS cv_user_efun
cv_MallocDone cv_quadr cv_errconQ cv_sldeton cv_constraintsSet cv_forceSetup convfail cv_DQtype cv_ifS cv_SensMallocDone ownNLS ownNLSstg'''.split()
I64 = '''cv_mxstep cv_nst cv_nfe cv_nfSe cv_nfeS cv_ncfn cv_ncfnS cv_nni cv_nniS cv_netf cv_netfS cv_nsetups cv_nsetupsS cv_lrw cv_liw cv_nstlp cv_msbp cv_nge
cv_lrw1 cv_liw1 nnip cv_nfQe cv_nfQSe'''.split()
PTR = '''cv_f cv_user_data cv_Vabstol cv_efun cv_e_data cv_ewt cv_y cv_acor cv_tempv cv_ftemp cv_vtemp1 cv_vtemp2 cv_vtemp3 cv_ewtS cv_yS cv_acorS
cv_tempvS cv_ftempS cv_zn cv_znS cv_cvals cv_Xvecs cv_Zvecs NLS NLSstg cv_lmem cv_lsetup cv_lsolve cv_linit cv_lfree cv_fS cv_fS1 cv_fS_data
cv_p cv_pbar cv_plist cv_SabstolS cv_VabstolS cv_sunctx cv_constraints nls_f cv_gfun cv_atolSmin0 zn0Stg ycorStg ewtStg zn0Sim ycorSim ewtSim cv_stgr1alloc
cv_ehfun cv_eh_data cv_errfp cv_ncfS1 cv_ncfnS1 cv_nniS1 cv_monitorfun NLSsim NLSstg1'''.split()
TY = {}
TY.update({x: ('i32', 4) for x in I32})
TY.update({x: ('i64', 8) for x in I64})
TY.update({x: ('ptr', 8) for x in PTR})

ADAMS, BDF = 1, 2
SIM, STG, STG1 = 1, 2, 3
NORMAL, ONE_STEP = 1, 2
NAME = {1: 'Adams', 2: 'BDF'}


class Cv(K):
    """a solver with n states and Ns sensitivities; user functions are opaque"""

    def __init__(self, lmm=BDF, n=2, Ns=0, ism=STG, tol='ss', ls=True, stol='ee', init=True, one=False, **kw):
        super().__init__(**kw)
        self.n, self.Ns, self.ism, self.lmm = n, Ns, ism, lmm
        self.one = one or ism == STG1      # sensitivity right-hand sides one at a time
        self.rhs = self.hook('user_rhs', self.h_rhs)
        self.srhs = self.hook('user_sens', self.h_sens)
        self.calls = []
        self.frc = 0            # status of the user's right-hand side
        self.fsrc = 0
        self.udata = self.buf(8, 'user data')
        if init:
            self.setup(tol, ls, stol)

    # opaque user functions: value is an uninterpreted function of (t, y[, yS])
    def h_rhs(self, st, a, ty):
        t, y, yd, ud = a[:4]
        yv = self.data(y, self.n, st)
        self.note(st, 'rhs', (t, y, yd, ud), yv)
        for i in range(self.n):
            self.wr(st, yd, i, mk('uf', 'f', 'f%d' % i, t, *yv))
        return self.frc

    def h_sens(self, st, a, ty):
        Ns, t, y, yd, yS, ySd, ud, t1, t2 = a[:9]
        yv = self.data(y, self.n, st)
        fv = self.data(yd, self.n, st)
        sv = []
        for j in range(self.Ns):
            sv += self.data(self.E.load(st, 'ptr', self.E.padd(yS, 8 * j)), self.n, st)
        self.note(st, 'sens', (Ns, t, y, yd, yS, ySd, ud, t1, t2), (yv, fv, sv))
        for j in range(self.Ns):
            o = self.E.load(st, 'ptr', self.E.padd(ySd, 8 * j))
            for i in range(self.n):
                self.wr(st, o, i, mk('uf', 'f', 'g%d_%d' % (j, i), t, *(yv + sv)))
        return self.fsrc

    def h_sens1(self, st, a, ty):
        """one sensitivity at a time"""
        Ns, t, y, yd, js, yS, ySd, ud, t1, t2 = a[:10]
        yv = self.data(y, self.n, st)
        fv = self.data(yd, self.n, st)
        sv = self.data(yS, self.n, st)
        self.note(st, 'sens1', (Ns, t, y, yd, js, yS, ySd, ud, t1, t2), (yv, fv, sv))
        for i in range(self.n):
            self.wr(st, ySd, i, mk('uf', 'f', 'g%s_%d' % (js, i), t, *(yv + sv)))
        return self.fsrc

    def ncalls(self, kind):
        """how often the caller's function was called, as a term"""
        c = 0
        for v in self.events('user:' + kind):
            c = iop('add', c, ite(v.pc, 1, 0))
        return c

    def note(self, st, kind, args, vals):
        self.E.event(st, 'user:' + kind, args, vals)

    def wr(self, st, v, i, x):
        old, self.s = self.s, st
        try:
            d = self.call('N_VGetArrayPointer', v)
            self.E.store(st, 'double', x, self.E.padd(d, 8 * i))
        finally:
            self.s = old

    def setup(self, tol, ls, stol):
        n = self.n
        self.y0 = self.vec(n, 'y')
        self.mem = self.call('CVodeCreate', self.lmm, self.ctx())
        self.st0 = [self.call('CVodeInit', self.mem, self.rhs, self.f('t0'), self.y0)]
        if tol == 'ss':
            self.st0.append(self.call('CVodeSStolerances', self.mem, self.f('rtol', pos), self.f('atol', pos)))
            self.when(fcmp('flt', 0.0, sym('rtol')))
            self.when(fcmp('flt', 0.0, sym('atol')))
        if ls:
            self.A = self.call('SUNDenseMatrix', n, n, self.ctx())
            self.LS = self.call('SUNLinSol_Dense', self.y0, self.A, self.ctx())
            self.st0.append(self.call('CVodeSetLinearSolver', self.mem, self.LS, self.A))
        self.st0.append(self.call('CVodeSetUserData', self.mem, self.udata))
        if self.Ns:
            vs = [self.vec(n, 's%d_' % j) for j in range(self.Ns)]
            self.yS0 = self.parr(vs)
            if self.one:
                self.srhs = self.hook('user_sens1', self.h_sens1)
            self.st0.append(self.call('CVodeSensInit1' if self.one else 'CVodeSensInit', self.mem, self.Ns, self.ism, self.srhs, self.yS0))
            if stol == 'ee':
                self.st0.append(self.call('CVodeSensEEtolerances', self.mem))
        self.litter()

    def litter(self):
        """scratch storage holds left-overs of earlier calls"""
        c = self.m('cv_cvals')
        if not isn(c) and c.o:
            n = self.s.mem[c.o].size
            for j in range((n if not isn(n) else 8) // 8):
                self.st('double', self.f('junk%d' % j), c, 8 * j)
        for f in ('cv_tempv', 'cv_ftemp', 'cv_vtemp1', 'cv_vtemp2', 'cv_vtemp3'):
            v = self.m(f)
            if not isn(v) and v.o:
                self.symvec(v, 'junk_%s' % f)
        if self.Ns:
            for f in ('cv_tempvS', 'cv_ftempS'):
                if not isn(self.m(f)) and self.m(f).o:
                    for s in range(self.Ns):
                        self.symvec(self.arr(f, s), 'junk_%s%d_' % (f, s))

    def m(self, name, k=0):
        ty, sz = TY.get(name, ('double', 8))
        return self.cv(self.mem, name, ty, k, sz)

    def setm(self, name, v, k=0):
        ty, sz = TY.get(name, ('double', 8))
        self.cvput(self.mem, name, v, ty, k, sz)

    def zn(self, j):
        return self.m('cv_zn', j)

    def znS(self, j, s):
        return self.ld('ptr', self.m('cv_znS', j), 8 * s)

    def arr(self, name, s):
        """s-th vector of a per-sensitivity array member"""
        return self.ld('ptr', self.m(name), 8 * s)

    def symvec(self, v, name, dom=None):
        xs = [self.f('%s%d' % (name, i), dom) for i in range(self.n)]
        self.setdata(v, xs)
        return xs

    def history(self, q, extra=0):
        """give the history array of order q (plus extra columns) arbitrary contents; returns z[j][i], zS[j][s][i]"""
        extra = min(extra, self.m('cv_qmax') - q)
        self.z = [self.symvec(self.zn(j), 'z%d_' % j) for j in range(q + 1 + extra)]
        self.zS = [[self.symvec(self.znS(j, s), 'zs%d_%d_' % (j, s)) for s in range(self.Ns)] for j in range(q + 1 + extra)]
        self.setm('cv_q', q)
        self.setm('cv_L', q + 1)

    def steps(self, hdom=None, q=5):
        """arbitrary past steps: tau[1..], h, hscale"""
        for j in range(1, q + 2):
            self.setm('cv_tau', self.f('tau%d' % j, pos), j)
        h = self.f('h', hdom or pos)
        self.setm('cv_h', h)
        self.setm('cv_hscale', h)
        return h

    def column(self, j):
        return self.data(self.zn(j), self.n)

    def columnS(self, j, s):
        return self.data(self.znS(j, s), self.n)


def ufs_of(n, Ns=0):
    """concrete instances of the opaque user functions (smooth, all arguments matter)"""
    def one(seed):
        r = np.random.default_rng(seed)
        c = r.uniform(-1, 1, 64)

        def f(*a):
            s = F(0.3) + 0 * a[0]
            for j, x in enumerate(a):
                s = s + F(c[j % 32]) * x + F(c[32 + j % 32]) * np.sin(x * F(0.7) + j)
            return s
        return f
    u = {'f%d' % i: one(100 + i) for i in range(n)}
    u.update({'g%d_%d' % (j, i): one(1000 + 17 * j + i) for j in range(Ns) for i in range(n)})
    return u


def wrms(x, w):
    return np.sqrt(sum((a * b) ** 2 for a, b in zip(x, w)) / len(x))


def restored(z, j):
    """column j of the history before the prediction that gave the columns z"""
    from math import comb
    return sum((-1) ** (i - j) * comb(i, j) * z[i] for i in range(j, len(z)))
