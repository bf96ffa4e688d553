"""P27-P32: the ODE layer, over a model of the solver's Fortran interface (env_cvodes.F90).

The model is Fortran source that is only ever read by the value-flow analysis: what the solver hands
to the callbacks, what it returns and which call fails are arbitrary; it records what the layer
configures and the state (live, released) of every solver object."""
import os
import itertools
from mpmath import mpf
from .opcheck import *
from .scen import Scen
from .core import R_, ix1, OPS

HERE = os.path.dirname(os.path.abspath(__file__))
USE = ('fazang_vari_mod fazang_var_mod fazang_nested_tape_mod fazang_grad_mod fazang_eager_adj_mod fazang_cvodes_model_mod '
       'fazang_cvodes_options_mod fazang_cvodes_mod hz_env')
FN = {1: 'FSUNContext_Create', 2: 'FN_VMake_Serial', 3: 'FN_VNew_Serial', 4: 'FN_VClone', 5: 'FN_VCloneVectorArray', 6: 'FSUNDenseMatrix', 7: 'FSUNLinSol_Dense', 8: 'FCVodeCreate', 9: 'FCVodeInit',
      10: 'FCVodeSetUserData', 11: 'FCVodeSetLinearSolver', 12: 'FCVodeSStolerances', 13: 'FCVodeSetMaxNumSteps', 14: 'FCVodeSensInit', 15: 'FCVodeSensEEtolerances', 16: 'FCVode', 17: 'FCVodeGetSens',
      18: 'FCVodeSetSensErrCon', 20: 'FCVodeReInit'}
BAD = {1: 'a solver context is used when it is not alive', 2: 'a solver vector is used when it is not alive', 3: 'a solver matrix is used when it is not alive', 4: 'a linear solver is used when it is not alive',
       5: 'an integrator is used when it is not alive', 6: 'an array of solver vectors is used when it is not alive', 7: 'a solver object is released that was never created or already released',
       8: 'a solver object is released while another live object still refers to it', 9: 'the integrator is used before it is configured', 10: 'the integrator is asked for another kind of output than the state at the requested time',
       11: 'a sensitivity vector outside the array is used', 12: 'a wrong number of sensitivity vectors is released', 13: 'solver objects of different dimensions are combined'}

MOD = '''
 real(rk) :: hz_u(8), hz_p(8,8), hz_w(8,8), hz_lt, hz_ly(8), hz_st, hz_sy(8), hz_sp(8)
contains
 subroutine hz_rhs(t, y, fy)
   real(c_double), intent(in) :: t, y(:)
   real(c_double), intent(inout) :: fy(size(y))
   integer :: j
   hz_lt = t
   do j = 1, size(y)
     hz_ly(j) = y(j)
   end do
   do j = 1, size(y)
     fy(j) = hz_u(j)
   end do
 end subroutine
 subroutine hz_note(t, y)
   real(c_double), intent(in) :: t
   type(var), intent(in) :: y(:)
   integer :: j
   hz_st = t
   do j = 1, size(y)
     hz_sy(j) = y(j)%val()
   end do
 end subroutine
 subroutine hz_notep(p)
   type(var), intent(in) :: p(:)
   integer :: j
   do j = 1, size(p)
     hz_sp(j) = p(j)%val()
   end do
 end subroutine
 subroutine hz_fy(t, y, f)
   real(c_double), intent(in) :: t
   type(var), intent(in) :: y(:)
   type(var), intent(inout) :: f(size(y))
   integer :: i
   call hz_note(t, y)
   do i = 1, size(y)
     f(i) = var_with_partials(hz_u(i), y, hz_p(i, 1:size(y)))
   end do
 end subroutine
 subroutine hz_fychain(t, y, f)
   real(c_double), intent(in) :: t
   type(var), intent(in) :: y(:)
   type(var), intent(inout) :: f(size(y))
   integer :: i, n
   n = size(y)
   call hz_note(t, y)
   f(1) = y(n)
   do i = 2, n
     f(i) = var_with_partials(hz_u(i), [f(i-1), y(i)], hz_p(i, 1:2))
   end do
 end subroutine
 subroutine hz_fyrev(t, y, f)
   real(c_double), intent(in) :: t
   type(var), intent(in) :: y(:)
   type(var), intent(inout) :: f(size(y))
   type(var) :: s
   integer :: i, n
   n = size(y)
   call hz_note(t, y)
   s = var_with_partials(hz_u(1), y, hz_p(1, 1:n))
   do i = n, 2, -1
     f(i) = var_with_partials(hz_u(i), [s], hz_p(i, 1:1))
   end do
   f(1) = s
 end subroutine
 subroutine hz_fp(t, y, f, p)
   real(c_double), intent(in) :: t
   type(var), intent(in) :: y(:), p(:)
   type(var), intent(inout) :: f(size(y))
   integer :: i
   call hz_note(t, y)
   call hz_notep(p)
   do i = 1, size(y)
     f(i) = var_with_partials(hz_u(i), [y, p], [hz_p(i, 1:size(y)), hz_w(i, 1:size(p))])
   end do
 end subroutine
 subroutine hz_fpchain(t, y, f, p)
   real(c_double), intent(in) :: t
   type(var), intent(in) :: y(:), p(:)
   type(var), intent(inout) :: f(size(y))
   integer :: i, n
   n = size(y)
   call hz_note(t, y)
   call hz_notep(p)
   f(n) = var_with_partials(hz_u(n), [y(1), p(size(p))], [hz_p(n, 1), hz_w(n, size(p))])
   do i = n - 1, 1, -1
     f(i) = var_with_partials(hz_u(i), [f(n), y(i)], hz_p(i, 1:2))
   end do
 end subroutine
'''
SIZES = [(1, 1, 1), (2, 1, 2), (2, 3, 1), (3, 2, 2), (4, 2, 1), (1, 4, 3), (3, 5, 2)]
pos_ = OPS.Dom(lo=0.0)


def inp(form, n, ns, m, extra=()):
    """Arguments of a scenario: everything arbitrary."""
    a = [('t', 'd', (), R_), ('ts', 'd', ('m',), R_), ('rt', 'd', (), pos_), ('at', 'd', (), pos_), ('xs', 'i', (), lambda v, rng: rng.randint(1, 10 ** 6)),
         ('lm', 'i', (), lambda v, rng: rng.choice((1, 2))),
         ('qt', 'd', (), R_), ('qy', 'd', ('n',), R_), ('qf', 'd', ('n',), R_), ('ry', 'd', ('n', 'm'), R_), ('u', 'd', ('n',), R_)]
    if form == 'y':
        a += [('y', 'v', ('n',), R_)]
    else:
        a += [('y', 'd', ('n',), R_)]
    if form == 'p':
        a += [('par', 'v', ('s',), R_), ('pw', 'd', ('n', 's'), R_)]
    if form != 'd':
        a += [('pp', 'd', ('n', 'n') if n > 1 else ('n', 'two'), R_), ('qs', 'd', ('n', 's'), R_), ('qd', 'd', ('n', 's'), R_), ('rs', 'd', ('n', 's', 'm'), R_), ('w', 'd', ('n', 'm'), R_)]
    return a + list(extra)


def prologue(form, n):
    L = ['q_t = qt', 'q_y(1:n_n) = qy', 'q_f(1:n_n) = qf', 'r_y(1:n_n,1:n_m) = ry', 'hz_u(1:n_n) = u',
         'opt%cv_method = lm', 'opt%rtol = rt', 'opt%atol = at', 'opt%max_nstep = xs']
    if form != 'd':
        L += ['q_s(1:n_n,1:n_s) = qs', 'q_d(1:n_n,1:n_s) = qd', 'r_s(1:n_n,1:n_s,1:n_m) = rs',
              'hz_p(1:n_n,1:%s) = pp' % ('n_n' if n > 1 else 'n_two')]
    if form == 'p':
        L += ['hz_w(1:n_n,1:n_s) = pw']
    return '\n'.join(L) + '\n'


SOLVE = {'d': 'zd = cvodes_sol(t, yb, ts, hz_rhs, opt)', 'y': 'zv = cvodes_sol(t, yv, ts, hz_rhs, %s, opt)', 'p': 'zv = cvodes_sol(t, yb, ts, par, hz_rhs, %s, opt)'}


def decl(form, strided=False):
    L = ['type(cvodes_tol) :: opt', 'integer :: i, j, h0']
    if form != 'y':
        L += ['real(rk), target :: ys(2*n_n)', 'real(rk), target :: yb(n_n)']
    else:
        L += ['type(var) :: yv(n_n)']
    L += ['real(rk) :: zd(n_n,n_m)' if form == 'd' else 'type(var) :: zv(n_n,n_m)']
    return '\n'.join(L)


def solve(form, f='', strided=False):
    if form == 'd' or form == 'p':
        s = SOLVE[form] % (f,) if form == 'p' else SOLVE[form]
        if strided:
            return 'ys = 0.d0\nys(2:2*n_n:2) = y\n' + s.replace('yb', 'ys(2:2*n_n:2)') + '\n'
        return 'yb = y\n' + s + '\n'
    return 'yv = y\n' + SOLVE[form] % f + '\n'


FDEF = {'d': '', 'y': 'hz_fy', 'p': 'hz_fp'}


def cst(form, n, s, m):
    c = {'n': n, 'm': m}
    if form == 'p':
        c['s'] = s
    if form == 'y':
        c['s'] = n
    if form != 'd' and n == 1:
        c['two'] = 2
    return c


def mk_(name, form, size, body, outs, spec, post=None, extra=(), f=None, strided=False, **kw):
    n, s, m = size
    if form == 'y':
        s = n
    c = cst(form, n, s, m)
    c.update(kw.pop('const', {}))
    return Scen('%s_%s_%d_%d_%d%s' % (name, {'d': 'values', 'y': 'initial', 'p': 'parameters'}[form], n, s, m, '_strided' if strided else ''),
                prologue(form, n) + solve(form, FDEF[form] if f is None else f, strided) + body, inp(form, n, s, m, extra), outs, spec, post,
                use=USE, extra=MOD, decl=decl(form), const=c, **kw)


def sizes(form, tier='quick'):
    if form == 'd':
        return [(1, 0, 1), (2, 0, 3), (3, 0, 2), (5, 0, 1)]
    if form == 'y':
        return [(1, 1, 2), (2, 2, 2), (3, 3, 1), (4, 4, 1)]
    return [(1, 1, 1), (2, 1, 2), (2, 3, 1), (3, 2, 2), (1, 4, 2), (3, 5, 1)]


def grid(v, n, f):
    return {(i, j): f(i, j) for i in range(1, v.sizes[n[0]] + 1) for j in range(1, v.sizes[n[1]] + 1)}


# ---------------------------------------------------------------- P27
def jac(v, form, f):
    """Partial derivatives of the caller's right-hand side: state block, parameter block."""
    n, s = v.sizes['n'], v.sizes['s']
    J = [[mpf(0)] * n for _ in range(n)]
    W = [[mpf(0)] * s for _ in range(n)]
    if f in ('hz_fy', 'hz_fp'):
        for i in range(n):
            for k in range(n):
                J[i][k] = v.a('pp', i + 1, k + 1)
            if f == 'hz_fp':
                for k in range(s):
                    W[i][k] = v.a('pw', i + 1, k + 1)
    elif f == 'hz_fychain':
        J[0][n - 1] = mpf(1)
        for i in range(1, n):
            a, b = v.a('pp', i + 1, 1), v.a('pp', i + 1, 2)
            J[i] = [a * x for x in J[i - 1]]
            J[i][i] += b
    elif f == 'hz_fyrev':
        J[0] = [v.a('pp', 1, k + 1) for k in range(n)]
        for i in range(1, n):
            J[i] = [v.a('pp', i + 1, 1) * x for x in J[0]]
    elif f == 'hz_fpchain':
        J[n - 1][0] = v.a('pp', n, 1)
        W[n - 1][s - 1] = v.a('pw', n, s)
        for i in range(n - 1):
            a, b = v.a('pp', i + 1, 1), v.a('pp', i + 1, 2)
            J[i] = [a * x for x in J[n - 1]]
            W[i] = [a * x for x in W[n - 1]]
            J[i][i] += b
    return J, W


def chain(form, f):
    def spec(v):
        n, s = v.sizes['n'], v.sizes['s']
        J, W = jac(v, form, f)
        r = {'g': grid(v, 'ns', lambda i, j: sum((J[i - 1][k] * v.a('qs', k + 1, j) for k in range(n)), W[i - 1][j - 1] if form == 'p' else mpf(0))),
             'rc': 0, 'tt': v.a('qt'), 'yy': ix1(v.vec('qy'))}
        if form == 'p':
            r['pq'] = ix1(v.vec('par'))
        return r
    return spec


def same(v, X):
    k = v.sizes['n'] * v.sizes['m']
    if X.head != v.HV + k:
        return 'the callbacks leave %d variables behind' % (X.head - v.HV - k)
    return X.unchanged()


def p27(tier='quick'):
    S = []
    for form, fs in (('y', ('hz_fy', 'hz_fychain', 'hz_fyrev')), ('p', ('hz_fp', 'hz_fpchain'))):
        for f in fs:
            for sz in sizes(form):
                if f != FDEF[form] and sz[0] == 1:
                    continue
                outs = [('g', 'd', ('n_n', 'n_s')), ('rc', 'i', ()), ('tt', 'd', ()), ('yy', 'd', ('n_n',))]
                body = 'g = o_s(1:n_n,1:n_s)\nrc = o_src\ntt = hz_st\nyy = hz_sy(1:n_n)'
                if form == 'p':
                    outs += [('pq', 'd', ('n_s',))]
                    body += '\npq = hz_sp(1:n_s)'
                S.append(mk_('sens_rhs_%s' % f, form, sz, body, outs, chain(form, f), same, f=f))
    return S


# ---------------------------------------------------------------- P28
def p28(tier='quick'):
    S = []
    for form in 'dyp':
        for sz in sizes(form):
            if form == 'd':
                S.append(mk_('no_sensitivities', form, sz, 'k = ns(1)\nl = nint_', [('k', 'i', ()), ('l', 'i', ())], lambda v: {'k': 0, 'l': 1}))
                continue
            S.append(mk_('start', form, sz, 'g = s0(1:n_n,1:n_s,1)\nk = ns(1)\nl = nint_\nm = ism(1)',
                         [('g', 'd', ('n_n', 'n_s')), ('k', 'i', ()), ('l', 'i', ()), ('m', 'i', ())],
                         lambda v, form=form: {'g': grid(v, 'ns', lambda i, j: mpf(1 if form == 'y' and i == j else 0)), 'k': v.sizes['s'], 'l': 1, 'm': 2}))
    return S


# ---------------------------------------------------------------- P29
def p29(tier='quick'):
    S = []
    ry = lambda v: grid(v, 'nm', lambda i, j: v.a('ry', i, j))
    for sz in sizes('d'):
        for strided in (False, True):
            S.append(mk_('columns', 'd', sz, 'z = zd\nk = kout\nto = tout(1:n_m)', [('z', 'd', ('n_n', 'n_m')), ('k', 'i', ()), ('to', 'd', ('n_m',))],
                         lambda v: {'z': ry(v), 'k': v.sizes['m'], 'to': ix1(v.vec('ts'))}, lambda v, X: X.unchanged() or X.heads(0, 0), strided=strided))
    for form, wrt in (('y', 'y'), ('p', 'par')):
        for sz in sizes(form):
            S.append(mk_('columns', form, sz, 'h0 = callstack%%head\ndo j = 1, n_m\ndo i = 1, n_n\nz(i,j) = zv(i,j)%%val()\nend do\nend do\nk = kout\nto = tout(1:n_m)\ncall hz_seed2(zv, w)\ncall hz_back(h0 - n_n*n_m)\n'
                         'do i = 1, n_s\nb(i) = %s(i)%%adj()\nend do' % wrt,
                         [('z', 'd', ('n_n', 'n_m')), ('k', 'i', ()), ('to', 'd', ('n_m',)), ('b', 'd', ('n_s',))],
                         lambda v, wrt=wrt: {'z': ry(v), 'k': v.sizes['m'], 'to': ix1(v.vec('ts')), 'b': ix1(backs(v, wrt))}, None))
    return S


def backs(v, wrt):
    n, s, m = v.sizes['n'], v.sizes['s'], v.sizes['m']
    hs = v.hvec(wrt)
    out = []
    for j in range(1, s + 1):
        t = v.adj0[hs[j - 1]]
        for q in range(1, s + 1):
            if hs[q - 1] == hs[j - 1]:
                t += sum(v.a('w', i, k) * v.a('rs', i, q, k) for i in range(1, n + 1) for k in range(1, m + 1))
        out.append(t)
    return out


# ---------------------------------------------------------------- P30
def p30(tier='quick'):
    S = []
    code = [('fc', 'i', (), lambda v, rng: -rng.randint(1, 50))]
    for form, sz in (('d', (2, 0, 3)), ('y', (2, 2, 3)), ('p', (2, 1, 3)), ('p', (1, 2, 3))):
        for fn_ in sorted(FN):
            for nth in ((1, 2, 3) if fn_ in (16, 17) else (1, 2)):
                if sz == (1, 2, 3) and nth > 1:
                    continue
                sc = mk_('%s_fails_%d' % (FN[fn_].lower(), nth), form, sz, 'f = failed', [('f', 'l', ())], lambda v: {'f': False}, extra=code, abort='may')
                sc.body = 'fail_fn = %d\nfail_nth = %d\nfail_code = %s\nprobe = .false.\n' % (fn_, nth, '-1' if 2 <= fn_ <= 8 else 'fc') + sc.body
                sc.what = 'the solve returns although %s (call %d) reports failure' % (FN[fn_], nth)
                S.append(sc)
    return S


# ---------------------------------------------------------------- P31
END = '''bd = bad
left = 0
do i = 1, nvec
  if (svec(i) == 1) left = left + 1
end do
do i = 1, narr
  if (sarr(i) == 1) left = left + 1
end do
do i = 1, nctx
  if (sctx(i) == 1) left = left + 1
end do
do i = 1, nint_
  if (sint(i) == 1) left = left + 1
end do
do i = 1, nmat
  if (smat(i) == 1) left = left + 1
end do
do i = 1, nls_
  if (sls(i) == 1) left = left + 1
end do
k = nint_'''


def p31(tier='quick'):
    S = []
    outs = [('bd', 'i', ()), ('left', 'i', ()), ('k', 'i', ())]
    for form in 'dyp':
        for sz in sizes(form):
            for strided in ((False, True) if form != 'y' else (False,)):
                for twice in ((False, True) if sz[0] == 2 else (False,)):
                    body = END
                    if twice:
                        body = solve(form, FDEF[form], strided) + END
                    S.append(mk_('released' + ('_twice' if twice else ''), form, sz, body, outs, lambda v, t=twice: {'bd': 0, 'left': 0, 'k': 2 if t else 1}, strided=strided))
    return S


# ---------------------------------------------------------------- P32
def p32(tier='quick'):
    S = []
    for form in 'dyp':
        for sz in sizes(form):
            for strided in ((False, True) if form != 'y' and sz[0] == 2 else (False,)):
                outs = [('om', 'i', ()), ('ort', 'd', ()), ('oat', 'd', ()), ('ox', 'i', ()), ('ot', 'd', ()), ('oy', 'd', ('n_n',)), ('off', 'd', ('n_n',)), ('lt', 'd', ()), ('ly', 'd', ('n_n',)), ('rc', 'i', ()), ('k', 'i', ()), ('yk', 'd', ('n_n',))]
                body = ('om = lmm(1)\nort = rtol(1)\noat = atol(1)\nox = int(mx(1))\not = t0(1)\noy = y0(1:n_n,1)\noff = o_f(1:n_n)\nlt = hz_lt\nly = hz_ly(1:n_n)\nrc = o_rc\nk = nint_\nyk = o_y(1:n_n)')
                S.append(mk_('settings', form, sz, body, outs,
                             lambda v: {'om': v.a('lm'), 'ort': v.a('rt'), 'oat': v.a('at'), 'ox': v.a('xs'), 'ot': v.a('t'), 'oy': ix1(v.vec('y')), 'off': ix1(v.vec('u')),
                                        'lt': v.a('qt'), 'ly': ix1(v.vec('qy')), 'rc': 0, 'k': 1, 'yk': ix1(v.vec('qy'))}, strided=strided))
    return S
