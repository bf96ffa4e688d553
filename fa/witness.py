"""P07, first half: the type checker decides which documented forms the umbrella import accepts.

The library's modules are type-checked from the current source (gfortran -fsyntax-only: no code is
generated or run); one witness subroutine per documented form uses `fazang` and nothing else.  An
error inside a witness means that a user program using that form does not build."""
import os
import re
import shutil
import subprocess
import tempfile

FC = 'gfortran-11' if shutil.which('gfortran-11') else 'gfortran'
UNARY = ('sin cos tan asin acos atan log exp sqrt erf erfc abs sinh cosh tanh asinh acosh atanh log_gamma square inv inv_square inv_sqrt logit inv_logit').split()
INTRINSIC = 'sin cos tan asin acos atan log exp sqrt erf erfc abs sinh cosh tanh asinh acosh atanh log_gamma'.split()
DIMS = {0: '', 1: '(4)', 2: '(2,3)', 3: '(2,3,2)'}


class Wit:
    def __init__(self, name, what, decl, body):
        self.name, self.what, self.decl, self.body = name, what, decl, body


def witnesses(ode=True):
    W = []
    n = [0]

    def add(what, decl, body, pre=''):
        n[0] += 1
        W.append(Wit('w%d' % n[0], what, decl, body))
    ty = {'v': 'type(var)', 'd': 'real(real64)'}
    kind = {'v': 'variable', 'd': 'real'}
    for f in UNARY + ['-', '+']:
        for r in range(4):
            if f == '+' and r > 0:
                continue
            e = '%sx' % f if f in '+-' else '%s(x)' % f
            add('%s of a rank-%d array of variables' % (f, r) if r else '%s of a variable' % f, 'type(var) :: x%s, s%s' % (DIMS[r], DIMS[r]), 's = ' + e)
    for f in INTRINSIC:
        add('%s of a real, next to the overload' % f, 'real(real64) :: x, s', 's = %s(x)' % f)
    for f in ('+', '-', '*', '/', '**', 'hypot'):
        for a, b in ('vv', 'vd', 'dv'):
            for ra, rb in [(r, r) for r in range(4)] + [(0, 1), (1, 0), (0, 2), (2, 0), (0, 3), (3, 0)]:
                e = 'hypot(x, y)' if f == 'hypot' else 'x %s y' % f
                add('%s of a %s and a %s of ranks %d and %d' % (f, kind[a], kind[b], ra, rb),
                    '%s :: x%s\n%s :: y%s\ntype(var) :: s%s' % (ty[a], DIMS[ra], ty[b], DIMS[rb], DIMS[max(ra, rb)]), 's = ' + e)
    for f in ('==', '/=', '<', '<=', '>', '>='):
        for a, b in ('vv', 'vd', 'dv'):
            for ra, rb in ((0, 0), (1, 1), (0, 1), (1, 0)):
                add('%s of a %s and a %s of ranks %d and %d' % (f, kind[a], kind[b], ra, rb),
                    '%s :: x%s\n%s :: y%s\nlogical :: s%s' % (ty[a], DIMS[ra], ty[b], DIMS[rb], DIMS[max(ra, rb)]), 's = x %s y' % f)
    for f in ('sum', 'norm2', 'log_sum_exp'):
        add('%s of a vector of variables' % f, 'type(var) :: x(4), s', 's = %s(x)' % f)
        add('%s of a vector of reals' % f, 'real(real64) :: x(4), s', 's = %s(x)' % f)
    for a, b in ('vv', 'vd', 'dv', 'dd'):
        t = ty['d'] if (a, b) == ('d', 'd') else ty['v']
        add('dot_product of %ss and %ss' % (kind[a], kind[b]), '%s :: x(4)\n%s :: y(4)\n%s :: s' % (ty[a], ty[b], t), 's = dot_product(x, y)')
        add('matmul of %ss and %ss' % (kind[a], kind[b]), '%s :: x(2,4)\n%s :: y(4,3)\n%s :: s(2,3)' % (ty[a], ty[b], t), 's = matmul(x, y)')
        for f in ('normal_lpdf', 'lognormal_lpdf'):
            add('%s with %s location and %s scale' % (f, kind[a], kind[b]), 'real(real64) :: y(4)\n%s :: mu\n%s :: sigma\n%s :: s' % (ty[a], ty[b], t), 's = %s(y, mu, sigma)' % f)
    add('hypot of reals', 'real(real64) :: x, y, s', 's = hypot(x, y)')
    add('value_of of variables and reals', 'type(var) :: x, w(3)\nreal(real64) :: y, s, z(3)', 's = value_of(x)\ns = value_of(y)\nz = value_of(w)\nz = value_of(z)')
    add('construction of variables', 'type(var) :: a, b(3), c(2,3)\nreal(real64) :: d(3), e(2,3)', 'a = var()\na = var(1.0d0)\nb = var(d)\nc = var(e)\nb = var(3)\nc = var(2, 3)')
    add('assignment of reals to variables', 'type(var) :: a, b(3), c(2,3)\nreal(real64) :: d(3), e(2,3)', 'a = 1.0d0\nb = d\nc = e\nb = 2.0d0\nc = 3.0d0')
    add('value, adjoint and gradient of a variable', 'type(var) :: a, b(3)\nreal(real64) :: s, t(3)', 's = a%val()\nt = b%adj()\ns = a%adj()\nt = b%val()\ncall a%grad()\ncall a%grad_nested()')
    add('zeroing and nesting', '', 'call set_zero_all_adj()\ncall begin_nested()\ncall set_zero_nested_adj()\ncall end_nested()')
    add('gradient of a function', 'real(real64) :: x(3), g(4)', 'g = gradient(cb_f, x)')
    add('jacobian of a function', 'real(real64) :: x(3), g(2,4)', 'g = jacobian(cb_g, 2, x)')
    add('var_with_partials', 'type(var) :: a, x(3)\nreal(real64) :: p(3)', 'a = var_with_partials(1.0d0, x, p)')
    add('constants', 'real(real64) :: s(17)', 's = [nan64, pi, two_pi, sqrt_pi, half_sqrt_pi, two_over_sqrt_pi, euler_e, epsilon, log_epsilon, log_pi, log_two, log_half, log_two_pi, &\n'
        ' log_sqrt_two_pi, neg_log_sqrt_two_pi, log_ten, sqrt_two]')
    add('classification', 'real(real64) :: s, t(3)\nlogical :: l, m(3)\ntype(var) :: v, w(3)', 'l = is_nan(s)\nl = is_nan(v)\nl = is_inf(s)\nl = is_neg_inf(s)\nm = is_nan(t)\nm = is_nan(w)\nm = is_inf(t)\nm = is_neg_inf(t)')
    if ode:
        add('ODE solution', 'type(cvodes_tol) :: tol\nreal(real64) :: y(2), yt(2,3), ts(3)', 'tol = cvodes_tol(CV_BDF, 1.d-10, 1.d-10, 1000_8)\ntol = cvodes_tol(CV_ADAMS, 1.d-10, 1.d-10, 1000_8)\nyt = cvodes_sol(0.d0, y, ts, cb_rhs, tol)')
        add('ODE solution with initial-value sensitivities', 'type(cvodes_tol) :: tol\ntype(var) :: y(2), yt(2,3)\nreal(real64) :: ts(3)', 'yt = cvodes_sol(0.d0, y, ts, cb_rhs, cb_yvar, tol)')
        add('ODE solution with parameter sensitivities', 'type(cvodes_tol) :: tol\ntype(var) :: p(3), yt(2,3)\nreal(real64) :: ts(3), y(2)', 'yt = cvodes_sol(0.d0, y, ts, p, cb_rhs, cb_pvar, tol)')
    return W


CALLBACKS = '''
 function cb_f(x) result(fx)
   type(var), intent(in) :: x(:)
   type(var) :: fx
   fx = x(1)
 end function
 function cb_g(x, n) result(fx)
   type(var), intent(in) :: x(:)
   integer, intent(in) :: n
   type(var) :: fx(n)
   fx = x(1:n)
 end function
 subroutine cb_rhs(t, y, fy)
   real(real64), intent(in) :: t, y(:)
   real(real64), intent(inout) :: fy(size(y))
   fy = t * y
 end subroutine
 subroutine cb_yvar(t, y, f)
   real(real64), intent(in) :: t
   type(var), intent(in) :: y(:)
   type(var), intent(inout) :: f(size(y))
   f = y
 end subroutine
 subroutine cb_pvar(t, y, f, p)
   real(real64), intent(in) :: t
   type(var), intent(in) :: y(:), p(:)
   type(var), intent(inout) :: f(size(y))
   f = p(1) * y
 end subroutine
'''


def order(files):
    """Files in dependency order (module / use statements)."""
    defs, uses = {}, {}
    for f in files:
        t = open(f, errors='replace').read()
        for m in re.findall(r'(?im)^\s*module\s+(?!procedure\b)(\w+)\s*$', t):
            defs[m.lower()] = f
        uses[f] = {m.lower() for m in re.findall(r'(?im)^\s*use\s*(?:,\s*(?:non_)?intrinsic\s*)?(?:::)?\s*(\w+)', t)}
    out, seen = [], set()

    def go(f):
        if f in seen:
            return
        seen.add(f)
        for u in sorted(uses[f]):
            g = defs.get(u)
            if g and g != f:
                go(g)
        out.append(f)
    for f in sorted(files):
        go(f)
    return out


def sundials(repo):
    base = os.path.join(repo, 'lib')
    out = []
    for d, _, fs in os.walk(base):
        if os.sep + 'fmod' not in d or os.sep + 'src' + os.sep not in d:
            continue
        if any(x in d for x in ('parallel', 'mpi', 'manyvector', 'pthreads', 'openmp', 'klu', 'ida', 'kinsol', 'superlu')):
            continue
        if re.search(r'/cvode/fmod', d):
            continue
        out += [os.path.join(d, f) for f in fs if f.lower().endswith('.f90')]
    return out


def check(repo, rep):
    """Adds findings / facts to the report."""
    scratch = tempfile.mkdtemp(prefix='fz_wit_')
    try:
        os.makedirs(os.path.join(scratch, 'inc', 'sundials'))
        open(os.path.join(scratch, 'inc', 'sundials', 'sundials_config.h'), 'w').close()
        src = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(repo, 'src')) for f in fs if f.lower().endswith('.f90')]
        ode = True

        def comp(f, flags=()):
            return subprocess.run([FC, '-fsyntax-only', '-fmax-errors=0', '-w', '-cpp', '-ffree-line-length-none', '-J', scratch,
                                   '-I', os.path.join(scratch, 'inc')] + list(flags) + [f], cwd=scratch, capture_output=True, text=True, timeout=300)
        for f in order(sundials(repo)):
            if comp(f).returncode:
                ode = False
        done = 0
        for f in order(src):
            r = comp(f, ['-DUSE_SUNDIALS'] if ode else [])
            if r.returncode and ode and 'cvodes' in f:
                ode = False
            elif r.returncode:
                rep.undec('witnesses', '%s does not type-check: %s' % (os.path.relpath(f, repo), r.stderr.strip().splitlines()[-1] if r.stderr.strip() else ''))
                return
            done += 1
        W = witnesses(ode)
        lines, at = ['module wit', ' use fazang', ' use, intrinsic :: iso_fortran_env', ' implicit none', 'contains'], {}
        for l in CALLBACKS.strip('\n').splitlines():
            if not ode and l.strip().startswith('subroutine cb_'):
                pass
            lines.append(l)
        for w in W:
            lines.append(' subroutine %s()' % w.name)
            at[len(lines)] = w
            for d in w.decl.splitlines():
                lines.append('  ' + d)
                at[len(lines)] = w
            for d in w.body.splitlines():
                lines.append('  ' + d)
                at[len(lines)] = w
            lines.append(' end subroutine')
            at[len(lines)] = w
        lines.append('end module')
        f = os.path.join(scratch, 'wit.F90')
        open(f, 'w').write('\n'.join(lines) + '\n')
        r = comp(f)
        errs = {}
        cur = None
        other = []
        for l in r.stderr.splitlines():
            m = re.match(r'.*wit\.F90:(\d+):\d+:\s*$', l)
            if m:
                cur = at.get(int(m.group(1)))
            m = re.match(r'(Error|Fatal Error): (.*)', l)
            if m:
                if cur is not None:
                    errs.setdefault(cur.name, m.group(2))
                else:
                    other.append(m.group(2))
        if r.returncode and not errs:
            rep.undec('witnesses', 'the witness file does not type-check: %s' % (other or r.stderr[-200:]))
            return
        for w in W:
            rep.facts += 1
            if w.name in errs:
                rep.bad(w.what, 'a program with `use fazang` that uses this form does not build: ' + errs[w.name], '; '.join(w.body.splitlines()), ['src/fazang.F90'])
        rep.extra['compile_witnesses'] = len(W)
        rep.extra['modules_type_checked'] = done
        rep.subject('umbrella import', forms=len(W), compiler=FC)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
