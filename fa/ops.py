"""Specifications of the library's operations: what each documented operation computes.

The functions here are the mathematical definitions (mpmath); derivatives are derived from them by
high-precision central differences, so nothing in this file follows the library's formulas."""
import mpmath
from mpmath import mpf

M = mpmath


class Dom:
    """A set of reals described by a sampler and a membership test (interior / closed)."""

    def __init__(self, lo=None, hi=None, closed=False, scale=3.0, intlike=True, holes=(), ok=None, closedok=None):
        self.lo, self.hi, self.closed, self.scale, self.holes = lo, hi, closed, scale, holes
        self.ok, self.closedok = ok, closedok

    def inside(self, x, interior=True):
        if self.ok is not None and interior:
            return bool(self.ok(x))
        if self.closedok is not None and not interior:
            return bool(self.closedok(x))
        if self.lo is not None and (x < self.lo or (x == self.lo and (interior or not self.closed))):
            return False
        if self.hi is not None and (x > self.hi or (x == self.hi and (interior or not self.closed))):
            return False
        return not (interior and x in self.holes)

    def sample(self, rng):
        k = rng.random()
        s = self.scale
        if self.lo is not None and self.hi is not None:
            if k < 0.15:
                return self.lo + (self.hi - self.lo) * 10 ** rng.uniform(-6, -1)
            if k < 0.3:
                return self.hi - (self.hi - self.lo) * 10 ** rng.uniform(-6, -1)
            return rng.uniform(self.lo, self.hi)
        if self.lo is not None:
            if k < 0.3:
                return self.lo + 10 ** rng.uniform(-4, 0)
            if k < 0.85:
                return self.lo + rng.expovariate(1 / s)
            return self.lo + 10 ** rng.uniform(0, 2)
        if k < 0.2:
            return rng.choice((-1, 1)) * 10 ** rng.uniform(-4, 0)
        if k < 0.85:
            return rng.gauss(0, s)
        return rng.choice((-1, 1)) * 10 ** rng.uniform(0, 1.4)


R = Dom()
POS = Dom(0)
NZ = Dom(holes=(0,), closedok=lambda x: x != 0)
UNIT = Dom(-1, 1)
UNITC = Dom(-1, 1, closed=True)
SMALL = Dom(-20, 20)


class Op:
    """name, Fortran expression over the argument names, args [(name, kind v|d, dims, Dom)], result
    dims, mathematical definition f(dict name -> scalar / nested list) -> scalar / nested list."""

    def __init__(self, name, expr, args, f, res=(), ok=None, okv=None, tol=1e-11, use='use fazang', real=False, elem=False, docs=True):
        self.name, self.expr, self.args, self.f, self.res = name, expr, args, f, res
        self.ok, self.okv, self.tol, self.use, self.real, self.elem, self.docs = ok, okv, tol, use, real, elem, docs

    @property
    def dims(self):
        out = []
        for _, _, d, _ in self.args:
            for x in d:
                if x not in out:
                    out.append(x)
        return out


def u(name, f, dom=R, tol=1e-11, docs=True, use='use fazang'):
    return Op(name, '%s(x)' % name, [('x', 'v', (), dom)], lambda a: f(a['x']), tol=tol, elem=True, docs=docs, use=use)


def mpabs(x):
    return abs(x)


def lgam(x):
    return M.log(abs(M.gamma(x)))


UNARY = [
    u('sin', M.sin), u('cos', M.cos),
    u('tan', M.tan, Dom(ok=lambda x: abs(M.cos(x)) > 1e-3)),
    u('asin', M.asin, UNITC), u('acos', M.acos, UNITC), u('atan', M.atan),
    u('sinh', M.sinh, SMALL), u('cosh', M.cosh, SMALL), u('tanh', M.tanh, Dom(-15, 15)),
    u('asinh', M.asinh), u('acosh', M.acosh, Dom(1, None, closed=True)), u('atanh', M.atanh, UNIT),
    u('sqrt', M.sqrt, Dom(0, None, closed=True)), u('exp', M.exp, SMALL), u('log', M.log, POS),
    u('inv', lambda x: 1 / x, NZ), u('square', lambda x: x * x), u('inv_square', lambda x: 1 / (x * x), NZ),
    u('inv_sqrt', lambda x: 1 / M.sqrt(x), POS), u('logit', lambda x: M.log(x / (1 - x)), Dom(0, 1)),
    u('inv_logit', lambda x: 1 / (1 + M.exp(-x)), Dom(-700, 40)),
    u('erf', M.erf, Dom(-5, 5)), u('erfc', M.erfc, Dom(-5, 20)),
    u('log_gamma', lgam, Dom(ok=lambda x: x > 0 or (x < 0 and abs(x - M.nint(x)) > 1e-3 and x > -30), closedok=lambda x: x > 0 or (x < 0 and abs(x - M.nint(x)) > 1e-3 and x > -30)), tol=1e-9),
    u('abs', mpabs, Dom(holes=(0,))),
    Op('neg', '-x', [('x', 'v', (), R)], lambda a: -a['x'], elem=True),
    Op('plus', '+x', [('x', 'v', (), R)], lambda a: a['x'], elem=True, docs=False),
]


def bin_(name, expr, f, ka, kb, da=R, db=R, ok=None, okv=None, tol=1e-11):
    return Op(name, expr, [('x', ka, (), da), ('y', kb, (), db)], lambda a: f(a['x'], a['y']), ok=ok, okv=okv, tol=tol, elem=True)


def intp(d):
    return d == M.floor(d)


def pow_ok_vd(a):
    x, d = a['x'], a['y']
    if abs(d) > 40:
        return False
    if x > 0:
        return True
    if not intp(d):
        return False
    if x < 0:
        return True
    return d == 0 or d == 1 or d >= 2


def pow_okv_vd(a):
    x, d = a['x'], a['y']
    if abs(d) > 40:
        return False
    return x > 0 or (x < 0 and intp(d)) or (x == 0 and d >= 0)


def pw(x, y):
    if y == 0:
        return mpf(1)
    if x == 0:
        return mpf(0) if y > 0 else mpf('inf')
    if intp(y):
        return x ** int(y)
    return M.power(x, y)


EXPO = Dom(-6, 6)
BINARY = []
for k1, k2 in (('v', 'v'), ('v', 'd'), ('d', 'v')):
    s = k1 + k2
    BINARY += [
        bin_('add_' + s, 'x + y', lambda a, b: a + b, k1, k2),
        bin_('sub_' + s, 'x - y', lambda a, b: a - b, k1, k2),
        bin_('mul_' + s, 'x * y', lambda a, b: a * b, k1, k2),
        bin_('div_' + s, 'x / y', lambda a, b: a / b, k1, k2, R, NZ),
        bin_('hypot_' + s, 'hypot(x, y)', lambda a, b: M.sqrt(a * a + b * b), k1, k2,
             ok=(lambda a: a['x'] != 0 or a['y'] != 0)),
    ]
BINARY += [
    bin_('pow_vv', 'x ** y', pw, 'v', 'v', POS, EXPO),
    bin_('pow_vd', 'x ** y', pw, 'v', 'd', R, EXPO, ok=pow_ok_vd, okv=pow_okv_vd),
    bin_('pow_dv', 'x ** y', pw, 'd', 'v', Dom(0, None, closed=True), EXPO,
         ok=lambda a: a['x'] > 0 or a['y'] > 0, okv=lambda a: a['x'] > 0 or a['y'] > 0),
]


def lse(x):
    m = max(x)
    return m + M.log(sum(M.exp(t - m) for t in x))


def mm(a, b, m, n, k):
    return [[sum((a[i][q] * b[q][j] for q in range(k)), mpf(0)) for j in range(n)] for i in range(m)]


ARRAY = [
    Op('sum', 'sum(x)', [('x', 'v', ('n',), R)], lambda a: sum(a['x'], mpf(0))),
    Op('norm2', 'norm2(x)', [('x', 'v', ('n',), R)], lambda a: M.sqrt(sum((t * t for t in a['x']), mpf(0))),
       ok=lambda a: any(t != 0 for t in a['x'])),
    Op('log_sum_exp', 'log_sum_exp(x)', [('x', 'v', ('n',), Dom(-30, 30))], lambda a: lse(a['x']), ok=lambda a: len(a['x']) > 0, okv=lambda a: len(a['x']) > 0),
]
for k1, k2 in (('v', 'v'), ('v', 'd'), ('d', 'v')):
    s = k1 + k2
    ARRAY += [
        Op('dot_product_' + s, 'dot_product(x, y)', [('x', k1, ('n',), R), ('y', k2, ('n',), R)],
           lambda a: sum((p * q for p, q in zip(a['x'], a['y'])), mpf(0))),
        Op('matmul_' + s, 'matmul(x, y)', [('x', k1, ('m', 'k'), R), ('y', k2, ('k', 'n'), R)],
           lambda a: mm(a['x'], a['y'], a['#m'], a['#n'], a['#k']), res=('m', 'n')),
    ]


def nlpdf(y, mu, s):
    return sum((-(t - mu) ** 2 / (2 * s * s) - M.log(s) - M.log(2 * M.pi) / 2 for t in y), mpf(0))


def lnlpdf(y, mu, s):
    return sum((-(M.log(t) - mu) ** 2 / (2 * s * s) - M.log(s) - M.log(t) - M.log(2 * M.pi) / 2 for t in y), mpf(0))


LPDF = []
for k1, k2 in (('v', 'v'), ('v', 'd'), ('d', 'v'), ('d', 'd')):
    s = k1 + k2
    for nm, f, dy in (('normal_lpdf', nlpdf, R), ('lognormal_lpdf', lnlpdf, POS)):
        LPDF.append(Op('%s_%s' % (nm, s), '%s(y, mu, sigma)' % nm,
                       [('y', 'd', ('n',), dy), ('mu', k1, (), R), ('sigma', k2, (), POS)],
                       (lambda f: lambda a: f(a['y'], a['mu'], a['sigma']))(f), real=(s == 'dd')))

# plain-real overloads the library adds
REALOPS = [
    Op('inv_logit_d', 'inv_logit(x)', [('x', 'd', (), Dom(-700, 40))], lambda a: 1 / (1 + M.exp(-a['x'])), real=True, elem=True),
    Op('logit_d', 'logit(x)', [('x', 'd', (), Dom(0, 1))], lambda a: M.log(a['x'] / (1 - a['x'])), real=True, elem=True),
    Op('log_sum_exp_d', 'log_sum_exp(x)', [('x', 'd', ('n',), Dom(-30, 30))], lambda a: lse(a['x']), ok=lambda a: len(a['x']) > 0,
       okv=lambda a: len(a['x']) > 0, real=True),
]
