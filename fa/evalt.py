"""Identity testing of value terms: evaluate an extracted value graph at a chosen valuation of its
free symbols (random interpretation).  Nothing of the analysed program is run: what is evaluated is
the closed value term the analysis produced."""
import math
import mpmath
import numpy as np
from fractions import Fraction
from .terms import *
from . import terms as TM

mp = mpmath.mp
mp.dps = 40


class Poison(Exception):
    """The term depends on a value the program never defined."""


class Unmodelled(Exception):
    """The term contains an operation without a concrete meaning here."""


class Poisoned:
    """A loop-carried value that is undefined unless somebody reads it."""

    def __init__(self, why):
        self.why = why


class Tick(Exception):
    pass


class Word:
    """One 32-bit half of a stored real."""
    __slots__ = ('v', 'k')

    def __init__(self, v, k):
        self.v, self.k = v, k

    def __repr__(self):
        return 'half%d(%s)' % (self.k, self.v)


class Garbage:
    """A real read from words that do not hold a real."""

    def __init__(self, a, b):
        self.a, self.b = a, b


# ------------------------------------------------------------------ backends
class MP:
    name = 'mp'
    nan = mpmath.mpf('nan')
    inf = mpmath.mpf('inf')

    @staticmethod
    def const(v):
        if isinstance(v, str):
            return mpmath.mpf(v)
        if v.denominator == 1:
            return mpmath.mpf(v.numerator)
        return mpmath.mpf(v.numerator) / v.denominator

    @staticmethod
    def num(v):
        return mpmath.mpf(v)

    @staticmethod
    def real(x):
        if isinstance(x, mpmath.mpc):
            return MP.nan if x.imag != 0 else x.real
        return x

    @staticmethod
    def div(a, b):
        if b == 0:
            if a == 0 or mpmath.isnan(a):
                return MP.nan
            return MP.inf if a > 0 else -MP.inf
        return a / b

    @staticmethod
    def pow(a, b):
        try:
            if isinstance(b, int):
                if a == 0 and b < 0:
                    return MP.inf
                return a ** b
            if a < 0 and b != mpmath.floor(b):
                return MP.nan
            if a == 0 and b < 0:
                return MP.inf
            return MP.real(mpmath.power(a, b))
        except (ValueError, ZeroDivisionError, OverflowError):
            return MP.nan

    F = {
        'sqrt': lambda x: mpmath.sqrt(x) if x >= 0 else MP.nan,
        'exp': mpmath.exp, 'log': lambda x: (-MP.inf if x == 0 else mpmath.log(x) if x > 0 else MP.nan),
        'log10': lambda x: (-MP.inf if x == 0 else mpmath.log10(x) if x > 0 else MP.nan),
        'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan,
        'asin': mpmath.asin, 'acos': mpmath.acos, 'atan': mpmath.atan, 'sinh': mpmath.sinh, 'cosh': mpmath.cosh, 'tanh': mpmath.tanh,
        'asinh': mpmath.asinh, 'acosh': mpmath.acosh, 'atanh': mpmath.atanh, 'erf': mpmath.erf, 'erfc': mpmath.erfc,
        'erfc_scaled': lambda x: mpmath.exp(x * x) * mpmath.erfc(x),
        'gamma': lambda x: mpmath.gamma(x), 'log_gamma': lambda x: mpmath.log(abs(mpmath.gamma(x))) if x < 1e6 else mpmath.loggamma(x),
        'hypot': lambda x, y: mpmath.hypot(x, y), 'atan2': lambda x, y: mpmath.atan2(x, y), 'abs': abs,
        'fmax': lambda *a: max(a), 'fmin': lambda *a: min(a),
        'sign': lambda a, b: abs(a) if b >= 0 else -abs(a),
        'fmod': lambda a, b: a - b * (mpmath.floor(a / b) if a / b >= 0 else mpmath.ceil(a / b)),
        'fmodulo': lambda a, b: a - b * mpmath.floor(a / b),
        'aint': lambda a: mpmath.floor(a) if a >= 0 else mpmath.ceil(a),
        'anint': lambda a: mpmath.floor(a + 0.5) if a >= 0 else mpmath.ceil(a - 0.5),
        'f32': lambda x: mpmath.mpf(float(np.float32(float(x)))),
        'bessel_j0': lambda x: mpmath.besselj(0, x),
    }

    @staticmethod
    def fn(name, args):
        f = MP.F.get(name)
        if f is None:
            raise Unmodelled(name)
        if any(mpmath.isnan(a) for a in args):
            return MP.nan
        try:
            return MP.real(f(*args))
        except (ValueError, ZeroDivisionError, OverflowError):
            return MP.nan
        except NotImplementedError:
            raise Unmodelled(name)

    @staticmethod
    def isnan(x):
        return mpmath.isnan(x)

    @staticmethod
    def isinf(x):
        return mpmath.isinf(x)


def _w(f):
    def g(*a):
        with np.errstate(all='ignore'):
            return float(f(*[np.float64(x) for x in a]))
    return g


class F64:
    """IEEE double arithmetic: overflow, NaN and rounding as the compiled code would see them."""
    name = 'f64'
    nan = float('nan')
    inf = float('inf')

    @staticmethod
    def const(v):
        if isinstance(v, str):
            return float(v)
        try:
            return float(v)
        except OverflowError:
            return float('inf') if v > 0 else float('-inf')

    @staticmethod
    def num(v):
        return float(v)

    @staticmethod
    def div(a, b):
        with np.errstate(all='ignore'):
            return float(np.float64(a) / np.float64(b))

    @staticmethod
    def pow(a, b):
        with np.errstate(all='ignore'):
            return float(np.power(np.float64(a), np.float64(b)))

    @staticmethod
    def special(name):
        def f(x):
            if math.isnan(x):
                return x
            try:
                if name == 'erf':
                    return math.erf(x)
                if name == 'erfc':
                    return math.erfc(x)
                if name == 'gamma':
                    if x == 0:
                        return math.copysign(math.inf, x)
                    return math.gamma(x)
                if name == 'log_gamma':
                    return math.lgamma(x)
            except (ValueError, OverflowError):
                return math.inf if x > 0 or name == 'log_gamma' else math.nan
            raise Unmodelled(name)
        return f

    @staticmethod
    def fn(name, args):
        t = F64.F.get(name)
        if t is None:
            raise Unmodelled(name)
        return t(*args)

    @staticmethod
    def isnan(x):
        return x != x

    @staticmethod
    def isinf(x):
        return x in (math.inf, -math.inf)


F64.F = {'sqrt': _w(np.sqrt), 'exp': _w(np.exp), 'log': _w(np.log), 'log10': _w(np.log10), 'sin': _w(np.sin), 'cos': _w(np.cos), 'tan': _w(np.tan),
         'asin': _w(np.arcsin), 'acos': _w(np.arccos), 'atan': _w(np.arctan), 'sinh': _w(np.sinh), 'cosh': _w(np.cosh), 'tanh': _w(np.tanh),
         'asinh': _w(np.arcsinh), 'acosh': _w(np.arccosh), 'atanh': _w(np.arctanh), 'erf': F64.special('erf'), 'erfc': F64.special('erfc'),
         'gamma': F64.special('gamma'), 'log_gamma': F64.special('log_gamma'), 'hypot': _w(np.hypot), 'atan2': _w(np.arctan2), 'abs': abs,
         'fmax': lambda *a: _fm(a, max), 'fmin': lambda *a: _fm(a, min), 'sign': lambda a, b: math.copysign(a, b), 'fmod': _w(np.fmod),
         'fmodulo': _w(np.mod), 'aint': _w(np.trunc), 'anint': lambda a: _w(np.trunc)(a + math.copysign(0.5, a)),
         'f32': lambda x: _w(np.float32)(x)}


def _fm(a, f):
    b = [x for x in a if x == x]
    return f(b) if b else math.nan


# ------------------------------------------------------------------ arrays
class Arr:
    __slots__ = ('f', 'memo')

    def __init__(self, f):
        self.f, self.memo = f, {}

    def get(self, ix):
        r = self.memo.get(ix)
        if r is None:
            r = self.f(ix)
            self.memo[ix] = r
        return r


class Env:
    __slots__ = ('parent', 'binds', 'memo', 'ev', 'bound')

    def __init__(self, ev, parent, binds):
        self.ev, self.parent, self.binds, self.memo = ev, parent, binds, {}
        self.bound = frozenset(binds)


class Evaluator:
    """binds: symbol term -> value (arrays: python callables on index tuples)."""

    def __init__(self, binds, backend=MP, free=None, maxsteps=3000000):
        self.B = backend
        self.free = free
        self.root = Env(self, None, {k: (Arr(v) if callable(v) else v) for k, v in binds.items()})
        self.guards = {}
        self.diffs = None
        self.steps = 0
        self.maxsteps = maxsteps

    def __call__(self, t):
        return self.ev(t, self.root)

    def arr(self, t):
        a = self.ev(t, self.root)
        return lambda *ix: a.get(tuple(ix))

    def home(self, t, e):
        f = fv(t)
        while e.parent is not None and not (f & e.bound):
            e = e.parent
        return e

    def ev(self, t, e):
        op = t.op
        if op == 'c':
            v = t.args[0]
            if t.sort == 'i':
                return int(v)
            if t.sort == 'r':
                return self.B.const(v)
            return v
        e = self.home(t, e)
        r = e.memo.get(t)
        if r is not None:
            return r
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Tick()
        m = getattr(self, 'v_' + op, None)
        if m is None:
            raise Unmodelled('term %s' % op)
        r = m(t, e)
        e.memo[t] = r
        return r

    # ---- leaves
    def v_s(self, t, e):
        x = e
        while x is not None:
            if t in x.binds:
                r = x.binds[t]
                if isinstance(r, Poisoned):
                    raise Poison(r.why)
                return r
            x = x.parent
        if self.free is not None:
            v = self.free(t)
            if v is not None:
                return v
        raise Unmodelled('free symbol %s' % t.args[0])

    def v_asym(self, t, e):
        x = e
        while x is not None:
            if t in x.binds:
                r = x.binds[t]
                if isinstance(r, Poisoned):
                    raise Poison(r.why)
                return r
            x = x.parent
        if self.free is not None:
            v = self.free(t)
            if v is not None:
                return Arr(v)
        raise Unmodelled('free array %s' % t.args[0])

    def v_proc(self, t, e):
        return t.args[0] or '<null>'

    def v_str(self, t, e):
        return t.args[0]

    def v_undef(self, t, e):
        if t.sort == 'A':
            def bad(ix):
                raise Poison(t.args[0].split('#')[0] if '#n' not in t.args[0] else t.args[0])
            return Arr(bad)
        raise Poison(t.args[0].rsplit('#', 1)[0])

    def v_uelt(self, t, e):
        raise Poison(t.args[0].args[0].rsplit('#', 1)[0])

    # ---- integers
    def word(self, v):
        if isinstance(v, Word):
            raise Poison('bits of a real used as an integer')
        return v

    def i(self, t, e):
        v = self.ev(t, e)
        if isinstance(v, Word):
            raise Poison('bits of a real used as an integer')
        return v

    def v_poly(self, t, e):
        s = Fraction(0)
        for m, c in t.args:
            x = c
            for a in m:
                x *= self.i(a, e)
            s += x
        assert s.denominator == 1
        return int(s)

    def v_idiv(self, t, e):
        a, b = self.i(t.args[0], e), self.i(t.args[1], e)
        if b == 0:
            raise Poison('integer division by zero')
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q

    def v_fdiv(self, t, e):
        b = self.i(t.args[1], e)
        if b == 0:
            raise Poison('integer division by zero')
        return self.i(t.args[0], e) // b

    def v_imodf(self, t, e):
        b = self.i(t.args[1], e)
        if b == 0:
            raise Poison('integer division by zero')
        return self.i(t.args[0], e) % b

    def v_imod(self, t, e):
        a, b = self.i(t.args[0], e), self.i(t.args[1], e)
        if b == 0:
            raise Poison('integer division by zero')
        r = abs(a) % abs(b)
        return r if a >= 0 else -r

    def v_imin(self, t, e):
        return min(self.i(x, e) for x in t.args)

    def v_imax(self, t, e):
        return max(self.i(x, e) for x in t.args)

    def v_ipow(self, t, e):
        a, b = self.i(t.args[0], e), self.i(t.args[1], e)
        if b < 0:
            return 0 if abs(a) > 1 else (1 if a == 1 or b % 2 == 0 else -1)
        return a ** b

    def v_r2int(self, t, e):
        how, x = t.args
        v = self.r(x, e)
        if self.B.isnan(v) or self.B.isinf(v):
            raise Poison('conversion of a non-finite real to integer')
        fr = Fraction(str(v)) if isinstance(v, mpmath.mpf) else Fraction(v)
        if how == 'int':
            return math.trunc(fr)
        if how == 'floor':
            return math.floor(fr)
        if how == 'ceiling':
            return math.ceil(fr)
        return math.floor(fr + Fraction(1, 2)) if fr >= 0 else -math.floor(-fr + Fraction(1, 2))

    def v_ifn(self, t, e):
        n = t.args[0]
        a = [self.i(x, e) for x in t.args[1:]]
        if n == 'btest':
            return bool((a[0] >> a[1]) & 1)
        if n == 'iand':
            return a[0] & a[1]
        if n == 'ior':
            return a[0] | a[1]
        if n == 'ieor':
            return a[0] ^ a[1]
        if n == 'not':
            return ~a[0]
        if n == 'ishft':
            return (a[0] << a[1]) & 0xffffffff if a[1] >= 0 else a[0] >> -a[1]
        raise Unmodelled(n)

    # ---- logic
    def guard(self, t, v):
        g = self.guards.get(t)
        if g is None:
            self.guards[t] = 1 if v else 2
        else:
            self.guards[t] = g | (1 if v else 2)
        return v

    def v_ge0(self, t, e):
        return self.guard(t, self.i(t.args[0], e) >= 0)

    def v_eq0(self, t, e):
        return self.guard(t, self.i(t.args[0], e) == 0)

    def v_rlt(self, t, e):
        a, b = self.r(t.args[0], e), self.r(t.args[1], e)
        if self.diffs is not None and t not in self.diffs:
            self.diffs[t] = a - b
        return self.guard(t, bool(a < b))

    def v_rle(self, t, e):
        a, b = self.r(t.args[0], e), self.r(t.args[1], e)
        if self.diffs is not None and t not in self.diffs:
            self.diffs[t] = a - b
        return self.guard(t, bool(a <= b))

    def v_req(self, t, e):
        a, b = self.r(t.args[0], e), self.r(t.args[1], e)
        if self.diffs is not None and t not in self.diffs:
            self.diffs[t] = a - b
        return self.guard(t, bool(a == b))

    def v_peq(self, t, e):
        return self.ev(t.args[0], e) == self.ev(t.args[1], e)

    def v_xeq(self, t, e):
        return self.ev(t.args[0], e) == self.ev(t.args[1], e)

    def v_streq(self, t, e):
        return self.ev(t.args[0], e) == self.ev(t.args[1], e)

    def v_ptr(self, t, e):
        return ('ptr', t.args[0], t.args[1])

    def v_not(self, t, e):
        return not self.ev(t.args[0], e)

    def v_and(self, t, e):
        for x in t.args:
            if not self.ev(x, e):
                return False
        return True

    def v_or(self, t, e):
        for x in t.args:
            if self.ev(x, e):
                return True
        return False

    def v_ite(self, t, e):
        if t.sort == 'A':
            return self.ev(t.args[1] if self.ev(t.args[0], e) else t.args[2], e)
        return self.ev(t.args[1] if self.ev(t.args[0], e) else t.args[2], e)

    # ---- reals
    def r(self, t, e):
        v = self.ev(t, e)
        if isinstance(v, Garbage):
            raise Poison('real read from words that hold none')
        return v

    def v_add(self, t, e):
        return self.r(t.args[0], e) + self.r(t.args[1], e)

    def v_sub(self, t, e):
        return self.r(t.args[0], e) - self.r(t.args[1], e)

    def v_mul(self, t, e):
        return self.r(t.args[0], e) * self.r(t.args[1], e)

    def v_div(self, t, e):
        return self.B.div(self.r(t.args[0], e), self.r(t.args[1], e))

    def v_neg(self, t, e):
        return -self.r(t.args[0], e)

    def v_pow(self, t, e):
        a = self.r(t.args[0], e)
        b = self.i(t.args[1], e) if t.args[1].sort == 'i' else self.r(t.args[1], e)
        return self.B.pow(a, b)

    def v_i2f(self, t, e):
        return self.B.num(self.i(t.args[0], e))

    def v_fn(self, t, e):
        return self.B.fn(t.args[0], [self.r(x, e) for x in t.args[1:]])

    def v_r2i(self, t, e):
        v = self.ev(t.args[0], e)
        if isinstance(v, Garbage):
            return v.a if t.args[1] == 0 else v.b
        if not self.B.isnan(v) and v == 0:
            return 0
        return Word(v, t.args[1])

    def v_i2r(self, t, e):
        a, b = self.ev(t.args[0], e), self.ev(t.args[1], e)
        if isinstance(a, Word) and isinstance(b, Word) and a.k == 0 and b.k == 1 and (a.v is b.v or a.v == b.v or (self.B.isnan(a.v) and self.B.isnan(b.v))):
            return a.v
        if not isinstance(a, Word) and not isinstance(b, Word) and a == 0 and b == 0:
            return self.B.num(0)
        return Garbage(a, b)

    # ---- arrays
    def v_lam(self, t, e):
        vs, body = t.args

        def f(ix):
            return self.ev(body, Env(self, e, dict(zip(vs, ix))))
        return Arr(f)

    def v_store(self, t, e):
        A, ix, v = t.args
        base = self.ev(A, e)
        ii = tuple(self.i(x, e) for x in ix)

        def f(jx):
            return self.ev(v, e) if jx == ii else base.get(jx)
        return Arr(f)

    def v_sel(self, t, e):
        A = self.ev(t.args[0], e)
        return A.get(tuple(self.i(x, e) for x in t.args[1:]))

    def v_red(self, t, e):
        kind, v, lo, hi, body = t.args
        lo, hi = self.i(lo, e), self.i(hi, e)
        B = self.B
        num = (lambda x: x) if body.sort == 'i' or kind == 'count' else B.num
        if kind in ('any', 'all'):
            for k in range(lo, hi + 1):
                x = self.ev(body, Env(self, e, {v: k}))
                if kind == 'any' and x:
                    return True
                if kind == 'all' and not x:
                    return False
            return kind == 'all'
        xs = [self.ev(body, Env(self, e, {v: k})) for k in range(lo, hi + 1)]
        for x in xs:
            if isinstance(x, (Garbage, Word)):
                raise Poison('real read from words that hold none')
        if kind == 'count':
            return sum(1 for x in xs if x)
        if kind == 'sum':
            s = num(0)
            for x in xs:
                s = s + x
            return s
        if kind == 'prod':
            s = num(1)
            for x in xs:
                s = s * x
            return s
        if not xs:
            if body.sort == 'i':
                return -2 ** 31 if kind == 'max' else 2 ** 31 - 1
            big = B.const(Fraction((2 ** 53 - 1) * 2 ** 971))
            return -big if kind == 'max' else big
        # Fortran maxval/minval: NaN elements are ignored unless all are NaN
        ys = [x for x in xs if body.sort == 'i' or not B.isnan(x)]
        if not ys:
            return B.nan
        return max(ys) if kind == 'max' else min(ys)

    # ---- loops
    def soft(self, x, e):
        try:
            return self.ev(x, e)
        except Poison as p:
            return Poisoned(str(p))

    def fold(self, F, e):
        """(final values, iteration environments)"""
        f = F.fv()
        while e.parent is not None and not (f & e.bound):
            e = e.parent
        r = e.memo.get(F)
        if r is not None:
            return r
        cur = [self.soft(x, e) for x in F.inits]
        envs = []

        def step(v):
            b = dict(zip(F.phis, cur))
            if F.var is not None:
                b[F.var] = v
            en = Env(self, e, b)
            envs.append(en)
            return en
        if F.cond is None:
            lo, hi, st = self.i(F.lo, e), self.i(F.hi, e), self.i(F.st, e)
            for v in range(lo, hi + (1 if st > 0 else -1), st):
                en = step(v)
                cur = [self.soft(x, en) for x in F.bodies]
        else:
            n = 0
            while True:
                b = dict(zip(F.phis, cur))
                en = Env(self, e, b)
                if not self.ev(F.cond, en):
                    break
                envs.append(en)
                cur = [self.soft(x, en) for x in F.bodies]
                n += 1
                if n > 100000:
                    raise Tick()
        r = (cur, envs)
        e.memo[F] = r
        return r

    def v_foldc(self, t, e):
        F, k = t.args
        r = self.fold(F, e)[0][k]
        if isinstance(r, Poisoned):
            raise Poison(r.why)
        return r

    def v_foldall(self, t, e):
        F, c = t.args
        for en in self.fold(F, e)[1]:
            if not self.ev(c, en):
                return False
        return True


def atoms(ts):
    """Comparison atoms reachable from terms."""
    out = []
    seen = set()
    seenF = set()
    todo = list(ts)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ('ge0', 'eq0', 'rlt', 'rle', 'req'):
            out.append(t)
        if t.op in ('foldc', 'foldall'):
            F = t.args[0]
            if F not in seenF:
                seenF.add(F)
                a, b, c = F.parts()
                todo += a + b + c
            if t.op == 'foldall':
                todo.append(t.args[1])
            continue
        todo.extend(child_terms(t))
    return out


def consts(ts):
    """Numeric constants compared against in guards: (reals, integers)."""
    rs, is_ = set(), set()
    for a in atoms(ts):
        if a.op in ('ge0', 'eq0'):
            d = poly_dict(a.args[0])
            c = d.get((), None)
            if c is not None:
                is_.add(abs(int(c)))
        else:
            for x in a.args:
                for y in rconst(x):
                    rs.add(y)
    return rs, is_


def rconst(x, d=0):
    if x.op == 'c':
        if not isinstance(x.args[0], str):
            yield x.args[0]
        return
    if d < 3 and x.op in ('add', 'sub', 'mul', 'div', 'neg', 'fn'):
        for y in child_terms(x):
            yield from rconst(y, d + 1)
    if x.op in ('i2f',) and x.args[0].op == 'c':
        yield x.args[0].args[0]
