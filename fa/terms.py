"""Hash-consed value terms (gated value numbering).

Sorts: 'i' integer, 'r' real, 'b' logical, 'p' procedure, 's' string, 'x' other
scalar; arrays are terms of sort 'A' (functions from index tuples to scalars).
Integer arithmetic is kept in polynomial normal form, so equal addresses are
usually the same object; real arithmetic is kept as written.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)

_table = {}
_counter = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', 'es', 'rank')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, args, sort, es=None, rank=0):
    key = (op, args, sort, es)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.es, t.rank = op, args, sort, es, rank
        _counter[0] += 1
        t.id = _counter[0]
        t._fv = None
        _table[key] = t
    return t


# ------------------------------------------------------------- constants
def ci(n):
    return mk('c', (Fraction(n),), 'i')


def cr(v):
    return mk('c', (v if isinstance(v, str) else Fraction(v),), 'r')


TRUE = mk('c', (True,), 'b')
FALSE = mk('c', (False,), 'b')
ZERO = ci(0)
ONE = ci(1)


def cs(s):
    return mk('str', (s,), 's')


def cb(b):
    return TRUE if b else FALSE


def is_c(t):
    return t.op == 'c'


def cval(t):
    return t.args[0]


_fresh = [0]
BOUNDS = {}      # symbol -> (list of lower bound terms, list of upper bound terms)
ABOUNDS = {}     # array symbol name -> (lo list, hi list) for every element


def fresh(name, sort='i', lo=None, hi=None):
    _fresh[0] += 1
    t = mk('s', ('%s#%d' % (name, _fresh[0]),), sort)
    if lo is not None or hi is not None:
        BOUNDS[t] = ([lo] if lo is not None else [], [hi] if hi is not None else [])
    return t


def sym(name, sort='i', lo=None, hi=None):
    t = mk('s', (name,), sort)
    if lo is not None or hi is not None:
        BOUNDS[t] = ([lo] if lo is not None else [], [hi] if hi is not None else [])
    return t


def asym(name, rank, es):
    return mk('asym', (name,), 'A', es, rank)


def fresh_asym(name, rank, es):
    _fresh[0] += 1
    return asym('%s#%d' % (name, _fresh[0]), rank, es)


def proc(key):
    return mk('proc', (key,), 'p')


NULLPROC = proc(None)


# ------------------------------------------------------------- integer polynomials
def poly_dict(t):
    if t.op == 'poly':
        return dict(t.args)
    if t.op == 'c':
        v = t.args[0]
        return {(): v} if v != 0 else {}
    return {(t,): Fraction(1)}


def poly_mk(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk('c', (c,), 'i')
        if len(m) == 1 and c == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple(a.id for a in mc[0])))
    return mk('poly', items, 'i')


def iadd(a, b):
    d = poly_dict(a)
    for m, c in poly_dict(b).items():
        d[m] = d.get(m, 0) + c
    return poly_mk(d)


def isub(a, b):
    if a is b:
        return ZERO
    d = poly_dict(a)
    for m, c in poly_dict(b).items():
        d[m] = d.get(m, 0) - c
    return poly_mk(d)


def imul(a, b):
    if a.op == 'ite' and is_c(b):
        return ite(a.args[0], imul(a.args[1], b), imul(a.args[2], b))
    da, db = poly_dict(a), poly_dict(b)
    d = {}
    for m, c in da.items():
        for n, e in db.items():
            k = tuple(sorted(m + n, key=lambda x: x.id))
            d[k] = d.get(k, 0) + c * e
    return poly_mk(d)


def ineg(a):
    return imul(ci(-1), a)


def idiv(a, b):
    if is_c(a) and is_c(b) and cval(b) != 0:
        x, y = int(cval(a)), int(cval(b))
        q = abs(x) // abs(y)
        return ci(q if (x >= 0) == (y >= 0) else -q)
    if is_c(b) and cval(b) == 1:
        return a
    if is_c(b) and cval(b) != 0:
        d = poly_dict(a)
        if all((c / cval(b)).denominator == 1 for c in d.values()):
            return poly_mk({m: c / cval(b) for m, c in d.items()})
    return mk('idiv', (a, b), 'i')


def _split_div(a, b):
    """a = q*b + r syntactically (monomials divisible by b go to q)."""
    q, r = {}, {}
    if is_c(b):
        n = cval(b)
        for m, c in poly_dict(a).items():
            k = c / n
            if k.denominator == 1:
                q[m] = k
            elif m == ():
                f = c // n
                if f:
                    q[m] = Fraction(f)
                r[m] = c - f * n
            else:
                r[m] = c
    else:
        for m, c in poly_dict(a).items():
            if b in m:
                i = m.index(b)
                mm = m[:i] + m[i + 1:]
                q[mm] = q.get(mm, 0) + c
            else:
                r[m] = c
    return poly_mk(q), poly_mk(r)


def fdiv(a, b):
    """floor division, b > 0 assumed."""
    if is_c(a) and is_c(b):
        return ci(cval(a) // cval(b))
    if is_c(b) and cval(b) == 1:
        return a
    q, r = _split_div(a, b)
    if r is ZERO or (prove_ge0(r) and prove_ge0(isub(isub(b, ONE), r))):
        return q
    return iadd(q, mk('fdiv', (r, b), 'i'))


def fmod(a, b):
    if is_c(a) and is_c(b):
        return ci(cval(a) % cval(b))
    if is_c(b) and cval(b) == 1:
        return ZERO
    q, r = _split_div(a, b)
    if r is ZERO or (prove_ge0(r) and prove_ge0(isub(isub(b, ONE), r))):
        return r
    return mk('imodf', (r, b), 'i')


def imod(a, b, floor=False):
    if floor:
        return fmod(a, b)
    if is_c(a) and is_c(b) and cval(b) != 0:
        x, y = int(cval(a)), int(cval(b))
        if floor:
            return ci(x % y)
        r = abs(x) % abs(y)
        return ci(r if x >= 0 else -r)
    return mk('imodf' if floor else 'imod', (a, b), 'i')


# ------------------------------------------------------------- nonnegativity
def _bounds_of(atom):
    b = BOUNDS.get(atom)
    if b:
        return b
    if atom.op == 'sel' and atom.args[0].op == 'asym':
        return ABOUNDS.get(atom.args[0].args[0], ((), ()))
    if atom.op == 'imodf':
        return ((ZERO,), (isub(atom.args[1], ONE),))
    if atom.op == 'imin':
        return ((), atom.args)
    if atom.op == 'imax':
        return (atom.args, ())
    return ((), ())


_pc_stack = []
FRAMES = {}      # array symbol -> [(array term, L)]: agrees with that array below index L
ALIGNED = {}     # array symbol name -> stride: two elements are equal or at least stride apart
DOMINANT = set() # symbols assumed larger than any polynomial in the other symbols
_ge_memo = {}


def prove_ge0(p, depth=6):
    """Sound, incomplete: True only if the integer term p is >= 0 under the declared bounds
    and the current path facts."""
    key = (p, len(_pc_stack) and tuple(_pc_stack))
    r = _ge_memo.get(key)
    if r is None:
        r = _prove_ge0(p, depth, set())
        _ge_memo[key] = r
    return r


def push_facts(lits):
    _pc_stack.append(lits)


def pop_facts():
    _pc_stack.pop()


def facts():
    for l in _pc_stack:
        for f in l:
            yield f


def _prove_ge0(p, depth, seen, usefacts=True):
    if is_c(p):
        return cval(p) >= 0
    if p in seen or depth <= 0:
        return False
    if DOMINANT and p.op == 'poly':
        for m, c in p.args:
            if len(m) == 1 and m[0] in DOMINANT:
                return c > 0
    elif p in DOMINANT:
        return True
    seen = seen | {p}
    if p.op == 'ite':
        return _prove_ge0(p.args[1], depth - 1, seen) and _prove_ge0(p.args[2], depth - 1, seen)
    d = poly_dict(p)
    if all(c >= 0 and all(_nonneg(a, depth - 1) for a in m) for m, c in d.items()):
        return True
    if usefacts:
        for f in facts():
            if f.op == 'ge0':
                q = f.args[0]
                if q is p:
                    return True
                dq = isub(p, q)
                if len(poly_dict(dq)) < len(d) and _prove_ge0(dq, depth - 1, seen, False):
                    return True
    # eliminate one atom by its bound
    for m, c in d.items():
        for ai, a in enumerate(m):
            lo, hi = _bounds_of(a)
            cand = lo if c > 0 else hi
            if not cand:
                continue
            rest = m[:ai] + m[ai + 1:]
            if not all(_nonneg(x, depth - 1) for x in rest):
                continue
            for bnd in cand:
                d2 = dict(d)
                del d2[m]
                q = poly_mk(d2)
                t = poly_mk({rest: c})
                q = iadd(q, imul(t, bnd))
                if _prove_ge0(q, depth - 1, seen, usefacts):
                    return True
    return False


_nonneg_busy = set()


def _nonneg(a, depth):
    if is_c(a):
        return cval(a) >= 0
    if a in _nonneg_busy or depth <= 0:
        return False
    _nonneg_busy.add(a)
    try:
        lo, _ = _bounds_of(a)
        return any(_prove_ge0(b, depth - 1, set(), False) for b in lo)
    finally:
        _nonneg_busy.discard(a)


# ------------------------------------------------------------- logic
def not_(c):
    if is_c(c):
        return cb(not cval(c))
    if c.op == 'not':
        return c.args[0]
    if c.op == 'ge0':
        return ge0(isub(ci(-1), c.args[0]))
    return mk('not', (c,), 'b')


def and_(*cs_):
    out = []
    for c in cs_:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == 'and':
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    s = set(out)
    for c in out:
        if not_(c) in s:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'b')


def or_(*cs_):
    out = []
    for c in cs_:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.op == 'or':
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    s = set(out)
    for c in out:
        if not_(c) in s:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), 'b')


def ge0(p):
    if is_c(p):
        return cb(cval(p) >= 0)
    if p.op == 'ite':
        return ite(p.args[0], ge0(p.args[1]), ge0(p.args[2]))
    if prove_ge0(p):
        return TRUE
    if prove_ge0(isub(ci(-1), p)):
        return FALSE
    return mk('ge0', (p,), 'b')


def eq0(p):
    if is_c(p):
        return cb(cval(p) == 0)
    if p.op == 'ite':
        return ite(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
    if prove_ge0(isub(p, ONE)) or prove_ge0(isub(ci(-1), p)):
        return FALSE
    d = poly_dict(p)
    if ALIGNED and len(d) == 3 and () in d:
        (m1, c1), (m2, c2) = [(m, c) for m, c in d.items() if m != ()]
        if len(m1) == 1 and len(m2) == 1 and c1 == -c2 and abs(c1) == 1:
            a, b = m1[0], m2[0]
            if a.op == 'sel' and b.op == 'sel' and a.args[0] is b.args[0] and a.args[0].op == 'asym':
                st = ALIGNED.get(a.args[0].args[0])
                if st and 0 < abs(d[()]) < st:
                    return FALSE
    # fmod(X + c, n) + d == 0  ->  fmod(X, n) == (-(c) - d) mod n
    if len(d) <= 2:
        ms = [(m, c) for m, c in d.items() if m != ()]
        if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0].op == 'imodf' and abs(ms[0][1]) == 1:
            X, n = ms[0][0][0].args
            if is_c(n):
                want = -d.get((), Fraction(0)) / ms[0][1]
                dx = poly_dict(X)
                c = dx.pop((), Fraction(0))
                if c != 0:
                    return ieq(mk('imodf', (poly_mk(dx), n), 'i'), ci((want - c) % cval(n)))
                if want < 0 or want >= cval(n):
                    return FALSE
    k = next(iter(sorted(d.items(), key=lambda mc: tuple(a.id for a in mc[0]), reverse=True)))
    if k[1] < 0:
        p = ineg(p)
    return mk('eq0', (p,), 'b')


def ile(a, b):
    return ge0(isub(b, a))


def ilt(a, b):
    return ge0(isub(isub(b, a), ONE))


def ieq(a, b):
    return eq0(isub(a, b))


def rcmp(op, a, b):
    """op in '<','<=','==': on reals (NaN: all false)."""
    if is_c(a) and is_c(b) and not isinstance(cval(a), str) and not isinstance(cval(b), str):
        x, y = cval(a), cval(b)
        return cb({'<': x < y, '<=': x <= y, '==': x == y}[op])
    if a.op == 'ite' and is_c(b):
        return ite(a.args[0], rcmp(op, a.args[1], b), rcmp(op, a.args[2], b))
    if op == '==' and a.id > b.id:
        a, b = b, a
    return mk({'<': 'rlt', '<=': 'rle', '==': 'req'}[op], (a, b), 'b')


def peq(a, b):
    if a is b:
        return TRUE
    if a.op == 'proc' and b.op == 'proc':
        return FALSE
    if a.op == 'ite':
        return ite(a.args[0], peq(a.args[1], b), peq(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], peq(a, b.args[1]), peq(a, b.args[2]))
    return mk('peq', (a, b) if a.id < b.id else (b, a), 'b')


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.sort == 'b':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    sort = a.sort
    if sort != b.sort:
        if {sort, b.sort} == {'i', 'r'}:
            sort = 'r'
        elif a.op == 'undef':
            sort = b.sort
    return mk('ite', (c, a, b), sort, a.es if a.es is not None else b.es, max(a.rank, b.rank))


# ------------------------------------------------------------- reals
def toreal(a):
    if a.sort == 'r':
        return a
    if is_c(a):
        return cr(cval(a))
    if a.op == 'ite':
        return ite(a.args[0], toreal(a.args[1]), toreal(a.args[2]))
    return mk('i2f', (a,), 'r')


def radd(a, b):
    if is_c(a) and cval(a) == 0:
        return b
    if is_c(b) and cval(b) == 0:
        return a
    if is_c(a) and is_c(b) and not isinstance(cval(a), str) and not isinstance(cval(b), str):
        return cr(cval(a) + cval(b))
    return mk('add', (a, b), 'r')


def rsub(a, b):
    if is_c(b) and cval(b) == 0:
        return a
    if is_c(a) and is_c(b) and not isinstance(cval(a), str) and not isinstance(cval(b), str):
        return cr(cval(a) - cval(b))
    return mk('sub', (a, b), 'r')


def rmul(a, b):
    if is_c(a) and cval(a) == 1:
        return b
    if is_c(b) and cval(b) == 1:
        return a
    if is_c(a) and is_c(b) and not isinstance(cval(a), str) and not isinstance(cval(b), str):
        return cr(cval(a) * cval(b))
    return mk('mul', (a, b), 'r')


def rdiv(a, b):
    if is_c(b) and cval(b) == 1:
        return a
    if is_c(a) and is_c(b) and not isinstance(cval(a), str) and not isinstance(cval(b), str) and cval(b) != 0:
        return cr(cval(a) / cval(b))
    return mk('div', (a, b), 'r')


def rneg(a):
    if is_c(a) and not isinstance(cval(a), str):
        return cr(-cval(a))
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (a,), 'r')


def rpow(a, b):
    """a real; b real or int term."""
    if is_c(a) and is_c(b) and not isinstance(cval(a), str) and not isinstance(cval(b), str) and cval(b).denominator == 1 and abs(cval(b)) < 64:
        if not (cval(a) == 0 and cval(b) <= 0):
            return cr(cval(a) ** int(cval(b)))
    return mk('pow', (a, b), 'r')


def fn(name, *args):
    return mk('fn', (name,) + args, 'r')


def r2i(d, k):
    if d.op == 'ite':
        return ite(d.args[0], r2i(d.args[1], k), r2i(d.args[2], k))
    if d.op == 'i2r':
        return d.args[k]
    if is_c(d) and cval(d) == 0:
        return ZERO
    return mk('r2i', (d, k), 'i')


def i2r(a, b):
    if a.op == 'r2i' and b.op == 'r2i' and a.args[0] is b.args[0] and a.args[1] == 0 and b.args[1] == 1:
        return a.args[0]
    if a is ZERO and b is ZERO:
        return cr(0)
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return ite(a.args[0], i2r(a.args[1], b.args[1]), i2r(a.args[2], b.args[2]))
    return mk('i2r', (a, b), 'r')


# ------------------------------------------------------------- arrays
def lam(vs, body):
    vs = tuple(vs)
    # eta
    if body.op == 'sel' and body.args[1:] == vs and not (set(vs) & fv(body.args[0])):
        return body.args[0]
    return mk('lam', (vs, body), 'A', body.sort, len(vs))


def afill(rank, v):
    vs = [fresh('z') for _ in range(rank)]
    return lam(vs, v)


def sel(A, *idx):
    idx = tuple(idx)
    if A.op == 'lam':
        vs, body = A.args
        return subst(body, dict(zip(vs, idx)))
    if A.op == 'store':
        B, ix, v = A.args
        c = and_(*[ieq(x, y) for x, y in zip(ix, idx)])
        if c is TRUE:
            return v
        if c is FALSE:
            return sel(B, *idx)
        return ite(c, v, sel(B, *idx))
    if A.op == 'ite':
        return ite(A.args[0], sel(A.args[1], *idx), sel(A.args[2], *idx))
    if A.op == 'undef':
        return mk('uelt', (A,) + idx, A.es or 'x')
    if A.op == 'asym' and A in FRAMES:
        for B, L in FRAMES[A]:
            if prove_ge0(isub(isub(L, ONE), idx[0])):
                return sel(B, *idx)
    if A.op == 'foldc':
        F, k = A.args
        L = F.frames.get(k)
        if L is not None and prove_ge0(isub(isub(L, ONE), idx[0])):
            return sel(F.inits[k], *idx)
    return mk('sel', (A,) + idx, A.es)


def store(A, idx, v):
    idx = tuple(idx)
    if A.op == 'store' and A.args[1] == idx:
        A = A.args[0]
    return mk('store', (A, idx, v), 'A', A.es if A.es not in (None, 'x') else v.sort, len(idx))


def undef(name, sort, es=None, rank=0):
    _fresh[0] += 1
    return mk('undef', ('%s#%d' % (name, _fresh[0]),), sort, es, rank)


def red(kind, v, lo, hi, body):
    if kind == 'sum':
        n = isub(iadd(hi, ONE), lo)
        if v not in fv(body):
            if body.sort == 'i' and prove_ge0(n):
                return imul(n, body)
        if is_c(lo) and is_c(hi) and cval(hi) - cval(lo) < 16:
            tot = None
            for k in range(int(cval(lo)), int(cval(hi)) + 1):
                x = subst(body, {v: ci(k)})
                tot = x if tot is None else (iadd(tot, x) if x.sort == 'i' else radd(tot, x))
            return tot if tot is not None else (ci(0) if body.sort == 'i' else cr(0))
    if kind in ('any', 'all') and is_c(lo) and is_c(hi) and cval(hi) - cval(lo) < 16:
        xs = [subst(body, {v: ci(k)}) for k in range(int(cval(lo)), int(cval(hi)) + 1)]
        return or_(*xs) if kind == 'any' else and_(*xs)
    return mk('red', (kind, v, lo, hi, body), 'b' if kind in ('any', 'all') else ('i' if kind == 'count' else body.sort))


# ------------------------------------------------------------- loops (mu/eta nodes)
class Fold:
    """A loop: index symbol var runs lo..hi step st (or while cond), state phis -> bodies.
    phis: symbols/array symbols for the values at iteration entry."""
    __slots__ = ('var', 'lo', 'hi', 'st', 'cond', 'phis', 'bodies', 'inits', 'id', '_fv', 'pos', 'obl', 'frames')
    n = [0]

    def __init__(self, var, lo, hi, st, cond, phis, bodies, inits, pos):
        self.var, self.lo, self.hi, self.st, self.cond = var, lo, hi, st, cond
        self.phis, self.bodies, self.inits, self.pos = phis, bodies, inits, pos
        self.obl = []
        self.frames = {}
        Fold.n[0] += 1
        self.id = Fold.n[0]
        self._fv = None

    def __hash__(self):
        return hash(('Fold', self.id))

    def __eq__(self, o):
        return self is o

    def parts(self):
        return [x for x in (self.lo, self.hi, self.st) if x is not None], list(self.inits), list(self.bodies) + ([self.cond] if self.cond is not None else [])

    def fv(self):
        if self._fv is None:
            outer, inits, inner = self.parts()
            s = set()
            for t in inner:
                s |= fv(t)
            for g, c, *_ in self.obl:
                s |= fv(g) | fv(c)
            s -= {self.var}
            s -= set(self.phis)
            for t in outer + inits:
                s |= fv(t)
            self._fv = frozenset(s)
        return self._fv


def foldc(F, k):
    b = F.inits[k]
    body = F.bodies[k]
    if body is F.phis[k]:
        return b
    sort = body.sort
    es = body.es if body.es not in (None, 'x') else b.es
    return mk('foldc', (F, k), sort, es, max(body.rank, b.rank))


def foldall(F, cond):
    """For every iteration (with the state at that iteration's entry) cond holds."""
    if cond is TRUE:
        return TRUE
    return mk('foldall', (F, cond), 'b')


def child_terms(t):
    stack = list(t.args)
    while stack:
        a = stack.pop()
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            stack.extend(a)


EMPTY = frozenset()


def fv(t):
    if t._fv is not None:
        return t._fv
    op = t.op
    if op in ('c', 'proc', 'str'):
        r = EMPTY
    elif op in ('s', 'asym', 'undef'):
        r = frozenset([t])
    elif op == 'lam':
        r = fv(t.args[1]) - frozenset(t.args[0])
    elif op == 'red':
        r = (fv(t.args[4]) - {t.args[1]}) | fv(t.args[2]) | fv(t.args[3])
    elif op == 'foldc':
        r = t.args[0].fv()
    elif op == 'foldall':
        F = t.args[0]
        r = F.fv() | (fv(t.args[1]) - {F.var} - set(F.phis))
    else:
        s = set()
        for a in child_terms(t):
            s |= fv(a)
        r = frozenset(s)
    t._fv = r
    return r


def rebuild(t, f):
    """Rebuild a non-binder term with children mapped by f, through the smart constructors."""
    op, a = t.op, t.args
    if op == 'poly':
        r = ZERO
        for m, c in a:
            x = mk('c', (c,), 'i')
            for y in m:
                x = imul(x, f(y))
            r = iadd(r, x)
        return r
    if op == 'ite':
        c = f(a[0])
        if c is TRUE:
            return f(a[1])
        if c is FALSE:
            return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if op == 'ge0':
        return ge0(f(a[0]))
    if op == 'eq0':
        return eq0(f(a[0]))
    if op == 'and':
        return and_(*[f(x) for x in a])
    if op == 'or':
        return or_(*[f(x) for x in a])
    if op == 'not':
        return not_(f(a[0]))
    if op in ('rlt', 'rle', 'req'):
        return rcmp({'rlt': '<', 'rle': '<=', 'req': '=='}[op], f(a[0]), f(a[1]))
    if op == 'peq':
        return peq(f(a[0]), f(a[1]))
    if op == 'add':
        return radd(f(a[0]), f(a[1]))
    if op == 'sub':
        return rsub(f(a[0]), f(a[1]))
    if op == 'mul':
        return rmul(f(a[0]), f(a[1]))
    if op == 'div':
        return rdiv(f(a[0]), f(a[1]))
    if op == 'neg':
        return rneg(f(a[0]))
    if op == 'pow':
        return rpow(f(a[0]), f(a[1]))
    if op == 'i2f':
        return toreal(f(a[0]))
    if op == 'r2i':
        return r2i(f(a[0]), a[1])
    if op == 'i2r':
        return i2r(f(a[0]), f(a[1]))
    if op == 'idiv':
        return idiv(f(a[0]), f(a[1]))
    if op == 'imod':
        return imod(f(a[0]), f(a[1]))
    if op == 'imodf':
        return fmod(f(a[0]), f(a[1]))
    if op == 'fdiv':
        return fdiv(f(a[0]), f(a[1]))
    if op == 'imin':
        return imin(*[f(x) for x in a])
    if op == 'imax':
        return imax(*[f(x) for x in a])
    if op == 'sel':
        return sel(f(a[0]), *[f(x) for x in a[1:]])
    if op == 'store':
        return store(f(a[0]), tuple(f(x) for x in a[1]), f(a[2]))
    # generic
    def deep(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(deep(y) for y in x)
        return x
    na = tuple(deep(x) for x in a)
    if na == a:
        return t
    return mk(op, na, t.sort, t.es, t.rank)


def imin(*a):
    if all(is_c(x) for x in a):
        return ci(min(cval(x) for x in a))
    if len(a) == 2:
        if prove_ge0(isub(a[1], a[0])):
            return a[0]
        if prove_ge0(isub(a[0], a[1])):
            return a[1]
    return mk('imin', tuple(a), 'i')


def imax(*a):
    if all(is_c(x) for x in a):
        return ci(max(cval(x) for x in a))
    if len(a) == 2:
        if prove_ge0(isub(a[1], a[0])):
            return a[1]
        if prove_ge0(isub(a[0], a[1])):
            return a[0]
    return mk('imax', tuple(a), 'i')


_submemo = {}


def subst(t, m):
    """Substitute terms for symbols / array symbols; renames binders that would capture."""
    if not m:
        return t
    keys = frozenset(m)
    if any(k.op not in ('s', 'asym', 'undef') for k in m):
        keys = frozenset().union(*[fv(k) for k in m])
    memo = {}
    repl_fv = set()
    for v in m.values():
        repl_fv |= fv(v)

    def go(t):
        if not (fv(t) & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if t in m:
            r = m[t]
        elif op in ('s', 'asym', 'undef'):
            r = t
        elif op == 'lam':
            vs, body = t.args
            if any(v in repl_fv for v in vs):
                nv = [fresh(v.args[0].split('#')[0]) for v in vs]
                for v, w in zip(vs, nv):
                    if v in BOUNDS:
                        BOUNDS[w] = BOUNDS[v]
                body = subst(body, dict(zip(vs, nv)))
                vs = tuple(nv)
            r = lam(vs, go(body))
        elif op == 'red':
            k, v, lo, hi, body = t.args
            if v in repl_fv:
                w = fresh('q')
                if v in BOUNDS:
                    BOUNDS[w] = BOUNDS[v]
                body = subst(body, {v: w})
                v = w
            r = red(k, v, go(lo), go(hi), go(body))
        elif op == 'foldc':
            F, k = t.args
            G = subfold(F)
            r = foldc(G, k)
        elif op == 'foldall':
            F, c = t.args
            G = subfold(F)
            mm = fmap[F]
            c2 = subst(c, mm) if mm else c
            r = foldall(G, go(c2))
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r

    fmemo = {}
    fmap = {}

    def subfold(F):
        G = fmemo.get(F)
        if G is not None:
            return G
        ren = {}
        if (F.var is not None and F.var in repl_fv) or any(p in repl_fv for p in F.phis):
            if F.var is not None:
                w = fresh(F.var.args[0].split('#')[0])
                if F.var in BOUNDS:
                    BOUNDS[w] = BOUNDS[F.var]
                ren[F.var] = w
            for p in F.phis:
                ren[p] = fresh_asym('phi', p.rank, p.es) if p.sort == 'A' else fresh('phi', p.sort)
        fmap[F] = ren
        bodies = [subst(b, ren) for b in F.bodies] if ren else F.bodies
        cond = F.cond
        if cond is not None and ren:
            cond = subst(cond, ren)
        G = Fold(ren.get(F.var, F.var), go(F.lo) if F.lo is not None else None, go(F.hi) if F.hi is not None else None,
                 go(F.st) if F.st is not None else None, go(cond) if cond is not None else None,
                 tuple(ren.get(p, p) for p in F.phis), tuple(go(b) for b in bodies), tuple(go(b) for b in F.inits), F.pos)
        for k, L in F.frames.items():
            L2 = go(L)
            G.frames[k] = L2
            if G.phis[k] not in FRAMES:
                FRAMES[G.phis[k]] = [(G.inits[k], L2)]
        fmemo[F] = G
        return G

    return go(t)


def show(t, d=0):
    if d > 7:
        return '…'
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == 'c':
        v = a[0]
        return str(v) if not (isinstance(v, Fraction) and v.denominator > 10 ** 6) else '%.17g' % float(v)
    if op in ('s', 'asym'):
        return a[0]
    if op == 'proc':
        return '@%s' % (a[0],)
    if op == 'poly':
        return '(' + ' + '.join('%s%s' % ('' if c == 1 and m else c, '*'.join(['' if c == 1 else ''] + [s(x) for x in m])) for m, c in a) + ')'
    if op in ('add', 'sub', 'mul', 'div', 'pow'):
        return '(%s %s %s)' % (s(a[0]), {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'pow': '**'}[op], s(a[1]))
    if op == 'fn':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if op == 'ite':
        return '(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'sel':
        return '%s[%s]' % (s(a[0]), ','.join(s(x) for x in a[1:]))
    if op == 'lam':
        return 'λ%s.%s' % (','.join(x.args[0] for x in a[0]), s(a[1]))
    if op == 'foldc':
        return 'loop%d.%d' % (a[0].id, a[1])
    if op == 'red':
        return '%s[%s=%s..%s](%s)' % (a[0], s(a[1]), s(a[2]), s(a[3]), s(a[4]))
    if op == 'store':
        return '%s{%s:=%s}' % (s(a[0]), ','.join(s(x) for x in a[1]), s(a[2]))
    return '%s(%s)' % (op, ', '.join(s(x) if isinstance(x, T) else str(x) for x in a))
