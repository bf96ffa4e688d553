"""Hash-consed gated values of the C analysis and their evaluation at many points.

Concrete values are Python bool / int / float / P (pointer).  Everything else is
a Node.  Control-flow joins become `ite` nodes, so one Node denotes the value on
every path at once.
"""
import math
import struct
from collections import namedtuple
import numpy as np

P = namedtuple('P', 'o off')
NULL = P(0, 0)

_tab = {}
_n = [0]
SITE = [None]          # (file, function, line) being analysed


class Node:
    __slots__ = ('op', 'args', 'ty', 'id', 'site', 'w')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id


def mk(op, ty, *args):
    key = (op, ty, tuple((type(a).__name__, a) if not isinstance(a, Node) else a.id for a in args))
    r = _tab.get(key)
    if r is None:
        r = Node()
        r.op, r.args, r.ty = op, args, ty
        _n[0] += 1
        r.id = _n[0]
        r.site = SITE[0]
        r.w = 1 + sum(a.w for a in args if isinstance(a, Node)) if op == 'ite' else 1
        _tab[key] = r
    return r


def show(n, d=0):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == 'sym':
        return n.args[0]
    if d > 5:
        return '..'
    return '%s(%s)' % (n.op, ', '.join(show(a, d + 1) if not isinstance(a, str) else a for a in n.args))


def sym(name, ty='f'):
    return mk('sym', ty, name)


def isn(x):
    return isinstance(x, Node)


def tyof(x):
    if isinstance(x, Node):
        return x.ty
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, float):
        return 'f'
    return 'p'


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Node) or isinstance(b, Node):
        return False
    return type(a) is type(b) and (a == b or a != a and b != b)


# ------------------------------------------------------------------ logic
def not_(c):
    if not isn(c):
        return not c
    if c.op == 'not':
        return c.args[0]
    return mk('not', 'b', c)


def and_(a, b):
    if not isn(a):
        return b if a else False
    if not isn(b):
        return a if b else False
    if a is b:
        return a
    if not_(a) is b:
        return False
    return mk('and', 'b', a, b)


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def ite(c, a, b):
    if not isn(c):
        return a if c else b
    if same(a, b):
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if isn(a) and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if isn(b) and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if same(a, b):
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return not_(c)
    ta = tyof(a)
    if ta == 'b':
        if a is True:
            return or_(c, b)
        if b is False:
            return and_(c, a)
        if a is False:
            return and_(not_(c), b)
        if b is True:
            return or_(not_(c), a)
    if isn(a) and a.op == 'undef':      # an undefined value on one side constrains nothing
        pass
    return mk('ite', ta if not (isn(a) and a.op == 'undef') else tyof(b), c, a, b)


def assume(x, known, d=0):
    """x simplified under known conditions (dict Node -> bool), shallowly"""
    if not isn(x) or not known:
        return x
    k = known.get(x)
    if k is not None:
        return k
    if x.op == 'not':
        return not_(assume(x.args[0], known, d))
    if d > 30:
        return x
    if x.op == 'and':
        return and_(assume(x.args[0], known, d + 1), assume(x.args[1], known, d + 1))
    if x.op == 'ite':
        c = assume(x.args[0], known, d + 1)
        if not isn(c):
            return assume(x.args[1] if c else x.args[2], known, d + 1)
    if x.op in ('eq', 'slt', 'sle', 'ult', 'ule', 'peq') and any(isn(a) and a.op == 'ite' for a in x.args):
        a = [assume(y, known, d + 1) for y in x.args]
        if a[0] is not x.args[0] or a[1] is not x.args[1]:
            return icmp({'eq': 'eq', 'peq': 'eq'}.get(x.op, x.op), *a)
    return x


def lift1(f, a, lim=400):
    """apply f to the leaves of an ite tree with constant leaves"""
    if isn(a) and a.op == 'ite' and a.w <= lim:
        return ite(a.args[0], lift1(f, a.args[1], lim), lift1(f, a.args[2], lim))
    return f(a)


def leaves(a, out=None):
    out = [] if out is None else out
    if isn(a) and a.op == 'ite':
        leaves(a.args[1], out)
        leaves(a.args[2], out)
    else:
        out.append(a)
    return out


def consts(a, lim=12, memo=None):
    """the finite set of values an integer term selects among (sorted), or None"""
    memo = {} if memo is None else memo
    if not isn(a):
        return [int(a)]
    if a.id in memo:
        return memo[a.id]
    r = None
    if a.op == 'ite' or a.op in ('add', 'sub', 'mul', 'shl') and len(a.args) == 2:
        p, q = (consts(x, lim, memo) for x in a.args[-2:])
        if p is not None and q is not None:
            r = set(p) | set(q) if a.op == 'ite' else {iop(a.op, x, y) for x in p for y in q}
            r = sorted(r) if len(r) <= lim and not any(isn(x) for x in r) else None
    elif a.op == 'b2i':
        r = [0, 1]
    memo[a.id] = r
    return r


def constleaf(a):
    return any(not isn(x) for x in leaves(a))


# ------------------------------------------------------------------ integers
def iop(op, a, b, w=64):
    if not isn(a) and not isn(b):
        a, b = int(a), int(b)
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'sdiv':
            if b == 0:
                return mk('undef', 'i', 'division by zero')
            r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        elif op == 'srem':
            if b == 0:
                return mk('undef', 'i', 'division by zero')
            r = a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
        elif op == 'udiv':
            r = (a % 2**w) // (b % 2**w)
        elif op == 'urem':
            r = (a % 2**w) % (b % 2**w)
        elif op == 'shl':
            r = a << b
        elif op == 'ashr':
            r = a >> b
        elif op == 'lshr':
            r = (a % 2**w) >> b
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        r %= 2**w
        return r - 2**w if r >= 2**(w - 1) else r
    if op in ('add', 'or', 'xor') and not isn(b) and b == 0 or op == 'sub' and not isn(b) and b == 0:
        return a
    if op == 'add' and not isn(a) and a == 0:
        return b
    if op == 'mul':
        for x, y in ((a, b), (b, a)):
            if not isn(x):
                if x == 1:
                    return y
                if x == 0:
                    return 0
    if op == 'sub' and a is b:
        return 0
    if isn(a) and a.op == 'ite' and not isn(b) and a.w < 200 and constleaf(a):
        return lift1(lambda x: iop(op, x, b, w), a)
    if isn(b) and b.op == 'ite' and not isn(a) and b.w < 200 and constleaf(b):
        return lift1(lambda x: iop(op, a, x, w), b)
    if op == 'add' and isn(a) and a.op == 'add' and not isn(b) and not isn(a.args[1]):
        return iop('add', a.args[0], a.args[1] + b, w)
    if op == 'sub' and not isn(b):
        return iop('add', a, -b, w)
    if op == 'add' and not isn(a):
        a, b = b, a
    return mk(op, 'i', a, b)


def icmp(op, a, b):
    """eq slt sle ult ule on integers, eq on pointers"""
    if not isn(a) and not isn(b):
        if isinstance(a, P) or isinstance(b, P):
            if op == 'eq':
                return tuple(a) == tuple(b)
            if isinstance(a, P) and isinstance(b, P) and a.o == b.o:
                return {'slt': a.off < b.off, 'ult': a.off < b.off}.get(op, a.off <= b.off)
            return mk('undef', 'b', 'pointer order')
        a, b = int(a), int(b)
        if op[0] == 'u':
            a, b = a % 2**64, b % 2**64
        return {'eq': a == b, 'lt': a < b, 'le': a <= b}[op if op == 'eq' else op[1:]]
    if a is b:
        return op in ('eq', 'sle', 'ule')
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if isn(x) and x.op == 'ite' and x.w < 300 and (not isn(y) or x.ty == 'p') and constleaf(x):
            return lift1(lambda z: icmp(op, y, z) if sw else icmp(op, z, y), x)
    if op == 'eq' and not isn(a):
        a, b = b, a
    if op == 'eq' and isn(a) and a.op == 'b2i' and not isn(b):
        return a.args[0] if b == 1 else not_(a.args[0]) if b == 0 else False
    if isn(a) and a.op == 'padd' and not isn(b) and b == NULL:
        return False
    return mk(op if tyof(a) != 'p' else 'peq', 'b', a, b)


def b2i(c):
    if not isn(c):
        return int(c)
    return mk('b2i', 'i', c)


# ------------------------------------------------------------------ reals
def _f(op, a, b):
    if op == 'fadd':
        return a + b
    if op == 'fsub':
        return a - b
    if op == 'fmul':
        return a * b
    if b == 0:
        return None
    return a / b


def fop(op, a, b):
    ca, cb = not isn(a), not isn(b)
    if ca and cb:
        try:
            r = _f(op, a, b)
            if r is not None:
                return r
        except OverflowError:
            pass
        return mk(op, 'f', a, b)
    if op in ('fadd', 'fmul') and (cb or not ca and a.id > b.id):
        a, b, ca, cb = b, a, cb, ca
    if op == 'fadd':
        if ca and a == 0:
            return b
        if cb and b == 0:
            return a
    elif op == 'fsub':
        if cb and b == 0:
            return a
        if ca and a == 0:
            return fneg(b)
    elif op == 'fmul':
        for x, y, c in ((a, b, ca), (b, a, cb)):
            if c and x == 1:
                return y
            if c and x == -1:
                return fneg(y)
            if c and x == 0:
                return 0.0
    elif op == 'fdiv':
        if cb and b == 1:
            return a
        if ca and a == 0:
            return 0.0
    return mk(op, 'f', a, b)


def fneg(a):
    if not isn(a):
        return -a
    if a.op == 'fneg':
        return a.args[0]
    return mk('fneg', 'f', a)


def fcmp(op, a, b):
    """flt fle feq"""
    if not isn(a) and not isn(b):
        return {'flt': a < b, 'fle': a <= b, 'feq': a == b}[op]
    if a is b:
        return op != 'flt'
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if isn(x) and x.op == 'ite' and x.w < 60 and not isn(y) and all(not isn(z) for z in leaves(x)):
            return lift1(lambda z: fcmp(op, y, z) if sw else fcmp(op, z, y), x)
    if op == 'feq' and not isn(a):
        a, b = b, a
    if op in ('flt',) and not isn(b) and b == 0 and isn(a) and a.op == 'fn' and a.args[0] in ('fabs', 'sqrt'):
        return False
    if op in ('flt', 'fle', 'feq') and not isn(b) and b < 0 and isn(a) and a.op == 'fn' and a.args[0] == 'fabs':
        return False
    return mk(op, 'b', a, b)


FNS = {'fabs': abs, 'sqrt': math.sqrt, 'pow': math.pow, 'exp': math.exp, 'log': math.log, 'ceil': math.ceil,
       'floor': math.floor, 'log10': math.log10, 'sin': math.sin, 'cos': math.cos, 'single': lambda x: struct.unpack('f', struct.pack('f', x))[0]}


def fn(name, *a):
    if not any(isn(x) for x in a):
        try:
            return float(FNS[name](*a))
        except (ValueError, OverflowError, KeyError):
            pass
    if name == 'fabs' and isn(a[0]) and a[0].op == 'fneg':
        return fn(name, a[0].args[0])
    if name == 'fabs' and isn(a[0]) and a[0].op == 'fn' and a[0].args[0] == 'fabs':
        return a[0]
    return mk('fn', 'f', name, *a)


def i2f(a):
    if not isn(a):
        return float(a)
    if a.op == 'ite' and a.w < 60 and constleaf(a):
        return lift1(i2f, a)
    return mk('i2f', 'f', a)


def f2i(a):
    if not isn(a):
        return int(a)
    if a.op == 'i2f':
        return a.args[0]
    return mk('f2i', 'i', a)


def undef(why, ty='f'):
    return mk('undef', ty, why)


# ------------------------------------------------------------------ evaluation
F = np.longdouble


class Undef(Exception):
    pass


class Ev:
    """Evaluate nodes on a batch of points.  env: symbol -> array;
    ufs: uninterpreted function name -> vectorised function."""

    def __init__(self, env, n, ufs=None):
        self.env, self.n, self.ufs = env, n, ufs or {}
        self.memo = {}
        self.bad = {}           # node id -> mask of points at which the value is undefined
        self.pc = {}            # pointers as codes
        self.pcode = {}

    def const(self, x):
        if isinstance(x, bool):
            return np.full(self.n, x)
        if isinstance(x, int):
            return np.full(self.n, x, dtype=np.int64) if abs(x) < 2**63 else np.full(self.n, 0, dtype=np.int64)
        if isinstance(x, float):
            return np.full(self.n, x, dtype=F)
        return np.full(self.n, self.code(x), dtype=np.int64)

    def code(self, p):
        p = (p[0], p[1])
        if p not in self.pcode:
            self.pcode[p] = len(self.pcode) + 1 if p != (0, 0) else 0
        return self.pcode[p]

    def ptr(self, code):
        for k, v in self.pcode.items():
            if v == code:
                return P(*k)

    def undefined(self, x):
        """mask of points where the value of x is not defined"""
        if not isn(x):
            return np.zeros(self.n, bool)
        self(x)
        b = self.bad.get(x.id)
        return b if b is not None else np.zeros(self.n, bool)

    def __call__(self, x):
        if not isn(x):
            return self.const(x)
        if x.id in self.memo:
            return self.memo[x.id]
        order, seen, st = [], set(), [x]
        while st:
            t = st[-1]
            if t.id in self.memo or t.id in seen:
                st.pop()
                continue
            ch = [a for a in t.args if isn(a) and a.id not in self.memo and a.id not in seen]
            if ch:
                st += ch
                continue
            seen.add(t.id)
            order.append(t)
            st.pop()
        with np.errstate(all='ignore'):
            for t in order:
                self.memo[t.id] = self.one(t)
        return self.memo[x.id]

    def a(self, x):
        return self.memo[x.id] if isn(x) else self.const(x)

    def one(self, t):
        op, ar = t.op, t.args
        bads = [self.bad[a.id] for a in ar if isn(a) and a.id in self.bad]
        if op == 'sym':
            if ar[0] not in self.env:
                self.bad[t.id] = np.ones(self.n, bool)
                return np.zeros(self.n, dtype=F if t.ty == 'f' else np.int64 if t.ty != 'b' else bool)
            return self.env[ar[0]]
        if op == 'undef':
            self.bad[t.id] = np.ones(self.n, bool)
            return np.zeros(self.n, dtype=F if t.ty == 'f' else np.int64 if t.ty != 'b' else bool)
        if op == 'ite':
            c = self.a(ar[0])
            if bads:
                z = np.zeros(self.n, bool)
                g = [self.bad.get(a.id, z) if isn(a) else z for a in ar]
                b = g[0] | np.where(c, g[1], g[2])
                if b.any():
                    self.bad[t.id] = b
            return np.where(c, self.a(ar[1]), self.a(ar[2]))
        if op == 'and':
            x, y = self.a(ar[0]), self.a(ar[1])
            if bads:
                z = np.zeros(self.n, bool)
                g = [self.bad.get(a.id, z) if isn(a) else z for a in ar]
                b = (g[0] & (g[1] | y)) | (g[1] & (g[0] | x))
                if b.any():
                    self.bad[t.id] = b
            return x & y
        if bads:
            self.bad[t.id] = np.logical_or.reduce(bads)
        if op == 'uf':
            f = self.ufs.get(ar[0])
            if f is None:
                self.bad[t.id] = np.ones(self.n, bool)
                return np.zeros(self.n, dtype=F)
            return f(*[self.a(x) for x in ar[1:]])
        if op == 'fn':
            v = [self.a(x) for x in ar[1:]]
            return {'fabs': np.abs, 'sqrt': np.sqrt, 'pow': np.power, 'exp': np.exp, 'log': np.log, 'ceil': np.ceil,
                    'floor': np.floor, 'log10': np.log10, 'sin': np.sin, 'cos': np.cos,
                    'single': lambda x: np.asarray(x).astype(np.float32).astype(F)}[ar[0]](*v)
        v = [self.a(x) for x in ar]
        return OPS[op](*v)


def _cdiv(a, b):
    b = np.where(b == 0, 1, b)
    return np.sign(a) * np.sign(b) * (np.abs(a) // np.abs(b))


OPS = {
    'not': lambda a: ~a.astype(bool), 'b2i': lambda a: a.astype(np.int64),
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
    'sdiv': _cdiv, 'srem': lambda a, b: a - b * _cdiv(a, b),
    'and_': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
    'shl': lambda a, b: a << b, 'ashr': lambda a, b: a >> b,
    'eq': lambda a, b: a == b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
    'ult': lambda a, b: a.astype(np.uint64) < b.astype(np.uint64),
    'ule': lambda a, b: a.astype(np.uint64) <= b.astype(np.uint64), 'peq': lambda a, b: a == b,
    'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b, 'fdiv': lambda a, b: a / b,
    'fneg': lambda a: -a, 'flt': lambda a, b: a < b, 'fle': lambda a, b: a <= b, 'feq': lambda a, b: a == b,
    'i2f': lambda a: a.astype(F), 'f2i': lambda a: np.trunc(np.where(np.isfinite(a), a, 0)).astype(np.int64),
    'fisnan': lambda a: np.isnan(a), 'fisinf': lambda a: np.isinf(a), 'padd': lambda a, b: a * 1000003 + b,
}


def nodes_of(roots):
    out, st = {}, [r for r in roots if isn(r)]
    while st:
        t = st.pop()
        if t.id in out:
            continue
        out[t.id] = t
        st += [a for a in t.args if isn(a)]
    return out


def syms_of(roots):
    return {t.args[0]: t for t in nodes_of(roots).values() if t.op == 'sym'}


def sites_of(roots, lim=12):
    s = []
    for t in sorted(nodes_of(roots).values(), key=lambda t: -t.id):
        if t.site and t.site not in s:
            s.append(t.site)
    return s[:lim]
