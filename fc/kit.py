"""Scenario building and identity decisions for the C analysis."""
import random
import numpy as np
from .ir import Prog, Unsupported
from .eng import Eng, State, Event, learn, DEFINITE, Diverges
from . import val as V
from .val import *

_prog = [None]


def prog():
    if _prog[0] is None:
        _prog[0] = Prog()
    return _prog[0]


class Env(dict):
    """a valuation; a symbol the extracted terms do not depend on gets its values when asked for"""

    def __missing__(self, name):
        if not isinstance(name, str) or name == 'ev':
            raise KeyError(name)
        self[name] = np.random.default_rng(hash_(name)).normal(size=self.n) * 2
        return self[name]


class K:
    """one analysis context: engine + state"""

    def __init__(self, **kw):
        self.P = prog()
        self.E = Eng(self.P, **kw)
        DEFINITE.clear()
        self.s = State()
        self.dom = {}           # symbol -> sampler(rng, n)
        self._ctx = None
        self.conds = []
        self.must = []

    # values
    def f(self, name, dom=None):
        self.dom[name] = dom
        return sym(name, 'f')

    def i(self, name, lo, hi):
        self.dom[name] = lambda r, n: r.integers(lo, hi + 1, n)
        return sym(name, 'i')

    def call(self, name, *a):
        return self.E.call(self.s, name, *a)

    def opcall(self, name, *a):
        """call by the function's address (hooks apply)"""
        return self.E.invoke(self.s, P('@' + name, 0), list(a))

    def hook(self, name, fn):
        self.E.hooks[name] = fn
        return P('@' + name, 0)

    def buf(self, size, name='buffer', fill=None):
        return self.E.new(self.s, 'heap', size, name, fill)

    def ld(self, ty, p, off=0):
        return self.E.load(self.s, ty, self.E.padd(p, off))

    def st(self, ty, v, p, off=0):
        self.E.store(self.s, ty, v, self.E.padd(p, off))

    def ctx(self):
        if self._ctx is None:
            b = self.buf(8, 'ctx')
            r = self.call('SUNContext_Create', NULL, b)
            self._ctx = self.ld('ptr', b)
        return self._ctx

    # N_Vectors
    def vec(self, n, name=None, vals=None, dom=None):
        v = self.call('N_VNew_Serial', n, self.ctx())
        d = self.call('N_VGetArrayPointer', v)
        for k in range(n):
            x = vals[k] if vals is not None else self.f('%s%d' % (name, k), dom) if name else None
            if x is not None:
                self.st('double', x, d, 8 * k)
        return v

    def data(self, v, n=None, s=None):
        s = s or self.s
        ev = self.s
        self.s = s
        try:
            d = self.call('N_VGetArrayPointer', v)
            if n is None:
                n = self.call('N_VGetLength', v)
            return [self.ld('double', d, 8 * k) for k in range(n)]
        finally:
            self.s = ev

    def setdata(self, v, vals):
        d = self.call('N_VGetArrayPointer', v)
        for k, x in enumerate(vals):
            self.st('double', x, d, 8 * k)

    def parr(self, ps):
        """array of pointers"""
        b = self.buf(8 * max(1, len(ps)), 'pointer array')
        for k, p in enumerate(ps):
            self.st('ptr', p, b, 8 * k)
        return b

    def darr(self, xs):
        b = self.buf(8 * max(1, len(xs)), 'real array')
        for k, x in enumerate(xs):
            self.st('double', x, b, 8 * k)
        return b

    # struct members
    def off(self, struct, field):
        f = self.P.fields(struct)
        if f is None or field not in f:
            raise Unsupported('member %s of %s' % (field, struct))
        return f[field][0]

    def get(self, struct, p, field, ty='double', k=0, size=8):
        return self.ld(ty, p, self.off(struct, field) + k * size)

    def put(self, struct, p, field, v, ty='double', k=0, size=8):
        self.st(ty, v, p, self.off(struct, field) + k * size)

    def record(self, struct, p):
        """current values of all scalar members that have been given a value"""
        out = {}
        for n, (o, ty) in self.P.scalars(struct).items():
            try:
                out[n] = self.ld(ty, p, o)
            except Unsupported:
                pass
        return out

    def cv(self, mem, field, ty='double', k=0, size=8):
        return self.get('CVodeMemRec', mem, field, ty, k, size)

    def cvput(self, mem, field, v, ty='double', k=0, size=8):
        self.put('CVodeMemRec', mem, field, v, ty, k, size)

    def when(self, c, must=False):
        """go on under condition c; must: the status of a call that a valid problem may not be refused by"""
        if must:
            self.must.append(c)
        if isn(c):
            self.conds.append(c)
            self.s.pc = self.E.base = and_(self.s.pc, c)
            learn(self.s.known, c)

    def faults(self):
        return [e for e in self.s.events if e.kind == 'fault']

    def events(self, kind):
        return [e for e in self.s.events if e.kind == kind]


def eqv(a, b):
    """the condition that two values are equal"""
    if isn(a) or isn(b):
        if tyof(a) == 'p' or tyof(b) == 'p':
            return icmp('eq', a, b)
        return fcmp('feq', a, b) if 'f' in (tyof(a), tyof(b)) else icmp('eq', a, b)
    return a == b


# ------------------------------------------------------------------ sampling
def real(rng, n):
    x = rng.standard_normal(n) * np.exp(rng.uniform(-2, 2, n))
    return x.astype(F)


def pos(rng, n):
    return np.exp(rng.uniform(-2, 2, n)).astype(F)


def unit(rng, n):
    return rng.uniform(0.02, 0.98, n).astype(F)


def rng_(lo, hi):
    return lambda r, n: r.uniform(lo, hi, n).astype(F)


def among(*xs):
    xs = list(xs)
    if all(isinstance(x, (int, bool)) for x in xs):
        return lambda r, n: np.array(xs, dtype=np.int64)[r.integers(0, len(xs), n)]
    return lambda r, n: np.array(xs, dtype=F)[r.integers(0, len(xs), n)]


def mixed(f, *specials):
    """f, or now and then one of the special values"""
    def g(r, n):
        x = f(r, n)
        s = np.array(specials, dtype=F)[r.integers(0, len(specials), n)]
        return np.where(r.random(n) < 0.3, s, x)
    return g


def sample(doms, syms, consts, rng, n):
    """points: domain samples; interesting constants are mixed into unconstrained reals"""
    env = {}
    for name in sorted(syms):
        t = syms[name]
        d = doms.get(name)
        if d is not None:
            env[name] = d(rng, n)
        elif t.ty == 'f':
            x = real(rng, n)
            m = rng.random(n)
            if consts:
                c = np.array(consts, dtype=F)[rng.integers(0, len(consts), n)]
                x = np.where(m < 0.12, c, x)
            env[name] = x
        elif t.ty == 'i':
            env[name] = rng.integers(-3, 8, n)
        elif t.ty == 'b':
            env[name] = rng.random(n) < 0.5
        else:
            env[name] = np.zeros(n, dtype=np.int64)
    return env


def meet(env, roots, doms, rng, n, tries=1, frac=0.25):
    """move some points onto the surfaces where the two sides of a real comparison are equal"""
    cmps = []
    for t in nodes_of(roots).values():
        if t.op in ('flt', 'fle', 'feq') and isn(t.args[0]):
            for a, b in (t.args, t.args[::-1]):
                sg = 1
                if isn(a) and a.op == 'fneg':
                    a, sg = a.args[0], -1
                if isn(a) and a.op == 'sym' and (not isn(b) or a.args[0] not in syms_of([b])):
                    cmps.append((a.args[0], sg, b))
    if not cmps:
        return env
    ev = Ev(env, n)
    out = {k: np.array(v) for k, v in env.items()}
    pick = rng.integers(0, len(cmps), n)
    on = rng.random(n) < frac
    for j, (name, sg, b) in enumerate(cmps):
        m = on & (pick == j)
        if m.any() and name in out and out[name].dtype == F:
            v = ev(b) * sg
            m &= np.isfinite(v)
            if name in doms:      # no further than its domain goes
                m &= (v >= env[name].min()) & (v <= env[name].max())
            out[name] = np.where(m, v, out[name])
    return out


def consts_of(roots):
    out = set()
    for t in nodes_of(roots).values():
        if t.op in ('flt', 'fle', 'feq'):
            for a in t.args:
                if isinstance(a, float) and np.isfinite(a) and abs(a) < 1e15:
                    out |= {a, -a}
    return sorted(out)


def site_text(s):
    return '%s:%s:%s' % s if s else '?'


def decide(rep, key, k, pairs, seed=1, n=400, rtol=1e-9, pre=None, ufs=None, where=None, assume_=None, faults=True,
           atol=0.0, what='', relate=True, conds=True):
    """Decide that each extracted value equals its specification at every sampled valuation.

    pairs: list of (label, value, spec) where spec is a function of the valuation
    (dict symbol -> array, plus 'ev' for evaluating other extracted values) or a
    Node/number; a fourth entry is the condition under which the pair is required.  pre(env) may adjust a valuation; assume_(env) is a mask of the
    valuations in the property's domain.  Returns True when all hold.
    """
    for f in k.E.hooks:     # a stand-in needs the function it stands for
        if f.startswith(('cv', 'CVode')) and f != 'cvProcessError' and k.P.find(f) is None:
            raise Unsupported('function %s not found' % f)
    for f in k.E.seen:
        rep.analysed.add('%s:%s' % f)
    pairs = [x if len(x) == 4 else tuple(x) + (True,) for x in pairs]
    roots = [v for _, v, _, _ in pairs] + [s for _, _, s, _ in pairs if not callable(s)] + [g for _, _, _, g in pairs if g is not True]
    evs = [e for e in k.s.events if e.kind in ('fault', 'cut', 'abort')]
    roots += [e.pc for e in evs] + k.conds
    syms = syms_of(roots)
    for nme in k.dom:
        if nme not in syms:
            syms[nme] = sym(nme, 'f')
    rng = np.random.default_rng(seed * 7919 + hash_(key))
    consts = consts_of(roots)
    env = {}
    doms = dict(k.dom)
    env = sample(doms, syms, consts, rng, n)
    if relate:
        env = meet(env, roots, doms, rng, n)
    if pre:
        r = pre(env, rng)
        env = env if r is None else r
    ok = np.ones(n, bool)
    if assume_ is not None:
        with np.errstate(all='ignore'):
            ok &= assume_(env)
    ev = Ev(env, n, ufs)
    for e in evs:
        if e.kind == 'cut':
            ok &= ~np.asarray(ev(e.pc), bool)
    if conds and any(c is False for c in k.must):
        rep.facts += 1
        rep.bad(key, 'a call that sets up a valid problem is refused%s' % (' ' + what if what else ''), valuation(env, ok), where or ())
        return False
    for c in k.conds if conds else ():
        u = ev.undefined(c) & ok
        if u.any():
            rep.facts += 1
            rep.bad(key, 'the result of a call that sets the problem up is undefined%s' % (' ' + what if what else ''), valuation(env, u), where or where_of(c))
            return False
        was = ok
        ok = ok & np.asarray(ev(c), bool)
        if (was & ~ok).any() and any(c is x for x in k.must):
            rep.facts += 1
            rep.bad(key, 'a call that sets up a valid problem is refused%s' % (' ' + what if what else ''), valuation(env, was & ~ok), where or where_of(c))
            return False
    if not ok.any():
        rep.undec(key, 'no valuation inside the analysed bounds')
        return None
    good = True
    if faults:
        for e in evs:
            if e.kind == 'fault':
                m = np.asarray(ev(e.pc), bool) & ok & ~ev.undefined(e.pc)
                rep.facts += 1
                if m.any():
                    good = False
                    rep.bad(key, '%s%s' % (e.data[0], ' ' + what if what else ''), valuation(env, m), [site_text(e.site)])
    env = Env(env)
    env.n = n
    env['ev'] = ev
    every = ok
    for label, v, s, when in pairs:
        lab = '%s %s' % (key, label)
        ok = every & np.asarray(ev(when), bool) if isn(when) else every if when else every & False
        if not callable(s) and same(v, s) and not (isn(v) and v.op == 'undef'):
            rep.proof(lab)
            continue
        u = ev.undefined(v) & ok
        got = ev(v)
        with np.errstate(all='ignore'):
            exp = s(env) if callable(s) else ev(s)
        exp = np.broadcast_to(np.asarray(exp), (n,))
        rep.facts += 1
        rep.points += int(ok.sum())
        if u.any():
            rep.bad(lab, 'value is undefined (uninitialised or unset)%s' % (' ' + what if what else ''), valuation(env, u), where or where_of(v))
            good = False
            continue
        if got.dtype == F or exp.dtype == F:
            g, x = got.astype(F), exp.astype(F)
            with np.errstate(all='ignore'):
                d = np.abs(g - x) > rtol * np.maximum(np.abs(g), np.abs(x)) + atol
            d |= np.isnan(g) != np.isnan(x)
            d &= ~((g == x))
        else:
            d = got != exp
        d &= ok
        if d.any():
            j = int(np.argmax(d))
            rep.bad(lab, '%sgives %s, required %s' % (what + ' ' if what else '', num(got[j]), num(exp[j])), valuation(env, d), where or where_of(v))
            good = False
    return good


def where_of(v):
    s = sites_of([v], 6) if isn(v) else []
    return [site_text(x) for x in s]


def num(x):
    if isinstance(x, (np.floating, float)):
        return '%.6g' % float(x)
    return str(x)


def valuation(env, mask):
    j = int(np.argmax(mask))
    return ', '.join('%s=%s' % (k, num(env[k][j])) for k in sorted(env) if k != 'ev' and hasattr(env[k], '__getitem__'))[:400]


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


def size_consts(fnames):
    """integer constants that a length or index is compared with in the given functions (and their callees)"""
    out = set()
    P_ = prog()
    done = set()

    def go(f):
        if f in done:
            return
        done.add(f)
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'icmp' and i.a[1] in ('i64', 'i32'):
                    for x in i.a[2:]:
                        try:
                            out.add(int(x))
                        except ValueError:
                            pass
                elif i.op in ('sdiv', 'srem', 'ashr', 'and', 'urem', 'udiv') and i.a[0] in ('i64', 'i32'):
                    try:
                        out.add(int(i.a[2]))
                    except ValueError:
                        pass
                elif i.op == 'switch':
                    out.update(c for c, _ in i.a[3])
                elif i.op == 'call' and i.a[1] and i.a[1][0] == '@':
                    g = P_.fn(i.a[1][1:], f.mod)
                    if g:
                        go(g)
    for n in fnames:
        f = P_.find(n)
        if f:
            go(f)
    return out


def sizes(fnames, base, cap):
    s = set(base)
    for c in size_consts(fnames):
        s |= {c - 1, c, c + 1}
    return sorted(x for x in s if 0 <= x <= cap)
