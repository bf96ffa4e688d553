"""Interprocedural gated value-flow analysis.

Walks the syntax tree of the whole program (all modules together), building for every
variable a gated value term: branches become gates (ite), loops become mu/eta nodes (Fold)
which are put in closed form when possible.  Calls are inlined through the resolved call
graph, including type-bound, generic, operator and procedure-pointer calls.  There is no path
enumeration and no solver: both arms of every branch are kept in one term.
"""
import re
from fractions import Fraction
import itertools
import struct
from .terms import *
from . import terms as TM
from .prog import Program, Proc, Module, Ent
from .parse import N, norm_gen


class Undecided(Exception):
    """A construct the analysis does not model."""

    def __init__(self, msg, pos=None):
        Exception.__init__(self, ('%s:%s: ' % tuple(pos) if pos else '') + msg)
        self.pos = pos


class DeadPath(Exception):
    """Every continuation of the current path stops the program."""


I4, I8, R8, R4, L4, STR = ('i', 4), ('i', 8), ('r', 8), ('r', 4), ('b',), ('s',)
CPTR = ('cptr',)
NULLPTR = mk('c', ('null',), 'x')
NULLPTR_ = NULLPTR


class Val:
    __slots__ = ('typ', 'shape', 'leaves')

    def __init__(self, typ, shape, leaves):
        self.typ, self.shape, self.leaves = typ, tuple(shape), leaves

    @property
    def s(self):
        return self.leaves[()]

    @property
    def rank(self):
        return len(self.shape)

    def __repr__(self):
        return 'Val(%s,%s,%s)' % (self.typ, self.shape, self.leaves)


def VS(t, typ=None):
    if typ is None:
        typ = {'i': I4, 'r': R8, 'b': L4, 's': STR, 'x': CPTR, 'p': ('p',)}[t.sort]
    return Val(typ, (), {(): t})


class Ref:
    __slots__ = ('cell', 'path', 'dims', 'typ')

    def __init__(self, cell, path, dims, typ):
        self.cell, self.path, self.dims, self.typ = cell, path, tuple(dims), typ

    def free(self):
        return [d for d in self.dims if d[0] != 'f']

    @property
    def shape(self):
        return tuple(d[3] if d[0] == 'd' else d[2] for d in self.dims if d[0] != 'f')


class Des:
    """Designator: base reference, not yet dereferenced if deferred."""
    __slots__ = ('ref', 'deferred', 'rank', 'lbs', 'kind')

    def __init__(self, ref, deferred=None, rank=0, lbs=None):
        self.ref, self.deferred, self.rank = ref, deferred, rank
        self.lbs = lbs if lbs is not None else [ONE] * rank

    @property
    def typ(self):
        return self.ref.typ


class Bind:
    __slots__ = ('kind', 'des', 'term', 'decl')

    def __init__(self, kind, des=None, term=None, decl=None):
        self.kind, self.des, self.term, self.decl = kind, des, term, decl


class Frame:
    def __init__(self, proc, parent=None, module=None):
        self.proc = proc
        self.vars = {}
        self.parent = parent
        self.module = module if module is not None else (proc.module if proc else None)
        self.names = None
        self.depth = (parent.depth + 1) if parent else 0
        self.copied = {}     # dummies bound to a contiguous copy: name -> (actual, copy)
        self.temps = set()   # dummies bound to the value of an expression


def contiguous(ref):
    """Is the array section a block of consecutive elements, for certain?"""
    k = [d for d in ref.dims]
    seen = False
    for i, d in enumerate(k):
        if d[0] == 'f':
            seen = True
            continue
        if seen or d[0] != 'd' or d[2] is not ONE:
            return False
        if not d[4]:
            seen = True
    return True


def needs_contiguous(d):
    if 'contiguous' in d.attrs:
        return True
    return bool(d.dims) and not any(e.k == 'section' and e.hi is None for _, e in d.dims) and not ('pointer' in d.attrs or 'allocatable' in d.attrs)


class State:
    __slots__ = ('mem',)

    def __init__(self, mem=None):
        self.mem = mem if mem is not None else {}

    def copy(self):
        return State(dict(self.mem))


class Actual:
    __slots__ = ('kw', 'des', 'val', 'term', 'pos', 'full')

    def __init__(self, kw, des=None, val=None, term=None, pos=None):
        self.kw, self.des, self.val, self.term, self.pos = kw, des, val, term, pos


class Event:
    __slots__ = ('name', 'args', 'pc', 'pos', 'result', 'loops', 'stack', 'extra')

    def __init__(self, name, args, pc, pos, result, loops, stack):
        self.name, self.args, self.pc, self.pos, self.result, self.loops, self.stack = name, args, pc, pos, result, loops, stack
        self.extra = None


KINDS = {'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8, 'real32': 4, 'real64': 8, 'real128': 16,
         'c_int': 4, 'c_long': 8, 'c_long_long': 8, 'c_double': 8, 'c_float': 4, 'c_size_t': 8, 'c_bool': 1, 'c_char': 1,
         'c_int32_t': 4, 'c_int64_t': 8, 'c_int16_t': 2, 'c_int8_t': 1,
         'error_unit': 0, 'output_unit': 6, 'input_unit': 5}

INTRINSIC_MODULES = {'iso_fortran_env', 'iso_c_binding', 'ieee_arithmetic', 'ieee_exceptions'}


def merge(g1, s1, s2):
    """State: s1 under g1, otherwise s2."""
    if s1 is s2:
        return s1
    m1, m2 = s1.mem, s2.mem
    if m1 is m2:
        return s1
    out = dict(m2)
    for k, a in m1.items():
        b = m2.get(k)
        if b is None:
            out[k] = a
        elif a is not b:
            out[k] = ite(g1, a, b)
    return State(out)


def lits(c):
    """Conjuncts of c, with negated disjunctions opened up."""
    if c.op == 'and':
        return tuple(y for x in c.args for y in lits(x))
    if c.op == 'not' and c.args[0].op == 'or':
        return tuple(y for x in c.args[0].args for y in lits(not_(x)))
    return (c,)


def sharpen(ls):
    """Disequalities at the end of a known range become strict bounds; None if they contradict it."""
    out = []
    for l in itertools.chain(ls, list(facts())):
        if l.op == 'not' and l.args[0].op == 'eq0':
            q = l.args[0].args[0]
            a, b = prove_ge0(q), prove_ge0(isub(ZERO, q))
            if a and b:
                return None
            if a:
                out.append(ge0(isub(q, ONE)))
            elif b:
                out.append(ge0(isub(isub(ZERO, q), ONE)))
    return tuple(out)


UNROLL = 64


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.ncell = 0
        self.events = []
        self.obls = []       # (pc, cond, pos, what)
        self.aborts = []
        self.pcs = []        # current path condition literals
        self.loops = []      # enclosing symbolic loops
        self.stack = []      # call stack (proc key, pos)
        self.procs = {}
        for m in prog.modules.values():
            for p in m.procs.values():
                self._regproc(p)
        self.externals = {}
        self.opaque = None       # handler(interp, term, actuals, st, pos)
        self.on_call = None
        self.param_cache = {}
        self.visited = set()     # procedures analysed
        self.ncalls = 0
        self.nloops = 0
        self.nfold = 0
        self.typecache = {}
        self.unroll = UNROLL
        self.while_unroll = 0    # rounds of a data-dependent while loop to follow
        self.cuts = []           # path conditions of inputs needing more rounds
        self.nbound = 0          # subscripts proved within bounds
        self.cellinfo = {}
        self.depth = 0
        self.pos = None
        self.finalize = False    # run FINAL procedures of local variables at the end of their scope
        self.dead = None         # storage that no longer exists (a set when lifetimes are tracked)
        self.extents = {}
        self.softstops = []      # stop statements that report success

    def _regproc(self, p):
        self.procs[p.key] = p
        for q in p.procs.values():
            self._regproc(q)

    # ------------------------------------------------------------ facts
    def pc(self):
        out = []
        for c in self.pcs:
            out.append(c)
        return and_(*out) if out else TRUE

    def assume(self, c):
        """Enter a branch; False if its condition contradicts what is known."""
        self.pcs.append(c)
        ls = lits(c)
        push_facts(ls)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        more = sharpen(ls)
        if more is None:
            return False
        if more:
            pop_facts()
            push_facts(ls + more)
        for l in ls + more:
            if l.op == 'ge0' and prove_ge0(isub(ci(-1), l.args[0])):
                return False
        return True

    def unassume(self):
        self.pcs.pop()
        pop_facts()

    def oblige(self, cond, pos, what):
        if cond is TRUE:
            return
        self.obls.append((self.pc(), cond, pos, what))

    # ------------------------------------------------------------ types
    def kindval(self, k, fr, default):
        if k is None:
            return default
        v = self.constexpr(k, fr)
        if v is None or not is_c(v):
            return default
        return int(cval(v))

    def constexpr(self, e, fr):
        try:
            return self.expr(e, State(), fr).s
        except Undecided:
            return None

    def typ_of_ts(self, ts, fr):
        b = ts.base
        if b == 'integer':
            return ('i', self.kindval(ts.kind, fr, 4))
        if b == 'real':
            return ('r', self.kindval(ts.kind, fr, 4))
        if b == 'logical':
            return L4
        if b == 'character':
            return STR
        if b in ('type', 'class'):
            if ts.name in ('c_ptr', 'c_funptr'):
                return CPTR
            return ('t', ts.name)
        if b == 'procedure':
            return ('p',)
        raise Undecided('type %s' % b, ts.pos)

    def leafpaths(self, typ):
        """[(path, sort, extra_rank)] of the scalar leaves of a type."""
        r = self.typecache.get(typ)
        if r is not None:
            return r
        if typ[0] in 'irbsp' and len(typ[0]) == 1:
            r = [((), typ[0], 0)]
        elif typ == CPTR:
            r = [((), 'x', 0)]
        elif typ[0] == 't':
            if typ[1] == '*':
                raise Undecided('unlimited polymorphic value')
            comps = self.prog.components(typ[1])
            if comps is None:
                r = [((), 'x', 0)]      # opaque external type
            else:
                r = []
                for m, d in comps:
                    fr = Frame(None, None, m)
                    n = d.name
                    ct = self.typ_of_ts(d.ts, fr)
                    rank = len(d.dims) if d.dims else 0
                    if d.ts.base == 'procedure':
                        r.append(((n,), 'p', 0))
                    elif 'pointer' in d.attrs:
                        r.append(((n, '#p'), 'x', 0))
                    else:
                        if 'allocatable' in d.attrs:
                            r.append(((n, '#a'), 'b', 0))
                            for i in range(rank):
                                r.append(((n, '#n%d' % (i + 1)), 'i', 0))
                                r.append(((n, '#l%d' % (i + 1)), 'i', 0))
                        for p, s, x in self.leafpaths(ct):
                            r.append(((n,) + p, s, x + rank))
        else:
            raise Undecided('type %r' % (typ,))
        self.typecache[typ] = r
        return r

    def comp(self, tname, n):
        comps = self.prog.components(tname)
        if comps is None:
            return None
        for m, d in comps:
            if d.name == n:
                return m, d
        return None

    # ------------------------------------------------------------ cells
    def newcell(self, st, typ, name, dims=None, deferred=None, rank=0, lbs=None, init=None, cell=None, attrs=()):
        """dims: list of extents for explicit shape."""
        if cell is None:
            self.ncell += 1
            cell = self.ncell
        self.cellinfo[cell] = (name, typ)
        if dims:
            self.extents[cell] = dims[0]
        rank = len(dims) if dims is not None else rank
        if deferred == 'ptr':
            st.mem[(cell, ('#p',))] = NULLPTR if (init is None or init == 'null') else init
            if init is None:
                st.mem[(cell, ('#p',))] = undef(name, 'x')
        else:
            if deferred == 'alloc':
                st.mem[(cell, ('#a',))] = FALSE
                for i in range(rank):
                    st.mem[(cell, ('#n%d' % (i + 1),))] = ZERO
                    st.mem[(cell, ('#l%d' % (i + 1),))] = ONE
            for p, s, x in self.leafpaths(typ):
                R = rank + x
                if R:
                    st.mem[(cell, p)] = undef(name + ''.join('%' + c for c in p), 'A', s, R)
                else:
                    st.mem[(cell, p)] = undef(name + ''.join('%' + c for c in p), s)
            self.default_init(st, cell, (), typ, rank)
        return Des(Ref(cell, (), [('d', ONE, ONE, n, True) for n in dims] if dims else [], typ), deferred, rank, lbs)

    def default_init(self, st, cell, path, typ, rank):
        if typ[0] != 't':
            return
        comps = self.prog.components(typ[1])
        if comps is None:
            return
        for m, d in comps:
            fr = Frame(None, None, m)
            p = path + (d.name,)
            crank = len(d.dims) if d.dims else 0
            t = None
            if d.ts.base == 'procedure':
                if d.pinit is not None:
                    t = self.procinit(d.pinit, fr)
                    key = (cell, p)
            elif 'pointer' in d.attrs:
                key = (cell, p + ('#p',))
                if d.pinit is not None:
                    t = NULLPTR
            elif 'allocatable' in d.attrs:
                t = FALSE
                key = (cell, p + ('#a',))
            elif d.init is not None:
                key = (cell, p)
                v = self.expr(d.init, State(), fr)
                ct = self.typ_of_ts(d.ts, fr)
                if ct[0] == 't':
                    raise Undecided('derived component initialiser', d.pos)
                v = self.convert(v, ct)
                if v.rank:
                    raise Undecided('array component initialiser', d.pos)
                t = v.s
                if crank:
                    t = afill(crank, t)
                    if rank:
                        raise Undecided('array component initialiser', d.pos)
            else:
                ct = self.typ_of_ts(d.ts, fr)
                if ct[0] == 't':
                    self.default_init(st, cell, p, ct, rank + crank)
                continue
            if t is not None:
                st.mem[key] = afill(rank, t) if rank else t

    def procinit(self, e, fr):
        if e.k == 'name':
            p = self.findproc(e.n, fr)
            if p is not None:
                return proc(p.key)
        if e.k == 'call' and e.f.k == 'name' and e.f.n == 'null':
            return NULLPROC
        raise Undecided('procedure pointer initialiser', e.pos)

    def init_state(self):
        st = State()
        for m in self.prog.modules.values():
            for n, d in m.vars.items():
                if 'parameter' in d.attrs or not n:
                    continue
                try:
                    self.static_cell(st, ('m', m.name, n), d, Frame(None, None, m))
                except Undecided:
                    pass
        for p in self.procs.values():
            for n, d in p.decls.items():
                if n and 'parameter' not in d.attrs and ('save' in d.attrs or d.init is not None or d.pinit is not None) and n not in p.args:
                    try:
                        self.static_cell(st, ('s', p.key, n), d, Frame(p))
                    except Undecided:
                        pass
        return st

    def static_cell(self, st, cell, d, fr):
        typ = self.typ_of_ts(d.ts, fr)
        des = self.declare(st, d, typ, fr, cell)
        if d.ts.base == 'procedure':
            st.mem[(cell, ())] = self.procinit(d.pinit, fr) if d.pinit is not None else NULLPROC
        elif d.pinit is not None:
            st.mem[(cell, ('#p',))] = NULLPTR
        elif d.init is not None:
            v = self.expr(d.init, st, fr)
            self.write(st, self.full(des, st), self.convert(v, typ))
        return des

    def declare(self, st, d, typ, fr, cell=None):
        rank = len(d.dims) if d.dims else 0
        deferred = 'alloc' if 'allocatable' in d.attrs else 'ptr' if ('pointer' in d.attrs and d.ts.base != 'procedure') else None
        if deferred:
            return self.newcell(st, typ, d.name, None, deferred, rank, cell=cell)
        if not rank:
            return self.newcell(st, typ, d.name, cell=cell)
        lbs, ns = self.spec_dims(d, st, fr)
        return self.newcell(st, typ, d.name, ns, lbs=lbs, cell=cell)

    def spec_dims(self, d, st, fr):
        lbs, ns = [], []
        for kw, e in d.dims:
            if e.k == 'section':
                lo = self.expr(e.lo, st, fr).s if e.lo is not None else ONE
                if e.hi is None or e.hi.k == 'star':
                    return None, None
                hi = self.expr(e.hi, st, fr).s
            elif e.k == 'star':
                return None, None
            else:
                lo, hi = ONE, self.expr(e, st, fr).s
            n = isub(iadd(hi, ONE), lo)
            if not prove_ge0(n) and not (is_c(n)):
                n = imax(n, ZERO)
            elif is_c(n) and cval(n) < 0:
                n = ZERO
            lbs.append(lo)
            ns.append(n)
        return lbs, ns

    # ------------------------------------------------------------ references
    def full(self, des, st, pos=None):
        """Dereference to a Ref including its array dimensions; returns (Ref, lbs)."""
        if des.deferred is None:
            return des.ref
        if des.deferred == 'alloc':
            dims = list(des.ref.dims)
            for i in range(des.rank):
                n = self.readleaf(st, des.ref, ('#n%d' % (i + 1),))
                dims.append(('d', ONE, ONE, n, True))
            return Ref(des.ref.cell, des.ref.path, dims, des.ref.typ)
        t = self.readleaf(st, des.ref, ('#p',))
        return self.deref(t, pos, des)

    def lbounds(self, des, st):
        if des.deferred == 'alloc':
            return [self.readleaf(st, des.ref, ('#l%d' % (i + 1),)) for i in range(des.rank)]
        if des.deferred == 'ptr':
            t = self.readleaf(st, des.ref, ('#p',))
            if t.op == 'ptr':
                return list(t.args[4])
            return [ONE] * des.rank
        return des.lbs

    def mkptr(self, ref, lbs):
        return mk('ptr', (ref.cell, ref.path, tuple(ref.dims), ref.typ, tuple(lbs)), 'x')

    def deref(self, t, pos=None, des=None):
        if t.op == 'ptr':
            if self.dead and t.args[0] in self.dead:
                self.oblige(FALSE, pos or self.pos, 'pointer to storage that still exists (%s does not)' % self.cellinfo.get(t.args[0], ('?',))[0])
            return Ref(t.args[0], t.args[1], t.args[2], t.args[3])
        if t.op == 'ite':
            # drop arms that are null / undefined
            arms = []

            def go(x):
                if x.op == 'ite':
                    go(x.args[1])
                    go(x.args[2])
                elif x.op == 'ptr':
                    if x not in arms:
                        arms.append(x)
                elif x is NULLPTR or x.op == 'undef':
                    pass
                else:
                    arms.append(x)
            go(t)
            if len(arms) == 1 and arms[0].op == 'ptr':
                return self.deref(arms[0])
        if t is NULLPTR or t.op == 'undef':
            self.oblige(FALSE, pos or self.pos, 'a pointer that is associated')
            raise DeadPath()
        raise Undecided('dereference of an unresolved pointer %s' % show(t), pos)

    def idxs(self, ref, zs):
        out = []
        k = 0
        for d in ref.dims:
            if d[0] == 'f':
                out.append(d[1])
            else:
                z = zs[k]
                k += 1
                if d[0] == 'd':
                    out.append(iadd(d[1], imul(isub(z, ONE), d[2])) if not (d[1] is ONE and d[2] is ONE) else z)
                else:
                    out.append(sel(d[1], z))
        return out

    def readleaf(self, st, ref, sub):
        """Scalar leaf through a reference with no free dimensions."""
        A = st.mem.get((ref.cell, ref.path + sub))
        if A is None:
            raise Undecided('no storage for %s%s' % (self.cellinfo.get(ref.cell), ref.path + sub))
        ix = self.idxs(ref, ())
        return sel(A, *ix) if ix else A

    def read(self, st, ref):
        leaves = {}
        shape = ref.shape
        frees = len(shape)
        for p, s, x in self.leafpaths(ref.typ):
            key = (ref.cell, ref.path + p)
            A = st.mem.get(key)
            if A is None:
                raise Undecided('no storage for %s%s' % (self.cellinfo.get(ref.cell), ref.path + p), self.pos)
            R = len(ref.dims) + x
            if R == 0:
                leaves[p] = A
            elif frees + x == 0:
                leaves[p] = sel(A, *self.idxs(ref, ()))
            elif all(d[0] == 'd' and d[1] is ONE and d[2] is ONE for d in ref.dims):
                leaves[p] = A
            else:
                zs = self.zvars(shape)
                xs = [fresh('x') for _ in range(x)]
                leaves[p] = lam(tuple(zs) + tuple(xs), sel(A, *(self.idxs(ref, zs) + xs)))
        return Val(ref.typ, shape, leaves)

    def zvars(self, shape):
        return [fresh('z', 'i', ONE, n) for n in shape]

    def write(self, st, ref, v):
        shape = ref.shape
        v = self.broadcast(v, shape)
        for p, s, x in self.leafpaths(ref.typ):
            key = (ref.cell, ref.path + p)
            w = v.leaves.get(p)
            if w is None:
                raise Undecided('assignment of %s to %s' % (v.typ, ref.typ), self.pos)
            R = len(ref.dims) + x
            if R == 0:
                st.mem[key] = w
                continue
            A = st.mem.get(key)
            if A is None:
                raise Undecided('no storage for %s' % (ref.path,), self.pos)
            if not shape and x == 0:
                st.mem[key] = store(A, self.idxs(ref, ()), w)
                continue
            if len(shape) + x == R and all(d[0] == 'd' and d[4] for d in ref.dims):
                st.mem[key] = w
                continue
            if x == 0 and len(shape) == 1 and is_c(shape[0]) and cval(shape[0]) <= 16:
                for k in range(1, int(cval(shape[0])) + 1):
                    A = store(A, self.idxs(ref, (ci(k),)), sel(w, ci(k)))
                st.mem[key] = A
                continue
            # general section write
            ys = [fresh('y') for _ in range(R)]
            conds = []
            src = []
            ok = True
            for d, y in zip(ref.dims, ys):
                if d[0] == 'f':
                    conds.append(ieq(y, d[1]))
                elif d[0] == 'd':
                    if d[4]:
                        src.append(y)
                    elif d[2] is ONE:
                        k = isub(y, d[1])
                        conds.append(ge0(k))
                        conds.append(ge0(isub(isub(d[3], ONE), k)))
                        src.append(iadd(k, ONE))
                    else:
                        k = isub(y, d[1])
                        if is_c(d[2]) and cval(d[2]) < 0:
                            stp = ineg(d[2])
                            k = isub(d[1], y)
                        else:
                            stp = d[2]
                        conds.append(ieq(fmod(k, stp), ZERO))
                        q = fdiv(k, stp)
                        conds.append(ge0(q))
                        conds.append(ge0(isub(isub(d[3], ONE), q)))
                        src.append(iadd(q, ONE))
                else:
                    ok = False
            if not ok:
                # vector subscript: sequential stores
                if x or len(shape) != 1:
                    raise Undecided('vector-subscript write', self.pos)
                kf = fresh('k', 'i', ONE, shape[0])
                phi = fresh_asym('phi', R, A.es)
                F = Fold(kf, ONE, shape[0], ONE, None, (phi,), (store(phi, self.idxs(ref, (kf,)), sel(w, kf)),), (A,), self.pos)
                st.mem[key] = foldc(F, 0)
                continue
            st.mem[key] = lam(ys, ite(and_(*conds), sel(w, *(src + ys[len(ref.dims):])), sel(A, *ys)))

    def broadcast(self, v, shape):
        if len(v.shape) == len(shape):
            return v
        if v.shape == ():
            n = len(shape)
            out = {}
            for p, s, x in self.leafpaths(v.typ):
                w = v.leaves[p]
                if x:
                    zs = [fresh('z') for _ in range(n)]
                    xs = [fresh('x') for _ in range(x)]
                    out[p] = lam(zs + xs, sel(w, *xs))
                else:
                    out[p] = afill(n, w)
            return Val(v.typ, shape, out)
        raise Undecided('assignment between different ranks', self.pos)

    def elem(self, v, idx):
        """Element of an array value at 1-based positions."""
        if not v.shape:
            return v
        out = {}
        for p, w in v.leaves.items():
            x = self.extra(v.typ, p)
            if x:
                xs = [fresh('x') for _ in range(x)]
                out[p] = lam(xs, sel(w, *(list(idx) + xs)))
            else:
                out[p] = sel(w, *idx)
        return Val(v.typ, (), out)

    def extra(self, typ, p):
        for q, s, x in self.leafpaths(typ):
            if q == p:
                return x
        return 0

    # ------------------------------------------------------------ names
    def lookup(self, n, fr):
        f = fr
        while f is not None:
            b = f.vars.get(n)
            if b is not None:
                return b
            f = f.parent
        return None

    def ent(self, n, fr):
        """Module-scope meaning of a name, including use statements in procedures."""
        e = Ent()
        f = fr
        while f is not None:
            p = f.proc
            if p is not None:
                if n in p.procs:
                    e.proc = p.procs[n]
                    return e
                for u in p.ast.uses:
                    e.merge(self.prog.via_use(u, n))
                for it in p.ast.interfaces:
                    if it.name == n and not it.abstract:
                        for s in it.specifics:
                            q = self.ent(s, fr) if s != n else None
                            if q and q.proc and q.proc not in e.gens:
                                e.gens.append(q.proc)
            f = f.parent
        if fr.module is not None:
            e.merge(fr.module.lookup(n))
        return e

    def findproc(self, n, fr):
        return self.ent(n, fr).proc

    def variable(self, n, fr, st, pos):
        """Des for a variable name, or None."""
        b = self.lookup(n, fr)
        if b is not None:
            if b.kind == 'absent':
                raise Undecided('reference to an absent optional argument %s' % n, pos)
            return b.des if b.kind == 'var' else None
        e = self.ent(n, fr)
        if e.var:
            m, d = e.var
            if 'parameter' in d.attrs:
                return None
            return self.static_des(('m', m.name, n if n in m.vars else d.name), d, Frame(None, None, m), st)
        return None

    def static_des(self, cell, d, fr, st):
        typ = self.typ_of_ts(d.ts, fr)
        rank = len(d.dims) if d.dims else 0
        deferred = 'alloc' if 'allocatable' in d.attrs else 'ptr' if ('pointer' in d.attrs and d.ts.base != 'procedure') else None
        if deferred or not rank:
            return Des(Ref(cell, (), [], typ), deferred, rank)
        lbs, ns = self.spec_dims(d, st, fr)
        return Des(Ref(cell, (), [('d', ONE, ONE, n, True) for n in ns], typ), None, rank, lbs)

    def parameter(self, n, fr):
        b = None
        f = fr
        while f is not None:
            if f.proc is not None and n in f.proc.decls:
                d = f.proc.decls[n]
                if 'parameter' in d.attrs:
                    return self.param_value(('p', f.proc.key, n), d, f)
            f = f.parent
        e = self.ent(n, fr)
        if e.var:
            m, d = e.var
            if 'parameter' in d.attrs:
                return self.param_value(('pm', m.name, d.name), d, Frame(None, None, m))
        return None

    def param_value(self, key, d, fr):
        v = self.param_cache.get(key)
        if v is None:
            st = State()
            typ = self.typ_of_ts(d.ts, fr)
            v = self.convert(self.expr(d.init, st, fr), typ)
            if d.dims and not v.rank:
                lbs, ns = self.spec_dims(d, st, fr)
                v = self.broadcast(v, ns)
            self.param_cache[key] = v
        return v

    # ------------------------------------------------------------ designators
    def desig(self, e, st, fr):
        """Des if e denotes a variable, else None."""
        if e.k == 'name':
            return self.variable(e.n, fr, st, e.pos)
        if e.k == 'member':
            b = self.desig(e.b, st, fr)
            if b is None:
                return None
            return self.member(b, e.n, st, e.pos)
        if e.k == 'call':
            f = e.f
            if f.k == 'name':
                b = self.variable(f.n, fr, st, e.pos)
            elif f.k == 'member':
                bb = self.desig(f.b, st, fr)
                if bb is None:
                    return None
                b = self.member(bb, f.n, st, e.pos)
            elif f.k == 'call':
                b = self.desig(f, st, fr)
            else:
                return None
            if b is None or b.typ == ('p',):
                return None
            return self.subscript(b, e.args, st, fr, e.pos)
        if e.k == 'paren':
            return None
        return None

    def member(self, b, n, st, pos):
        if b.typ[0] != 't':
            return None
        c = self.comp(b.typ[1], n)
        if c is None:
            mt = self.prog.find_type(b.typ[1])
            # parent component by name
            tn = mt[1].extends if mt else None
            while tn:
                if tn == n:
                    ref = self.full(b, st, pos)
                    return Des(Ref(ref.cell, ref.path, ref.dims, ('t', tn)), None, len(ref.shape))
                mt = self.prog.find_type(tn)
                tn = mt[1].extends if mt else None
            return None
        m, d = c
        ref = self.full(b, st, pos)
        fr = Frame(None, None, m)
        typ = self.typ_of_ts(d.ts, fr)
        rank = len(d.dims) if d.dims else 0
        deferred = 'alloc' if 'allocatable' in d.attrs else 'ptr' if ('pointer' in d.attrs and d.ts.base != 'procedure') else None
        r = Ref(ref.cell, ref.path + (n,), ref.dims, typ)
        if deferred or not rank:
            return Des(r, deferred, rank if deferred else len(ref.shape))
        lbs, ns = self.spec_dims(d, st, fr)
        return Des(Ref(r.cell, r.path, list(r.dims) + [('d', ONE, ONE, k, True) for k in ns], typ), None, rank + len(ref.shape), [ONE] * len(ref.shape) + lbs)

    def subscript(self, b, args, st, fr, pos):
        ref = self.full(b, st, pos)
        lbs = self.lbounds(b, st)
        nfree = len(ref.shape)
        if nfree != len(args):
            if b.typ == STR:
                return b
            if nfree == 0:
                return None
            raise Undecided('subscript count', pos)
        dims = []
        outl = []
        k = 0
        name = self.cellinfo.get(ref.cell, ('?',))[0] + ''.join('%' + p for p in ref.path)
        for d in ref.dims:
            if d[0] == 'f':
                dims.append(d)
                continue
            kw, a = args[k]
            lb = lbs[k] if k < len(lbs) else ONE
            n = d[3] if d[0] == 'd' else d[2]
            k += 1

            def at(i):
                p = isub(iadd(i, ONE), lb) if lb is not ONE else i
                self.bound(p, n, pos, name)
                if d[0] == 'd':
                    return iadd(d[1], imul(isub(p, ONE), d[2])) if not (d[1] is ONE and d[2] is ONE) else p
                return sel(d[1], p)
            if a.k == 'section':
                if a.lo is None and a.hi is None and a.st is None:
                    dims.append(d)
                    outl.append(ONE)
                    continue
                stp = self.expr(a.st, st, fr).s if a.st is not None else ONE
                neg = is_c(stp) and cval(stp) < 0
                last = isub(iadd(n, lb), ONE)
                lo = self.expr(a.lo, st, fr).s if a.lo is not None else (last if neg else lb)
                hi = self.expr(a.hi, st, fr).s if a.hi is not None else (lb if neg else last)
                p = isub(iadd(lo, ONE), lb) if lb is not ONE else lo
                if stp is ONE:
                    m = isub(iadd(hi, ONE), lo)
                elif is_c(stp) and cval(stp) < 0:
                    m = iadd(fdiv(isub(lo, hi), ineg(stp)), ONE)
                else:
                    m = iadd(fdiv(isub(hi, lo), stp), ONE)
                if is_c(m):
                    m = m if cval(m) > 0 else ZERO
                elif not prove_ge0(m):
                    m = imax(m, ZERO)
                if m is not ZERO:
                    self.bound(p, n, pos, name, ge0(isub(m, ONE)))
                    self.bound(iadd(p, imul(isub(m, ONE), stp)), n, pos, name, ge0(isub(m, ONE)))
                if d[0] == 'd':
                    start = iadd(d[1], imul(isub(p, ONE), d[2]))
                    dims.append(('d', start, imul(stp, d[2]), m, False))
                else:
                    z = fresh('z', 'i', ONE, m)
                    dims.append(('v', lam((z,), sel(d[1], iadd(p, imul(isub(z, ONE), stp)))), m))
                outl.append(ONE)
            else:
                v = self.expr(a, st, fr)
                if v.rank == 0:
                    dims.append(('f', at(v.s)))
                else:
                    z = fresh('z', 'i', ONE, v.shape[0])
                    i = sel(v.leaves[()], z)
                    p = isub(iadd(i, ONE), lb) if lb is not ONE else i
                    if d[0] == 'd':
                        x = iadd(d[1], imul(isub(p, ONE), d[2]))
                    else:
                        x = sel(d[1], p)
                    dims.append(('v', lam((z,), x), v.shape[0]))
                    outl.append(ONE)
        return Des(Ref(ref.cell, ref.path, dims, ref.typ), None, len(outl), outl)

    def bound(self, p, n, pos, name, guard=TRUE):
        c = and_(ge0(isub(p, ONE)), ge0(isub(n, p)))
        if c is TRUE:
            self.nbound += 1
            return
        self.obls.append((and_(self.pc(), guard), c, pos, 'subscript of %s within its bounds' % name))

    # ------------------------------------------------------------ conversion
    def convert(self, v, typ):
        if v.typ == typ:
            return v
        a, b = v.typ[0], typ[0]
        if a == 't' or b == 't' or a == 'cptr' or b == 'cptr':
            if a == b == 't' and self.prog.extends(v.typ[1], typ[1]):
                keep = {p for p, s, x in self.leafpaths(typ)}
                return Val(typ, v.shape, {p: w for p, w in v.leaves.items() if p in keep})
            if typ == ('t', '*'):
                return v
            if v.typ == CPTR or typ == CPTR:
                return Val(typ, v.shape, v.leaves)
            raise Undecided('conversion %s to %s' % (v.typ, typ), self.pos)
        if a == b:
            if a == 'r' and typ[1] < v.typ[1]:
                return self.vmap(lambda x: self.f32(x), [v], typ)
            return Val(typ, v.shape, v.leaves)
        if a == 'i' and b == 'r':
            w = self.vmap(toreal, [v], typ)
            return w
        if a == 'r' and b == 'i':
            return self.vmap(lambda x: self.r2int('int', x), [v], typ)
        if a == b == 's':
            return v
        raise Undecided('conversion %s to %s' % (v.typ, typ), self.pos)

    def f32(self, x):
        if is_c(x) and not isinstance(cval(x), str):
            try:
                f = struct.unpack('f', struct.pack('f', float(cval(x))))[0]
                return cr(Fraction(f))
            except OverflowError:
                return cr('inf')
        if x.op == 'fn' and x.args[0] == 'f32':
            return x
        return fn('f32', x)

    def r2int(self, how, x):
        if is_c(x) and not isinstance(cval(x), str):
            v = cval(x)
            import math
            if how == 'int':
                return ci(math.trunc(v))
            if how == 'nint':
                return ci(math.floor(v + Fraction(1, 2)) if v >= 0 else -math.floor(-v + Fraction(1, 2)))
            if how == 'floor':
                return ci(math.floor(v))
            if how == 'ceiling':
                return ci(math.ceil(v))
        if x.op == 'i2f':
            return x.args[0]
        return mk('r2int', (how, x), 'i')

    def vmap(self, f, vals, typ):
        shape = ()
        for v in vals:
            if v.shape:
                shape = v.shape
                break
        if not shape:
            return Val(typ, (), {(): f(*[v.s for v in vals])})
        zs = self.zvars(shape)
        body = f(*[(sel(v.s, *zs) if v.shape else v.s) for v in vals])
        return Val(typ, shape, {(): lam(zs, body)})

    # ------------------------------------------------------------ expressions
    def scalar(self, e, st, fr, sort=None):
        v = self.expr(e, st, fr)
        if v.rank:
            raise Undecided('array where a scalar is needed', e.pos)
        return v.s

    def expr(self, e, st, fr):
        return getattr(self, 'e_' + e.k)(e, st, fr)

    def e_int(self, e, st, fr):
        return VS(ci(e.v), ('i', self.numkind(e.kind, fr, 4)))

    def numkind(self, k, fr, d):
        if k is None:
            return d
        if isinstance(k, str):
            if k.isdigit():
                return int(k)
            t = self.constexpr(N('name', None, n=k), fr)
            return int(cval(t)) if t is not None and is_c(t) else d
        if isinstance(k, int):
            return k
        return d

    def e_real(self, e, st, fr):
        k = 8 if e.kind == 'd' else self.numkind(e.kind, fr, 4)
        v = Fraction(e.v)
        if k == 8:
            try:
                v = Fraction(float(v))
            except OverflowError:
                return VS(cr('inf'), ('r', 8))
            # keep the decimal value: rounding of literals is not part of the properties
            v = Fraction(e.v)
            return VS(cr(v), ('r', 8))
        return VS(self.f32(cr(v)), ('r', 4))

    def e_str(self, e, st, fr):
        return VS(cs(e.v), STR)

    def e_log(self, e, st, fr):
        return VS(cb(e.v), L4)

    def e_paren(self, e, st, fr):
        return self.expr(e.a, st, fr)

    def e_name(self, e, st, fr):
        d = self.variable(e.n, fr, st, e.pos)
        if d is not None:
            self.pos = e.pos
            return self.read(st, self.full(d, st, e.pos))
        b = self.lookup(e.n, fr)
        if b is not None and b.kind == 'proc':
            return VS(b.term, ('p',))
        p = self.parameter(e.n, fr)
        if p is not None:
            return p
        if e.n in KINDS:
            return VS(ci(KINDS[e.n]))
        if e.n in ('c_null_ptr', 'c_null_funptr'):
            return VS(NULLPTR, CPTR)
        q = self.findproc(e.n, fr)
        if q is not None:
            return VS(proc(q.key), ('p',))
        if self.external_scope(fr):
            return VS(sym(e.n, 'i'), I4)
        raise Undecided('unknown name %s' % e.n, e.pos)

    def external_scope(self, fr):
        """Does the scope use a module whose source is not part of the analysis?"""
        us = []
        f = fr
        while f is not None:
            if f.proc is not None:
                us += f.proc.ast.uses
            f = f.parent
        seen = set()
        todo = [u.mod for u in us]
        if fr.module is not None:
            todo += [u.mod for u in fr.module.uses]
        while todo:
            m = todo.pop()
            if m in seen or m in INTRINSIC_MODULES:
                continue
            seen.add(m)
            mm = self.prog.modules.get(m)
            if mm is None:
                return True
            todo += [u.mod for u in mm.uses]
        return False

    def e_member(self, e, st, fr):
        d = self.desig(e, st, fr)
        if d is not None:
            self.pos = e.pos
            return self.read(st, self.full(d, st, e.pos))
        b = self.desig(e.b, st, fr)
        if b is None:
            v = self.expr(e.b, st, fr)
            c = self.comp(v.typ[1], e.n) if v.typ[0] == 't' else None
            if c is None:
                if e.n in ('kind',):
                    return VS(ci(v.typ[1]))
                raise Undecided('component %s' % e.n, e.pos)
            m, d = c
            typ = self.typ_of_ts(d.ts, Frame(None, None, m))
            if d.dims or 'pointer' in d.attrs:
                raise Undecided('array component of an expression', e.pos)
            return Val(typ, v.shape, {p[1:]: w for p, w in v.leaves.items() if p[0] == e.n})
        # type-bound function without parentheses is not Fortran
        raise Undecided('component %s of %s' % (e.n, b.typ), e.pos)

    def e_array(self, e, st, fr):
        parts = []
        for it in e.items:
            if it.k == 'impdo':
                parts += self.impdo(it, st, fr)
            else:
                parts.append(self.expr(it, st, fr))
        if e.ts:
            pass
        if not parts:
            return Val(R8 if not e.ts else I4, (ZERO,), {(): afill(1, ZERO)})
        typ = parts[0].typ
        for p in parts[1:]:
            if p.typ[0] == 'r' and typ[0] == 'i':
                typ = p.typ
            elif p.typ[0] == typ[0] and p.typ[0] in 'ir' and p.typ[1] > typ[1]:
                typ = p.typ
        if e.ts:
            t0 = e.ts[0].v
            if t0 in ('real', 'integer'):
                k = 4
                if len(e.ts) > 2:
                    kk = [t.v for t in e.ts if t.k in ('name', 'num') and t.v not in ('real', 'integer', 'kind')]
                    if kk:
                        k = self.numkind(kk[0], fr, 4)
                typ = ('r' if t0 == 'real' else 'i', k)
        parts = [self.convert(p, typ) for p in parts]
        return self.concat(parts, typ)

    def concat(self, parts, typ):
        total = ZERO
        z = fresh('z')
        segs = []
        for p in parts:
            if p.rank == 0:
                segs.append((total, ONE, p))
                total = iadd(total, ONE)
            else:
                p = self.linear(p)
                segs.append((total, p.shape[0], p))
                total = iadd(total, p.shape[0])
        if not prove_ge0(total):
            pass
        BOUNDS[z] = ([ONE], [total])
        leaves = {}
        for path, s, x in self.leafpaths(typ):
            if x:
                raise Undecided('array constructor of types with array components', self.pos)
            if all(n is ONE and p.rank == 0 for _, n, p in segs) and len(segs) <= 64:
                body = None
                # stores: cheap resolution at constant positions
                arr = afill(1, segs[-1][2].leaves[path])
                for off, n, p in segs[:-1]:
                    if p.leaves[path] is not segs[-1][2].leaves[path]:
                        arr = store(arr, (iadd(off, ONE),), p.leaves[path])
                leaves[path] = arr
                continue
            body = None
            for off, n, p in reversed(segs):
                w = p.leaves[path] if p.rank == 0 else sel(p.leaves[path], isub(z, off))
                if body is None:
                    body = w
                else:
                    body = ite(ge0(isub(iadd(off, n), z)), w, body)
            leaves[path] = lam((z,), body)
        return Val(typ, (total,), leaves)

    def impdo(self, it, st, fr):
        lo = self.scalar(it.lo, st, fr)
        hi = self.scalar(it.hi, st, fr)
        stp = self.scalar(it.st, st, fr) if it.st is not None else ONE
        f2 = Frame(fr.proc, fr, fr.module)
        n = isub(hi, lo)
        if is_c(n) and is_c(stp) and cval(n) / cval(stp) < 64:
            out = []
            k = cval(lo) if is_c(lo) else None
            cnt = int(cval(n) // cval(stp)) + 1
            for j in range(max(cnt, 0)):
                c = self.newcell(st, I4, 'imp')
                st.mem[(c.ref.cell, ())] = iadd(lo, imul(ci(j), stp))
                f2.vars[it.var] = Bind('var', c)
                for x in it.items:
                    if x.k == 'impdo':
                        out += self.impdo(x, st, f2)
                    else:
                        out.append(self.expr(x, st, f2))
            return out
        if len(it.items) != 1 or stp is not ONE or it.items[0].k == 'impdo':
            raise Undecided('implied do', it.pos)
        cnt = iadd(n, ONE)
        z = fresh('z', 'i', ONE, cnt)
        c = self.newcell(st, I4, 'imp')
        st.mem[(c.ref.cell, ())] = isub(iadd(lo, z), ONE)
        f2.vars[it.var] = Bind('var', c)
        before = dict(st.mem)
        v = self.expr(it.items[0], st, f2)
        if v.rank or any(st.mem[k] is not before[k] for k in before):
            raise Undecided('implied do', it.pos)
        if not prove_ge0(cnt):
            cnt = imax(cnt, ZERO)
        return [Val(v.typ, (cnt,), {p: lam((z,), w) for p, w in v.leaves.items()})]

    def linear(self, v):
        """Array-element-order rank-1 view of an array value."""
        if v.rank <= 1:
            return v
        tot = ONE
        for n in v.shape:
            tot = imul(tot, n)
        z = fresh('z', 'i', ONE, tot)
        ix = []
        r = isub(z, ONE)
        for n in v.shape[:-1]:
            ix.append(iadd(fmod(r, n), ONE))
            r = fdiv(r, n)
        ix.append(iadd(r, ONE))
        return Val(v.typ, (tot,), {p: lam((z,), sel(w, *ix)) for p, w in v.leaves.items()})

    # ---- operators
    def e_un(self, e, st, fr):
        a = self.expr(e.a, st, fr)
        if a.typ[0] == 't' or e.op not in ('+', '-', '.not.'):
            return self.user_op(e.op, [(e.a, a)], st, fr, e.pos)
        if e.op == '+':
            return a
        if e.op == '-':
            return self.vmap(ineg if a.typ[0] == 'i' else rneg, [a], a.typ)
        return self.vmap(not_, [a], L4)

    def e_bin(self, e, st, fr):
        op = e.op
        # short operand evaluation order left to right
        da = self.actual(None, e.a, st, fr)
        db = self.actual(None, e.b, st, fr)
        ta, tb = self.atyp(da), self.atyp(db)
        if ta[0] == 't' or tb[0] == 't' or (op.startswith('.') and op not in ('.and.', '.or.', '.eqv.', '.neqv.')):
            return self.call_generic('operator(%s)' % op, [da, db], st, fr, e.pos)
        a, b = self.aval(da, st), self.aval(db, st)
        return self.binop(op, a, b, e.pos)

    def binop(self, op, a, b, pos):
        x, y = a.typ, b.typ
        if op in ('.and.', '.or.', '.eqv.', '.neqv.'):
            f = {'.and.': and_, '.or.': or_, '.eqv.': lambda p, q: or_(and_(p, q), and_(not_(p), not_(q))),
                 '.neqv.': lambda p, q: or_(and_(p, not_(q)), and_(not_(p), q))}[op]
            return self.vmap(f, [a, b], L4)
        if op == '//':
            return Val(STR, (), {(): mk('concat', (a.s, b.s), 's')})
        if x[0] == 's' or y[0] == 's':
            return self.vmap(lambda p, q: cb(p is q) if p.op == q.op == 'str' else mk('streq', (p, q), 'b'), [a, b], L4) if op in ('==',) else self._und('string comparison', pos)
        if x[0] not in 'ir' or y[0] not in 'ir':
            raise Undecided('operands of %s: %s %s' % (op, x, y), pos)
        if op in ('+', '-', '*', '/'):
            if x[0] == y[0] == 'i':
                t = ('i', max(x[1], y[1]))
                f = {'+': iadd, '-': isub, '*': imul, '/': idiv}[op]
                return self.vmap(f, [a, b], t)
            t = self.rtyp(x, y)
            f = {'+': radd, '-': rsub, '*': rmul, '/': rdiv}[op]
            if t[1] == 4:
                g = f
                f = lambda p, q: self.f32(g(p, q))
            return self.vmap(lambda p, q: f(toreal(p), toreal(q)), [a, b], t)
        if op == '**':
            if x[0] == 'i' and y[0] == 'i':
                return self.vmap(self.ipow, [a, b], ('i', max(x[1], y[1])))
            if y[0] == 'i':
                return self.vmap(rpow, [a, b], x)
            t = self.rtyp(x, y)
            return self.vmap(lambda p, q: rpow(toreal(p), toreal(q)), [a, b], t)
        if x[0] == y[0] == 'i':
            f = {'<': ilt, '<=': ile, '>': lambda p, q: ilt(q, p), '>=': lambda p, q: ile(q, p), '==': ieq,
                 '/=': lambda p, q: not_(ieq(p, q))}.get(op)
        else:
            f0 = {'<': lambda p, q: rcmp('<', p, q), '<=': lambda p, q: rcmp('<=', p, q), '>': lambda p, q: rcmp('<', q, p),
                  '>=': lambda p, q: rcmp('<=', q, p), '==': lambda p, q: rcmp('==', p, q),
                  '/=': lambda p, q: not_(rcmp('==', p, q))}.get(op)
            f = (lambda p, q: f0(toreal(p), toreal(q))) if f0 else None
        if f is None:
            raise Undecided('operator %s' % op, pos)
        return self.vmap(f, [a, b], L4)

    def _und(self, m, pos):
        raise Undecided(m, pos)

    def ipow(self, a, b):
        if is_c(b) and 0 <= cval(b) < 16:
            r = ONE
            for _ in range(int(cval(b))):
                r = imul(r, a)
            return r
        return mk('ipow', (a, b), 'i')

    def rtyp(self, x, y):
        ks = [t[1] for t in (x, y) if t[0] == 'r']
        return ('r', max(ks))

    def user_op(self, op, ops, st, fr, pos):
        acts = [self.actual(None, e, st, fr) if self.desig_ok(e, st, fr) else Actual(None, val=v, pos=pos) for e, v in ops]
        return self.call_generic('operator(%s)' % op, acts, st, fr, pos)

    def desig_ok(self, e, st, fr):
        return e.k in ('name', 'member')

    # ---- actual arguments
    def actual(self, kw, e, st, fr):
        if e.k == 'name':
            b = self.lookup(e.n, fr)
            if b is not None:
                if b.kind == 'proc':
                    return Actual(kw, term=b.term, pos=e.pos)
                if b.kind == 'absent':
                    return Actual(kw, term='absent', pos=e.pos)
            d = self.variable(e.n, fr, st, e.pos)
            if d is not None:
                return Actual(kw, des=d, pos=e.pos)
            p = self.parameter(e.n, fr)
            if p is not None:
                return Actual(kw, val=p, pos=e.pos)
            q = self.ent(e.n, fr)
            if q.proc is not None:
                return Actual(kw, term=self.procterm(q.proc, fr), pos=e.pos)
            return Actual(kw, val=self.expr(e, st, fr), pos=e.pos)
        if e.k in ('member', 'call'):
            d = self.desig(e, st, fr)
            if d is not None:
                return Actual(kw, des=d, pos=e.pos)
            if e.k == 'member':
                b = self.desig(e.b, st, fr)
                if b is not None and b.typ[0] == 't':
                    r = self.prog.binding(b.typ[1], e.n)
                    if r and r[0] == 'proc' and r[2].nopass:
                        return Actual(kw, term=proc(r[1].key), pos=e.pos)
        return Actual(kw, val=self.expr(e, st, fr), pos=e.pos)

    def procterm(self, p, fr):
        if p.host is not None:
            # internal procedure: bind to the current host frame
            self.procs[p.key] = p
            self.hostframes = getattr(self, 'hostframes', {})
            f = fr
            while f is not None and f.proc is not p.host:
                f = f.parent
            self.hostframes[p.key] = f
        return proc(p.key)

    def atyp(self, a):
        if a.des is not None:
            return a.des.typ
        if a.val is not None:
            return a.val.typ
        return ('p',)

    def arank(self, a, st=None):
        if a.des is not None:
            return a.des.rank
        if a.val is not None:
            return a.val.rank
        return 0

    def aval(self, a, st):
        if a.val is None:
            if a.des is None:
                return VS(a.term, ('p',))
            self.pos = a.pos
            a_ = self.read(st, self.full(a.des, st, a.pos))
            if a.des.typ == ('p',):
                return a_
            return a_
        return a.val

    # ------------------------------------------------------------ calls
    def e_call(self, e, st, fr):
        d = self.desig(e, st, fr)
        if d is not None:
            self.pos = e.pos
            return self.read(st, self.full(d, st, e.pos))
        r = self.call(e, st, fr)
        if r is None:
            raise Undecided('function result expected', e.pos)
        return r

    def call(self, e, st, fr):
        """Evaluate a procedure reference; returns the result Val or None."""
        f = e.f
        pos = e.pos
        if f.k == 'name':
            n = f.n
            b = self.lookup(n, fr)
            if b is not None and b.kind == 'proc':
                acts = [self.actual(k, a, st, fr) for k, a in e.args]
                return self.call_term(b.term, acts, st, pos)
            if b is not None and b.kind == 'var' and b.des.typ == ('p',):
                t = self.read(st, self.full(b.des, st)).s
                acts = [self.actual(k, a, st, fr) for k, a in e.args]
                return self.call_term(t, acts, st, pos)
            if b is None:
                dv = self.variable(n, fr, st, pos)
                if dv is not None and dv.typ == ('p',):
                    acts = [self.actual(k, a, st, fr) for k, a in e.args]
                    return self.call_term(self.read(st, self.full(dv, st)).s, acts, st, pos)
            # array parameter
            p = self.parameter(n, fr)
            if p is not None and p.rank:
                vs = [self.expr(a, st, fr) for _, a in e.args if a.k != 'section']
                if len(vs) == p.rank and all(v.rank == 0 for v in vs):
                    return self.elem(p, [v.s for v in vs])
                c = self.tempdes(st, p)
                d = self.subscript(c, e.args, st, fr, pos)
                return self.read(st, d.ref)
            h = getattr(self, 'i_' + n, None)
            ent = self.ent(n, fr)
            if not ent:
                if n in LAZY and h:
                    return h(e, st, fr)
            if ent.gens or ent.proc:
                acts = [self.actual(k, a, st, fr) for k, a in e.args]
                return self.call_generic(n, acts, st, fr, pos, ent=ent, ast=e)
            if ent.typ:
                return self.constructor(ent.typ, e, st, fr)
            if n in LAZY and h:
                return h(e, st, fr)
            acts = [self.actual(k, a, st, fr) for k, a in e.args]
            return self.call_builtin(n, acts, st, fr, pos)
        if f.k == 'member':
            b = self.desig(f.b, st, fr)
            if b is None:
                v = self.expr(f.b, st, fr)
                b = self.tempdes(st, v)
            if b.typ[0] == 't' and b.typ[1] != '*':
                c = self.comp(b.typ[1], f.n)
                if c is not None and c[1].ts.base == 'procedure':
                    ref = self.full(b, st, pos)
                    t = self.readleaf(st, ref, (f.n,))
                    acts = [self.actual(k, a, st, fr) for k, a in e.args]
                    if 'nopass' not in c[1].attrs:
                        acts.insert(0, Actual(None, des=Des(ref, None, len(ref.shape)), pos=pos))
                    return self.call_term(t, acts, st, pos)
                r = self.prog.binding(b.typ[1], f.n)
                if r is None:
                    raise Undecided('no binding %s in type %s' % (f.n, b.typ[1]), pos)
                acts = [self.actual(k, a, st, fr) for k, a in e.args]
                if r[0] == 'proc':
                    cands = [(r[1], r[2])]
                elif r[0] == 'generic':
                    cands = r[1]
                else:
                    raise Undecided('deferred binding %s' % f.n, pos)
                for el in (False, True):
                    for p, bb in cands:
                        full = list(acts)
                        if not bb.nopass:
                            k = 0
                            if bb.passarg:
                                k = p.args.index(bb.passarg)
                            full.insert(k, Actual(None, des=b, pos=pos))
                        if self.match(p, full, el):
                            return self.invoke(p, full, st, pos)
                if len(cands) == 1:
                    raise Undecided('arguments do not match %s' % cands[0][0].key, pos)
                raise Undecided('no specific for %s' % f.n, pos)
        raise Undecided('call form', pos)

    def tempdes(self, st, v):
        d = self.newcell(st, v.typ, 'tmp', v.shape if v.shape else None)
        for p, w in v.leaves.items():
            st.mem[(d.ref.cell, p)] = w
        return d

    def call_generic(self, n, acts, st, fr, pos, ent=None, ast=None):
        e = ent if ent is not None else self.ent(n, fr)
        cands = list(e.gens)
        if e.proc is not None and e.proc not in cands:
            cands.append(e.proc)
        for el in (False, True):
            for p in cands:
                if self.match(p, acts, el):
                    return self.invoke(p, acts, st, pos, fr)
        if e.typ and ast is not None:
            return self.constructor(e.typ, ast, st, fr)
        if n.startswith('operator('):
            raise Undecided('no operator %s for %s' % (n, [self.atyp(a) for a in acts]), pos)
        if ast is not None and n in LAZY:
            return getattr(self, 'i_' + n)(ast, st, fr)
        return self.call_builtin(n, acts, st, fr, pos)

    def match(self, p, acts, elem):
        args = p.args
        bound = {}
        for i, a in enumerate(acts):
            if a.kw is not None and a.kw in args:
                bound[a.kw] = a
            elif a.kw is None and i < len(args):
                bound[args[i]] = a
            else:
                return False
        fr = Frame(p)
        for n in args:
            d = p.decls.get(n)
            a = bound.get(n)
            if d is None:
                if a is None:
                    return False
                if a.term is None and self.atyp(a) != ('p',):
                    return False        # procedure dummy
                continue
            if a is None:
                if 'optional' not in d.attrs:
                    return False
                continue
            if a.term == 'absent':
                if 'optional' not in d.attrs:
                    return False
                continue
            if d.ts.base == 'procedure':
                if a.term is None and self.atyp(a) != ('p',):
                    return False
                continue
            if a.term is not None:
                return False
            at = self.atyp(a)
            dt = self.typ_of_ts(d.ts, fr)
            if dt[0] == 't':
                if dt[1] != '*':
                    if at[0] != 't':
                        return False
                    if d.ts.base == 'class':
                        if not self.prog.extends(at[1], dt[1]):
                            return False
                    elif at[1] != dt[1] and not (self.prog.extends(at[1], dt[1]) and False):
                        return False
            elif dt == CPTR:
                if at != CPTR:
                    return False
            elif at[0] != dt[0]:
                return False
            elif at[0] in 'ir' and at[1] != dt[1]:
                return False
            r = len(d.dims) if d.dims else 0
            ar = self.arank(a)
            if r != ar:
                if elem and p.elemental and r == 0:
                    continue
                # explicit-shape / assumed-size: sequence association
                if r and ar and d.dims[0][1].k not in ('section',) and 'allocatable' not in d.attrs and not elem:
                    if not any(x.k == 'section' and x.hi is None for _, x in d.dims):
                        if len([g for g in ()]) == 0 and getattr(self, 'seqassoc', False):
                            continue
                return False
        return True

    def constructor(self, typent, e, st, fr):
        m, t = typent
        comps = self.prog.components(t.name)
        typ = ('t', t.name)
        d = self.newcell(st, typ, t.name)
        k = 0
        for kw, a in e.args:
            if kw is None:
                mc, c = comps[k]
                k += 1
            else:
                mc, c = next((x for x in comps if x[1].name == kw), (None, None))
                if c is None:
                    raise Undecided('constructor component %s' % kw, e.pos)
            cd = self.member(d, c.name, st, e.pos)
            if c.ts.base == 'procedure':
                act = self.actual(None, a, st, fr)
                if act.term is None:
                    act.term = NULLPROC if (a.k == 'call' and a.f.k == 'name' and a.f.n == 'null') else self.aval(act, st).s
                st.mem[(cd.ref.cell, cd.ref.path)] = act.term
            elif 'pointer' in c.attrs:
                self.ptrassign(cd, a, st, fr, e.pos)
            else:
                v = self.expr(a, st, fr)
                self.assign_des(cd, v, st, e.pos)
        return self.read(st, d.ref)

    def call_term(self, t, acts, st, pos):
        """Call through a procedure value."""
        if t.op == 'proc':
            if t.args[0] is None:
                self.oblige(FALSE, pos or self.pos, 'a procedure pointer that is associated')
                raise DeadPath()
            p = self.procs.get(t.args[0])
            if p is None:
                return self.call_opaque(t, acts, st, pos)
            if not self.match(p, acts, False) and not self.match(p, acts, True):
                raise Undecided('arguments do not match %s' % p.key, pos)
            return self.invoke(p, acts, st, pos)
        if t.op == 'ite':
            c, a, b = t.args
            if a.op == 'undef' or a is NULLPROC:
                return self.call_term(b, acts, st, pos)
            if b.op == 'undef' or b is NULLPROC:
                return self.call_term(a, acts, st, pos)
            s1 = st.copy()
            r1 = r2 = None
            dead1 = dead2 = False
            ok1 = self.assume(c)
            try:
                if not ok1:
                    raise DeadPath()
                r1 = self.call_term(a, acts, s1, pos)
            except DeadPath:
                dead1 = True
            finally:
                self.unassume()
            s2 = st.copy()
            ok2 = self.assume(not_(c))
            try:
                if not ok2:
                    raise DeadPath()
                r2 = self.call_term(b, acts, s2, pos)
            except DeadPath:
                dead2 = True
            finally:
                self.unassume()
            if not ok1 and not ok2:
                raise Undecided('contradictory path', pos)
            if dead1 and dead2:
                raise DeadPath()
            if dead1:
                st.mem = s2.mem
                return r2
            if dead2:
                st.mem = s1.mem
                return r1
            st.mem = merge(c, s1, s2).mem
            if r1 is None or r2 is None:
                return None
            return Val(r1.typ, tuple(ite(c, x, y) for x, y in zip(r1.shape, r2.shape)), {p: ite(c, r1.leaves[p], r2.leaves[p]) for p in r1.leaves})
        return self.call_opaque(t, acts, st, pos)

    def call_opaque(self, t, acts, st, pos):
        if self.opaque is not None:
            r = self.opaque(self, t, acts, st, pos)
            if r is not NotImplemented:
                return r
        cands = []
        seen = set()

        def go(x):
            if x in seen:
                return
            seen.add(x)
            if x.op == 'proc':
                if x.args[0] is not None and x not in cands:
                    cands.append(x)
                return
            if x.op in ('foldc', 'foldall'):
                for y in x.args[0].inits:
                    if y.es == 'p' or y.sort == 'p':
                        go(y)
                for y in x.args[0].bodies:
                    if y.es == 'p' or y.sort == 'p':
                        go(y)
                return
            for y in child_terms(x):
                go(y)
        if t.sort == 'p' and t.op in ('sel',):
            go(t.args[0])
            if cands:
                u = cands[-1]
                self.oblige(or_(*[peq(t, p) for p in cands]), pos, 'a node runs a propagation rule it was not given')
                for p in cands[:-1]:
                    u = ite(peq(t, p), p, u)
                return self.call_term(u, acts, st, pos)
        raise Undecided('call through an unresolved procedure value %s' % show(t), pos)

    def invoke(self, p, acts, st, pos, fr=None):
        if p.elemental:
            lifted = any(self.arank(a) > (len(p.decls[n].dims) if p.decls.get(n) is not None and p.decls[n].dims else 0)
                         for n, a in self.pair(p, acts) if a is not None and a.term is None)
            if lifted:
                return self.invoke_elemental(p, acts, st, pos, fr)
        return self.invoke1(p, acts, st, pos, fr)

    def pair(self, p, acts):
        bound = {}
        for i, a in enumerate(acts):
            if a.kw is not None and a.kw in p.args:
                bound[a.kw] = a
            elif i < len(p.args):
                bound[p.args[i]] = a
        return [(n, bound.get(n)) for n in p.args]

    def elem_actual(self, a, st, idx):
        if a.term is not None:
            return a
        if a.des is not None:
            if a.des.rank == 0:
                return a
            ref = self.full(a.des, st, a.pos)
            dims = []
            k = 0
            for d in ref.dims:
                if d[0] == 'f':
                    dims.append(d)
                else:
                    z = idx[k]
                    k += 1
                    if d[0] == 'd':
                        dims.append(('f', iadd(d[1], imul(isub(z, ONE), d[2]))))
                    else:
                        dims.append(('f', sel(d[1], z)))
            return Actual(a.kw, des=Des(Ref(ref.cell, ref.path, dims, ref.typ)), pos=a.pos)
        if a.val.rank == 0:
            return a
        return Actual(a.kw, val=self.elem(a.val, idx), pos=a.pos)

    def invoke_elemental(self, p, acts, st, pos, fr):
        shape = None
        for a in acts:
            if self.arank(a) and a.term is None:
                shape = self.full(a.des, st, a.pos).shape if a.des is not None else a.val.shape
                break
        # try effect-free lifting
        zs = self.zvars(shape)
        s1 = st.copy()
        mark = (len(self.events), len(self.obls), len(self.aborts), len(self.cuts))
        ea = [self.elem_actual(a, s1, zs) for a in acts]
        self.assume(and_(*[and_(ge0(isub(z, ONE)), ge0(isub(n, z))) for z, n in zip(zs, shape)]))
        try:
            r = self.invoke1(p, ea, s1, pos, fr)
        finally:
            self.unassume()
        if all(s1.mem[k] is t for k, t in st.mem.items()) and r is not None and len(self.events) == mark[0]:
            lv = {}
            for path, w in r.leaves.items():
                lv[path] = lam(zs, w)
            return Val(r.typ, shape, lv)
        del self.events[mark[0]:]
        del self.obls[mark[1]:]
        del self.aborts[mark[2]:]
        del self.cuts[mark[3]:]
        # effects: element by element in array element order
        res = self.newcell(st, r.typ, 'elemental', shape) if r is not None else None
        if res is not None and r is not None:
            pass

        def at(s, idx):
            ea = [self.elem_actual(a, s, idx) for a in acts]
            rr = self.invoke1(p, ea, s, pos, fr)
            if res is not None:
                self.write(s, Ref(res.ref.cell, (), [('f', i) for i in idx], res.typ), rr)
        self.nest(st, list(shape), at, pos)
        return self.read(st, res.ref) if res is not None else None

    def nest(self, st, ns, at, pos, idx=()):
        """for idx in ranges (last dimension outermost): at(st, idx), updating st."""
        if not ns:
            return at(st, list(idx))
        n = ns[-1]

        def body(s, v):
            self.nest(s, ns[:-1], at, pos, (v,) + tuple(idx))
            return {'normal': (TRUE, s)}
        out = self.loop(st, ONE, n, ONE, body, pos)
        if 'normal' not in out:
            raise DeadPath()
        st.mem = out['normal'][1].mem

    def invoke1(self, p, acts, st, pos, fr=None):
        """Inline a scalar call."""
        self.depth += 1
        self.ncalls += 1
        if self.depth > 60:
            self.depth -= 1
            raise Undecided('recursion', pos)
        self.visited.add(p.key)
        self.stack.append((p.key, pos))
        try:
            if self.on_call is not None:
                h = self.on_call(self, p, acts, st, pos)
                if h is not NotImplemented:
                    return h
            host = None
            if p.host is not None:
                host = getattr(self, 'hostframes', {}).get(p.key)
                f = fr
                while host is None and f is not None:
                    if f.proc is p.host:
                        host = f
                    f = f.parent
            frame = Frame(p, host)
            frame.depth = self.depth
            late = []
            for n, a in self.pair(p, acts):
                d = p.decls.get(n)
                if a is None or a.term == 'absent':
                    frame.vars[n] = Bind('absent', decl=d)
                    continue
                if d is None or d.ts.base == 'procedure':
                    t = a.term if a.term is not None else self.aval(a, st).s
                    frame.vars[n] = Bind('proc', term=t, decl=d)
                    continue
                frame.vars[n] = Bind('var', self.bind(d, a, st, frame, p), decl=d)
                if d.dims and not ('allocatable' in d.attrs or 'pointer' in d.attrs):
                    late.append((n, d))
            for n, d in late:
                b = frame.vars[n]
                ref = b.des.ref
                if any(e.k == 'section' and e.hi is None for _, e in d.dims):
                    lbs = [self.expr(e.lo, st, frame).s if e.k == 'section' and e.lo is not None else ONE for _, e in d.dims]
                    b.des = Des(ref, None, len(ref.shape), lbs)
                    continue
                lbs, ns = self.spec_dims(d, st, frame)
                if ns is None:
                    continue
                b.des = self.reshape_dummy(ref, lbs, ns, st, pos, d)
            # intent(out) of types with default initialisation
            for n, a in self.pair(p, acts):
                d = p.decls.get(n)
                b = frame.vars.get(n)
                if d is not None and d.intent == 'out' and b is not None and b.kind == 'var':
                    if 'allocatable' in d.attrs:
                        self.setmeta(st, b.des.ref, ('#a',), FALSE)
                    elif b.des.typ[0] == 't' and b.des.deferred is None and not b.des.ref.shape and not b.des.ref.dims:
                        self.default_init(st, b.des.ref.cell, b.des.ref.path, b.des.typ, 0)
            # locals
            for n, d in p.decls.items():
                if n in frame.vars or not n or 'parameter' in d.attrs:
                    continue
                if d.attrs and 'external' in d.attrs:
                    continue
                typ = self.typ_of_ts(d.ts, frame)
                if ('save' in d.attrs or d.init is not None or (d.pinit is not None and not p.isfunc)) and n != p.result:
                    frame.vars[n] = Bind('var', self.static_des(('s', p.key, n), d, frame, st), decl=d)
                    continue
                if d.ts.base == 'procedure':
                    c = self.newcell(st, ('p',), n)
                    st.mem[(c.ref.cell, ())] = NULLPROC
                    frame.vars[n] = Bind('var', c, decl=d)
                    continue
                des = self.declare(st, d, typ, frame)
                if d.pinit is not None:
                    st.mem[(des.ref.cell, ('#p',))] = NULLPTR
                frame.vars[n] = Bind('var', des, decl=d)
            if p.isfunc and p.result not in frame.vars:
                frame.vars[p.result] = Bind('var', self.newcell(st, I4 if p.result[0] in 'ijklmn' else R4, p.result))
            self.curframe = frame
            out = self.block(p.ast.body, State(st.mem), frame)
            fin = None
            for k, (g, s) in out.items():
                if k in ('normal', 'return'):
                    fin = (g, s) if fin is None else (or_(fin[0], g), merge(g, s, fin[1]))
                else:
                    raise Undecided('control leaves the procedure: %s' % (k,), pos)
            if fin is None:
                raise DeadPath()
            st.mem = fin[1].mem
            if self.finalize:
                self.run_finals(frame, st, pos, p)
            if p.isfunc:
                rd = frame.vars[p.result].des
                if rd.deferred == 'ptr' and self.readleaf(st, rd.ref, ('#p',)) is NULLPTR:
                    self.lastptr = None
                    return VS(NULLPTR, CPTR)
                ref = self.full(rd, st)
                v = self.read(st, ref)
                if rd.deferred == 'ptr':
                    self.lastptr = (ref, self.lbounds(rd, st))
            if self.dead is not None:
                self.leave(frame, st, p)
            return v if p.isfunc else None
        finally:
            self.depth -= 1
            self.stack.pop()

    def run_finals(self, frame, st, pos, p):
        """FINAL procedures of the local variables of a scope that ends."""
        for n, b in list(frame.vars.items()):
            d = b.decl
            if b.kind != 'var' or d is None or d.ts.base not in ('type', 'class') or n in p.args or (p.isfunc and n == p.result):
                continue
            if 'pointer' in d.attrs or 'save' in d.attrs or d.init is not None or b.des.typ[0] != 't':
                continue
            self.run_final(b.des, st, pos)

    def run_final(self, des, st, pos):
        mt = self.prog.find_type(des.typ[1])
        if mt is None:
            return
        if not mt[1].finals:
            return
        if des.rank:
            raise Undecided('finalization of an array', pos)
        if len(mt[1].finals) != 1:
            raise Undecided('more than one FINAL procedure', pos)
        q = mt[0].lookup(mt[1].finals[0]).proc
        if q is None:
            raise Undecided('FINAL procedure', pos)
        g = TRUE
        if des.deferred == 'alloc':
            g = self.readleaf(st, des.ref, ('#a',))
        if g is FALSE:
            return
        act = Actual(None, des=Des(des.ref, None, 0))
        if g is TRUE:
            self.invoke(q, [act], st, pos)
            return
        s2 = st.copy()
        if self.assume(g):
            self.invoke(q, [act], s2, pos)
            st.mem = merge(g, s2, st).mem
        self.unassume()

    def leave(self, frame, st, p):
        for n, b in frame.vars.items():
            d = b.decl
            if b.kind != 'var' or d is None:
                continue
            if n in p.args:
                cb_ = frame.copied.get(n)
                if cb_ is not None:
                    src, tmp = cb_
                    if d.intent != 'in':
                        self.write(st, src, self.read(st, tmp))
                    self.dead.add(tmp.cell)
                elif n in frame.temps:
                    self.dead.add(b.des.ref.cell)
                continue
            if 'save' in d.attrs or d.init is not None or isinstance(b.des.ref.cell, tuple) or 'pointer' in d.attrs:
                continue
            if p.isfunc and n == p.result:
                continue
            self.dead.add(b.des.ref.cell)

    def setmeta(self, st, ref, sub, v):
        key = (ref.cell, ref.path + sub)
        if ref.dims:
            st.mem[key] = store(st.mem[key], self.idxs(ref, ()), v)
        else:
            st.mem[key] = v

    def bind(self, d, a, st, frame, p):
        byval = 'value' in d.attrs
        if a.des is not None:
            des = a.des
            if 'allocatable' in d.attrs or 'pointer' in d.attrs:
                if des.deferred is None:
                    raise Undecided('allocatable/pointer dummy with a plain actual', a.pos)
                return des
            ref = self.full(des, st, a.pos)
            if byval:
                return self.tempdes(st, self.read(st, ref))
            if self.dead is not None and ref.shape and not contiguous(ref) and needs_contiguous(d):
                t = self.tempdes(st, self.read(st, ref))
                frame.copied[d.name] = (ref, t.ref)
                return t
            return Des(ref, None, len(ref.shape))
        v = a.val
        frame.temps.add(d.name)
        if 'pointer' in d.attrs and getattr(self, 'lastptr', None) is not None:
            ref, lbs = self.lastptr
            c = self.newcell(st, v.typ, d.name, None, 'ptr', v.rank)
            st.mem[(c.ref.cell, ('#p',))] = self.mkptr(ref, lbs)
            return c
        return self.tempdes(st, v)

    def reshape_dummy(self, ref, lbs, ns, st, pos, d):
        free = [x for x in ref.dims if x[0] != 'f']
        if len(free) == len(ns):
            dims = []
            k = 0
            for x in ref.dims:
                if x[0] == 'f':
                    dims.append(x)
                    continue
                n = ns[k]
                have = x[3] if x[0] == 'd' else x[2]
                k += 1
                if n is have:
                    dims.append(x)
                else:
                    # a dummy may be smaller than its actual, never larger
                    if len(ns) == 1 or k == len(ns):
                        self.oblige(ge0(isub(have, n)), pos, 'actual argument for %s at least as large as the dummy' % d.name)
                    if len(ns) > 1 and k < len(ns):
                        raise Undecided('reshaped array argument %s' % d.name, pos)
                    dims.append(('d', x[1], x[2], n, False) if x[0] == 'd' else ('v', x[1], n))
            return Des(Ref(ref.cell, ref.path, dims, ref.typ), None, len(ns), lbs)
        # rank change: linear copy
        v = self.linear(self.read(st, ref)) if free else None
        if v is None or d.intent != 'in':
            raise Undecided('sequence association for %s' % d.name, pos)
        lv = {}
        zs = self.zvars(ns)
        k = isub(zs[0], ONE)
        mul = ns[0]
        for z, n in zip(zs[1:], ns[1:]):
            k = iadd(k, imul(isub(z, ONE), mul))
            mul = imul(mul, n)
        for pth, w in v.leaves.items():
            lv[pth] = lam(zs, sel(w, iadd(k, ONE)))
        t = self.tempdes(st, Val(v.typ, ns, lv))
        t.lbs = lbs
        return t

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        out = {}
        cur = (TRUE, st)
        depth0 = len(self.pcs)
        try:
            for s in stmts:
                lab = getattr(s, 'label', None)
                if lab and ('goto', lab) in out:
                    g, s2 = out.pop(('goto', lab))
                    cur = (g, s2) if cur is None else (or_(g, cur[0]), merge(g, s2, cur[1]))
                    while len(self.pcs) > depth0:
                        self.unassume()
                if cur is None:
                    continue
                self.pos = s.pos
                try:
                    o = getattr(self, 's_' + s.k)(s, cur[1], fr)
                except DeadPath:
                    cur = None
                    continue
                nxt = None
                for k, (g, s2) in o.items():
                    g2 = and_(cur[0], g)
                    if k == 'normal':
                        nxt = (g2, s2)
                        if g is not TRUE:
                            self.assume(g)
                    else:
                        self.addout(out, k, g2, s2)
                cur = nxt
        finally:
            while len(self.pcs) > depth0:
                self.unassume()
        if cur is not None:
            self.addout(out, 'normal', *cur)
        return out

    def addout(self, out, k, g, s):
        if k in out:
            g0, s0 = out[k]
            out[k] = (or_(g0, g), merge(g, s, s0))
        else:
            out[k] = (g, s)

    def norm(self, st):
        return {'normal': (TRUE, st)}

    def s_continue(self, s, st, fr):
        return self.norm(st)

    def s_io(self, s, st, fr):
        return self.norm(st)

    def s_return(self, s, st, fr):
        return {'return': (TRUE, st)}

    def s_exit(self, s, st, fr):
        return {('exit', s.name): (TRUE, st)}

    def s_cycle(self, s, st, fr):
        return {('cycle', s.name): (TRUE, st)}

    def s_goto(self, s, st, fr):
        return {('goto', s.target): (TRUE, st)}

    def s_stop(self, s, st, fr):
        self.aborts.append((self.pc(), s.pos))
        if not s.error and re.match(r'stop\s*(0+|[\'"].*|,.*)?$', s.text.strip()):
            self.softstops.append(s.pos)
        return {}

    def s_blockc(self, s, st, fr):
        f2 = Frame(fr.proc, fr, fr.module)
        for d in s.decls:
            typ = self.typ_of_ts(d.ts, fr)
            f2.vars[d.name] = Bind('var', self.declare(st, d, typ, f2), decl=d)
        out = self.block(s.body, st, f2)
        return self.catch(out, s.name)

    def catch(self, out, name):
        if name and ('exit', name) in out:
            g, s2 = out.pop(('exit', name))
            self.addout(out, 'normal', g, s2)
        return out

    def s_associate(self, s, st, fr):
        f2 = Frame(fr.proc, fr, fr.module)
        for n, e in s.assoc:
            d = self.desig(e, st, fr) if e.k in ('name', 'member', 'call') else None
            if d is not None:
                ref = self.full(d, st, s.pos)
                d = Des(ref, None, len(ref.shape))
            else:
                d = self.tempdes(st, self.expr(e, st, fr))
            f2.vars[n] = Bind('var', d)
        return self.block(s.body, st, f2)

    def s_if(self, s, st, fr):
        return self.catch(self.arms(s, 0, st, fr), s.name)

    def arms(self, s, k, st, fr):
        if k == len(s.arms):
            if s.els is not None:
                return self.block(s.els, st, fr)
            return {'normal': (TRUE, st)}
        c, body, pos = s.arms[k]
        self.pos = pos
        t = self.scalar(c, st, fr)
        if t is TRUE:
            return self.block(body, st, fr)
        if t is FALSE:
            return self.arms(s, k + 1, st, fr)
        s1 = st.copy()
        oa, ob = {}, {}
        self.assume(t)
        try:
            oa = self.block(body, s1, fr)
        finally:
            self.unassume()
        self.assume(not_(t))
        try:
            ob = self.arms(s, k + 1, st, fr)
        finally:
            self.unassume()
        return self.either(t, oa, ob)

    def either(self, t, oa, ob):
        out = {}
        for k in list(oa) + [k for k in ob if k not in oa]:
            a, b = oa.get(k), ob.get(k)
            if a is None:
                out[k] = (and_(not_(t), b[0]), b[1])
            elif b is None:
                out[k] = (and_(t, a[0]), a[1])
            else:
                out[k] = (ite(t, a[0], b[0]), merge(t, a[1], b[1]))
        return out

    def s_selcase(self, s, st, fr):
        v = self.expr(s.sel, st, fr)
        arms = []
        for vals, body, pos in s.arms:
            cs_ = []
            for e in vals:
                if e.k == 'section':
                    c = []
                    if e.lo is not None:
                        c.append(self.binop('>=', v, self.expr(e.lo, st, fr), pos).s)
                    if e.hi is not None:
                        c.append(self.binop('<=', v, self.expr(e.hi, st, fr), pos).s)
                    cs_.append(and_(*c))
                else:
                    x = self.expr(e, st, fr)
                    if v.typ == L4:
                        cs_.append(v.s if x.s is TRUE else not_(v.s))
                    else:
                        cs_.append(self.binop('==', v, x, pos).s)
            arms.append((N('_term', pos, t=or_(*cs_)), body, pos))
        return self.s_if(N('if', s.pos, arms=arms, els=s.default, name=s.name), st, fr)

    def e__term(self, e, st, fr):
        return VS(e.t)

    def s_seltype(self, s, st, fr):
        d = self.desig(s.sel, st, fr)
        if d is None:
            d = self.tempdes(st, self.expr(s.sel, st, fr))
        else:
            ref = self.full(d, st, s.pos)
            d = Des(ref, None, len(ref.shape))
        f2 = Frame(fr.proc, fr, fr.module)
        nm = s.nm or (s.sel.n if s.sel.k == 'name' else None)
        if nm:
            f2.vars[nm] = Bind('var', d)
        t = d.typ
        base = {'integer': 'i', 'real': 'r', 'logical': 'b', 'character': 's'}
        best = None
        for kind, name, body, pos in s.arms:
            if kind == 'type':
                if (t[0] == 't' and t[1] == name) or (name in base and t[0] == base[name]):
                    return self.catch(self.block(body, st, f2), s.name)
        for kind, name, body, pos in s.arms:
            if kind == 'class' and t[0] == 't' and self.prog.extends(t[1], name):
                return self.catch(self.block(body, st, f2), s.name)
        if s.default is not None:
            return self.catch(self.block(s.default, st, f2), s.name)
        return self.norm(st)

    def s_callstmt(self, s, st, fr):
        self.call(s.call, st, fr)
        return self.norm(st)

    def s_assign(self, s, st, fr):
        # defined assignment
        la = self.desig(s.l, st, fr)
        if la is None:
            raise Undecided('assignment target', s.pos)
        ra = self.actual(None, s.r, st, fr)
        if ra.term is not None:
            raise Undecided('assignment of a procedure', s.pos)
        rt = self.atyp(ra)
        if la.typ[0] == 't' or rt[0] == 't':
            e = self.ent('assignment(=)', fr)
            if la.typ[0] == 't':
                pass
            acts = [Actual(None, des=la, pos=s.pos), ra if ra.des is None else Actual(None, val=self.aval(ra, st), pos=s.pos)]
            for el in (False, True):
                for p in e.gens:
                    if self.match(p, acts, el):
                        self.invoke(p, acts, st, s.pos, fr)
                        return self.norm(st)
        v = self.aval(ra, st)
        self.assign_des(la, v, st, s.pos)
        return self.norm(st)

    def assign_des(self, la, v, st, pos):
        self.pos = pos
        v = self.convert(v, la.typ)
        if la.deferred == 'alloc' and la.rank and v.rank:
            for i, n in enumerate(v.shape):
                al = self.readleaf(st, la.ref, ('#a',))
                old = self.readleaf(st, la.ref, ('#n%d' % (i + 1),))
                if not (al is TRUE and n is old):
                    self.setmeta(st, la.ref, ('#n%d' % (i + 1),), n)
                    lb = self.readleaf(st, la.ref, ('#l%d' % (i + 1),))
                    self.setmeta(st, la.ref, ('#l%d' % (i + 1),), ONE if al is FALSE else (lb if lb is ONE else ite(and_(al, ieq(n, old)), lb, ONE)))
            self.setmeta(st, la.ref, ('#a',), TRUE)
        elif la.deferred == 'alloc' and not la.rank:
            self.setmeta(st, la.ref, ('#a',), TRUE)
        ref = self.full(la, st, pos)
        for a, b in zip(ref.shape, v.shape):
            if a is not b:
                self.oblige(ieq(a, b), pos, 'array assignment with equal extents')
        self.write(st, ref, v)

    def s_ptrassign(self, s, st, fr):
        l = s.l
        d = None
        if l.k == 'call':
            # bounds remapping p(1:n) => x
            d0 = self.desig(l.f, st, fr)
            if d0 is not None and d0.deferred == 'ptr':
                if all(a.k == 'section' and a.hi is None for _, a in l.args):
                    self.ptrassign(d0, s.r, st, fr, s.pos, lbs=[self.scalar(a.lo, st, fr) for _, a in l.args])
                    return self.norm(st)
                raise Undecided('pointer bounds remapping', s.pos)
        d = self.desig(l, st, fr)
        if d is None:
            raise Undecided('pointer assignment target', s.pos)
        if d.typ == ('p',):
            if s.r.k == 'call' and s.r.f.k == 'name' and s.r.f.n == 'null':
                t = NULLPROC
            else:
                a = self.actual(None, s.r, st, fr)
                t = a.term if a.term is not None else self.aval(a, st).s
            ref = d.ref
            key = (ref.cell, ref.path)
            if ref.dims:
                if ref.shape:
                    raise Undecided('procedure pointer array', s.pos)
                st.mem[key] = store(st.mem[key], self.idxs(ref, ()), t)
            else:
                st.mem[key] = t
            return self.norm(st)
        self.ptrassign(d, s.r, st, fr, s.pos)
        return self.norm(st)

    def ptrassign(self, d, r, st, fr, pos, lbs=None):
        if r.k == 'call' and r.f.k == 'name' and r.f.n == 'null':
            t = NULLPTR
        else:
            rd = self.desig(r, st, fr)
            if rd is not None:
                if rd.deferred == 'ptr' and lbs is None:
                    t = self.readleaf(st, rd.ref, ('#p',))
                else:
                    ref = self.full(rd, st, pos)
                    whole = r.k in ('name', 'member')
                    lb = lbs or (self.lbounds(rd, st) if whole else [ONE] * len(ref.shape))
                    t = self.mkptr(ref, lb)
            else:
                self.lastptr = None
                v = self.expr(r, st, fr)
                if v.typ == CPTR or (len(v.leaves) == 1 and () in v.leaves and v.leaves[()].sort == 'x' and v.leaves[()].op == 'ptr'):
                    t = v.s
                elif self.lastptr is not None:
                    ref, lb = self.lastptr
                    t = self.mkptr(ref, lb)
                elif () in v.leaves and v.leaves[()].sort == 'x':
                    t = v.s
                else:
                    raise Undecided('pointer target', pos)
        self.setmeta(st, d.ref, ('#p',), t)

    def s_nullify(self, s, st, fr):
        for kw, e in s.args:
            d = self.desig(e, st, fr)
            if d.typ == ('p',):
                st.mem[(d.ref.cell, d.ref.path)] = NULLPROC
            else:
                self.setmeta(st, d.ref, ('#p',), NULLPTR)
        return self.norm(st)

    def s_allocate(self, s, st, fr):
        src = None
        objs = []
        for kw, e in s.args:
            if kw in ('source', 'mold'):
                src = (kw, self.expr(e, st, fr))
            elif kw in ('stat',):
                d = self.desig(e, st, fr)
                self.write(st, self.full(d, st), VS(ZERO))
            elif kw == 'errmsg':
                pass
            else:
                objs.append(e)
        for e in objs:
            if e.k == 'call':
                d = self.desig(e.f, st, fr)
                lbs, ns = [], []
                for kw, a in e.args:
                    if a.k == 'section':
                        lo, hi = self.scalar(a.lo, st, fr), self.scalar(a.hi, st, fr)
                    else:
                        lo, hi = ONE, self.scalar(a, st, fr)
                    lbs.append(lo)
                    ns.append(isub(iadd(hi, ONE), lo))
            else:
                d = self.desig(e, st, fr)
                lbs, ns = [], []
                if src is not None and d.rank:
                    ns = list(src[1].shape)
                    lbs = [ONE] * len(ns)
            if d is None or d.deferred not in ('alloc', 'ptr'):
                raise Undecided('allocate', s.pos)
            if d.deferred == 'ptr':
                c = self.newcell(st, d.typ, 'heap', ns if ns else None, lbs=lbs)
                if src and src[0] == 'source':
                    self.write(st, c.ref, self.convert(src[1], d.typ))
                self.setmeta(st, d.ref, ('#p',), self.mkptr(c.ref, lbs))
                continue
            self.oblige(not_(self.readleaf(st, d.ref, ('#a',))), s.pos, 'allocate of an unallocated object')
            self.setmeta(st, d.ref, ('#a',), TRUE)
            for i, (lo, n) in enumerate(zip(lbs, ns)):
                self.setmeta(st, d.ref, ('#n%d' % (i + 1),), n)
                self.setmeta(st, d.ref, ('#l%d' % (i + 1),), lo)
            ref = self.full(d, st, s.pos)
            if src is not None and src[0] == 'source':
                self.write(st, ref, self.convert(src[1], d.typ))
            elif not d.ref.dims:
                for p, so, x in self.leafpaths(d.typ):
                    R = d.rank + x
                    st.mem[(d.ref.cell, d.ref.path + p)] = undef('alloc', 'A', so, R) if R else undef('alloc', so)
                self.default_init(st, d.ref.cell, d.ref.path, d.typ, d.rank)
        return self.norm(st)

    def s_deallocate(self, s, st, fr):
        for kw, e in s.args:
            if kw in ('stat', 'errmsg'):
                continue
            d = self.desig(e, st, fr)
            if d.deferred == 'alloc':
                self.oblige(self.readleaf(st, d.ref, ('#a',)), s.pos, 'deallocate of an allocated object')
                self.setmeta(st, d.ref, ('#a',), FALSE)
            elif d.deferred == 'ptr':
                self.setmeta(st, d.ref, ('#p',), NULLPTR)
        return self.norm(st)

    def s_where(self, s, st, fr):
        rem = None
        arms = list(s.arms) + ([(None, s.els)] if s.els else [])
        for c, body in arms:
            if c is not None:
                m = self.expr(c, st, fr)
                mask = m if rem is None else self.binop('.and.', rem, m, s.pos)
                rem2 = self.vmap(not_, [m], L4)
                rem = rem2 if rem is None else self.binop('.and.', rem, rem2, s.pos)
            else:
                mask = rem
            for a in body:
                if a.k != 'assign':
                    raise Undecided('where body', s.pos)
                d = self.desig(a.l, st, fr)
                if d.typ[0] == 't':
                    raise Undecided('where on derived types', s.pos)
                v = self.convert(self.expr(a.r, st, fr), d.typ)
                ref = self.full(d, st, a.pos)
                old = self.read(st, ref)
                self.write(st, ref, self.vmap(ite, [mask, self.broadcast(v, old.shape), old], d.typ))
        return self.norm(st)

    # ------------------------------------------------------------ loops
    def s_do(self, s, st, fr):
        d = self.desig(s.var, st, fr)
        if d is None:
            raise Undecided('loop variable', s.pos)
        lo, hi = self.scalar(s.lo, st, fr), self.scalar(s.hi, st, fr)
        stp = self.scalar(s.st, st, fr) if s.st is not None else ONE

        def body(s1, v):
            self.write(s1, self.full(d, s1), Val(d.typ, (), {(): v}))
            return self.block(s.body, s1, fr)

        def final(s1):
            # value after the loop
            if is_c(stp) and abs(cval(stp)) == 1:
                n = isub(iadd(hi, stp), lo) if cval(stp) > 0 else isub(lo, iadd(hi, stp))
                last = iadd(hi, stp)
                self.write(s1, self.full(d, s1), Val(d.typ, (), {(): last if prove_ge0(n) else ite(ge0(n), last, lo)}))
            else:
                n = iadd(fdiv(isub(hi, lo), stp), ONE) if not (is_c(stp) and cval(stp) < 0) else iadd(fdiv(isub(lo, hi), ineg(stp)), ONE)
                n = imax(n, ZERO)
                self.write(s1, self.full(d, s1), Val(d.typ, (), {(): iadd(lo, imul(n, stp))}))
        return self.loop(st, lo, hi, stp, body, s.pos, s.name, final)

    def s_doconcurrent(self, s, st, fr):
        f2 = Frame(fr.proc, fr, fr.module)
        cells = []
        for nm, lo, hi, stp in s.idx:
            c = self.newcell(st, I4, nm)
            f2.vars[nm] = Bind('var', c)
            cells.append((c, self.scalar(lo, st, fr), self.scalar(hi, st, fr), self.scalar(stp, st, fr) if stp is not None else ONE))

        def rec(s1, k):
            if k == len(cells):
                if s.mask is not None:
                    return self.s_if(N('if', s.pos, arms=[(s.mask, s.body, s.pos)], els=None, name=None), s1, f2)
                return self.block(s.body, s1, f2)
            c, lo, hi, stp = cells[k]

            def body(s2, v):
                s2.mem[(c.ref.cell, ())] = v
                return rec(s2, k + 1)
            return self.loop(s1, lo, hi, stp, body, s.pos)
        return rec(st, 0)

    def s_dowhile(self, s, st, fr):
        if self.countvars(s.cond, s.body):
            o = self.counted(st, lambda s1: self.scalar(s.cond, s1, fr), lambda s1: self.block(s.body, s1, fr), s.pos, s.name)
            if o is not None:
                return o
        return self.wloop(st, lambda s1: self.scalar(s.cond, s1, fr), lambda s1: self.block(s.body, s1, fr), s.pos, s.name)

    def countvars(self, cond, body):
        """Does a statement of the body change a variable of the condition by one?"""
        names = set()

        def go(x):
            if isinstance(x, N):
                if x.k == 'name':
                    names.add(x.n)
                for y in x.__dict__.values():
                    go(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    go(y)
        go(cond)
        for b in body:
            if b.k == 'assign' and b.r.k == 'bin' and b.r.op in ('+', '-') and b.l.k in ('ref', 'name', 'desig'):
                ln = repr(b.l)
                if ln in (repr(b.r.a), repr(b.r.b)):
                    m = set(names)
                    names.clear()
                    go(b.l)
                    l = set(names)
                    names |= m
                    if l & m:
                        return True
            if b.k == 'call' and 'incr' in repr(b):
                return True
        return False

    def counted(self, st, cond, body, pos, name):
        """A loop whose condition counts rounds: c at entry is p >= 0 and in round k it is p-(k-1) >= 0.
        Then it is the counted loop with p+1 rounds; None if that does not hold."""
        c = cond(st)
        if c.op != 'ge0':
            return None
        p = c.args[0]
        if is_c(p):
            return None
        mark = (len(self.events), len(self.obls), len(self.aborts), len(self.cuts))
        seen = {}

        def bd(s1, v):
            seen[v] = cond(s1)
            return body(s1)
        try:
            o = self.symloop(st.copy(), ONE, iadd(p, ONE), ONE, None, bd, pos, name)
            ok = bool(seen) and all(x is ge0(isub(iadd(p, ONE), v)) for v, x in seen.items())
        except (DeadPath, Undecided):
            ok = False
        if not ok:
            for lst, n in zip((self.events, self.obls, self.aborts, self.cuts), mark):
                del lst[n:]
            return None
        return o

    def s_doinf(self, s, st, fr):
        f = s.body[0] if s.body else None
        if f is not None and f.k == 'if' and len(f.arms) == 1 and not f.els and f.name is None:
            c, b, _ = f.arms[0]
            if len(b) == 1 and b[0].k == 'exit' and b[0].name in (None, s.name):
                return self.wloop(st, lambda s1: not_(self.scalar(c, s1, fr)), lambda s1: self.block(s.body[1:], s1, fr), s.pos, s.name)
        return self.wloop(st, lambda s1: TRUE, lambda s1: self.block(s.body, s1, fr), s.pos, s.name)

    def split_loop(self, out, name):
        """normal+cycle merged -> next, exits, others"""
        nxt = ex = None
        rest = {}
        for k, (g, s) in out.items():
            if k == 'normal' or (isinstance(k, tuple) and k[0] == 'cycle' and (k[1] is None or k[1] == name)):
                nxt = (g, s) if nxt is None else (or_(nxt[0], g), merge(g, s, nxt[1]))
            elif isinstance(k, tuple) and k[0] == 'exit' and (k[1] is None or k[1] == name):
                ex = (g, s) if ex is None else (or_(ex[0], g), merge(g, s, ex[1]))
            else:
                rest[k] = (g, s)
        return nxt, ex, rest

    def wloop(self, st, cond, body, pos, name=None):
        out = {}
        g = TRUE
        cur = st
        for it in range(self.unroll + 1):
            c = cond(cur)
            if c is FALSE:
                self.addout(out, 'normal', g, cur)
                return out
            if c is TRUE:
                o = body(cur.copy())
                nxt, ex, rest = self.split_loop(o, name)
                for k, (g2, s2) in rest.items():
                    self.addout(out, k, and_(g, g2), s2)
                if ex:
                    self.addout(out, 'normal', and_(g, ex[0]), ex[1])
                if nxt is None:
                    return out
                g = and_(g, nxt[0])
                cur = nxt[1]
                continue
            break
        else:
            raise Undecided('unbounded loop', pos)
        if self.while_unroll:
            return self.wrounds(cur, g, cond, body, out, pos, name)
        o = self.symloop(cur, None, None, None, cond, lambda s1, v: body(s1), pos, name)
        for k, (g2, s2) in o.items():
            self.addout(out, k, and_(g, g2), s2)
        return out

    def wrounds(self, cur, g, cond, body, out, pos, name):
        """At most while_unroll rounds; inputs needing more are recorded in self.cuts."""
        npush = 0
        try:
            for it in range(self.while_unroll + 1):
                c = cond(cur)
                if c is FALSE:
                    self.addout(out, 'normal', g, cur)
                    return out
                if c is not TRUE:
                    self.addout(out, 'normal', and_(g, not_(c)), cur)
                    g = and_(g, c)
                    self.assume(c)
                    npush += 1
                if it == self.while_unroll:
                    self.cuts.append(self.pc())
                    return out
                try:
                    o = body(cur.copy())
                except DeadPath:
                    return out
                nxt, ex, rest = self.split_loop(o, name)
                for k, (g2, s2) in rest.items():
                    self.addout(out, k, and_(g, g2), s2)
                if ex:
                    self.addout(out, 'normal', and_(g, ex[0]), ex[1])
                if nxt is None:
                    return out
                g = and_(g, nxt[0])
                if nxt[0] is not TRUE:
                    self.assume(nxt[0])
                    npush += 1
                cur = nxt[1]
        finally:
            for _ in range(npush):
                self.unassume()

    def split_guard(self, *ts):
        """A guard on which the given integer terms depend by case distinction."""
        for t in ts:
            for m, _ in poly_dict(t).items():
                for a in m:
                    if a.op == 'ite':
                        g = a.args[0]
                        while g.op in ('and', 'or', 'not') or g.op == 'ite':
                            g = g.args[0]
                        return g
                    if a.op in ('imax', 'imin'):
                        g = self.split_guard(*a.args)
                        if g is not None:
                            return g
        return None

    def under(self, st, g, val):
        """The state with the guard g known to be val."""
        m = {g: cb(val)}
        out = State(dict(st.mem))
        for k, t in st.mem.items():
            t2 = subst(t, m)
            if t2 is not t:
                out.mem[k] = t2
        return out, m

    def loop(self, st, lo, hi, stp, body, pos, name=None, final=None, depth=0):
        g = self.split_guard(lo, hi) if depth < 8 else None
        if g is not None:
            out = {}
            for val in (True, False):
                s2, m = self.under(st, g, val)
                c = g if val else not_(g)
                self.assume(c)
                try:
                    f2 = None
                    if final:
                        def f2(s, m=m):
                            final(s)
                    o = self.loop(s2, subst(lo, m), subst(hi, m), stp, body, pos, name, f2, depth + 1)
                except DeadPath:
                    continue
                finally:
                    self.unassume()
                for k, (g2, s3) in o.items():
                    self.addout(out, k, and_(c, g2), s3)
            if not out:
                raise DeadPath()
            return out
        self.nloops += 1
        if not is_c(stp) or cval(stp) == 0:
            raise Undecided('loop with a variable step', pos)
        sgn = 1 if cval(stp) > 0 else -1
        d = isub(hi, lo)
        out = {}
        n = imul(ci(sgn), d)       # >= 0 iff at least one trip
        if is_c(n) and cval(n) / abs(cval(stp)) < self.unroll or prove_ge0(isub(ci(-1), n)):
            g = TRUE
            cur = st
            npush = 0
            try:
                if is_c(n):
                    k = 0
                    while k * abs(cval(stp)) <= cval(n):
                        o = body(cur, iadd(lo, imul(ci(k), stp)))
                        nxt, ex, rest = self.split_loop(o, name)
                        for kk, (g2, s2) in rest.items():
                            self.addout(out, kk, and_(g, g2), s2)
                        if ex:
                            self.addout(out, 'normal', and_(g, ex[0]), ex[1])
                        if nxt is None:
                            return out
                        g = and_(g, nxt[0])
                        if nxt[0] is not TRUE:
                            self.assume(nxt[0])
                            npush += 1
                        cur = nxt[1]
                        k += 1
            finally:
                for _ in range(npush):
                    self.unassume()
            if final:
                final(cur)
            self.addout(out, 'normal', g, cur)
            return out
        return self.symloop(st, lo, hi, stp, None, body, pos, name, final)

    def symloop(self, st, lo, hi, stp, cond, body, pos, name=None, final=None):
        base = st.copy()
        self.ncell += 1
        lid = self.ncell
        sgn = 0
        if lo is not None:
            sgn = 1 if cval(stp) > 0 else -1
            v = fresh('k', 'i', lo if sgn > 0 else hi, hi if sgn > 0 else lo)
            unit = abs(cval(stp)) == 1
            if sgn > 0:
                ordn = isub(v, lo) if unit else mk('idiv', (isub(v, lo), stp), 'i')
                trips = isub(iadd(hi, ONE), lo) if unit else iadd(fdiv(isub(hi, lo), stp), ONE)
                last = hi if unit else iadd(lo, imul(isub(trips, ONE), stp))
            else:
                ordn = isub(lo, v) if unit else mk('idiv', (isub(lo, v), ineg(stp)), 'i')
                trips = isub(iadd(lo, ONE), hi) if unit else iadd(fdiv(isub(lo, hi), ineg(stp)), ONE)
                last = hi if unit else iadd(lo, imul(isub(trips, ONE), stp))
            inrange = and_(ge0(isub(v, lo)), ge0(isub(hi, v))) if sgn > 0 else and_(ge0(isub(lo, v)), ge0(isub(v, hi)))
            entered = ge0(isub(trips, ONE))
            trips0 = trips if prove_ge0(trips) else imax(trips, ZERO)
        else:
            v = None
            unit = False
            inrange = TRUE
        M = {}           # key -> phi
        closed = {}      # key -> (entry term in v, per-iteration delta)
        bad = set()      # keys whose closed form failed
        frames = {}      # key -> L
        mark = (len(self.events), len(self.obls), len(self.aborts), len(self.cuts))
        flags = {}
        first = True
        for rnd in range(40):
            del self.events[mark[0]:]
            del self.obls[mark[1]:]
            del self.aborts[mark[2]:]
            del self.cuts[mark[3]:]
            s = base.copy()
            for k, phi in M.items():
                s.mem[k] = phi
            for k, (ent, dl) in closed.items():
                s.mem[k] = ent
            for k, phi in flags.items():
                s.mem[k] = phi
            anyflag = or_(*flags.values()) if flags else FALSE
            c = TRUE
            self.assume(and_(inrange, not_(anyflag)))
            self.loops.append((lid, v, lo, hi, pos))
            try:
                if cond is not None:
                    c = cond(s)
                    self.assume(c)
                    try:
                        o = body(s.copy(), v)
                    finally:
                        self.unassume()
                else:
                    o = body(s.copy(), v)
            finally:
                self.loops.pop()
                self.unassume()
            nxt, ex, rest = self.split_loop(o, name)
            kinds = []
            allouts = []
            if ex:
                rest = dict(rest)
                rest['#exit'] = ex
            if nxt:
                allouts.append((None, nxt))
            for k, gs in rest.items():
                allouts.append((k, gs))
            if not allouts:
                # every iteration stops the program
                raise_dead = True
                if lo is not None:
                    # only the zero-trip case continues
                    self.aborts.append((and_(self.pc(), entered), pos))
                    if entered is TRUE:
                        raise DeadPath()
                    if final:
                        final(base)
                    return {'normal': (not_(entered), base)}
                raise DeadPath()
            newflags = False
            for k, gs in allouts:
                if k is not None:
                    fk = (('#flag', lid), (k,))
                    if fk not in flags:
                        flags[fk] = fresh('flag', 'b')
                        base.mem[fk] = FALSE
                        newflags = True
            if newflags:
                continue
            # set flags in every outcome and merge
            mg = None
            for k, (g, s2) in allouts:
                s2 = s2.copy()
                for fk in flags:
                    s2.mem[fk] = cb(fk[1][0] == k)
                mg = (g, s2) if mg is None else (or_(mg[0], g), merge(g, s2, mg[1]))
            N_ = mg[1]
            if anyflag is not FALSE:
                N_ = merge(anyflag, s, N_)
            changed = False
            for k, t0 in base.mem.items():
                t1 = N_.mem[k]
                if k in flags:
                    continue
                if k in closed:
                    ent, dl = closed[k]
                    want = iadd(ent, dl)
                    if t1 is not want:
                        del closed[k]
                        bad.add(k)
                        M[k] = self.mkphi(t0, k)
                        changed = True
                        first = True
                elif k in M:
                    pass
                elif t1 is not s.mem[k]:
                    changed = True
                    # integer induction hypothesis
                    if lo is not None and t0.sort == 'i' and k not in bad and t1.sort == 'i' and not flags:
                        dlt = isub(t1, t0)
                        if v not in fv(dlt) and not any(TM.fv(dlt) & {p} for p in M.values()) and not any(x in fv(dlt) for x in self.folded_syms(dlt)):
                            ent = iadd(t0, imul(dlt, ordn))
                            closed[k] = (ent, dlt)
                            continue
                        # cyclic through an index: remember only last value
                    M[k] = self.mkphi(t0, k)
            if changed:
                # stale knowledge about frames
                for k in list(frames):
                    FRAMES.pop(M[k], None)
                frames = {}
                continue
            # frame inference for rank-1 arrays
            if not getattr(self, 'noframes', False):
                added = False
                for k, phi in M.items():
                    if phi.sort == 'A' and phi.rank == 1 and k not in frames:
                        L = self.frame_low(N_.mem[k], phi, base.mem[k], v)
                        if L is not None:
                            frames[k] = L
                            FRAMES[phi] = [(base.mem[k], L)]
                            added = True
                if added:
                    continue
                # re-verify frames
                lost = False
                for k, L in list(frames.items()):
                    L2 = self.frame_low(N_.mem[k], M[k], base.mem[k], v, L)
                    if L2 is None:
                        frames[k] = None
                        FRAMES.pop(M[k], None)
                        lost = True
                if lost:
                    continue
            break
        else:
            raise Undecided('loop analysis did not stabilise', pos)
        self.nfold += 1
        keys = list(M) + list(flags)
        phis = [M[k] for k in M] + [flags[k] for k in flags]
        bodies = [N_.mem[k] for k in keys]
        inits = [base.mem[k] for k in keys]
        # drop cells unreachable from kept ones is left to free-variable analysis
        F = Fold(v, lo, hi, stp, c if cond is not None else None, tuple(phis), tuple(bodies), tuple(inits), pos)
        for i, k in enumerate(keys):
            if frames.get(k) is not None:
                F.frames[i] = frames[k]
        res = base.copy()
        phiset = frozenset(phis)
        if lo is not None and not flags:
            entered_t = entered
        for i, k in enumerate(keys):
            t = None
            if lo is not None and not flags:
                t = self.solve(F, i, v, lo, hi, stp, trips0, last, entered, phiset, unit)
            res.mem[k] = t if t is not None else foldc(F, i)
        for k, (ent, dl) in closed.items():
            res.mem[k] = iadd(base.mem[k], imul(dl, trips0))
        # obligations and events inside
        obl = self.obls[mark[1]:]
        del self.obls[mark[1]:]
        for pc, cnd, p, what in obl:
            need = or_(not_(pc), cnd)
            if need is TRUE:
                continue
            fvs = fv(need)
            if (v is not None and v in fvs) or (fvs & phiset):
                F.obl.append((TRUE, need))
                self.obls.append((TRUE, foldall(F, need), p, what))
            else:
                self.obls.append((pc, cnd, p, what))

        def some(pc):
            fvs = fv(pc)
            if (v is not None and v in fvs) or (fvs & phiset):
                return not_(foldall(F, not_(pc)))
            return pc
        for lst, i in ((self.aborts, 2), (self.cuts, 3)):
            lst[mark[i]:] = [(some(x[0]), x[1]) if i == 2 else some(x) for x in lst[mark[i]:]]
        out = {}
        if not flags:
            if final:
                final(res)
            out['normal'] = (TRUE, res)
            return out
        fl = {fk[1][0]: res.mem[fk] for fk in flags}
        anyf = or_(*fl.values())
        for fk in flags:
            del res.mem[fk]
        nres = res
        if final:
            nres = res.copy()
            final(nres)
        self.addout(out, 'normal', not_(anyf), nres)
        for k, t in fl.items():
            self.addout(out, 'normal' if k == '#exit' else k, t, res.copy())
        return out

    def folded_syms(self, t):
        return ()

    def mkphi(self, t0, k):
        nm = 'phi'
        if t0.sort == 'A':
            return fresh_asym(nm, t0.rank, t0.es)
        p = fresh(nm, t0.sort)
        return p

    def frame_low(self, body, phi, init, v, given=None):
        """A loop-invariant L such that every write of body to phi is at an index >= L, or None."""
        lows = []
        seen = set()

        def go(t):
            if t is phi or t in seen:
                return True
            seen.add(t)
            if t.op == 'store':
                lows.append(t.args[1][0])
                return go(t.args[0])
            if t.op == 'ite':
                return go(t.args[1]) and go(t.args[2])
            if t.op == 'lam':
                z, b = t.args[0][0], t.args[1]
                return goz(b, z, ())
            if t.op == 'foldc':
                F, k = t.args
                if not go(F.inits[k]):
                    return False
                L = F.frames.get(k)
                if L is None:
                    return False
                lows.append(L)
                return True
            return False

        def goz(b, z, conds):
            # b(z): identity, or guarded by a lower bound on z
            if b.op == 'sel' and len(b.args) == 2 and b.args[1] is z:
                return go(b.args[0])
            if b.op == 'ite':
                return goz(b.args[1], z, conds + tuple(lits(b.args[0]))) and goz(b.args[2], z, conds + tuple(lits(not_(b.args[0])) if b.args[0].op != 'and' else ()))
            for c in conds:
                if c.op == 'ge0':
                    d = poly_dict(c.args[0])
                    if d.get((z,)) == 1:
                        d.pop((z,))
                        if not any(z in m for m in d):
                            lows.append(ineg(poly_mk(d)))
                            return True
                if c.op == 'eq0':
                    d = poly_dict(c.args[0])
                    k = d.get((z,))
                    if k in (1, -1):
                        d.pop((z,))
                        if not any(z in m for m in d):
                            lows.append(poly_mk({m: -x * k for m, x in d.items()}))
                            return True
            return False
        if not go(body):
            return None
        if not lows:
            return None
        cands = [given] if given is not None else []
        if given is None:
            for l in lows:
                # minimise over the loop variable
                bs = [l]
                if v is not None and v in fv(l):
                    bs = []
                    lo_, hi_ = BOUNDS[v]
                    for b in list(lo_) + list(hi_):
                        bs.append(subst(l, {v: b}))
                for b in bs:
                    if v is None or v not in fv(b):
                        cands.append(b)
            cands = cands[:6]
        for L in cands:
            if (v is not None and v in fv(L)) or phi in fv(L) or any(t.op in ('s', 'asym') and t.args[0].startswith('phi#') for t in fv(L)):
                continue
            if all(prove_ge0(isub(l, L)) for l in lows):
                return L
        return None

    def solve(self, F, i, v, lo, hi, stp, trips, last, entered, phiset, unit):
        """Closed form of component i after the loop, or None."""
        phi, b, init = F.phis[i], F.bodies[i], F.inits[i]
        f = fv(b)
        if not (f & phiset):
            t = subst(b, {v: last}) if v in f else b
            return ite(entered, t, init)
        others = (f & phiset) - {phi}
        if others:
            return None
        if b.sort == 'r':
            # accumulation phi + t(v)
            t = self.accum(b, phi)
            if t is not None and phi not in fv(t) and is_c(stp) and cval(stp) == 1:
                return radd(init, red('sum', v, lo, hi, t))
            return None
        if b.sort == 'i':
            d = isub(b, phi)
            if phi not in fv(d):
                if v in fv(d) and unit:
                    return iadd(init, red('sum', v, lo if cval(stp) > 0 else hi, hi if cval(stp) > 0 else lo, d))
            return None
        if b.sort == 'A' and unit:
            if b.rank == 1:
                return self.solve_array(F, i, v, lo, hi, stp, init, phi, b)
            return self.solve_arrayn(F, i, v, lo, hi, stp, init, phi, b)
        return None

    def accum(self, b, phi):
        if b.op == 'add':
            if b.args[0] is phi:
                return b.args[1]
            if b.args[1] is phi:
                return b.args[0]
            for k in (0, 1):
                if phi in fv(b.args[k]) and phi not in fv(b.args[1 - k]):
                    t = self.accum(b.args[k], phi)
                    if t is not None:
                        return radd(t, b.args[1 - k])
        if b.op == 'sub' and phi in fv(b.args[0]) and phi not in fv(b.args[1]):
            t = self.accum(b.args[0], phi)
            if t is not None:
                return rsub(t, b.args[1])
            if b.args[0] is phi:
                return rneg(b.args[1])
        return None

    def pointwise(self, b, zs):
        return sel(b, *zs)

    def rows(self, t, phi, zs, conds, out):
        """Decompose b(z) into guarded rows; False if phi is read elsewhere."""
        if t.op == 'ite':
            c = t.args[0]
            if phi in fv(c):
                return False
            if not self.rows(t.args[1], phi, zs, conds + [c], out):
                return False
            return self.rows(t.args[2], phi, zs, conds, out)
        if t.op == 'sel' and t.args[0] is phi and t.args[1:] == tuple(zs):
            return True
        if phi in fv(t):
            return False
        out.append((list(conds), t))
        return True

    def solve_array(self, F, i, v, lo, hi, stp, init, phi, b):
        z = fresh('z')
        bz = sel(b, z)
        rows = []
        if not self.rows(bz, phi, [z], [], rows):
            return None
        vs = None
        for conds, t in rows:
            w = self.solve_v(conds, v, z)
            if w is None:
                return None
            if vs is None:
                vs = w
            elif vs is not w:
                return None
        if vs is None:
            return init
        return self.closed_array(bz, phi, [z], vs, v, lo, hi, stp, init)

    def closed_array(self, bz, phi, zs, vs, v, lo, hi, stp, init):
        n_lo, n_hi = (lo, hi) if cval(stp) > 0 else (hi, lo)
        rng = and_(ge0(isub(vs, n_lo)), ge0(isub(n_hi, vs)))
        if phi in fv(bz):
            y = [fresh('y') for _ in zs]
            body = subst(bz, {v: vs, phi: lam(tuple(y), sel(init, *y))})
        else:
            body = subst(bz, {v: vs})
        return lam(tuple(zs), ite(rng, body, sel(init, *zs)))

    def solve_v(self, conds, v, z):
        """The unique loop index for which the row guard can hold at z (over-approximate)."""
        ls = []
        for c in conds:
            ls += list(lits(c))
        for c in ls:
            if c.op == 'eq0':
                d = poly_dict(c.args[0])
                k = d.get((v,))
                if k is None or any(v in m and m != (v,) for m in d):
                    continue
                rest = {m: -x / k for m, x in d.items() if m != (v,)}
                if all(x.denominator == 1 for x in rest.values()):
                    return poly_mk(rest)
                # |k| > 1:  k*v + r = 0  ->  v = floor(-r/k); canonical without the constant
                n = abs(k)
                sg = 1 if k < 0 else -1
                num = {m: x * sg for m, x in d.items() if m != (v,)}
                cst = num.pop((), Fraction(0))
                # n*v = num + cst ; num = n*v - cst ; need a canonical residue
                r = (-cst) % n
                # num = n*v + r + n*q  => v = floor(num/n) - q
                q = ((-cst) - r) / n
                return isub(fdiv(poly_mk(num), ci(n)), ci(q))
        # interval  0 <= z - a*v - r <= m with m < a
        los, his = [], []
        for c in ls:
            if c.op == 'ge0':
                d = poly_dict(c.args[0])
                k = d.get((v,))
                kz = d.get((z,))
                if k is None or kz is None or any(v in m and m != (v,) for m in d):
                    continue
                if kz == 1 and k < 0:
                    los.append(d)
                elif kz == -1 and k > 0:
                    his.append(d)
        for dl in los:
            for dh in his:
                a = -dl[(v,)]
                if dh[(v,)] != a:
                    continue
                width = iadd(poly_mk(dl), poly_mk(dh))     # m
                if prove_ge0(isub(ci(a - 1), width)):
                    num = {m: x for m, x in dl.items() if m != (v,)}
                    return fdiv(poly_mk(num), ci(a))
        return None

    def solve_arrayn(self, F, i, v, lo, hi, stp, init, phi, b):
        zs = [fresh('z') for _ in range(b.rank)]
        bz = sel(b, *zs)
        rows = []
        if not self.rows(bz, phi, zs, [], rows):
            return None
        vs = None
        for conds, t in rows:
            w = None
            for z in zs:
                ls = []
                for c in conds:
                    ls += list(lits(c))
                for c in ls:
                    if c.op == 'eq0':
                        d = poly_dict(c.args[0])
                        k = d.get((v,))
                        if k in (1, -1) and d.get((z,)) is not None and len(d) <= 3 and not any(v in m and m != (v,) for m in d):
                            w = poly_mk({m: -x / k for m, x in d.items() if m != (v,)})
                            break
                if w is not None:
                    break
            if w is None or (vs is not None and vs is not w):
                return None
            vs = w
        if vs is None:
            return init
        return self.closed_array(bz, phi, zs, vs, v, lo, hi, stp, init)

    # ------------------------------------------------------------ builtins
    def call_builtin(self, n, acts, st, fr, pos):
        self.pos = pos
        h = self.externals.get(n)
        if h is not None:
            return h(self, n, acts, st, pos)
        h = getattr(self, 'b_' + n, None)
        if h is not None:
            return h(acts, st, pos)
        if n in ELEM:
            return self.elemental_builtin(n, acts, st, pos)
        raise Undecided('unknown procedure %s' % n, pos)

    def V(self, a, st):
        return self.aval(a, st)

    def elemental_builtin(self, n, acts, st, pos):
        vals = [self.V(a, st) for a in acts if a.kw not in ('kind',)]
        kinds = [a for a in acts if a.kw == 'kind']
        x = vals[0]
        if x.typ[0] == 't' and n != 'merge':
            raise Undecided('no procedure %s for %s' % (n, x.typ[1]), pos)
        if n in ('abs',):
            if x.typ[0] == 'i':
                return self.vmap(lambda a: ite(ge0(a), a, ineg(a)), [x], x.typ)
            return self.vmap(lambda a: fn('abs', a), [x], x.typ)
        if n in ('max', 'min'):
            typ = x.typ
            if typ[0] == 'i':
                f = imax if n == 'max' else imin
                return self.vmap(lambda *a: f(*a), vals, typ)
            return self.vmap(lambda *a: fn('f' + n, *a), vals, typ)
        if n in ('mod', 'modulo'):
            if x.typ[0] == 'i':
                return self.vmap(imod if n == 'mod' else fmod, vals, x.typ)
            return self.vmap(lambda a, b: fn('f' + n, a, b), vals, x.typ)
        if n == 'sign':
            if x.typ[0] == 'i':
                return self.vmap(lambda a, b: ite(ge0(b), ite(ge0(a), a, ineg(a)), ite(ge0(a), ineg(a), a)), vals, x.typ)
            return self.vmap(lambda a, b: fn('sign', a, b), vals, x.typ)
        if n == 'merge':
            m = vals[2]
            f, t = vals[1], vals[0]
            if t.typ[0] == 't':
                if t.rank or m.rank:
                    raise Undecided('merge of derived arrays', pos)
                return Val(t.typ, (), {p: ite(m.s, t.leaves[p], f.leaves[p]) for p in t.leaves})
            return self.vmap(lambda a, b, c: ite(c, a, b), vals, t.typ)
        if n in ('int', 'nint', 'floor', 'ceiling'):
            k = 4
            if kinds:
                kv = self.V(kinds[0], st).s
                k = int(cval(kv)) if is_c(kv) else 4
            elif len(vals) > 1:
                k = int(cval(vals[1].s)) if is_c(vals[1].s) else 4
            if x.typ[0] == 'i':
                return Val(('i', k), x.shape, x.leaves)
            return self.vmap(lambda a: self.r2int(n, a), [x], ('i', k))
        if n in ('real', 'dble', 'float', 'sngl'):
            k = 8 if n == 'dble' else 4
            if n == 'real':
                kk = self.V(kinds[0], st).s if kinds else (vals[1].s if len(vals) > 1 else None)
                if kk is not None and is_c(kk):
                    k = int(cval(kk))
            return self.convert(self.convert(x, ('r', max(k, x.typ[1]) if x.typ[0] == 'r' else k)), ('r', k))
        if n in ('isnan', 'ieee_is_nan'):
            return self.vmap(lambda a: not_(mk('req', (a, a), 'b')), [x], L4)
        if n == 'ieee_is_finite':
            return self.vmap(lambda a: rcmp('<=', fn('abs', a), cr(HUGE)), [x], L4)
        if n == 'ieee_is_negative':
            return self.vmap(lambda a: rcmp('<', a, cr(0)), [x], L4)
        if n == 'atan' and len(vals) == 2:
            n = 'atan2'
        if n in ('gamma', 'log_gamma', 'hypot', 'atan2') or n in REALFN:
            if any(w.typ[0] != 'r' for w in vals):
                raise Undecided('%s of %s' % (n, x.typ), pos)
            return self.vmap(lambda *a: fn(n, *a), vals, x.typ)
        if n in ('aint', 'anint'):
            return self.vmap(lambda a: fn(n, a), [x], x.typ)
        if n in ('btest', 'iand', 'ior', 'ieor', 'ishft', 'not'):
            return self.vmap(lambda *a: mk('ifn', (n,) + a, 'i' if n != 'btest' else 'b'), vals, x.typ if n != 'btest' else L4)
        raise Undecided('intrinsic %s' % n, pos)

    # lazy (AST level)
    def i_present(self, e, st, fr):
        n = e.args[0][1].n
        b = self.lookup(n, fr)
        return VS(cb(b is not None and b.kind != 'absent'))

    def i_allocated(self, e, st, fr):
        d = self.desig(e.args[0][1], st, fr)
        return VS(self.readleaf(st, d.ref, ('#a',)))

    def i_associated(self, e, st, fr):
        d = self.desig(e.args[0][1], st, fr)
        if d is None:
            raise Undecided('associated', e.pos)
        if d.typ == ('p',):
            t = self.readleaf(st, d.ref, ())
            if len(e.args) > 1:
                a = self.actual(None, e.args[1][1], st, fr)
                return VS(peq(t, a.term if a.term is not None else self.aval(a, st).s))
            return VS(not_(peq(t, NULLPROC)))
        t = self.readleaf(st, d.ref, ('#p',))
        if len(e.args) > 1:
            d2 = self.desig(e.args[1][1], st, fr)
            t2 = self.readleaf(st, d2.ref, ('#p',)) if d2.deferred == 'ptr' else self.mkptr(self.full(d2, st), self.lbounds(d2, st))
            return VS(self.ptreq(t, t2))
        return VS(not_(self.ptreq(t, NULLPTR)))

    def ptreq(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'ite':
            return ite(a.args[0], self.ptreq(a.args[1], b), self.ptreq(a.args[2], b))
        if b.op == 'ite':
            return ite(b.args[0], self.ptreq(a, b.args[1]), self.ptreq(a, b.args[2]))
        if (a is NULLPTR and b.op == 'ptr') or (b is NULLPTR and a.op == 'ptr'):
            return FALSE
        return mk('xeq', (a, b), 'b')

    def i_move_alloc(self, e, st, fr):
        args = dict((k or ('from', 'to')[i], a) for i, (k, a) in enumerate(e.args[:2]))
        a = self.desig(args['from'], st, fr)
        b = self.desig(args['to'], st, fr)
        if a is None or b is None or a.ref.dims or b.ref.dims or a.deferred != 'alloc' or b.deferred != 'alloc':
            raise Undecided('move_alloc', e.pos)
        for i in range(a.rank):
            for m in ('#n%d', '#l%d'):
                st.mem[(b.ref.cell, b.ref.path + (m % (i + 1),))] = st.mem[(a.ref.cell, a.ref.path + (m % (i + 1),))]
        st.mem[(b.ref.cell, b.ref.path + ('#a',))] = st.mem[(a.ref.cell, a.ref.path + ('#a',))]
        for p, s, x in self.leafpaths(a.typ):
            st.mem[(b.ref.cell, b.ref.path + p)] = st.mem[(a.ref.cell, a.ref.path + p)]
            R = a.rank + x
            st.mem[(a.ref.cell, a.ref.path + p)] = undef('moved', 'A', s, R) if R else undef('moved', s)
        st.mem[(a.ref.cell, a.ref.path + ('#a',))] = FALSE
        return None

    def i_size(self, e, st, fr):
        d = self.desig(e.args[0][1], st, fr) if e.args[0][1].k in ('name', 'member', 'call') else None
        shape = self.full(d, st, e.pos).shape if d is not None else self.expr(e.args[0][1], st, fr).shape
        if len(e.args) > 1:
            kw, a = e.args[1]
            if kw in (None, 'dim'):
                k = self.scalar(a, st, fr)
                if not is_c(k):
                    raise Undecided('size with variable dim', e.pos)
                return VS(shape[int(cval(k)) - 1])
        t = ONE
        for n in shape:
            t = imul(t, n)
        return VS(t)

    def i_shape(self, e, st, fr):
        d = self.desig(e.args[0][1], st, fr) if e.args[0][1].k in ('name', 'member', 'call') else None
        shape = self.full(d, st, e.pos).shape if d is not None else self.expr(e.args[0][1], st, fr).shape
        return self.concat([VS(n) for n in shape], I4)

    def bnd(self, e, st, fr, upper):
        x = e.args[0][1]
        d = self.desig(x, st, fr)
        if d is None:
            shape = self.expr(x, st, fr).shape
            lbs = [ONE] * len(shape)
        else:
            shape = self.full(d, st, e.pos).shape
            lbs = list(self.lbounds(d, st)) if x.k in ('name', 'member') else [ONE] * len(shape)
        r = [isub(iadd(n, l), ONE) for n, l in zip(shape, lbs)] if upper else lbs
        if len(e.args) > 1:
            k = self.scalar(e.args[1][1], st, fr)
            return VS(r[int(cval(k)) - 1])
        return self.concat([VS(t) for t in r], I4)

    def i_lbound(self, e, st, fr):
        return self.bnd(e, st, fr, False)

    def i_ubound(self, e, st, fr):
        return self.bnd(e, st, fr, True)

    def i_kind(self, e, st, fr):
        v = self.expr(e.args[0][1], st, fr)
        return VS(ci(v.typ[1]))

    def i_c_loc(self, e, st, fr):
        d = self.desig(e.args[0][1], st, fr)
        if d is None:
            raise Undecided('c_loc', e.pos)
        if d.deferred == 'ptr':
            t = self.readleaf(st, d.ref, ('#p',))
        else:
            ref = self.full(d, st)
            t = self.mkptr(ref, self.lbounds(d, st))
        return VS(t, CPTR)

    def i_c_funloc(self, e, st, fr):
        a = self.actual(None, e.args[0][1], st, fr)
        t = a.term if a.term is not None else self.aval(a, st).s
        return VS(mk('funloc', (t,), 'x'), CPTR)

    def i_c_f_pointer(self, e, st, fr):
        t = self.scalar(e.args[0][1], st, fr)
        d = self.desig(e.args[1][1], st, fr)
        if len(e.args) > 2 and d.rank:
            shape = self.expr(e.args[2][1], st, fr)
            if d.rank != 1 or shape.rank != 1:
                raise Undecided('c_f_pointer of rank %d' % d.rank, e.pos)
            n = sel(shape.leaves[()], ONE)
            t = self.widen(t, n, e.pos)
        self.setmeta(st, d.ref, ('#p',), t)
        return None

    def widen(self, t, n, pos):
        """The address of an array element, seen as an array of n elements."""
        if t.op == 'ite':
            return ite(t.args[0], self.widen(t.args[1], n, pos), self.widen(t.args[2], n, pos))
        if t.op != 'ptr':
            return t
        cell, path, dims, typ, lbs = t.args
        k = len(dims) - 1
        if any(x[0] != 'f' for x in dims):
            free = [i for i, x in enumerate(dims) if x[0] != 'f']
            if len(free) == 1 and dims[free[0]][0] == 'd' and dims[free[0]][2] is ONE:
                i = free[0]
                ds = list(dims)
                self.oblige(ge0(isub(ds[i][3], n)), pos, 'the array has as many elements as the pointer to it')
                ds[i] = ('d', ds[i][1], ONE, n, False)
                return self.mkptr(Ref(cell, path, ds, typ), [ONE])
            raise Undecided('c_f_pointer to a section', pos)
        if k < 0:
            raise Undecided('c_f_pointer to a scalar', pos)
        ext = self.extents.get(cell) if path == () else None
        ds = list(dims)
        lo = ds[0][1]
        if ext is None:
            raise Undecided('extent behind a pointer', pos)
        self.oblige(ge0(isub(iadd(isub(ext, lo), ONE), n)), pos, 'the array has as many elements as the pointer to it')
        ds[0] = ('d', lo, ONE, n, False)
        return self.mkptr(Ref(cell, path, ds, typ), [ONE])

    def i_c_f_procpointer(self, e, st, fr):
        t = self.scalar(e.args[0][1], st, fr)
        d = self.desig(e.args[1][1], st, fr)

        def un(x):
            if x.op == 'funloc':
                return x.args[0]
            if x.op == 'ite':
                return ite(x.args[0], un(x.args[1]), un(x.args[2]))
            if x is NULLPTR or x.op == 'undef':
                return NULLPROC
            raise Undecided('c_f_procpointer', e.pos)
        st.mem[(d.ref.cell, d.ref.path)] = un(t)
        return None

    def i_c_associated(self, e, st, fr):
        t = self.scalar(e.args[0][1], st, fr)
        return VS(not_(self.ptreq(t, NULLPTR)))

    def i_transfer(self, e, st, fr):
        src = self.expr(e.args[0][1], st, fr)
        mold = e.args[1][1]
        size = None
        for kw, a in e.args[2:]:
            size = self.scalar(a, st, fr)
        d = self.desig(mold, st, fr) if mold.k in ('name', 'member', 'call') else None
        mt = d.typ if d is not None else self.expr(mold, st, fr).typ
        if d is not None:
            mr = d.rank
        else:
            mr = self.expr(mold, st, fr).rank
        if src.typ[0] == 'r' and mt == I4 and src.typ[1] == 8:
            if mr == 0 and size is None:
                raise Undecided('transfer to a scalar integer', e.pos)
            src = self.linear(src)
            if src.rank == 0:
                n = ci(2)
                arr = store(afill(1, r2i(src.s, 0)), (ci(2),), r2i(src.s, 1))
            else:
                n = imul(ci(2), src.shape[0])
                z = fresh('z', 'i', ONE, n)
                x = sel(src.s, iadd(fdiv(isub(z, ONE), ci(2)), ONE))
                m = fmod(isub(z, ONE), ci(2))
                arr = lam((z,), ite(eq0(m), r2i(x, 0), r2i(x, 1)))
            if size is not None:
                n = size
            return Val(I4, (n,), {(): arr})
        if src.typ == I4 and mt[0] == 'r' and mt[1] == 8:
            src = self.linear(src)
            if src.rank == 0:
                raise Undecided('transfer', e.pos)
            A = src.s
            if mr == 0 and size is None:
                return VS(i2r(sel(A, ONE), sel(A, ci(2))), mt)
            n = size if size is not None else fdiv(iadd(src.shape[0], ONE), ci(2))
            z = fresh('z', 'i', ONE, n)
            k = imul(ci(2), z)
            return Val(mt, (n,), {(): lam((z,), i2r(sel(A, isub(k, ONE)), sel(A, k)))})
        if src.typ == ('i', 8) and mt == ('r', 8) and src.rank == 0 and mr == 0 and size is None and is_c(src.s):
            import struct
            x = struct.unpack('<d', struct.pack('<q', int(cval(src.s))))[0]
            return VS(cr('nan' if x != x else 'inf' if x > 1e400 else '-inf' if x < -1e400 else x), mt)
        if src.typ == mt:
            if mr == 0 and src.rank == 0:
                return src
            return self.linear(src)
        raise Undecided('transfer %s to %s' % (src.typ, mt), e.pos)

    # reductions
    def redargs(self, acts, st):
        v = self.V(acts[0], st)
        dim = mask = None
        for a in acts[1:]:
            w = self.V(a, st)
            if a.kw == 'mask' or (a.kw is None and w.typ == L4):
                mask = w
            elif a.kw == 'dim' or a.kw is None:
                dim = w
        return v, dim, mask

    def reduce(self, kind, acts, st, pos):
        v, dim, mask = self.redargs(acts, st)
        if v.typ[0] == 't':
            raise Undecided('%s of derived type' % kind, pos)
        neutral = {'sum': ci(0) if v.typ[0] == 'i' else cr(0), 'prod': ci(1) if v.typ[0] == 'i' else cr(1)}.get(kind)
        if mask is not None:
            if neutral is None:
                raise Undecided('masked %s' % kind, pos)
            v = self.vmap(lambda a, m: ite(m, a, neutral), [v, mask], v.typ)
        rt = {'any': L4, 'all': L4, 'count': I4}.get(kind, v.typ)
        if v.rank == 0:
            return v
        if dim is not None:
            k = int(cval(dim.s)) - 1
            if v.rank == 1:
                dim = None
            else:
                shape = v.shape[:k] + v.shape[k + 1:]
                zs = self.zvars(shape)
                q = fresh('q', 'i', ONE, v.shape[k])
                ix = zs[:k] + [q] + zs[k:]
                return Val(rt, shape, {(): lam(zs, red(kind, q, ONE, v.shape[k], sel(v.s, *ix)))})
        qs = self.zvars(v.shape)
        t = sel(v.s, *qs)
        for q, n in zip(qs, v.shape):
            t = red(kind, q, ONE, n, t)
        return VS(t, rt)

    def b_sum(self, acts, st, pos):
        return self.reduce('sum', acts, st, pos)

    def b_product(self, acts, st, pos):
        return self.reduce('prod', acts, st, pos)

    def b_maxval(self, acts, st, pos):
        return self.reduce('max', acts, st, pos)

    def b_minval(self, acts, st, pos):
        return self.reduce('min', acts, st, pos)

    def b_any(self, acts, st, pos):
        return self.reduce('any', acts, st, pos)

    def b_all(self, acts, st, pos):
        return self.reduce('all', acts, st, pos)

    def b_count(self, acts, st, pos):
        return self.reduce('count', acts, st, pos)

    def b_norm2(self, acts, st, pos):
        v = self.V(acts[0], st)
        t = self.binop('*', v, v, pos)
        s = self.reduce('sum', [Actual(None, val=t)], st, pos)
        return VS(fn('sqrt', s.s), v.typ)

    def b_dot_product(self, acts, st, pos):
        a, b = self.V(acts[0], st), self.V(acts[1], st)
        if a.shape[0] is not b.shape[0]:
            self.oblige(ieq(a.shape[0], b.shape[0]), pos, 'dot_product of equal lengths')
        t = self.binop('*', a, Val(b.typ, a.shape, b.leaves), pos)
        return self.reduce('sum', [Actual(None, val=t)], st, pos)

    def b_matmul(self, acts, st, pos):
        a, b = self.V(acts[0], st), self.V(acts[1], st)
        if a.typ[0] not in 'ir' or b.typ[0] not in 'ir':
            raise Undecided('matmul of derived types', pos)
        inner = a.shape[-1]
        if inner is not b.shape[0]:
            self.oblige(ieq(inner, b.shape[0]), pos, 'matmul of conforming shapes')
        q = fresh('q', 'i', ONE, inner)
        zi = self.zvars(a.shape[:-1])
        zj = self.zvars(b.shape[1:])
        x = sel(a.s, *(zi + [q]))
        y = sel(b.s, *([q] + zj))
        if a.typ[0] == b.typ[0] == 'i':
            t, typ = imul(x, y), I4
        else:
            typ = self.rtyp(a.typ, b.typ)
            t = rmul(toreal(x), toreal(y))
        body = red('sum', q, ONE, inner, t)
        shape = a.shape[:-1] + b.shape[1:]
        return Val(typ, shape, {(): lam(zi + zj, body)})

    def b_transpose(self, acts, st, pos):
        v = self.V(acts[0], st)
        return Val(v.typ, (v.shape[1], v.shape[0]), {p: self._tr(w) for p, w in v.leaves.items()})

    def _tr(self, w):
        i, j = fresh('z'), fresh('z')
        return lam((i, j), sel(w, j, i))

    def b_reshape(self, acts, st, pos):
        v = self.linear(self.V(acts[0], st))
        sh = self.V(acts[1], st)
        if not is_c(sh.shape[0]) or len(acts) > 2:
            raise Undecided('reshape', pos)
        ns = [sel(sh.s, ci(k + 1)) for k in range(int(cval(sh.shape[0])))]
        zs = self.zvars(ns)
        k = isub(zs[0], ONE)
        mul = ns[0]
        for z, n in zip(zs[1:], ns[1:]):
            k = iadd(k, imul(isub(z, ONE), mul))
            mul = imul(mul, n)
        return Val(v.typ, ns, {p: lam(zs, sel(w, iadd(k, ONE))) for p, w in v.leaves.items()})

    def b_spread(self, acts, st, pos):
        v = self.V(acts[0], st)
        dim = self.V(acts[1], st).s
        n = self.V(acts[2], st).s
        if not is_c(dim) or v.typ[0] == 't':
            raise Undecided('spread', pos)
        k = int(cval(dim)) - 1
        shape = v.shape[:k] + (n,) + v.shape[k:]
        zs = self.zvars(shape)
        rest = zs[:k] + zs[k + 1:]
        return Val(v.typ, shape, {(): lam(zs, sel(v.s, *rest) if rest else v.s)})

    def b_huge(self, acts, st, pos):
        v = self.V(acts[0], st)
        return VS(cr(HUGE), v.typ) if v.typ[0] == 'r' else VS(ci(2 ** (8 * v.typ[1] - 1) - 1), v.typ)

    def b_tiny(self, acts, st, pos):
        return VS(cr(Fraction(2) ** -1022))

    def b_epsilon(self, acts, st, pos):
        return VS(cr(Fraction(2) ** -52))

    def b_ieee_value(self, acts, st, pos):
        c = self.V(acts[1], st).s
        n = c.args[0] if c.op == 's' else ''
        for k, t in (('ieee_quiet_nan', 'nan'), ('ieee_signaling_nan', 'nan'), ('ieee_positive_inf', 'inf'), ('ieee_negative_inf', '-inf')):
            if n == k:
                return VS(cr(t))
        raise Undecided('ieee_value', pos)

    def b_trim(self, acts, st, pos):
        return self.V(acts[0], st)

    def b_null(self, acts, st, pos):
        return VS(NULLPTR, CPTR)

    def b_cycle_(self, acts, st, pos):
        return None


HUGE = Fraction((2 ** 53 - 1) * 2 ** 971)
REALFN = {'sqrt', 'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh',
          'erf', 'erfc', 'erfc_scaled', 'gamma', 'log_gamma', 'bessel_j0'}
ELEM = REALFN | {'abs', 'max', 'min', 'mod', 'modulo', 'sign', 'merge', 'int', 'nint', 'floor', 'ceiling', 'real', 'dble', 'float', 'sngl',
                 'isnan', 'ieee_is_nan', 'ieee_is_finite', 'ieee_is_negative', 'hypot', 'atan2', 'aint', 'anint', 'btest', 'iand', 'ior', 'ieor', 'ishft', 'not'}
LAZY = {'present', 'allocated', 'associated', 'move_alloc', 'size', 'shape', 'lbound', 'ubound', 'kind', 'c_loc', 'c_funloc', 'c_f_pointer', 'c_f_procpointer', 'c_associated', 'transfer'}
