"""Value and derivative obligations of one operation, over an arbitrary tape.

For an operation the value-flow analysis extracts, for an arbitrary registry / tape / argument
handles / array sizes: the value of the result, the machine state after the operation, and the
adjoint of every variable after the recorded nodes have propagated.  These terms are then compared
with the specification (fa/ops.py) by identity testing."""
import random
import zlib
import itertools
import mpmath
from mpmath import mpf
from fractions import Fraction
from .terms import *
from . import terms as TM
from .interp import *
from .machine import *
from .evalt import *
from .prog import Program, repo_sources

VAR = ('t', 'var')
DEFINES = ['USE_SUNDIALS']

BACK = '''
 subroutine hz_back(h0)
   integer, intent(in) :: h0
   integer :: i
   do i = callstack%head - 1, h0, -1
     call callstack%varis(i)%chain()
   end do
 end subroutine
 subroutine hz_seed(s, a)
   type(var), intent(in) :: s
   real(rk), intent(in) :: a
   call callstack%stack%set_adj(callstack%varis(s%vi)%i, callstack%stack%adj(callstack%varis(s%vi)%i) + a)
 end subroutine
 subroutine hz_seed1(s, a)
   type(var), intent(in) :: s(:)
   real(rk), intent(in) :: a(:)
   integer :: i
   do i = 1, size(s)
     call hz_seed(s(i), a(i))
   end do
 end subroutine
 subroutine hz_seed2(s, a)
   type(var), intent(in) :: s(:,:)
   real(rk), intent(in) :: a(:,:)
   integer :: j
   do j = 1, size(s,2)
     call hz_seed1(s(:,j), a(:,j))
   end do
 end subroutine
 function hz_adj(h) result(d)
   integer, intent(in) :: h
   real(rk) :: d
   type(var) :: v
   v%vi = h
   d = v%adj()
 end function
 subroutine hz_more(j)
   integer, intent(in) :: j
 end subroutine
 function hz_val(h) result(d)
   integer, intent(in) :: h
   real(rk) :: d
   type(var) :: v
   v%vi = h
   d = v%val()
 end function
'''


def decl_dims(rank):
    return '(%s)' % ','.join(':' * 1 for _ in range(rank)) if rank else ''


def harness(op, tag):
    names = [a[0] for a in op.args]
    lines = ['module hz_%s' % tag, ' ' + op.use, ' implicit none', 'contains', ' function hz_op(%s) result(hz_s)' % ', '.join(names)]
    for n, k, d, _ in op.args:
        t = 'type(var)' if k == 'v' else 'real(rk)'
        lines.append('   %s, intent(in) :: %s%s' % (t, n, decl_dims(len(d))))
    if op.res:
        ext = []
        for dn in op.res:
            for n, k, d, _ in op.args:
                if dn in d:
                    ext.append('size(%s,%d)' % (n, d.index(dn) + 1))
                    break
        rd = '(%s)' % ', '.join(ext)
    else:
        rd = ''
    lines.append('   %s :: hz_s%s' % ('real(rk)' if op.real else 'type(var)', rd))
    lines.append('   hz_s = ' + op.expr)
    lines.append(' end function')
    lines.append('end module')
    return '\n'.join(lines) + '\n'


def common_harness():
    return 'module hz_common\n use fazang_env_mod\n use fazang_vari_mod, only : callstack\n use fazang_var_mod, only : var\n implicit none\ncontains\n' + BACK + 'end module\n'


STALE = 'a node recorded here runs the propagation rule left in its slot by an earlier, discarded variable: the rule that a new node starts without one'


class StaleChain(Exception):
    def __init__(self, msg, pos):
        Exception.__init__(self, msg)
        self.pos = pos


class Analysed:
    """The extracted terms for one operation."""
    pass


class OpEngine:
    def __init__(self, prog):
        self.prog = prog
        self.interp = Interp(prog)
        self.machine = Machine(self.interp)
        self.interp.opaque = self.opaque
        self.cache = {}

    @staticmethod
    def load(repo='/repo', extra=''):
        P = Program()
        P.load(repo_sources(repo), DEFINES)
        P.load_text(common_harness(), 'hz_common')
        return P

    def opaque(self, I, t, acts, st, pos):
        M = self.machine
        if t.op == 'sel' and t.args[0] is M.CH0 and prove_ge0(isub(t.args[1], M.HV)):
            I.oblige(FALSE, pos, STALE)
            return None
        return NotImplemented

    def procs(self, mod):
        m = self.prog.modules[mod]
        for p in m.procs.values():
            self.interp._regproc(p)
        return m.procs

    def symarg(self, op, n, k, dims, sizes):
        M = self.machine
        shape = tuple(sizes[d] for d in dims)
        hi = isub(M.HV, ONE)
        if k == 'v':
            if not dims:
                return Val(VAR, (), {('vi',): sym('%s_vi' % n, 'i', ONE, hi)})
            ABOUNDS['%s_vi' % n] = ([ONE], [hi])
            return Val(VAR, shape, {('vi',): asym('%s_vi' % n, len(dims), 'i')})
        if not dims:
            return Val(R8, (), {(): sym('%s_d' % n, 'r')})
        return Val(R8, shape, {(): asym('%s_d' % n, len(dims), 'r')})

    def analyse(self, op):
        if op.name in self.cache:
            return self.cache[op.name]
        I, M = self.interp, self.machine
        TM._pc_stack.clear()
        tag = op.name
        self.prog.load_text(harness(op, tag), 'hz_' + tag)
        P = self.procs('hz_' + tag)
        C = self.procs('hz_common')
        sizes = {d: sym('n_' + d, 'i', ZERO) for d in op.dims}
        args = [self.symarg(op, n, k, d, sizes) for n, k, d, _ in op.args]
        R = Analysed()
        R.op, R.sizes = op, sizes
        I.events, I.obls, I.aborts = [], [], []
        I.visited = set()
        I.pcs = []
        st = M.state()
        R.st0 = st.copy()
        R.result = I.invoke(P['hz_op'], [Actual(None, val=a) for a in args], st, None)
        R.st1 = st.copy()
        R.aborts = list(I.aborts)
        R.fwd = set(I.visited)
        I.visited = set()
        if op.real:
            R.value = R.result
            R.vals = R.result.leaves[()]
        else:
            rank = len(op.res)
            h = sym('h', 'i', ONE, isub(M.HV, ONE))
            r = self.vi_values(R.result, st)
            R.vals = r
            A = sym('A', 'r') if not rank else asym('A', rank, 'r')
            aval = Val(R8, R.result.shape, {(): A})
            sd = C['hz_seed' + ('' if not rank else str(rank))]
            I.invoke(sd, [Actual(None, val=R.result), Actual(None, val=aval)], st, None)
            I.invoke(C['hz_back'], [Actual(None, val=VS(M.HV))], st, None)
            R.st2 = st.copy()
            R.adj = I.invoke(C['hz_adj'], [Actual(None, val=VS(h))], st, None).s
            R.h = h
        R.obls = list(I.obls)
        R.bwd = set(I.visited)
        R.aborts = list(I.aborts)
        self.cache[op.name] = R
        return R

    def vi_values(self, res, st):
        C = self.prog.modules['hz_common'].procs
        I = self.interp
        if not res.shape:
            return I.invoke(C['hz_val'], [Actual(None, val=VS(res.leaves[('vi',)]))], st.copy(), None).s
        zs = I.zvars(res.shape)
        v = I.invoke(C['hz_val'], [Actual(None, val=VS(sel(res.leaves[('vi',)], *zs)))], st.copy(), None).s
        return lam(zs, v)


# ---------------------------------------------------------------- valuations
def dbl(x):
    return mpf(float(x))


class Valuation:
    """A concrete tape, registry, argument handles and argument values."""

    def __init__(self, op, rng, rconsts, iconsts, interior=True, alias=True, sizes=None, distinct=False):
        self.distinct = distinct
        self.op = op
        self.rng = rng
        self.ok = False
        base = [0, 1, 2, 3, 4, 5, 6]
        self.sizes = {}
        ndim = len(op.dims)
        for d in op.dims:
            n = rng.choice(base if ndim == 1 else base[:5])
            if rng.random() < 0.04:
                n = rng.choice((9, 17, 33, 40)) if ndim == 1 else rng.choice((7, 9))
            self.sizes[d] = n
        if iconsts and op.dims and rng.random() < 0.35:
            c = rng.choice(sorted(iconsts)) + rng.choice((-1, 0, 1, 2))
            if 0 <= c <= 260:
                d = rng.choice(op.dims)
                if ndim > 1 and c > 12:
                    for e in op.dims:
                        self.sizes[e] = rng.choice((1, 2))
                self.sizes[d] = min(c, 260)
        if sizes:
            self.sizes.update(sizes)
        nel = sum(self.count(d) for n, k, d, _ in op.args if k == 'v')
        self.nv = max(1, rng.randint(1, nel + 2)) if alias and rng.random() < 0.5 else nel + rng.randint(1, 3)
        self.v = {}
        rc = sorted(rconsts)
        self.args = {}
        self.handles = {}
        for n, k, dims, dom in op.args:
            idx = list(itertools.product(*[range(1, self.sizes[d] + 1) for d in dims]))
            vals, hs = {}, {}
            for ix in idx:
                if k == 'v':
                    for _ in range(20):
                        h = rng.randint(1, self.nv)
                        if self.distinct and any(h in q.values() for q in [hs] + list(self.handles.values())):
                            continue
                        if h not in self.v:
                            self.v[h] = self.draw(dom, rc, interior)
                        if dom.inside(self.v[h], interior):
                            break
                    else:
                        h = self.nv = self.nv + 1
                        self.v[h] = self.draw(dom, rc, interior)
                    hs[ix] = h
                    vals[ix] = self.v[h]
                else:
                    vals[ix] = self.draw(dom, rc, interior)
            self.args[n] = vals
            self.handles[n] = hs
        for h in range(1, self.nv + 1):
            if h not in self.v:
                self.v[h] = dbl(rng.gauss(0, 2))
        self.layout()

    def count(self, dims):
        c = 1
        for d in dims:
            c *= self.sizes[d]
        return c

    def draw(self, dom, rc, interior):
        rng = self.rng
        for _ in range(200):
            k = rng.random()
            if rc and k < 0.3:
                x = float(rng.choice(rc))
                t = rng.random()
                if t > 0.5:
                    x = x + rng.choice((-1, 1)) * 10 ** rng.uniform(-9, -1) * (abs(x) or 1)
                elif t > 0.4:
                    x = -x
            elif k < 0.42:
                x = rng.choice((0.0, 1.0, -1.0, 2.0, 0.5, -2.0, 3.0, -0.5))
            else:
                x = dom.sample(rng)
            x = dbl(x)
            if dom.inside(x, interior):
                return x
        x = dbl(dom.sample(rng))
        return x

    def layout(self):
        rng = self.rng
        order = list(range(1, self.nv + 1))
        if rng.random() < 0.5 and not getattr(self, 'ordered', False):
            rng.shuffle(order)
        p = 1 + rng.choice((0, 0, 3))
        self.start = {}
        for h in order:
            self.start[h] = p
            p += 6 + rng.choice((0, 0, 1, 2, 5)) + rng.choice((0, 0, 0, 3))
        self.H = p + rng.choice((0, 0, 2))
        self.HV = self.nv + 1
        self.adj0 = {h: (dbl(rng.gauss(0, 1)) if rng.random() < 0.7 else mpf(0)) for h in order}
        self.salt = rng.randint(1, 10 ** 6)
        w = {}
        for h, s in self.start.items():
            for off, x in ((0, self.v[h]), (2, self.adj0[h])):
                for k in (0, 1):
                    w[s + off + k] = 0 if x == 0 else Word(x, k)
        self.words = w

    def word(self, ix):
        i = ix[0]
        r = self.words.get(i)
        if r is None:
            r = (i * 2654435761 + self.salt) % 97 - 3
            self.words[i] = r
        return r

    def clone(self, n, ix, x):
        """The same valuation with one argument element changed."""
        import copy
        v = copy.copy(self)
        x = dbl(x)
        v.args = {k: dict(d) for k, d in self.args.items()}
        v.args[n][ix] = x
        if self.handles[n]:
            v.v = dict(self.v)
            h = self.handles[n][ix]
            v.v[h] = x
            for m, hs in self.handles.items():
                for j, q in hs.items():
                    if q == h:
                        v.args[m][j] = x
            v.words = dict(self.words)
            for k in (0, 1):
                v.words[self.start[h] + k] = 0 if x == 0 else Word(x, k)
        return v

    def binds(self, M, A=None):
        b = {M.HV: self.HV, M.H: self.H, M.CAP: self.H + 10 ** 7, M.CAPV: self.HV + 10 ** 7,
             M.I0: lambda ix: self.start[ix[0]] if ix[0] in self.start else 1 + (ix[0] * 7919 + self.salt) % max(1, self.H - 6),
             M.CH0: lambda ix: 'CH0(%d)' % ix[0], M.S0: self.word}
        for d, n in self.sizes.items():
            b[sym('n_' + d, 'i')] = n
        for n, k, dims, dom in self.op.args:
            src = self.handles[n] if k == 'v' else self.args[n]
            suffix = '_vi' if k == 'v' else '_d'
            if not dims:
                b[mk('s', (n + suffix,), 'i' if k == 'v' else 'r')] = src[()]
            else:
                b[asym(n + suffix, len(dims), 'i' if k == 'v' else 'r')] = self.lookup(n + suffix, src)
        return b

    def lookup(self, n, src):
        def f(ix):
            r = src.get(ix)
            if r is None:
                raise Poison('argument %s read outside its bounds at %s' % (n, ix))
            return r
        return f

    def nested(self, over=None):
        """Arguments as scalars / nested lists for the specification."""
        out = {}
        for d, n in self.sizes.items():
            out['#' + d] = n
        for n, k, dims, dom in self.op.args:
            vals = over[n] if over is not None and n in over else self.args[n]
            if not dims:
                out[n] = vals[()]
            elif len(dims) == 1:
                out[n] = [vals[(i,)] for i in range(1, self.sizes[dims[0]] + 1)]
            else:
                out[n] = [[vals[(i, j)] for j in range(1, self.sizes[dims[1]] + 1)] for i in range(1, self.sizes[dims[0]] + 1)]
        return out

    def describe(self):
        out = []
        for d, n in self.sizes.items():
            out.append('%s=%d' % (d, n))
        for n, k, dims, dom in self.op.args:
            vals = self.args[n]
            if not dims:
                out.append('%s=%s%s' % (n, mpmath.nstr(vals[()], 17), ' (variable %d)' % self.handles[n][()] if k == 'v' else ''))
            else:
                its = sorted(vals)[:12]
                out.append('%s=[%s%s]%s' % (n, ', '.join(mpmath.nstr(vals[i], 8) for i in its), ', ...' if len(vals) > 12 else '',
                                            ' (variables %s)' % [self.handles[n][i] for i in its] if k == 'v' else ''))
        return ', '.join(out)


def flat(x, res, sizes):
    """Result of the specification as {index: value}."""
    if not res:
        return {(): x}
    if len(res) == 1:
        return {(i + 1,): v for i, v in enumerate(x)}
    return {(i + 1, j + 1): v for i, r in enumerate(x) for j, v in enumerate(r)}


def close(a, b, tol):
    if isinstance(a, Garbage):
        return False
    if mpmath.isnan(a) or mpmath.isnan(b):
        return mpmath.isnan(a) and mpmath.isnan(b)
    if mpmath.isinf(a) or mpmath.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(abs(b), mpf(10) ** -8) if b != 0 else abs(a) <= mpf(10) ** -18


def step(x):
    return mpf(10) ** -18 * (abs(x) if abs(x) < 1 and x != 0 else 1)



def gradients(op, val, A):
    """{(arg, index): d/d(arg[index]) sum(A*f)}"""
    out = {}
    for n, k, dims, dom in op.args:
        if k != 'v':
            continue
        for ix, x in val.args[n].items():
            g = []
            H = step(x)
            with mpmath.workdps(60 + max(0, int(-mpmath.log10(H)) - 18)):
                for s in (1, -1):
                    over = {n: dict(val.args[n])}
                    over[n][ix] = x + s * H
                    fx = flat(op.f(val.nested(over)), op.res, val.sizes)
                    g.append(sum((A[i] * fx[i] for i in fx), mpf(0)))
                out[(n, ix)] = (g[0] - g[1]) / (2 * H)
    return out


class Finding:
    def __init__(self, kind, op, msg, sample, where):
        self.kind, self.op, self.msg, self.sample, self.where = kind, op, msg, sample, where

    def __repr__(self):
        return '%s: %s: %s [%s] at %s' % (self.kind, self.op, self.msg, self.sample, self.where)


class OpReport:
    def __init__(self, op):
        self.op = op.name
        self.findings = []
        self.undecided = None
        self.points = 0
        self.facts = 0
        self.guards = (0, 0)
        self.procs = ()
        self.proved = []


def locate(interp, keys, skip=('hz_',)):
    out = []
    for k in sorted(keys):
        p = interp.procs.get(k)
        if p is None or k.startswith('hz_') or p.module.name in CORE:
            continue
        pos = p.ast.pos
        out.append('%s (%s:%s)' % (k, str(pos[0]).replace('/repo/', ''), pos[1]))
    return out


CORE = {'fazang_env_mod', 'fazang_tape_mod', 'fazang_vari_mod', 'fazang_var_mod', 'fazang_arith_mod', 'fazang_value_of_mod', 'fazang_rel_operator_mod',
        'fazang_array_in_tape_mod', 'fazang_nested_tape_mod'}


def seek(eng, op, an, rng, allg, seen_t, seen_f, tries=4):
    """Values of scalar arguments near which a guard of the extracted terms changes direction."""
    out = set()
    M = eng.machine
    roots = [an.vals] + ([] if op.real else [an.adj])
    want = [g for g in allg if g.op in ('rlt', 'rle', 'req') and not (g in seen_t and g in seen_f)]
    if not want:
        return out
    for _ in range(tries):
        val = None
        for _ in range(30):
            v = Valuation(op, rng, (), (), False, alias=False, sizes={d: 2 for d in op.dims})
            if op.okv is None or op.okv(v.nested()):
                val = v
                break
        if val is None:
            return out
        for n, k, dims, dom in op.args:
            if not val.args[n]:
                continue
            ix = rng.choice(sorted(val.args[n]))

            def probe(x):
                over = val.clone(n, ix, x)
                if not dom.inside(over.args[n][ix], False):
                    return None
                b = over.binds(M)
                if not op.real:
                    if not op.res:
                        b[sym('A', 'r')] = mpf(1)
                    else:
                        b[asym('A', len(op.res), 'r')] = lambda ix: mpf(1)
                ev = Evaluator(b, MP)
                ev.diffs = {}
                try:
                    v = ev(an.vals)
                    if op.res:
                        for ii in itertools.product(*[range(1, val.sizes[d] + 1) for d in op.res]):
                            v.get(ii)
                    if not op.real:
                        for hh in range(1, over.nv + 1):
                            ev.ev(an.adj, Env(ev, ev.root, {an.h: hh}))
                except (Poison, Unmodelled, Tick, AssertionError):
                    pass
                return ev.diffs
            grid = [s * mpf(10) ** e for s in (-1, 1) for e in (-8, -5, -3, -2, -1, -0.5, 0, 0.3, 0.6, 1, 1.3, 1.7, 2, 2.5, 3, 4, 6, 9, 12)] + [mpf(0)]
            if dom.lo is not None and dom.hi is not None:
                grid += [dom.lo + (dom.hi - dom.lo) * mpf(q) / 16 for q in range(17)]
            grid = sorted(set(grid))
            prev = None
            for x in grid:
                d = probe(x)
                if d is None:
                    prev = None
                    continue
                if prev is not None:
                    for g in want:
                        a, c = prev[1].get(g), d.get(g)
                        if a is None or c is None or mpmath.isnan(a) or mpmath.isnan(c) or (a > 0) == (c > 0) and a != 0 and c != 0:
                            continue
                        lo, hi, flo = prev[0], x, a
                        for _ in range(60):
                            mid = (lo + hi) / 2
                            dm = (probe(mid) or {}).get(g)
                            if dm is None or mpmath.isnan(dm):
                                break
                            if (dm > 0) == (flo > 0):
                                lo = mid
                            else:
                                hi = mid
                        out.add(Fraction(float(hi)))
                        if len(out) > 40:
                            return out
                prev = (x, d)
    return out


def check_op(eng, op, seed, npoints, want=('value', 'adj', 'disturb', 'abort', 'bounds')):
    """Extract and decide all obligations of an operation; returns OpReport."""
    rep = OpReport(op)
    rng = random.Random('%s/%s' % (seed, op.name))
    mpmath.mp.dps = 60
    try:
        an = eng.analyse(op)
    except DeadPath:
        rep.findings.append(Finding('abort', op.name, 'every continuation of the operation stops the program', '', []))
        return rep
    except StaleChain as e:
        rep.findings.append(Finding('stale', op.name, str(e), '', ['%s:%s' % (str(e.pos[0]).replace('/repo/', ''), e.pos[1])] if e.pos else []))
        return rep
    except Undecided as e:
        rep.undecided = str(e)
        return rep
    M = eng.machine
    rep.procs = sorted(an.fwd | an.bwd)
    where_f = locate(eng.interp, an.fwd)
    where_b = locate(eng.interp, an.bwd) or where_f
    roots = [an.vals]
    if not op.real:
        roots.append(an.adj)
        roots += [an.st1.mem[k] for k in an.st1.mem if an.st1.mem[k] is not an.st0.mem.get(k)]
    roots += [pc for pc, _ in an.aborts]
    rc, icn = consts(roots)
    icn = {c for c in icn if c > 3}
    allg = atoms(roots)
    seen_t, seen_f = set(), set()
    if not op.real and 'disturb' in want:
        prove_undisturbed(eng, an, rep)
    if 'inert' in want:
        prove_inert(an, rep)
    bad = set()
    sought = False
    for pt in range(npoints):
        if pt == npoints // 3 and not sought:
            sought = True
            try:
                rc = rc | seek(eng, op, an, rng, allg, seen_t, seen_f)
            except (ZeroDivisionError, ValueError, OverflowError):
                pass
        interior = 'adj' in want and rng.random() < (0.5 if set(want) & {'value', 'abort'} else 1.0)
        val = None
        for _ in range(60):
            v = Valuation(op, rng, rc, icn, interior)
            nest = v.nested()
            okf = op.ok if interior else (op.okv or None)
            if okf is not None and not okf(nest):
                continue
            val = v
            break
        if val is None:
            continue
        rep.points += 1
        b = val.binds(M)
        A = {}
        shape = [val.sizes[d] for d in op.res]
        for ix in itertools.product(*[range(1, n + 1) for n in shape]):
            A[ix] = dbl(rng.choice((1.0, -1.0, rng.gauss(0, 1), rng.gauss(0, 1))))
        if not op.res:
            b[sym('A', 'r')] = A[()]
        else:
            b[asym('A', len(op.res), 'r')] = lambda ix: A[ix]
        ev = Evaluator(b, MP)

        def fail(kind, msg, where):
            if kind in bad:
                return
            bad.add(kind)
            rep.findings.append(Finding(kind, op.name, msg, val.describe(), where))
        try:
            check_point(eng, op, an, rep, ev, val, A, interior, want, fail, where_f, where_b)
        except Tick:
            rep.undecided = 'evaluation limit'
            continue
        except Unmodelled as u:
            rep.undecided = 'no meaning for %s' % u
            break
        finally:
            for g, m in ev.guards.items():
                if m & 1:
                    seen_t.add(g)
                if m & 2:
                    seen_f.add(g)
    rep.guards = (len([g for g in allg if g in seen_t]) + len([g for g in allg if g in seen_f]), 2 * len(allg))
    if rep.points == 0:
        rep.undecided = rep.undecided or 'no valuation in the domain'
    return rep


def check_point(eng, op, an, rep, ev, val, A, interior, want, fail, where_f, where_b):
    # aborts
    stop = False
    for pc, pos in an.aborts:
        if possible(ev, pc):
            stop = True
            if 'abort' in want:
                fail('abort', 'stops the program for an argument inside the domain', ['%s:%s' % (str(pos[0]).replace('/repo/', ''), pos[1])])
    if 'abort' in want:
        rep.facts += 1
    if stop:
        return
    try:
        spec = flat(op.f(val.nested()), op.res, val.sizes)
    except (ZeroDivisionError, ValueError):
        return
    if any(mpmath.isnan(x) or (x != 0 and not (mpf(10) ** -290 < abs(x) < mpf(10) ** 290)) for x in spec.values()):
        return
    if 'value' in want:
        try:
            for ix, x in spec.items():
                got = ev(an.vals) if not op.res else ev(an.vals).get(ix)
                rep.facts += 1
                if not close(got, x, op.tol):
                    fail('value', 'value is %s, documented function gives %s%s' % (nstr(got), nstr(x), ' at element %s' % (ix,) if ix else ''), where_f)
                    break
        except Poison as p:
            fail('value', 'the value depends on %s' % p, where_f)
    if op.real:
        return
    if 'disturb' in want:
        m = disturbed(eng, an, an.st0, an.st1, ev, val)
        rep.facts += 1
        if m:
            fail('disturb', m, where_f)
    if 'inert' in want:
        rep.facts += 1
        try:
            m = inert(eng, an, ev, val)
        except Poison as p:
            m = 'back-propagation reads %s' % p
        if m:
            fail('inert', m, where_b)
    if interior and 'adj' in want:
        want_adj = dict(val.adj0)
        gr = gradients(op, val, A)
        if any(isinstance(g, mpmath.mpc) or mpmath.isnan(g) or (g != 0 and not (mpf(10) ** -290 < abs(g) < mpf(10) ** 290)) for g in gr.values()):
            return
        for (n, ix), g in gr.items():
            want_adj[val.handles[n][ix]] += g
        try:
            for hh in range(1, val.nv + 1):
                e2 = Env(ev, ev.root, {an.h: hh})
                got = ev.ev(an.adj, e2)
                rep.facts += 1
                if not close(got, want_adj[hh], op.tol * 10):
                    fail('adj', 'adjoint of variable %d becomes %s, chain rule gives %s (initial adjoint %s)' % (hh, nstr(got), nstr(want_adj[hh]), nstr(val.adj0[hh])), where_b)
                    break
            m = swept(eng, an, ev, val)
            rep.facts += 1
            if m:
                fail('adj', m, where_b)
        except Poison as p:
            fail('adj', 'the adjoint depends on %s' % p, where_b)
    if 'bounds' in want:
        m = obligations(an.obls, ev, val)
        if m:
            fail('bounds', m[0], [m[1]])


def nstr(x):
    if isinstance(x, Garbage):
        return 'bits of something that is not a real'
    return mpmath.nstr(x, 15)


KEYS = {'i': (CS, ('varis', 'i')), 'chain': (CS, ('varis', 'chain')), 'S': (CS, ('stack', 'storage'))}


def prove_undisturbed(eng, an, rep):
    """Syntactic proof, for every size and fill level, that everything below the heads is unchanged."""
    M = eng.machine
    h = sym('hq', 'i', ONE, isub(M.HV, ONE))
    y = sym('yq', 'i', ONE, isub(M.H, ONE))
    for nm, q in (('i', h), ('chain', h), ('S', y)):
        a, b = sel(an.st0.mem[KEYS[nm]], q), sel(an.st1.mem[KEYS[nm]], q)
        if a is b:
            rep.proved.append(nm)


def prove_inert(an, rep):
    for nm, key in (('heads', (CS, ('head',))), ('tapehead', (CS, ('stack', 'head'))), ('i', KEYS['i']), ('chain', KEYS['chain']), ('size', (CS, ('stack', 'storage_size')))):
        if an.st1.mem[key] is an.st2.mem[key]:
            rep.proved.append(nm)


def same_word(a, b):
    if isinstance(a, Word) and isinstance(b, Word):
        return a.k == b.k and (a.v is b.v or a.v == b.v)
    if isinstance(a, Word) or isinstance(b, Word):
        return False
    return a == b


def disturbed(eng, an, st0, st1, ev, val):
    I1, C1, S1 = [ev(st1.mem[KEYS[k]]) for k in ('i', 'chain', 'S')]
    for h in range(1, val.nv + 1):
        try:
            if I1.get((h,)) != val.start[h]:
                return 'variable %d, which existed before, is moved to another tape record' % h
            if C1.get((h,)) != 'CH0(%d)' % h:
                return 'variable %d, which existed before, gets another propagation rule (%s)' % (h, C1.get((h,)))
        except Poison as p:
            return 'registry entry %d becomes undefined (%s)' % (h, p)
    for y in range(1, val.H):
        try:
            if not same_word(S1.get((y,)), val.word((y,))):
                return 'tape cell %d, recorded before, is overwritten (%s)' % (y, what_cell(val, y))
        except Poison as p:
            return 'tape cell %d becomes undefined (%s)' % (y, p)
    if ev(st1.mem[(CS, ('head',))]) < val.HV or ev(st1.mem[(CS, ('stack', 'head'))]) < val.H:
        return 'the record of earlier variables is dropped'
    return None


def what_cell(val, y):
    for h, s in val.start.items():
        if s <= y < s + 6:
            return {0: 'value', 1: 'value', 2: 'adjoint', 3: 'adjoint'}.get(y - s, 'record') + ' of variable %d' % h
    return 'record data'


def swept(eng, an, ev, val):
    """Everything except adjoints is unchanged by the sweep."""
    S2 = ev(an.st2.mem[KEYS['S']])
    adj = {s + k for s in val.start.values() for k in (2, 3)}
    for y in range(1, val.H):
        if y in adj:
            continue
        if not same_word(S2.get((y,)), val.word((y,))):
            return 'back-propagation overwrites tape cell %d (%s)' % (y, what_cell(val, y))
    if ev(an.st2.mem[(CS, ('head',))]) != ev(an.st1.mem[(CS, ('head',))]):
        return 'back-propagation records or drops variables'
    return None


def inert(eng, an, ev, val):
    """The whole sweep, including the nodes of the operation itself, only changes adjoints."""
    m1, m2 = an.st1.mem, an.st2.mem
    for key, what in (((CS, ('head',)), 'number of recorded variables'), ((CS, ('stack', 'head')), 'number of used tape cells'),
                      ((CS, ('stack', 'storage_size')), 'size of the tape'), ((CS, ('n_varis',)), 'size of the registry')):
        if m1.get(key) is not m2.get(key) and ev(m1[key]) != ev(m2[key]):
            return 'back-propagation changes the %s from %s to %s' % (what, ev(m1[key]), ev(m2[key]))
    hv, h = ev(m1[(CS, ('head',))]), ev(m1[(CS, ('stack', 'head'))])
    I1, C1, S1 = [ev(m1[KEYS[k]]) for k in ('i', 'chain', 'S')]
    I2, C2, S2 = [ev(m2[KEYS[k]]) for k in ('i', 'chain', 'S')]
    adj = set()
    for k in range(1, min(hv, val.HV + 80)):
        if I1 is not I2 and I1.get((k,)) != I2.get((k,)):
            return 'back-propagation moves variable %d to another record' % k
        if C1 is not C2 and C1.get((k,)) != C2.get((k,)):
            return 'back-propagation gives variable %d another propagation rule' % k
        adj |= {I1.get((k,)) + 2, I1.get((k,)) + 3}
    if hv > val.HV + 80:
        return None
    if S1 is not S2:
        for y in range(1, min(h + 12, val.H + 900)):
            if y in adj:
                continue
            if not same_word(S1.get((y,)), S2.get((y,))):
                return 'back-propagation overwrites tape cell %d (%s)' % (y, what_cell(val, y) if y < val.H else 'free cell' if y >= h else 'of the record of the operation')
    return None


def possible(ev, pc):
    """Does the path condition hold for some value of the loop variables it mentions?"""
    free = [x for x in fv(pc) if x.op == 's' and x not in ev.root.binds and x in BOUNDS]
    if not free:
        return bool(ev(pc))
    rngs = []
    for x in free:
        lo, hi = BOUNDS[x]
        if not lo or not hi:
            raise Unmodelled('free symbol %s' % show(x))
        lo = max(ev(t) for t in lo)
        hi = min(ev(t) for t in hi)
        rngs.append(range(lo, min(hi, lo + 60) + 1))
    for vs in itertools.product(*rngs):
        if ev.ev(pc, Env(ev, ev.root, dict(zip(free, vs)))):
            return True
    return False


def obligations(obls, ev, val):
    for pc, c, pos, what in obls:
        free = [x for x in (fv(pc) | fv(c)) if x.op == 's' and x not in ev.root.binds and x in BOUNDS]
        at = '%s:%s' % (str(pos[0]).replace('/repo/', ''), pos[1]) if pos else ''
        try:
            if not free:
                if ev(pc) and not ev(c):
                    return what, at
                continue
            if len(free) > 2:
                continue
            rngs = []
            for x in free:
                lo, hi = BOUNDS[x]
                if not lo or not hi:
                    break
                lo = max(ev(t) for t in lo)
                hi = min(ev(t) for t in hi)
                rngs.append(range(lo, min(hi, lo + 60) + 1))
            else:
                for vs in itertools.product(*rngs):
                    e = Env(ev, ev.root, dict(zip(free, vs)))
                    if ev.ev(pc, e) and not ev.ev(c, e):
                        return what, at
        except (Unmodelled, Poison):
            continue
    return None
