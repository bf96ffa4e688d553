"""Obligations about small client programs over an arbitrary state of the AD machine.

A scenario is a Fortran subroutine `hz_op` (inputs, then outputs) that uses the library's own
entry points.  The value-flow analysis extracts, for an arbitrary registry, tape and arguments, the
outputs and the machine state afterwards as terms; the terms are then compared with the
specification of the scenario, a Python function of the same inputs."""
import random
import itertools
from .opcheck import *
from .report import Report
from .par import parmap


class Scen:
    """args: (name, kind, dims, dom); kind v (variable), d (real), i (integer), s (tape location of a
    variable); outs: (name, kind, dims) with kind d, i, l, v.
    spec(val) -> {out: scalar or {index: value}};  post(val, X) -> message or None, X a `Post`."""

    def __init__(self, name, body, args, outs, spec=None, post=None, use='', extra='', mode='roomy', decl='', ok=None,
                 alias=True, interior=True, abort='no', sizes=None, group='', setup=None, cells=True, chainspec=None, stale=False, tol=1e-15,
                 anchor='', extents=None, points=None, distinct=False, marks=0, const=None, handler=None, okargs=False):
        # okargs: variable arguments must exist already at the first mark
        self.name, self.body, self.args, self.outs = name, body, args, outs
        self.spec, self.post, self.use, self.extra, self.mode, self.decl = spec, post, use, extra, mode, decl
        self.okv, self.alias, self.interior, self.abort, self.fixsizes = ok, alias, interior, abort, sizes
        self.setup, self.tol, self.anchor, self.extents, self.npoints = setup, tol, anchor, extents, points
        self.distinct, self.marks, self.const, self.handler = distinct, marks, const or {}, handler
        self.okargs = okargs
        self.res = ()

    @property
    def dims(self):
        out = []
        for _, _, d, _ in self.args:
            for x in d:
                if x not in out:
                    out.append(x)
        for x in (self.extents or ()):
            if x not in out:
                out.append(x)
        return out

    def text(self):
        names = [a[0] for a in self.args] + [o[0] for o in self.outs]
        # sizes come first as explicit integer arguments so that outputs can use them
        szs = ['n_' + d for d in self.dims]
        L = ['module hz_%s' % self.name]
        for u in ['fazang_env_mod'] + self.use.split():
            L.append(' use ' + u)
        L += [' use hz_common', ' implicit none', self.extra_decl(), 'contains']
        L.append(' subroutine hz_op(%s)' % ', '.join(szs + names))
        for s in szs:
            L.append('   integer, intent(in) :: ' + s)
        for n, k, d, _ in self.args:
            t = {'v': 'type(var)', 'd': 'real(rk)', 'i': 'integer(ik)', 's': 'integer(ik)'}[k]
            L.append('   %s, intent(in) :: %s%s' % (t, n, '(%s)' % ', '.join('n_' + x for x in d) if d else ''))
        for n, k, d in self.outs:
            t = {'v': 'type(var)', 'd': 'real(rk)', 'i': 'integer(ik)', 'l': 'logical'}[k]
            L.append('   %s, intent(out) :: %s%s' % (t, n, '(%s)' % ', '.join(self.ext(x) for x in d) if d else ''))
        L += ['   ' + x for x in self.decl.splitlines()]
        L += ['   ' + x for x in self.body.splitlines()]
        L += [' end subroutine'] + [self.extra_procs(), 'end module']
        return '\n'.join(L) + '\n'

    def extra_decl(self):
        return self.extra.split('contains')[0] if self.extra else ''

    def extra_procs(self):
        return self.extra.split('contains', 1)[1] if 'contains' in self.extra else ''

    def ext(self, x):
        return 'n_' + x if x in self.dims else x


class SMachine(Machine):
    """roomy: both arrays have room for anything; tight: any fill level up to completely full;
    empty: nothing allocated yet."""

    def __init__(self, interp, mode):
        Machine.__init__(self, interp)
        self.mode = mode
        if mode == 'tight':
            self.CAPV = sym('CAPtV', 'i', ONE)
            self.CAP = sym('CAPt', 'i', ONE)
            BOUNDS[self.HV] = ([ONE], [iadd(self.CAPV, ONE)]) if False else BOUNDS.get(self.HV)
        if mode == 'empty':
            self.HV = ONE
            self.H = ONE
            self.CAP = self.CAPV = ZERO

    def state(self):
        st = Machine.state(self)
        m = st.mem
        if self.mode == 'tight':
            z = fresh('z')
            m[(CS, ('stack', 'storage'))] = lam((z,), ite(ge0(isub(isub(self.H, ONE), z)), sel(self.S0, z), ZERO))
        if self.mode == 'empty':
            m[(CS, ('varis', '#a'))] = FALSE
            m[(CS, ('stack', 'storage', '#a'))] = FALSE
        return st


class SVal(Valuation):
    def __init__(self, sc, rng, iconsts=(), rconsts=()):
        self.sc = sc
        self.mode = sc.mode

        class Shim:
            pass
        self.ordered = bool(sc.marks)
        op = Shim()
        op.dims = sc.dims
        op.args = [a for a in sc.args if a[1] in 'vd']
        Valuation.__init__(self, op, rng, rconsts, iconsts, sc.interior, sc.alias, sizes=sc.const or (None if sc.fixsizes is None else sc.fixsizes(rng)), distinct=sc.distinct)
        self.op = sc
        if sc.mode == 'empty':
            self.HV, self.H, self.nv = 1, 1, 0
        if sc.mode == 'tight':
            self.CAP = self.H - 1 + rng.choice((0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 20, 40))
            self.CAPV = self.HV - 1 + rng.choice((0, 0, 0, 1, 2, 3, 5, 9))
            self.CAP, self.CAPV = max(1, self.CAP), max(1, self.CAPV)
        else:
            self.CAP, self.CAPV = self.H + 10 ** 7, self.HV + 10 ** 7
        self.marks = []
        self.broken = False
        low = 1
        if sc.okargs:
            low = 1 + max([0] + [h for d in self.handles.values() for h in d.values()])
        hs = sorted(rng.randint(low, self.HV) for _ in range(sc.marks))
        for h in hs:
            end = self.start[h - 1] + 6 if h > 1 else 1
            top = self.start[h] if h < self.HV else self.H
            t = rng.choice((end, top, rng.randint(end, top)))
            if self.marks:
                t = max(t, self.marks[-1][1])
            self.marks.append((h, t))
        for n, k, dims, dom in sc.args:
            if k in 'vd':
                continue
            idx = list(itertools.product(*[range(1, self.sizes[d] + 1) for d in dims]))
            vals = {}
            for ix in idx:
                if k == 's':
                    top = self.marks[0][0] - 1 if sc.okargs and self.marks else self.nv
                    if top < 1:
                        self.broken = True
                        top = 1
                    vals[ix] = self.start[rng.randint(1, top)]
                else:
                    vals[ix] = dom(self, rng)
            self.args[n] = vals

    def binds(self, M):
        b = {M.S0: self.word,
             M.I0: lambda ix: self.start[ix[0]] if ix[0] in self.start else 1 + (ix[0] * 7919 + self.salt) % max(1, self.H - 6),
             M.CH0: lambda ix: 'CH0(%d)' % ix[0]}
        for k, v in ((M.HV, self.HV), (M.H, self.H), (M.CAP, self.CAP), (M.CAPV, self.CAPV)):
            if not is_c(k):
                b[k] = v
        for j, (h, t) in enumerate(self.marks):
            b[mk('s', ('HVm%d' % (j + 1),), 'i')] = h
            b[mk('s', ('Hm%d' % (j + 1),), 'i')] = t
        for d, n in self.sizes.items():
            b[sym('n_' + d, 'i')] = n
        for n, k, dims, dom in self.sc.args:
            src = self.handles[n] if k == 'v' else self.args[n]
            suffix = {'v': '_vi', 'd': '_d', 'i': '_i', 's': '_s'}[k]
            sort = 'r' if k == 'd' else 'i'
            if not dims:
                b[mk('s', (n + suffix,), sort)] = src[()]
            else:
                b[asym(n + suffix, len(dims), sort)] = self.lookup(n + suffix, src)
        return b

    def a(self, n, *ix):
        return self.args[n][ix]

    def h(self, n, *ix):
        return self.handles[n][ix]

    def vec(self, n):
        d = [a for a in self.sc.args if a[0] == n][0][2]
        return [self.args[n][(i,)] for i in range(1, self.sizes[d[0]] + 1)]

    def hvec(self, n):
        d = [a for a in self.sc.args if a[0] == n][0][2]
        return [self.handles[n][(i,)] for i in range(1, self.sizes[d[0]] + 1)]

    def describe(self):
        out = ['%s=%d' % x for x in self.sizes.items()]
        out.append('%d variables recorded, %d tape cells in use%s' % (self.HV - 1, self.H - 1, ' of %d' % self.CAP if self.mode == 'tight' else ''))
        for n, k, dims, dom in self.sc.args:
            vals = self.args[n]
            f = (lambda x: mpmath.nstr(x, 8)) if k in 'vd' else str
            its = sorted(vals)[:10]
            out.append('%s=%s%s' % (n, f(vals[()]) if not dims else '[%s]' % ', '.join(f(vals[i]) for i in its),
                                    ' (variables %s)' % [self.handles[n][i] for i in its] if k == 'v' else ''))
        return ', '.join(out)


class Post:
    """The state after the scenario at one valuation."""

    def __init__(self, ev, an, val):
        self.ev, self.an, self.val = ev, an, val
        st = an.st1
        self.I = ev(st.mem[KEYS['i']])
        self.C = ev(st.mem[KEYS['chain']])
        self.S = ev(st.mem[KEYS['S']])
        self.head = ev(st.mem[(CS, ('head',))])
        self.thead = ev(st.mem[(CS, ('stack', 'head'))])
        self.size = ev(st.mem[(CS, ('stack', 'storage_size'))])
        self.nvaris = ev(st.mem[(CS, ('n_varis',))])
        self.alloc = ev(st.mem[(CS, ('stack', 'storage', '#a'))])
        self.valloc = ev(st.mem[(CS, ('varis', '#a'))])
        self.extent = ev(st.mem[(CS, ('stack', 'storage', '#n1'))])
        self.vextent = ev(st.mem[(CS, ('varis', '#n1'))])

    def at(self, val):
        import copy
        x = copy.copy(self)
        x.val = val
        return x

    def real(self, p):
        a, b = self.S.get((p,)), self.S.get((p + 1,))
        if isinstance(a, Word) and isinstance(b, Word) and a.k == 0 and b.k == 1 and (a.v is b.v or a.v == b.v):
            return a.v
        if a == 0 and b == 0:
            return mpf(0)
        return Garbage(a, b)

    def value(self, h):
        return self.real(self.I.get((h,)))

    def adjoint(self, h):
        return self.real(self.I.get((h,)) + 2)

    def unchanged(self, adj=None, vals=None, head=True, below=None):
        """Everything recorded before is as it was, except the listed {handle: adjoint / value}."""
        v = self.val
        adj, vals = adj or {}, vals or {}
        HV, H = below or (v.HV, v.H)
        for h in range(1, HV):
            if self.I.get((h,)) != v.start[h]:
                return 'variable %d is moved to another tape record' % h
            if self.C.get((h,)) != 'CH0(%d)' % h:
                return 'variable %d gets another propagation rule (%s)' % (h, self.C.get((h,)))
        skip = set()
        for m, off, what in ((vals, 0, 'value'), (adj, 2, 'adjoint')):
            for h, x in m.items():
                p = v.start[h] + off
                skip |= {p, p + 1}
                got = self.real(p)
                if not close(got, x, 1e-13):
                    return '%s of variable %d becomes %s instead of %s' % (what, h, nstr(got), nstr(x))
        for y in range(1, H):
            if y not in skip and not same_word(self.S.get((y,)), v.word((y,))):
                return 'tape cell %d is overwritten (%s)' % (y, what_cell(v, y))
        if head and (self.head < HV or self.thead < H):
            return 'the record of earlier variables is dropped'
        return None

    def heads(self, dv, dt):
        v = self.val
        if self.head != v.HV + dv:
            return 'the number of recorded variables changes by %d instead of %d' % (self.head - v.HV, dv)
        if dt is not None and self.thead != v.H + dt:
            return 'the number of used tape cells changes by %d instead of %d' % (self.thead - v.H, dt)
        return None

    def fresh(self, n, cells=True):
        """n new variables with clean records after the old ones."""
        v = self.val
        m = self.heads(n, None)
        return m


class SEngine:
    def __init__(self, prog):
        self.prog = prog
        self.interp = Interp(prog)
        self.interp.opaque = self.opaque
        self.machines = {}
        self.handler = None

    def machine(self, mode):
        if mode not in self.machines:
            self.machines[mode] = SMachine(self.interp, mode)
        return self.machines[mode]

    def opaque(self, I, t, acts, st, pos):
        M = self.M
        if self.handler is not None:
            r = self.handler(self, I, t, acts, st, pos)
            if r is not NotImplemented:
                return r
        if t.op == 'sel' and t.args[0] is M.CH0 and prove_ge0(isub(t.args[1], M.HV)):
            I.oblige(FALSE, pos, STALE)
            return None
        return NotImplemented

    def analyse(self, sc):
        I = self.interp
        M = self.M = self.machine(sc.mode)
        TM._pc_stack.clear()
        I.pcs = []
        self.prog.load_text(sc.text(), 'hz_' + sc.name)
        m = self.prog.modules['hz_' + sc.name]
        for p in m.procs.values():
            I._regproc(p)
        sizes = {d: ci(sc.const[d]) if d in sc.const else sym('n_' + d, 'i', ZERO) for d in sc.dims}
        I.on_call = self.on_call
        I.events, I.obls, I.aborts, I.cuts, I.softstops = [], [], [], [], []
        I.visited = set()
        I.nbound = 0
        I.while_unroll = 3 if sc.mode == 'tight' else 0
        st = M.state()
        self.marks = []
        up, upt = M.HV, M.H
        for j in range(sc.marks, 0, -1):
            up, upt = sym('HVm%d' % j, 'i', ONE, up), sym('Hm%d' % j, 'i', ONE, upt)
            self.marks.insert(0, (up, upt))
        self.marks.append((M.HV, M.H))
        if sc.marks:
            self.setheads(st, 0, True)
        hi = isub(M.HV, ONE)
        acts = [Actual(None, val=VS(sizes[d])) for d in sc.dims]
        for n, k, dims, dom in sc.args:
            shape = tuple(sizes[d] for d in dims)
            typ = {'v': VAR, 'd': R8, 'i': I4, 's': I4}[k]
            path = ('vi',) if k == 'v' else ()
            sfx = {'v': '_vi', 'd': '_d', 'i': '_i', 's': '_s'}[k]
            sort = 'r' if k == 'd' else 'i'
            if not dims:
                lo = up = None
                if k == 'v':
                    lo, up = ONE, hi
                elif k == 's':
                    lo, up = ONE, isub(M.H, ci(REC))
                t = sym(n + sfx, sort, lo, up)
            else:
                t = asym(n + sfx, len(dims), sort)
                if k == 'v':
                    ABOUNDS[n + sfx] = ([ONE], [hi])
                elif k == 's':
                    ABOUNDS[n + sfx] = ([ONE], [isub(M.H, ci(REC))])
            acts.append(Actual(None, val=Val(typ, shape, {path: t})))
        R = Analysed()
        if sc.setup:
            sc.setup(self, st, sizes)
        R.st0 = st.copy()
        outs = []
        p = m.procs['hz_op']
        for n, k, dims in sc.outs:
            typ = {'v': VAR, 'd': R8, 'i': I4, 'l': L4}[k]
            fr = Frame(p)
            ns = []
            for x in dims:
                if x in sizes:
                    ns.append(sizes[x])
                else:
                    ns.append(self.extent(x, sizes, sc, acts))
            d = I.newcell(st, typ, 'out_' + n, ns if dims else None)
            outs.append((n, k, d))
            acts.append(Actual(None, des=d))
        I.invoke(p, acts, st, None)
        R.outs = {}
        for n, k, d in outs:
            v = I.read(st, d.ref)
            R.outs[n] = v.leaves[('vi',) if k == 'v' else ()]
        R.st1 = st.copy()
        R.obls, R.aborts, R.cuts = list(I.obls), list(I.aborts), list(I.cuts)
        R.visited = set(I.visited)
        R.nbound = I.nbound
        return R

    def setheads(self, st, j, start=False):
        M = self.M
        hv, h = self.marks[j]
        m = st.mem
        kh, kt = (CS, ('head',)), (CS, ('stack', 'head'))
        z = fresh('z')
        if start:
            m[KEYS['S']] = lam((z,), ite(ge0(isub(isub(h, ONE), z)), sel(M.S0, z), ZERO))
        else:
            cur, ci_, cc = m[KEYS['S']], m[KEYS['i']], m[KEYS['chain']]
            m[KEYS['S']] = lam((z,), ite(ge0(isub(isub(m[kt], ONE), z)), sel(cur, z), ite(ge0(isub(isub(h, ONE), z)), sel(M.S0, z), ZERO)))
            if ci_ is not M.I0:
                m[KEYS['i']] = lam((z,), ite(ge0(isub(isub(m[kh], ONE), z)), sel(ci_, z), sel(M.I0, z)))
            if cc is not M.CH0:
                m[KEYS['chain']] = lam((z,), ite(ge0(isub(isub(m[kh], ONE), z)), sel(cc, z), sel(M.CH0, z)))
        m[kh], m[kt] = hv, h

    def on_call(self, I, p, acts, st, pos):
        if p.key == 'hz_common::hz_more':
            self.setheads(st, int(cval(I.aval(acts[0], st).s)))
            return None
        return NotImplemented

    def extent(self, x, sizes, sc, acts):
        """Small integer expressions over size names: sums of names and constants, or an integer argument."""
        total = ZERO
        for part in x.replace('-', '+-').split('+'):
            part = part.strip()
            neg = part.startswith('-')
            part = part.lstrip('-').strip()
            f = ONE
            for q in part.split('*'):
                q = q.strip()
                if q.isdigit():
                    t = ci(int(q))
                elif q.startswith('n_'):
                    t = sizes[q[2:]]
                else:
                    t = mk('s', (q + '_i',), 'i')
                f = imul(f, t)
            total = isub(total, f) if neg else iadd(total, f)
        return total


class SReport:
    def __init__(self, name):
        self.name = name
        self.findings = []
        self.undecided = None
        self.points = self.facts = self.nbound = self.nobl = 0
        self.procs = []


def soft(eng, sc, rep):
    if getattr(sc, 'what', None):
        for pos in eng.interp.softstops:
            rep.findings.append((sc.name, sc.what.replace('the solve returns', 'the program ends without an error status'), '', ['%s:%s' % (str(pos[0]).replace('/repo/', ''), pos[1])]))


def check_scen(eng, sc, seed, npoints):
    rep = SReport(sc.name)
    rng = random.Random('%s/%s' % (seed, sc.name))
    mpmath.mp.dps = 60
    eng.handler = sc.handler
    try:
        an = eng.analyse(sc)
    except DeadPath:
        I = eng.interp
        rep.procs = sorted(p for p in I.visited if not p.startswith(getattr(I, 'hide', ('hz_',))))
        hit = False
        for pc, c, pos, what in I.obls:
            if c is FALSE:
                hit = True
                if pc is TRUE:
                    rep.findings.append((sc.name, '%s is violated' % what, '', ['%s:%s' % (str(pos[0]).replace('/repo/', ''), pos[1])] if pos else []))
        if hit and not rep.findings:
            rep.undecided = 'a pointer that may not be associated'
        if hit:
            rep.facts = 1
            return rep
        if sc.abort in ('must', 'may'):
            rep.points, rep.facts = 1, 1
            soft(eng, sc, rep)
            rep.procs = sorted(p for p in eng.interp.visited if not p.startswith(getattr(eng.interp, 'hide', ('hz_',))))
            return rep
        rep.findings.append((sc.name, 'every continuation stops the program', '', [sc.anchor]))
        return rep
    except StaleChain as e:
        rep.findings.append((sc.name, str(e), '', ['%s:%s' % (str(e.pos[0]).replace('/repo/', ''), e.pos[1])] if e.pos else []))
        return rep
    except Undecided as e:
        rep.undecided = str(e)
        return rep
    except RecursionError:
        rep.undecided = 'recursion depth'
        return rep
    soft(eng, sc, rep)
    rep.nbound = an.nbound
    rep.nobl = len(an.obls)
    rep.procs = sorted(p for p in an.visited if not p.startswith(getattr(eng.interp, 'hide', ('hz_',))))
    where = places(eng.interp, an.visited)
    roots = list(an.outs.values()) + [an.st1.mem[k] for k in an.st1.mem if an.st1.mem[k] is not an.st0.mem.get(k)]
    rc, icn = consts(roots)
    icn = {c for c in icn if 3 < c < 60}
    bad = set()

    def fail(kind, msg, w=None):
        if kind not in bad:
            bad.add(kind)
            rep.findings.append((sc.name, msg, val.describe(), w or where))
    M = eng.M
    for pt in range(sc.npoints or npoints):
        val = None
        for _ in range(60):
            v = SVal(sc, rng, icn, rc)
            if not v.broken and (sc.okv is None or sc.okv(v)):
                val = v
                break
        if val is None:
            continue
        ev = Evaluator(val.binds(M), MP)
        try:
            cut = False
            for pc in an.cuts:
                if possible(ev, pc):
                    cut = True
            if cut:
                continue
            stop = None
            for pc, pos in an.aborts:
                if possible(ev, pc):
                    stop = '%s:%s' % (str(pos[0]).replace('/repo/', ''), pos[1])
            rep.points += 1
            if stop:
                rep.facts += 1
                if sc.abort == 'no':
                    fail('abort', 'stops the program', [stop])
                continue
            if sc.abort == 'must':
                rep.facts += 1
                fail('abort', 'continues instead of stopping the program')
                continue
            m = obligations(an.obls, ev, val)
            rep.facts += len(an.obls)
            if m:
                fail('bounds', m[0] + ' is violated', [m[1]])
                continue
            if sc.spec is not None:
                exp = sc.spec(val)
                for n, k, dims in sc.outs:
                    if n not in exp:
                        continue
                    x = exp[n]
                    if n == 'h' and isinstance(x, dict):
                        # handles of several new variables: which element gets which one is not observable
                        got = ev(an.outs[n])
                        rep.facts += 1
                        if sorted(got.get(ix) for ix in x) != sorted(x.values()):
                            fail('out', 'the elements get the handles %s, expected each of %d..%d once' % ([got.get(ix) for ix in x], min(x.values()), max(x.values())))
                        continue
                    ite_ = x.items() if isinstance(x, dict) else [((), x)]
                    for ix, y in ite_:
                        got = ev(an.outs[n]) if not ix else ev(an.outs[n]).get(ix)
                        rep.facts += 1
                        same = close(got, y, sc.tol) if k == 'd' else got == y
                        if not same:
                            fail('out', getattr(sc, 'what', None) or '%s%s is %s, expected %s' % (n, list(ix) if ix else '', nstr(got) if k == 'd' else got, nstr(y) if k == 'd' else y))
                            break
            if sc.post is not None:
                m = sc.post(val, Post(ev, an, val))
                rep.facts += 1
                if m:
                    fail('state', m)
        except Poison as p:
            fail('undef', 'the outcome depends on %s' % p)
        except Tick:
            rep.undecided = 'evaluation limit'
        except Unmodelled as u:
            rep.undecided = 'no meaning for %s' % u
            break
    if not rep.points and not rep.undecided:
        rep.undecided = 'no valuation in the domain'
    return rep


def places(interp, keys):
    out = []
    for k in sorted(keys):
        p = interp.procs.get(k)
        if p is None or k.startswith(getattr(interp, 'hide', ('hz_',))) or p.module.name == 'fazang_env_mod':
            continue
        pos = p.ast.pos
        out.append('%s (%s:%s)' % (k, str(pos[0]).replace('/repo/', ''), pos[1]))
    return out


def run_scens(rep, eng, scens, seed, npoints, nproc=8, timeout=400):
    for sc, (st, r) in zip(scens, parmap(lambda s: check_scen(eng, s, seed, npoints), scens, nproc, timeout)):
        if st == 'error':
            rep.undec(sc.name, r.strip().splitlines()[-1] if r.strip() else 'failed')
            continue
        if r.undecided:
            rep.undec(sc.name, r.undecided)
        rep.analysed |= set(r.procs)
        rep.facts += r.facts
        rep.points += r.points
        rep.extra['subscripts_proved_in_bounds_for_all_inputs'] = rep.extra.get('subscripts_proved_in_bounds_for_all_inputs', 0) + r.nbound
        rep.extra['bounds_conditions_evaluated'] = rep.extra.get('bounds_conditions_evaluated', 0) + r.nobl
        rep.subject(sc.name, code=' ; '.join(sc.body.split('\n'))[:300], start=sc.mode, valuations=r.points, facts=r.facts)
        for key, msg, sample, where in r.findings:
            rep.bad(key, msg, sample, where)
    return rep
