"""P60: memory ownership: everything the library allocates is released exactly once, nothing of the user's is."""
import random
from .cvk import *

RULE = ('along every sequence of set-up, option and re-initialisation calls followed by the release of the solver, every block the library allocated is released exactly once, nothing is used '
        'after its release or before it holds a value, nothing that belongs to the user is released or (input data) changed, and a released handle is cleared')
CVM = 'CVodeMemRec'


def tasks(tier, seed):
    out = []

    class H(Cv):
        """one solver under construction; the user's own objects are made first"""

        def __init__(self, lmm=BDF, Ns=2):
            super().__init__(lmm, 2, init=False)
            self.Ns = Ns
            n = 2
            self.srhs1 = self.hook('user_sens1', self.h_sens1)
            self.quad = self.hook('user_quad', lambda st, a, ty: 0)
            self.root = self.hook('user_root', lambda st, a, ty: 0)
            self.ewt = self.hook('user_ewt', lambda st, a, ty: 0)
            ctx = self.ctx()
            mk_ = lambda v: self.vec(n, vals=v)
            self.y = mk_([1.5, -2.0])
            self.vt = mk_([0.25, 0.5])
            self.con = mk_([0.0, 1.0])
            self.con2 = mk_([0.0, 0.0])
            self.vS = [mk_([3.0 + s, 4.0 + s]) for s in range(Ns)]
            self.pS = self.parr(self.vS)
            self.vtS = [mk_([.5 + s, .125]) for s in range(Ns)]
            self.ptS = self.parr(self.vtS)
            self.stS = self.darr([.5] * Ns)
            self.stS0 = self.darr([.5] * (Ns - 1) + [0.0])
            self.yQ = mk_([0.0, 0.0])
            self.pQS = self.parr([mk_([0.0, 0.0]) for _ in range(Ns)])
            self.A = self.call('SUNDenseMatrix', n, n, ctx)
            self.LS = self.call('SUNLinSol_Dense', self.y, self.A, ctx)
            self.nls = [self.call('SUNNonlinSol_Newton', self.y, ctx) for _ in range(2)]
            self.nlsS = {SIM: self.call('SUNNonlinSol_NewtonSens', Ns + 1, self.y, ctx), STG: self.call('SUNNonlinSol_NewtonSens', Ns, self.y, ctx), STG1: self.call('SUNNonlinSol_Newton', self.y, ctx)}
            self.theirs = {i for i, o in self.s.mem.items() if o.kind == 'heap' and o.freed is False}
            self.values = {id_: list(self.data(v)) for id_, v in self.vecs()}
            self.mem = self.call('CVodeCreate', lmm, ctx)
            self.good = [self.mem.o != 0]

        def vecs(self):
            return [('the initial state', self.y), ('the tolerances', self.vt), ('the constraints', self.con)] + [('initial sensitivity %d' % s, v) for s, v in enumerate(self.vS)] + \
                [('sensitivity tolerances %d' % s, v) for s, v in enumerate(self.vtS)]

    def init(k):
        return k.call('CVodeInit', k.mem, k.rhs, 0.0, k.y)
    C = lambda name, *a: (lambda k: k.call(name, k.mem, *[x(k) if callable(x) else x for x in a]))
    OPS = {
        'scalar tolerances': C('CVodeSStolerances', 1e-3, 1e-6),
        'vector tolerances': C('CVodeSVtolerances', 1e-3, lambda k: k.vt),
        'weight function': C('CVodeWFtolerances', lambda k: k.ewt),
        'linear solver': C('CVodeSetLinearSolver', lambda k: k.LS, lambda k: k.A),
        'own nonlinear solver': C('CVodeSetNonlinearSolver', lambda k: k.nls[0]),
        'another nonlinear solver': C('CVodeSetNonlinearSolver', lambda k: k.nls[1]),
        'restart': C('CVodeReInit', 0.5, lambda k: k.y),
        'refused restart': C('CVodeReInit', 0.5, NULL),
        'constraints': C('CVodeSetConstraints', lambda k: k.con),
        'illegal constraints': C('CVodeSetConstraints', lambda k: k.vt),
        'no constraints': C('CVodeSetConstraints', NULL),
        'two root functions': C('CVodeRootInit', 2, lambda k: k.root),
        'three root functions': C('CVodeRootInit', 3, lambda k: k.root),
        'refused root functions': C('CVodeRootInit', 2, NULL),
        'no root functions': C('CVodeRootInit', 0, NULL),
        'simultaneous sensitivities': C('CVodeSensInit', lambda k: k.Ns, SIM, lambda k: k.srhs, lambda k: k.pS),
        'staggered sensitivities': C('CVodeSensInit', lambda k: k.Ns, STG, lambda k: k.srhs, lambda k: k.pS),
        'sensitivities one at a time': C('CVodeSensInit1', lambda k: k.Ns, STG1, lambda k: k.srhs1, lambda k: k.pS),
        'refused sensitivities': C('CVodeSensInit', lambda k: k.Ns, STG, lambda k: k.srhs, NULL),
        'simultaneous sensitivity restart': C('CVodeSensReInit', SIM, lambda k: k.pS),
        'staggered sensitivity restart': C('CVodeSensReInit', STG, lambda k: k.pS),
        'one-at-a-time sensitivity restart': C('CVodeSensReInit', STG1, lambda k: k.pS),
        'scalar sensitivity tolerances': C('CVodeSensSStolerances', 1e-3, lambda k: k.stS),
        'vector sensitivity tolerances': C('CVodeSensSVtolerances', 1e-3, lambda k: k.ptS),
        'estimated sensitivity tolerances': C('CVodeSensEEtolerances'),
        'simultaneous nonlinear solver': C('CVodeSetNonlinearSolverSensSim', lambda k: k.nlsS[SIM]),
        'staggered nonlinear solver': C('CVodeSetNonlinearSolverSensStg', lambda k: k.nlsS[STG]),
        'one-at-a-time nonlinear solver': C('CVodeSetNonlinearSolverSensStg1', lambda k: k.nlsS[STG1]),
        'sensitivities off': C('CVodeSensToggleOff'),
        'sensitivities released': C('CVodeSensFree'),
        'quadratures': C('CVodeQuadInit', lambda k: k.quad, lambda k: k.yQ),
        'scalar quadrature tolerances': C('CVodeQuadSStolerances', 1e-3, 1e-6),
        'vector quadrature tolerances': C('CVodeQuadSVtolerances', 1e-3, lambda k: k.yQ),
        'quadratures released': C('CVodeQuadFree'),
        'quadrature sensitivities': C('CVodeQuadSensInit', lambda k: k.hook('user_quad_sens', lambda st, a, ty: 0), lambda k: k.pQS),
        'scalar quadrature sensitivity tolerances': C('CVodeQuadSensSStolerances', 1e-3, lambda k: k.stS),
        'vector quadrature sensitivity tolerances': C('CVodeQuadSensSVtolerances', 1e-3, lambda k: k.pQS),
        'estimated quadrature sensitivity tolerances': C('CVodeQuadSensEEtolerances'),
        'quadrature sensitivities released': C('CVodeQuadSensFree'),
        'checks before the first step': C('cvInitialSetup'),
        'Jacobian function': C('CVodeSetJacFn', lambda k: k.hook('user_jac', lambda st, a, ty: 0)),
        'sensitivity parameters': C('CVodeSetSensParams', lambda k: k.stS, lambda k: k.stS, NULL),
    }
    # a second start of quadratures (or of the solver) without a release is not a supported sequence
    ONCE = {'quadratures': 'quadratures released', 'quadrature sensitivities': 'quadrature sensitivities released'}

    # quadratures that depend on sensitivities come on top of quadratures
    ON_TOP = ('quadrature sensitivities', 'vector quadrature sensitivity tolerances')

    def allowed(seq, op):
        if op in ON_TOP:
            last = [x for x in seq if x in ('quadratures', 'quadratures released')]
            if not last or last[-1] != 'quadratures':
                return False
        if op in ONCE:
            last = [x for x in seq if x in (op, ONCE[op])]
            return not last or last[-1] != op
        return True

    def finish(rep, k, seq):
        key = ' / '.join(seq)
        freed0 = {i for i, o in k.s.mem.items() if o.freed is not False}
        b = k.parr([k.mem])
        k.call('CVodeFree', b)
        for f in k.E.seen:
            rep.analysed.add('%s:%s' % f)
        rep.facts += 1
        h = k.ld('ptr', b)
        if isn(h) or h.o:
            rep.bad(key, 'the released handle is not cleared')
        broken = False
        for e in k.s.events:
            if e.kind == 'fault' and e.pc is not False:
                broken = True
                rep.bad(key, e.data[0], '', [site_text(e.site)])
            if e.kind == 'cut':
                rep.undec(key, 'loop bound reached')
        for i, o in k.s.mem.items():
            if o.kind != 'heap':
                continue
            rep.facts += 1
            if broken:
                continue
            if i in k.theirs:
                if o.freed is not False:
                    rep.bad(key, 'releases the user\'s %s' % o.name, '', [site_text(o.site)] if o.site else [])
            elif o.name not in ('pointer array', 'real array', 'buffer') and o.freed is not True:
                rep.bad(key, 'never releases %s' % o.name, '', [site_text(o.site)] if o.site else [])
        for name, v in k.vecs():
            rep.facts += 1
            if not broken and not all(same(a, b_) for a, b_ in zip(k.data(v), k.values[name])):
                rep.bad(key, 'changes %s' % name)
        rep.points += 1

    from .kit import site_text

    def walk(rep, k, seq, depth, ops):
        s = k.s
        old_theirs = k.theirs
        k.s = s.fork()
        finish(rep, k, seq)
        k.s = s
        if depth == 0:
            return
        for op in ops:
            if not allowed(seq, op):
                continue
            k.s = s.fork()
            r = OPS[op](k)
            nf = len([e for e in k.s.events if e.kind == 'fault'])
            if nf:
                finish(rep, k, seq + [op])
            else:
                walk(rep, k, seq + [op], depth - 1, ops)
            k.s = s

    def tree(first, depth, ops, pre=()):
        def go(rep):
            k = H()
            r = init(k)
            rep.facts += 1
            if r != 0:
                rep.bad('start', 'refused')
            seq = ['start']
            for op in pre + (first,):
                OPS[op](k)
                seq.append(op)
            walk(rep, k, seq, depth, ops)
        return go
    names = list(OPS)
    # every sequence of two calls from the bare solver
    for op in names:
        if op in ON_TOP:
            continue
        out.append(('start, ' + op, tree(op, 1 if tier == 'quick' else 2, names)))
    # sensitivity life cycles in more depth
    sens = [x for x in names if 'sensitiv' in x or x in ('simultaneous nonlinear solver', 'staggered nonlinear solver', 'one-at-a-time nonlinear solver')]
    for op in ('simultaneous sensitivities', 'staggered sensitivities', 'sensitivities one at a time'):
        for nx in sens:
            if nx in ON_TOP:
                continue
            out.append(('sensitivity life cycle, %s, %s' % (op, nx), tree(nx, 1 if tier == 'quick' else 2, sens, (op,))))
    base = ('scalar tolerances', 'linear solver', 'checks before the first step')
    for op in ('quadrature sensitivities', 'quadratures released', 'scalar quadrature sensitivity tolerances', 'sensitivities released'):
        for pre in ('simultaneous sensitivities', 'sensitivities one at a time'):
            out.append(('quadrature life cycle, %s, %s' % (pre, op), tree(op, 1 if tier == 'quick' else 2, [x for x in names if 'quad' in x or 'released' in x], ('quadratures', pre) + (('quadrature sensitivities',) if op != 'quadrature sensitivities' else ()))))
    for op in names:
        if op in ON_TOP:
            continue
        out.append(('ready solver, ' + op, tree(op, 0 if tier == 'quick' else 1, names, base)))

    def longer(block):
        def go(rep):
            rng = random.Random('%s/%s' % (seed, block))
            for _ in range(6 if tier == 'quick' else 60):
                k = H(rng.choice((ADAMS, BDF)), rng.choice((1, 2)))
                init(k)
                seq = ['start']
                for _ in range(rng.randint(5, 10)):
                    op = rng.choice(names)
                    if allowed(seq, op):
                        OPS[op](k)
                        seq.append(op)
                        if k.faults():
                            break
                finish(rep, k, seq)
        return go
    for b in range(8):
        out.append(('longer sequences %d' % b, longer(b)))

    # ---------------------------------------------------------------- the other objects
    def st(fn):
        out.append((fn.__name__.replace('_', ' '), fn))
        return fn

    def closed(rep, key, k, before, keep=()):
        for f in k.E.seen:
            rep.analysed.add('%s:%s' % f)
        for e in k.faults():
            rep.bad(key, e.data[0], '', [site_text(e.site)])
        for i, o in k.s.mem.items():
            if o.kind == 'heap' and o.name not in ('pointer array', 'real array', 'buffer', 'data', 'ctx'):
                rep.facts += 1
                if i in before:
                    if o.freed is not False:
                        rep.bad(key, 'releases the user\'s %s' % o.name)
                elif o.freed is not True:
                    rep.bad(key, 'never releases %s' % o.name, '', [site_text(o.site)] if o.site else [])
        rep.points += 1
        rep.facts += 1

    def fresh():
        k = K()
        c = k.ctx()
        return k, c, {i for i, o in k.s.mem.items() if o.kind == 'heap' and o.freed is False}

    @st
    def vectors(rep):
        for n in (0, 1, 3):
            k, c, b = fresh()
            v = k.call('N_VNew_Serial', n, c)
            w = k.call('N_VClone', v)
            x = k.call('N_VCloneEmpty', v)
            for o in (x, w, v):
                k.call('N_VDestroy', o)
            closed(rep, 'vectors of length %d' % n, k, b)
        k, c, b = fresh()
        d = k.buf(24, 'data')
        for j in range(3):
            k.st('double', 1.5 * j, d, 8 * j)
        v = k.call('N_VMake_Serial', 3, d, c)
        w = k.call('N_VClone', v)
        k.call('N_VDestroy', v)
        k.call('N_VDestroy', w)
        rep.facts += 1
        if k.s.mem[d.o].freed is not False:
            rep.bad('vector on the user\'s array', 'releases the user\'s array')
        closed(rep, 'vector on the user\'s array', k, b)
        for n in (1, 4):
            k, c, b = fresh()
            v = k.call('N_VNew_Serial', 2, c)
            a = k.call('N_VCloneVectorArray', n, v)
            e = k.call('N_VCloneEmptyVectorArray', n, v)
            k.call('N_VDestroyVectorArray', a, n)
            k.call('N_VDestroyVectorArray', e, n)
            k.call('N_VDestroy', v)
            closed(rep, 'arrays of %d vectors' % n, k, b)
        k, c, b = fresh()
        k.call('N_VDestroy', NULL)
        closed(rep, 'no vector', k, b)

    @st
    def matrices_and_solvers(rep):
        for n in (1, 3):
            k, c, b = fresh()
            A = k.call('SUNDenseMatrix', n, n, c)
            B = k.call('SUNMatClone', A)
            v = k.call('N_VNew_Serial', n, c)
            L = k.call('SUNLinSol_Dense', v, A, c)
            k.call('SUNLinSolInitialize', L)
            k.call('SUNLinSolFree', L)
            for x in (A, B):
                k.call('SUNMatDestroy', x)
            k.call('N_VDestroy', v)
            closed(rep, 'matrix, copy and linear solver of order %d' % n, k, b)
        k, c, b = fresh()
        A = k.call('SUNDenseMatrix', 2, 3, c)
        v = k.call('N_VNew_Serial', 2, c)
        L = k.call('SUNLinSol_Dense', v, A, c)
        rep.facts += 1
        if L != NULL:
            rep.bad('linear solver for a matrix that is not square', 'made')
        k.call('SUNMatDestroy', A)
        k.call('N_VDestroy', v)
        closed(rep, 'linear solver for a matrix that is not square', k, b)
        for make in ('SUNNonlinSol_Newton', 'SUNNonlinSol_NewtonSens', 'SUNNonlinSol_FixedPoint'):
            k, c, b = fresh()
            v = k.call('N_VNew_Serial', 2, c)
            N = k.call(make, *([3, v, c] if make.endswith('Sens') else [v, 2, c] if 'Fixed' in make else [v, c]))
            k.call('SUNNonlinSolFree', N)
            k.call('N_VDestroy', v)
            closed(rep, make, k, b)

    @st
    def the_context(rep):
        k = K()
        b = k.buf(8, 'buffer')
        r = k.call('SUNContext_Create', NULL, b)
        r2 = k.call('SUNContext_Free', b)
        rep.facts += 2
        h = k.ld('ptr', b)
        if r != 0 or r2 != 0:
            rep.bad('context', 'statuses %s %s' % (r, r2))
        if isn(h) or h.o:
            rep.bad('context', 'the released handle is not cleared')
        closed(rep, 'context', k, set())

    @st
    def solver_never_started(rep):
        for lmm in (ADAMS, BDF):
            k, c, b = fresh()
            m = k.call('CVodeCreate', lmm, c)
            p = k.parr([m])
            k.call('CVodeFree', p)
            k.call('CVodeFree', p)      # a cleared handle may be released again
            closed(rep, 'solver never started', k, b)
        for bad in (0, 3, -1):
            k, c, b = fresh()
            m = k.call('CVodeCreate', bad, c)
            rep.facts += 1
            if m != NULL:
                rep.bad('solver of unknown kind %d' % bad, 'made')
            closed(rep, 'solver of unknown kind', k, b)
    return out
