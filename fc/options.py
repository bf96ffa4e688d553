"""P57: options are stored as given or refused without effect; reported quantities are the solver's own."""
import re
from .cvk import *
from .ir import SD

RULE = ('an option setter stores the given value (or the documented default for the documented special value) in the one setting it governs, refuses an illegal value with '
        'the matching code and then changes nothing; a getter delivers the matching quantity and changes nothing; both refuse a missing solver')
ILL, MEM_NULL, NO_SENS, NO_QUAD, NO_QUADSENS, NLS_ILL = -22, -21, -40, -30, -50, -903


def tasks(tier, seed):
    out = []
    npts = 200 if tier == 'quick' else 2000

    def solver(**kw):
        k = Cv(kw.pop('lmm', BDF), 2, kw.pop('Ns', 2), kw.pop('ism', STG), **kw)
        return k

    def run(rep, key, k, name, args, status, changes=(), pre=None, more=()):
        """changes: {member: expected value} applying where status is 0"""
        was = k.record('CVodeMemRec', k.mem)
        r = k.call(name, k.mem, *args)
        ps = [('status', r, status)]
        now = k.record('CVodeMemRec', k.mem)
        changes = dict(changes)
        for m in sorted(set(now) | set(was)):
            if m in changes:
                w, f = was.get(m), changes.pop(m)
                st_ = status if callable(status) else (lambda e, s=status: np.full(1, s))

                def want(e, w=w, f=f, st_=st_):
                    a = f(e) if callable(f) else e['ev'](f)
                    b = e['ev'](w)
                    return np.where(st_(e) == 0, a, b)
                if isinstance(f, V.P) or (isn(f) and tyof(f) == 'p'):
                    ps.append((m, eqv(now[m], f), True))
                else:
                    ps.append((m, now[m], want))
            elif m not in was or m not in now:
                ps.append((m + ' stays', False, True))
            else:
                ps.append((m + ' stays', eqv(now[m], was[m]), True))
        for m in changes:
            raise Unsupported('member ' + m)
        decide(rep, key, k, ps + list(more), seed, npts, pre=pre)
        return r

    def st(fn):
        out.append((fn.__name__.replace('_', ' '), fn))
        return fn

    def before(k, *fields):
        """an earlier value of its own, so that a value left unset shows"""
        for f in fields:
            if TY.get(f, ('double', 8))[0] == 'double':
                k.setm(f, k.f('was_' + f))
            else:
                x = sym('was_' + f, 'i')
                k.dom['was_' + f] = among(3, 17, 33)
                k.setm(f, x)

    # ---------------------------------------------------------------- plain settings
    def plain(name, field, ty, vals=None):
        def go(rep):
            for kw in ({}, {'lmm': ADAMS}, {'ism': SIM}):
                k = solver(**kw)
                x = k.f('x', mixed(real, 0.0)) if ty == 'f' else sym('x', 'i')
                if ty != 'f':
                    k.dom['x'] = among(*vals)
                before(k, field)
                run(rep, '%s %s' % (name, kw), k, name, [x], 0, {field: x})
            k = solver()
            decide(rep, name + ' without a solver', k, [('status', k.call(name, NULL, 0.5 if ty == 'f' else 1), MEM_NULL)], seed, 10)
        out.append((name, go))
    plain('CVodeSetInitStep', 'cv_hin', 'f')
    plain('CVodeSetNonlinConvCoef', 'cv_nlscoef', 'f')
    plain('CVodeSetMaxHnilWarns', 'cv_mxhnil', 'i', (-5, -1, 0, 1, 10, 2000000000))
    plain('CVodeSetMaxErrTestFails', 'cv_maxnef', 'i', (1, 2, 7, 100))
    plain('CVodeSetMaxConvFails', 'cv_maxncf', 'i', (1, 2, 10, 1000))
    plain('CVodeSetSensErrCon', 'cv_errconS', 'i', (0, 1))

    def cond(name, mk, status, changes, pre=None, variants=({},), ty='f', vals=None, setup=None, null=(1,)):
        def go(rep):
            for kw in variants:
                k = solver(**kw)
                if setup:
                    setup(k)
                x = k.f('x', mk) if ty == 'f' else sym('x', 'i')
                if ty != 'f':
                    k.dom['x'] = among(*vals)
                run(rep, '%s %s' % (name, kw or ''), k, name, [x], status(kw), changes, pre)
            k = solver()
            decide(rep, name + ' without a solver', k, [('status', k.call(name, NULL, *null), MEM_NULL)], seed, 10)
        out.append((name, go))
    both = ({}, {'lmm': ADAMS})
    cond('CVodeSetMaxNumSteps', None, lambda kw: 0, {'cv_mxstep': lambda e: np.where(e['x'] == 0, 500, e['x'])}, ty='i', vals=(-7, -1, 0, 1, 2, 499, 500, 100000, 5000000000), variants=both,
         setup=lambda k: before(k, 'cv_mxstep'))
    cond('CVodeSetLSetupFrequency', None, lambda kw: lambda e: np.where(e['x'] < 0, ILL, 0), {'cv_msbp': lambda e: np.where(e['x'] == 0, 20, e['x'])}, ty='i',
         vals=(-7, -1, 0, 1, 2, 20, 100000, 5000000000))
    cond('CVodeSetStabLimDet', None, lambda kw: (lambda e: np.where((e['x'] != 0) & (kw.get('lmm', BDF) != BDF), ILL, 0)), {'cv_sldeton': sym('x', 'i')}, ty='i', vals=(0, 1), variants=both)

    def orders(k):
        for f in ('cv_qmax_alloc', 'cv_qmax_allocQ', 'cv_qmax_allocS'):
            k.setm(f, k.i(f, 1, 12))
    TY['cv_qmax_allocQ'] = ('i32', 4)
    cond('CVodeSetMaxOrd', None, lambda kw: lambda e: np.where((e['x'] <= 0) | (e['x'] > np.minimum(np.minimum(e['cv_qmax_alloc'], e['cv_qmax_allocQ']), e['cv_qmax_allocS'])), ILL, 0),
         {'cv_qmax': sym('x', 'i')}, ty='i', vals=tuple(range(-2, 14)), setup=orders, variants=both)
    cond('CVodeSetMaxOrd', None, lambda kw: lambda e: np.where((e['x'] <= 0) | (e['x'] > (12 if kw.get('lmm') == ADAMS else 5)), ILL, 0),
         {'cv_qmax': sym('x', 'i')}, ty='i', vals=tuple(range(-2, 14)), variants=both)

    edge = lambda other: lambda env, rng: env.__setitem__('x', np.where(rng.random(len(env['x'])) < .2, 1 / env[other], np.where(rng.random(len(env['x'])) < .1, 0, env['x']))) or env

    def hb(k):
        k.setm('cv_hmin', k.f('hmin', mixed(pos, 0.0)))
        k.setm('cv_hmax_inv', k.f('hmaxinv', mixed(pos, 0.0)))
    cond('CVodeSetMinStep', mixed(real, 0.0), lambda kw: lambda e: np.where((e['x'] < 0) | (e['x'] * e['hmaxinv'] > 1), ILL, 0), {'cv_hmin': sym('x')}, setup=hb, null=(0.5,))
    cond('CVodeSetMaxStep', mixed(real, 0.0), lambda kw: lambda e: np.where((e['x'] < 0) | ((e['x'] > 0) & (1 / np.where(e['x'] == 0, 1, e['x']) * e['hmin'] > 1)), ILL, 0),
         {'cv_hmax_inv': lambda e: np.where(e['x'] == 0, 0, 1 / np.where(e['x'] == 0, 1, e['x']))}, setup=hb, null=(0.5,))

    def times(k):
        k.setm('cv_nst', k.i('nst', 0, 2))
        k.setm('cv_tn', k.f('tn'))
        k.setm('cv_h', k.f('h', mixed(real, 1.0, -1.0)))
        k.setm('cv_tstop', k.f('ts0'))
    cond('CVodeSetStopTime', mixed(real, 0.0), lambda kw: lambda e: np.where((e['nst'] > 0) & ((e['x'] - e['tn']) * e['h'] < 0), ILL, 0), {'cv_tstop': sym('x'), 'cv_tstopset': 1},
         setup=times, null=(0.5,))

    @st
    def user_data(rep):
        k = solver()
        b = k.buf(16, 'other data')
        run(rep, 'CVodeSetUserData', k, 'CVodeSetUserData', [b], 0, {'cv_user_data': b})
        run(rep, 'CVodeSetUserData none', k, 'CVodeSetUserData', [NULL], 0, {'cv_user_data': NULL})
        decide(rep, 'CVodeSetUserData without a solver', k, [('status', k.call('CVodeSetUserData', NULL, b), MEM_NULL)], seed, 10)

    @st
    def iteration_limits(rep):
        """the limit reaches the nonlinear solver in charge"""
        for name, ism, nls in (('CVodeSetMaxNonlinIters', STG, 'NLS'), ('CVodeSetMaxNonlinIters', SIM, 'NLSsim'), ('CVodeSetSensMaxNonlinIters', STG, 'NLSstg'),
                               ('CVodeSetSensMaxNonlinIters', STG1, 'NLSstg1'), ('CVodeSetMaxNonlinIters', None, 'NLS')):
            k = solver(ism=ism or STG, Ns=2 if ism else 0)
            x = sym('x', 'i')
            k.dom['x'] = among(-3, 0, 1, 2, 3, 50)
            others = [m for m in ('NLS', 'NLSsim', 'NLSstg', 'NLSstg1') if not isn(k.m(m)) and k.m(m).o]
            cont = {m: k.get('_generic_SUNNonlinearSolver', k.m(m), 'content', 'ptr') for m in others}
            mi = lambda m: k.get('_SUNNonlinearSolverContent_Newton', cont[m], 'maxiters', 'i32')
            was = {m: mi(m) for m in others}
            more = []
            run(rep, '%s (%s)' % (name, nls), k, name, [x], lambda e: np.where(e['x'] < 1, NLS_ILL, 0))
            for m in others:
                more.append(('limit of ' + m, mi(m), (lambda m: lambda e: np.where((e['x'] >= 1) & (m == nls), e['x'], e['ev'](was[m])))(m)))
            decide(rep, '%s (%s) stored' % (name, nls), k, more, seed, npts)
        for name in ('CVodeSetMaxNonlinIters', 'CVodeSetSensMaxNonlinIters'):
            k = solver()
            decide(rep, name + ' without a solver', k, [('status', k.call(name, NULL, 2), MEM_NULL)], seed, 10)

    @st
    def difference_quotient_method(rep):
        k = solver()
        x, y = sym('x', 'i'), k.f('y', mixed(real, 0.0))
        k.dom['x'] = among(-1, 0, 1, 2, 3)
        run(rep, 'CVodeSetSensDQMethod', k, 'CVodeSetSensDQMethod', [x, y], lambda e: np.where(((e['x'] != 1) & (e['x'] != 2)) | (e['y'] < 0), ILL, 0), {'cv_DQtype': x, 'cv_DQrhomax': y})
        decide(rep, 'CVodeSetSensDQMethod without a solver', k, [('status', k.call('CVodeSetSensDQMethod', NULL, 1, 0.0), MEM_NULL)], seed, 10)

    def sens_params(Ns, haspb, haspl):
        def go(rep):
            k = solver(Ns=Ns)
            p = k.darr([k.f('p%d' % s) for s in range(Ns)])
            pb = [k.f('pb%d' % s, lambda r, n: np.where(r.random(n) < .12, 0, real(r, n))) for s in range(Ns)]
            b = k.buf(4 * Ns, 'list')
            pl = []
            for s in range(Ns):
                x = sym('pl%d' % s, 'i')
                k.dom['pl%d' % s] = lambda r, n: np.where(r.random(n) < .12, -1, r.integers(0, 9, n))
                pl.append(x)
                k.st('i32', x, b, 4 * s)
            bp = k.darr(pb)
            for s in range(Ns):                     # what an earlier call left behind
                k.st('double', 31.0 + s, k.m('cv_pbar'), 8 * s)
                k.st('i32', 41 + s, k.m('cv_plist'), 4 * s)
            r = k.call('CVodeSetSensParams', k.mem, p, bp if haspb else NULL, b if haspl else NULL)
            bad = lambda e: np.logical_or.reduce([np.zeros(len(e['pb0']) if haspb else len(e['pl0']) if haspl else 1, bool)] +
                                                 ([e['pb%d' % s] == 0 for s in range(Ns)] if haspb else []) + ([e['pl%d' % s] < 0 for s in range(Ns)] if haspl else []))
            ok = icmp('eq', r, 0)
            ps = [('status', r, lambda e: np.where(bad(e), ILL, 0)), ('parameters', or_(not_(ok), eqv(k.m('cv_p'), p)), True)]
            for s in range(Ns):
                ps.append(('scaling %d' % s, ite(ok, k.ld('double', k.m('cv_pbar'), 8 * s), 0.0), (lambda s: lambda e: np.where(bad(e), 0, np.abs(e['pb%d' % s]) if haspb else 1))(s)))
                ps.append(('parameter index %d' % s, ite(ok, k.ld('i32', k.m('cv_plist'), 4 * s), 0), (lambda s: lambda e: np.where(bad(e), 0, e['pl%d' % s] if haspl else s))(s)))
            decide(rep, 'CVodeSetSensParams %d %s%s' % (Ns, 'with scaling ' if haspb else '', 'with list' if haspl else ''), k, ps, seed, npts)
        return go
    for Ns in (1, 2, 4):
        for a in (0, 1):
            for b in (0, 1):
                out.append(('parameters %d %d %d' % (Ns, a, b), sens_params(Ns, a, b)))

    @st
    def parameters_refused(rep):
        k = Cv(BDF, 2)
        decide(rep, 'CVodeSetSensParams without sensitivities', k, [('status', k.call('CVodeSetSensParams', k.mem, k.darr([1.0]), NULL, NULL), NO_SENS)], seed, 10)
        decide(rep, 'CVodeSetSensParams without a solver', k, [('status', k.call('CVodeSetSensParams', NULL, k.darr([1.0]), NULL, NULL), MEM_NULL)], seed, 10)

    @st
    def constraints(rep):
        for again in (False, True):
            k = solver(Ns=0)
            if again:
                k.call('CVodeSetConstraints', k.mem, k.vec(2, vals=[1.0, -2.0]))
            c = k.vec(2, 'c', dom=mixed(real, 0.0, 1.0, -1.0, 2.0, -2.0, 3.0))
            vs = k.m('cv_constraintsSet')
            r = k.call('CVodeSetConstraints', k.mem, c)
            mx = lambda e: np.maximum(np.abs(e['c0']), np.abs(e['c1']))
            bad = lambda e: (mx(e) > 2.5) | (mx(e) < .5)
            ok = icmp('eq', r, 0)
            ps = [('status', r, lambda e: np.where(bad(e), ILL, 0)), ('in force', k.m('cv_constraintsSet'), lambda e: np.where(bad(e), e['ev'](vs), 1))]
            k2 = k
            k.when(ok)
            k.setdata(c, [7.0, 7.0])
            got = k.data(k.m('cv_constraints'), 2)
            for i in range(2):
                ps.append(('constraint %d' % i, ite(ok, got[i], 0.0), (lambda i: lambda e: np.where(bad(e), 0, e['c%d' % i]))(i)))
            decide(rep, 'CVodeSetConstraints%s' % (' again' if again else ''), k, ps, seed, npts)
            r = k.call('CVodeSetConstraints', k.mem, NULL)
            decide(rep, 'CVodeSetConstraints removed%s' % again, k, [('status', r, 0), ('in force', k.m('cv_constraintsSet'), 0)], seed, npts)
        decide(rep, 'CVodeSetConstraints without a solver', k, [('status', k.call('CVodeSetConstraints', NULL, NULL), MEM_NULL)], seed, 10)

    # ---------------------------------------------------------------- reports
    G = [('NumSteps', 'nst', 'l', 0), ('NumRhsEvals', 'nfe', 'l', 0), ('NumLinSolvSetups', 'nsetups', 'l', 0), ('NumErrTestFails', 'netf', 'l', 0), ('LastOrder', 'qu', 'i', 0),
         ('CurrentOrder', 'next_q', 'i', 0), ('CurrentGamma', 'gamma', 'd', 0), ('ActualInitStep', 'h0u', 'd', 0), ('LastStep', 'hu', 'd', 0), ('CurrentStep', 'next_h', 'd', 0),
         ('CurrentTime', 'tn', 'd', 0), ('TolScaleFactor', 'tolsf', 'd', 0), ('WorkSpace', 'lrw liw', 'll', 0), ('NumGEvals', 'nge', 'l', 0),
         ('NumNonlinSolvIters', 'nni', 'l', 0), ('NumNonlinSolvConvFails', 'ncfn', 'l', 0), ('NonlinSolvStats', 'nni ncfn', 'll', 0),
         ('IntegratorStats', 'nst nfe nsetups netf qu next_q h0u hu next_h tn', 'lllliidddd', 0),
         ('SensNumRhsEvals', 'nfSe', 'l', 1), ('NumRhsEvalsSens', 'nfeS', 'l', 1), ('SensNumErrTestFails', 'netfS', 'l', 1), ('SensNumLinSolvSetups', 'nsetupsS', 'l', 1),
         ('SensStats', 'nfSe nfeS netfS nsetupsS', 'llll', 1), ('SensNumNonlinSolvIters', 'nniS', 'l', 1), ('SensNumNonlinSolvConvFails', 'ncfnS', 'l', 1),
         ('SensNonlinSolvStats', 'nniS ncfnS', 'll', 1), ('QuadNumRhsEvals', 'nfQe', 'l', 2), ('QuadNumErrTestFails', 'netfQ', 'l', 2), ('QuadStats', 'nfQe netfQ', 'll', 2),
         ('QuadSensNumRhsEvals', 'nfQSe', 'l', 3), ('QuadSensNumErrTestFails', 'netfQS', 'l', 3), ('QuadSensStats', 'nfQSe netfQS', 'll', 3)]
    IR = {'l': ('i64', 8), 'i': ('i32', 4), 'd': ('double', 8)}
    TY.update({'cv_' + x: ('i64', 8) for x in 'nfQe nfQSe netfQ netfQS nge'.split()})
    TY.update({'cv_quadr_sensi': ('i32', 4)})

    def getter(name, fields, tys, need):
        def go(rep):
            for have in ((1, 0) if need else (1,)):
                k = solver(Ns=2 if need != 1 or have else 0)
                if need == 2:
                    k.setm('cv_quadr', have)
                if need == 3:
                    k.setm('cv_quadr_sensi', have)
                fs = fields.split()
                # every quantity of the record is arbitrary
                for m, (o, ty) in k.P.scalars('CVodeMemRec').items():
                    if (ty in ('double', 'i64') or m in ('cv_qu', 'cv_next_q', 'cv_q', 'cv_qprime')) and re.match('cv_', m):
                        x = k.f(m) if ty == 'double' else sym(m, 'i')
                        if ty != 'double':
                            k.dom[m] = lambda r, n: r.integers(0, 1000, n)
                        k.st(ty, x, k.mem, o)
                was = k.record('CVodeMemRec', k.mem)
                bs = [k.buf(IR[t][1], 'result') for t in tys]
                for j, t in enumerate(tys):
                    x = k.f('old%d' % j) if t == 'd' else sym('old%d' % j, 'i')
                    k.st(IR[t][0], x, bs[j])
                r = k.call('CVodeGet' + name, k.mem, *bs)
                code = 0 if have else {1: NO_SENS, 2: NO_QUAD, 3: NO_QUADSENS}[need]
                ps = [('status', r, code)]
                for j, (f, t) in enumerate(zip(fs, tys)):
                    ps.append((f, k.ld(IR[t][0], bs[j]), sym('cv_' + f, 'f' if t == 'd' else 'i') if have else sym('old%d' % j, 'f' if t == 'd' else 'i')))
                now = k.record('CVodeMemRec', k.mem)
                ps += [(m + ' stays', eqv(now[m], was[m]), True) for m in now]
                decide(rep, 'CVodeGet%s%s' % (name, '' if have else ' when not computed'), k, ps, seed, 40)
            k = solver()
            decide(rep, 'CVodeGet%s without a solver' % name, k, [('status', k.call('CVodeGet' + name, NULL, *[k.buf(8) for _ in tys]), MEM_NULL)], seed, 10)
        out.append(('get ' + name, go))
    for g in G:
        getter(*g)

    @st
    def vectors_delivered(rep):
        for n in (1, 2, 3, 5):
            k = Cv(BDF, n, 3)
            for nm, m in (('ErrWeights', 'cv_ewt'), ('EstLocalErrors', 'cv_acor')):
                xs = k.symvec(k.m(m), nm)
                o = k.vec(n)
                r = k.call('CVodeGet' + nm, k.mem, o)
                decide(rep, 'CVodeGet%s %d' % (nm, n), k, [('status', r, 0)] + [('component %d' % i, k.data(o, n)[i], xs[i]) for i in range(n)] +
                       [('source %d' % i, k.data(k.m(m), n)[i], xs[i]) for i in range(n)], seed, 40)
            xs = [k.symvec(k.arr('cv_ewtS', s), 'ws%d_' % s) for s in range(3)]
            o = [k.vec(n) for s in range(3)]
            r = k.call('CVodeGetSensErrWeights', k.mem, k.parr(o))
            decide(rep, 'CVodeGetSensErrWeights %d' % n, k, [('status', r, 0)] + [('sensitivity %d component %d' % (s, i), k.data(o[s], n)[i], xs[s][i]) for s in range(3) for i in range(n)], seed, 40)
            b = k.buf(8)
            k.setm('cv_y', k.vec(n))
            decide(rep, 'CVodeGetCurrentState %d' % n, k, [('status', k.call('CVodeGetCurrentState', k.mem, b), 0), ('vector', k.ld('ptr', b) == k.m('cv_y'), True)], seed, 10)
            decide(rep, 'CVodeGetCurrentStateSens %d' % n, k, [('status', k.call('CVodeGetCurrentStateSens', k.mem, b), 0), ('vectors', k.ld('ptr', b) == k.m('cv_yS'), True)], seed, 10)
        k = Cv(BDF, 2)
        decide(rep, 'CVodeGetSensErrWeights without sensitivities', k, [('status', k.call('CVodeGetSensErrWeights', k.mem, k.parr([k.vec(2)])), NO_SENS)], seed, 10)
        for nm in ('ErrWeights', 'EstLocalErrors', 'SensErrWeights', 'CurrentState', 'CurrentStateSens', 'CurrentSensSolveIndex'):
            decide(rep, 'CVodeGet%s without a solver' % nm, k, [('status', k.call('CVodeGet' + nm, NULL, k.parr([k.vec(2)])), MEM_NULL)], seed, 10)

    @st
    def per_sensitivity_counts(rep):
        for Ns in (1, 3):
            for ism in (STG, STG1):
                k = Cv(BDF, 2, Ns, ism)
                a, b = k.buf(8 * Ns), k.buf(8 * Ns)
                old = [sym('old%d' % s, 'i') for s in range(Ns)]
                its, cf = [sym('it%d' % s, 'i') for s in range(Ns)], [sym('cf%d' % s, 'i') for s in range(Ns)]
                for s in range(Ns):
                    if ism == STG1:
                        k.st('i64', its[s], k.m('cv_nniS1'), 8 * s)
                        k.st('i64', cf[s], k.m('cv_ncfnS1'), 8 * s)

                def fresh():
                    for s in range(Ns):
                        k.st('i64', old[s], a, 8 * s)
                        k.st('i64', old[s], b, 8 * s)
                for nm, args, want in (('NumNonlinSolvIters', [a], [its]), ('NumNonlinSolvConvFails', [a], [cf]), ('NonlinSolvStats', [a, b], [its, cf])):
                    fresh()
                    r = k.call('CVodeGetStgrSens' + nm, k.mem, *args)
                    ps = [('status', r, 0)]
                    for x, w in zip(args, want):
                        for s in range(Ns):
                            ps.append(('entry %d' % s, k.ld('i64', x, 8 * s), w[s] if ism == STG1 else old[s]))
                    decide(rep, 'CVodeGetStgrSens%s %d %d' % (nm, Ns, ism), k, ps, seed, 40)

    @st
    def names_of_codes(rep):
        import os
        text = ''
        for h in ('include/cvodes/cvodes.h',):
            text += open(os.path.join(SD, h)).read()
        codes = {}
        for m in re.finditer(r'#define\s+(CV_[A-Z0-9_]+)\s+\(?(-?\d+)\)?', text):
            codes.setdefault(int(m.group(2)), []).append(m.group(1))
        k = K()
        got = {}

        def spr(st, a, ty):
            got['s'] = text_at(k, st, a[1])
            return 0
        k.E.hooks['sprintf'] = spr
        known = 0
        for c in sorted(codes) + [12345, -999]:
            if c > 0 and c not in (1, 2, 99, 12345):
                continue
            got.clear()
            k.call('CVodeGetReturnFlagName', c)
            s = got.get('s')
            if s is None:
                raise Unsupported('the name is not written by sprintf')
            want = codes.get(c, [])
            ok = s in want or (s == 'NONE' and (not want or c < -40 or c > 99 or True) and c not in CORE)
            known += s != 'NONE'
            decide(rep, 'name of code %d' % c, k, [('name is one of the constants with this value (got %s)' % s, ok, True)], seed, 5)
        decide(rep, 'names of codes', k, [('known names', known > 20, True)], seed, 5)
    CORE = {0, 1, 2, -1, -2, -3, -4, -5, -6, -7, -8, -9, -10, -11, -20, -21, -22, -23, -24, -25, -26, -27, -40, -41, -42, -43, -44, -45}
    return out


def text_at(k, st, p):
    """the string literal p points to"""
    s = ''
    while len(s) < 200:
        v = k.E.load(st, 'i8', k.E.padd(p, len(s)))
        if isn(v):
            raise Unsupported('text')
        if v == 0:
            return s
        s += chr(v & 255)
    raise Unsupported('text')
