"""The Newton solver on its own, driven by user routines (part of P56)."""
from .kit import *

SOLVER = '_generic_SUNNonlinearSolver'
NC = '_SUNNonlinearSolverContent_Newton'
MEMNULL, ILL, CONT, RECVR = -901, -903, 901, 902


def tasks(tier, seed):
    out = []
    npts = 60 if tier == 'quick' else 600

    def machine(k, n, sys=(), setup=(), solve=(), test=(), jout=1, has_setup=True, nulls=()):
        """a Newton object with scripted user routines; statuses by call number"""
        c = {'sys': 0, 'setup': 0, 'solve': 0, 'test': 0}
        pick = lambda tab, i, d=0: tab[i] if i < len(tab) else d
        data = k.buf(8, 'test data')

        def h_sys(st, a, ty):
            i = c['sys']
            c['sys'] += 1
            y = [k.E.load(st, 'double', p) for p in addr(st, a[0])]
            k.E.event(st, 'sys', (i, a[2]), y)
            for j, p in enumerate(addr(st, a[1])):
                k.E.store(st, 'double', mk('uf', 'f', 'R%d' % j, *y), p)
            return pick(sys, i)

        def h_setup(st, a, ty):
            i = c['setup']
            c['setup'] += 1
            k.E.event(st, 'setup', (i, a[0], a[2]), ())
            k.E.store(st, 'i32', 1 if a[0] == 1 else jout, a[1])    # a set-up told the Jacobian is bad makes a fresh one
            return pick(setup, i)

        def h_solve(st, a, ty):
            i = c['solve']
            c['solve'] += 1
            b = [k.E.load(st, 'double', p) for p in addr(st, a[0])]
            k.E.event(st, 'solve', (i, a[1]), b)
            for j, p in enumerate(addr(st, a[0])):
                k.E.store(st, 'double', mk('uf', 'f', 'D%d' % j, float(i), *b), p)
            return pick(solve, i)

        def h_test(st, a, ty):
            i = c['test']
            c['test'] += 1
            rd = lambda v: [k.E.load(st, 'double', p) for p in addr(st, v)]
            k.E.event(st, 'test', (i, a[0], a[5]), (rd(a[1]), rd(a[2]), a[3], rd(a[4]), k.get(NC, content, 'curiter', 'i32')))
            return pick(test, i, CONT)

        def addr(st, v):
            old, k.s = k.s, st
            try:
                d = k.call('N_VGetArrayPointer', v)
                return [k.E.padd(d, 8 * j) for j in range(n)]
            finally:
                k.s = old
        y = k.vec(n, 'tmpl')
        nls = k.call('SUNNonlinSol_Newton', y, k.ctx())
        content = k.get(SOLVER, nls, 'content', 'ptr')
        st = []
        if 'sys' not in nulls:
            st.append(k.call('SUNNonlinSolSetSysFn', nls, k.hook('nl_sys', h_sys)))
        if has_setup:
            st.append(k.call('SUNNonlinSolSetLSetupFn', nls, k.hook('nl_setup', h_setup)))
        if 'solve' not in nulls:
            st.append(k.call('SUNNonlinSolSetLSolveFn', nls, k.hook('nl_solve', h_solve)))
        if 'test' not in nulls:
            st.append(k.call('SUNNonlinSolSetConvTestFn', nls, k.hook('nl_test', h_test), data))
        return nls, content, st, data, c

    def ufs(n):
        U = {}
        rr = np.random.default_rng(3).uniform(-1, 1, (2, n, n))
        for j in range(n):
            U['R%d' % j] = (lambda j: lambda *y: sum(F(rr[0][j][q]) * v for q, v in enumerate(y)) + np.sin(y[j]))(j)
            U['D%d' % j] = (lambda j: lambda c, *b: sum(F(rr[1][j][q]) * v for q, v in enumerate(b)) + np.cos(b[j] + c))(j)
        return U

    def run(n, maxit, call, jout, has_setup, sys=(), setup=(), solve=(), test=()):
        name = 'Newton on its own: %d unknowns, limit %s, set-up %s%s, Jacobian %s, outcomes %s %s %s %s' % (
            n, maxit, 'requested' if call else 'not requested', '' if has_setup else ' (none given)', jout, list(sys), list(setup), list(solve), list(test))

        def go(rep):
            k = K()
            nls, content, st, data, c = machine(k, n, sys, setup, solve, test, jout, has_setup)
            U = ufs(n)
            ps = [('routine accepted', x, 0) for x in st]
            ps.append(('default limit', k.get(NC, content, 'maxiters', 'i32'), 3))
            if maxit:
                ps.append(('limit accepted', k.call('SUNNonlinSolSetMaxIters', nls, maxit), 0))
            ps.append(('initialisation', k.call('SUNNonlinSolInitialize', nls), 0))
            y0, yc, w = k.vec(n, 'y'), k.vec(n, 'c'), k.vec(n, 'w')
            mem = k.buf(8, 'mem')
            k.put(NC, content, 'niters', 41, 'i64')
            k.put(NC, content, 'nconvfails', 43, 'i64')
            k.put(NC, content, 'curiter', 5, 'i32')
            r = k.call('SUNNonlinSolSolve', nls, y0, yc, w, k.f('tol'), call, mem)
            if r is None:
                raise Unsupported('no result')
            b8 = k.buf(8, 'out')
            b4 = k.buf(4, 'out')
            got = {}
            for g, b, ty in (('SUNNonlinSolGetNumIters', b8, 'i64'), ('SUNNonlinSolGetNumConvFails', b8, 'i64'), ('SUNNonlinSolGetCurIter', b4, 'i32')):
                ps.append((g, k.call(g, nls, b), 0))
                got[g] = k.ld(ty, b)

            # the documented iteration, statuses being known
            cnt = {'sys': 0, 'setup': 0, 'solve': 0, 'test': 0}
            tab = {'sys': sys, 'setup': setup, 'solve': solve, 'test': test}

            def status(what, d=0):
                i = cnt[what]
                cnt[what] += 1
                return tab[what][i] if i < len(tab[what]) else d
            limit = maxit or 3
            log = []
            jcur, jbad, want, iters, fails, cur = 0, 0, call, 0, 0, 5
            cor = lambda e: [e['c%d' % j] for j in range(n)]
            res = lambda y: (lambda e: [U['R%d' % j](*y(e)) for j in range(n)])
            while True:
                log.append(('sys', cor))
                s = status('sys')
                b = res(cor)
                if s:
                    break
                if want:
                    log.append(('setup', jbad))
                    s = status('setup')
                    jcur = 1 if jbad else jout
                    if s:
                        break
                cur = 0
                while True:
                    iters += 1
                    i = cnt['solve']
                    neg = (lambda b: lambda e: [-v for v in b(e)])(b)
                    log.append(('solve', neg))
                    s = status('solve')
                    d = (lambda neg, i: lambda e: [U['D%d' % j](F(i), *neg(e)) for j in range(n)])(neg, i)
                    if s:
                        break
                    cor = (lambda c0, d: lambda e: [a + b for a, b in zip(c0(e), d(e))])(cor, d)
                    log.append(('test', cor, d, cur))
                    s = status('test', CONT)
                    if s == 0:
                        jcur = 0
                        break
                    if s != CONT:
                        break
                    cur += 1
                    if cur >= limit:
                        s = RECVR
                        break
                    log.append(('sys', cor))
                    s = status('sys')
                    b = res(cor)
                    if s:
                        break
                if s == 0:
                    break
                if s > 0 and not jcur and has_setup:
                    fails += 1
                    want, jbad = 1, 1
                    cor = lambda e: [np.zeros(len(e['tol'])) for j in range(n)]
                    continue
                break
            fails += s != 0
            ps += [('status', r, s), ('iterations', got['SUNNonlinSolGetNumIters'], iters), ('failures', got['SUNNonlinSolGetNumConvFails'], fails), ('iteration in the attempt', got['SUNNonlinSolGetCurIter'], cur)]
            for j in range(n):
                if s == 0:
                    ps.append(('solution %d' % j, k.data(yc, n)[j], (lambda j, f: lambda e: f(e)[j])(j, cor)))
                ps.append(('base point %d' % j, k.data(y0, n)[j], sym('y%d' % j)))
                ps.append(('weights %d' % j, k.data(w, n)[j], sym('w%d' % j)))
            evs = [e for e in k.s.events if e.kind in cnt]
            ps.append(('calls of user routines', ' '.join(e.kind for e in evs) == ' '.join(x[0] for x in log), True))
            if [e.kind for e in evs] == [x[0] for x in log]:
                for q, (e, x) in enumerate(zip(evs, log)):
                    at = 'call %d (%s)' % (q + 1, x[0])
                    if x[0] in ('sys', 'solve'):
                        ps.append((at + ' user memory', e.data[0][1] == mem, True))
                        for j in range(n):
                            ps.append(('%s value %d' % (at, j), e.data[1][j], (lambda f, j: lambda env: f(env)[j])(x[1], j)))
                    elif x[0] == 'setup':
                        ps += [(at + ' bad Jacobian flag', e.data[0][1], x[1]), (at + ' user memory', e.data[0][2] == mem, True)]
                    else:
                        ps += [(at + ' solver', e.data[0][1] == nls, True), (at + ' data', e.data[0][2] == data, True), (at + ' tolerance', e.data[1][2], sym('tol')), (at + ' iteration', e.data[1][4], x[3])]
                        for j in range(n):
                            ps.append(('%s iterate %d' % (at, j), e.data[1][0][j], (lambda f, j: lambda env: f(env)[j])(x[1], j)))
                            ps.append(('%s update %d' % (at, j), e.data[1][1][j], (lambda f, j: lambda env: f(env)[j])(x[2], j)))
                            ps.append(('%s weight %d' % (at, j), e.data[1][3][j], sym('w%d' % j)))
            decide(rep, name, k, ps, seed, npts, ufs=U, rtol=1e-8, atol=1e-11)
        out.append((name, go))

    for maxit in (None, 1, 2, 4):
        for call in (0, 1):
            for jout in (0, 1):
                run(2, maxit, call, jout, True)                                   # never converges
                run(1, maxit, call, jout, True, test=(0,))
        run(2, maxit, 0, 1, False)
    for call in (0, 1):
        for jout in (0, 1):
            for v in (-7, 3, RECVR):
                run(1, None, call, jout, True, test=(v, 0))
                run(1, None, call, jout, True, test=(CONT, v, CONT, 0))
                for at in (0, 1, 2):
                    run(1, None, call, jout, True, sys=(0,) * at + (v,), test=(CONT, CONT, 0))
                for at in (0, 1):
                    run(1, None, call, jout, True, solve=(0,) * at + (v,), test=(CONT, 0))
                    run(1, None, call, jout, True, solve=(0,) * at + (v,), test=(CONT, CONT))
                run(1, None, call, jout, True, setup=(v,), test=(0,))
                run(1, None, call, jout, True, setup=(0, v), test=(RECVR, 0))
            run(3, None, call, jout, True, test=(CONT, CONT, 0))
            run(2, 5, call, jout, True, test=(CONT, CONT, CONT, CONT, 0))
            run(2, 2, call, jout, True, test=(CONT, CONT, CONT, 0))
    for v in (-7, 3):
        run(1, None, 0, 0, False, test=(v,))
        run(1, None, 0, 0, False, sys=(v,))
        run(1, None, 0, 0, False, solve=(v,))
        run(2, None, 0, 0, False, test=(CONT, 0))

    def refusals(rep):
        def fresh(**kw):
            k = K()
            nls, content, st, data, c = machine(k, 2, **kw)
            y0, yc, w = k.vec(2, 'y'), k.vec(2, 'c'), k.vec(2, 'w')
            return k, nls, content, y0, yc, w, k.buf(8, 'mem'), c
        for name, kw, call, want in (('system function', dict(nulls=('sys',)), 0, MEMNULL), ('linear solve', dict(nulls=('solve',)), 0, MEMNULL), ('convergence test', dict(nulls=('test',)), 0, MEMNULL),
                                     ('set-up when asked for', dict(has_setup=False), 1, MEMNULL)):
            k, nls, content, y0, yc, w, mem, c = fresh(**kw)
            if 'set-up' not in name:
                decide(rep, 'initialisation without ' + name, k, [('status', k.call('SUNNonlinSolInitialize', nls), MEMNULL)], seed, 5)
            r = k.call('SUNNonlinSolSolve', nls, y0, yc, w, 1.0, call, mem)
            decide(rep, 'solve without ' + name, k, [('status', r, want), ('nothing called', sum(c.values()), 0)] + [('vector %d' % i, k.data(yc, 2)[i], sym('c%d' % i)) for i in range(2)], seed, 5)
        for miss in range(5):
            k, nls, content, y0, yc, w, mem, c = fresh(test=(0,))
            a = [nls, y0, yc, w, mem]
            a[miss] = NULL
            r = k.call('SUNNonlinSolSolve_Newton', a[0], a[1], a[2], a[3], 1.0, 1, a[4])
            decide(rep, 'solve without argument %d' % miss, k, [('status', r, MEMNULL), ('nothing called', sum(c.values()), 0)], seed, 5)
        for f, a, want in (('SetSysFn', (NULL,), ILL), ('SetLSolveFn', (NULL,), ILL), ('SetConvTestFn', (NULL, NULL), ILL), ('SetMaxIters', (0,), ILL), ('SetMaxIters', (-4,), ILL), ('SetLSetupFn', (NULL,), 0)):
            k, nls, content, y0, yc, w, mem, c = fresh()
            was = k.record(NC, content)
            r = k.call('SUNNonlinSol' + f, nls, *a)
            now = k.record(NC, content)
            if want == 0:
                was['LSetup'] = NULL
            decide(rep, '%s with nothing usable' % f, k, [('status', r, want)] + [('%s stays' % m, eqv(now[m], was[m]), True) for m in sorted(was)], seed, 5)
        for f, a in (('SetSysFn', 1), ('SetLSetupFn', 1), ('SetLSolveFn', 1), ('SetConvTestFn', 2), ('SetMaxIters', 1), ('GetNumIters', 1), ('GetCurIter', 1), ('GetNumConvFails', 1), ('GetSysFn', 1), ('Initialize', 0)):
            k = K()
            p = k.hook('nl_sys', lambda st, a, ty: 0)
            arg = [2] if f == 'SetMaxIters' else [k.buf(8)] if f.startswith('Get') else [p, NULL][:a]
            decide(rep, f + ' without a solver', k, [('status', k.call('SUNNonlinSol%s_Newton' % f, NULL, *arg), MEMNULL)], seed, 5)
        k, nls, content, y0, yc, w, mem, c = fresh()
        ps = [('kind', k.call('SUNNonlinSolGetType', nls), 0)]
        b = k.buf(8)
        ps += [('system function', k.call('SUNNonlinSolGetSysFn_Newton', nls, b), 0), ('the one set', k.ld('ptr', b) == P('@nl_sys', 0), True)]
        k.put(NC, content, 'niters', 5, 'i64')
        k.put(NC, content, 'nconvfails', 5, 'i64')
        k.put(NC, content, 'jcur', 1, 'i32')
        was = k.record(NC, content)
        ps.append(('status', k.call('SUNNonlinSolInitialize', nls), 0))
        was.update(niters=0, nconvfails=0, jcur=0)
        now = k.record(NC, content)
        decide(rep, 'initialisation', k, ps + [(m, eqv(now[m], was[m]), True) for m in sorted(was)], seed, 5)
    out.append(('Newton on its own: refusals', refusals))
    return out
