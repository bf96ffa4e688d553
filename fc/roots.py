"""P67: locating zeros of the caller's functions along the solution."""
from .cvk import *
from . import driver

RULE = ('a step over which a watched function changes sign in the watched direction, or ends at zero, is reported with a time inside the step at which the function has just changed '
        'sign or vanishes, found by narrowing the bracket until it is below the tolerance; a step without one is not; functions that vanish at the start take part once they are non-zero; '
        'the solution is returned at the reported time and the search goes on behind it; settings and reports are the given ones')
ILL, RTF, FOUND, CLOSE, MEMNULL = -22, -12, 1, 3, -21
for _n in 'cv_mxgnull'.split():
    TY[_n] = ('i32', 4)
for _n in 'cv_glo cv_ghi cv_grout cv_iroots cv_rootdir cv_gactive'.split():
    TY[_n] = ('ptr', 8)


def quiet(f):
    def g(*a):
        with np.errstate(all='ignore'):
            return f(*a)
    return g


def instances(n, m, zeros=1):
    """root functions that change sign and vanish now and then"""
    def g(i):
        def f(t, *y):
            x = np.sin((F(1.3) + F(0.4) * i) * t + i) + F(0.1) * sum(np.cos(v + j) for j, v in enumerate(y)) if y else np.sin((F(1.3) + F(0.4) * i) * t + i)
            return np.where(np.floor(3 * t) % 3 < zeros, np.round(x * 3) / 3, x)
        return f
    return {'G%d' % i: g(i) for i in range(m)}


def tasks(tier, seed):
    out = []
    npts = 400 if tier == 'quick' else 3000
    N_ = 2

    def setting(m, fail=None, maxiter=10, n=N_):
        k = Cv(BDF, n, 0, tol=None, maxiter=maxiter)

        def g(st, a, ty):
            t, y, o, ud = a[:4]
            yv = k.data(y, n, st)
            c = st.vars.get('g', 0)
            st.vars['g'] = iop('add', c, 1)
            k.E.event(st, 'user:root', (t, y, o, ud), yv)
            for i in range(m):
                k.E.store(st, 'double', mk('uf', 'f', 'G%d' % i, t, *yv), k.E.padd(o, 8 * i))
            return 0 if fail is None else ite(icmp('eq', c, fail[0]), fail[1], 0)

        def dky(st, a, ty):
            """the stored polynomial at a time, order 0"""
            mem, t, kk, y = a[:4]
            k.E.event(st, 'user:dky', (t, kk, y), None)
            for i in range(n):
                k.wr(st, y, i, mk('uf', 'f', 'Y%d' % i, t))
            return 0
        k.g = k.hook('user_root', g)
        k.E.hooks['CVodeGetDky'] = dky
        k.when(icmp('eq', k.call('CVodeRootInit', k.mem, m, k.g), 0), True)
        k.s.vars['g'] = 0
        for i in range(m):
            d, act = sym('dir%d' % i, 'i'), sym('act%d' % i, 'i')
            k.dom['dir%d' % i] = among(-1, 0, 0, 1)
            k.dom['act%d' % i] = among(0, 1, 1, 1)
            k.st('i32', d, k.m('cv_rootdir'), 4 * i)
            k.st('i32', act, k.m('cv_gactive'), 4 * i)
            k.st('i32', sym('old%d' % i, 'i'), k.m('cv_iroots'), 4 * i)
            for f in ('glo', 'ghi', 'grout'):
                k.st('double', k.f('%s%d' % (f, i), mixed(real, 0.0)), k.m('cv_' + f), 8 * i)
        k.setm('cv_nge', 7)
        k.setm('cv_y', k.vec(n, 'yo'))
        return k

    def arr(k, f, i, ty='double'):
        return k.ld(ty, k.m('cv_' + f), (8 if ty == 'double' else 4) * i)
    Yf = {'Y%d' % i: (lambda i: lambda t: np.sin(t * F(.7) + i))(i) for i in range(N_)}

    # ---------------------------------------------------------------- search in one step
    def search(m, fail=None):
        def go(rep):
            k = setting(m, fail, maxiter=7, n=1)
            k.setm('cv_tlo', k.f('tlo'))
            k.setm('cv_thi', k.f('thi'))
            k.setm('cv_trout', k.f('trout'))
            k.setm('cv_ttol', k.f('ttol', pos))
            r = k.call('cvRootfind', k.mem)
            U = dict(instances(1, m))
            U.update(Yf)
            G = lambda i, t: U['G%d' % i](t, U['Y0'](t))
            evs = k.events('user:root')

            memo = {}

            def model(e):
                if memo.get('e') is e:
                    return memo['L']
                pcs = [(np.asarray(e['ev'](v.pc), bool), np.asarray(e['ev'](v.data[0][0]), F)) for v in evs]
                L = []
                for j in range(len(e['tlo'])):
                    ts = [t[j] for p, t in pcs if (p[j] if p.shape else bool(p))]
                    L.append(run(e, j, ts))
                memo['e'], memo['L'] = e, L
                return L

            def run(e, j, ts):
                lo, hi = e['tlo'][j], e['thi'][j]
                glo = [e['glo%d' % i][j] for i in range(m)]
                ghi = [e['ghi%d' % i][j] for i in range(m)]
                dr = [e['dir%d' % i][j] for i in range(m)]
                ac = [e['act%d' % i][j] for i in range(m)]
                h0 = hi
                tol = e['ttol'][j]
                watch = lambda i: ac[i] and dr[i] * glo[i] <= 0
                change = lambda g: any(watch(i) and glo[i] * g[i] < 0 for i in range(m))
                zero = lambda g: any(watch(i) and g[i] == 0 for i in range(m))
                ok, cnt, failed = True, 0, False
                found = False
                ts = list(ts)
                if change(ghi):
                    found = True
                    while abs(hi - lo) > tol:
                        if not ts:
                            ok = False
                            break
                        t = ts.pop(0)
                        if not (min(lo, hi) < t < max(lo, hi) and min(abs(t - lo), abs(t - hi)) >= tol * F(.4999)):
                            ok = False
                        if fail and cnt == fail[0]:
                            failed = True
                            cnt += 1
                            break
                        cnt += 1
                        g = [G(i, t) for i in range(m)]
                        if change(g):
                            hi, ghi = t, g
                        elif zero(g):
                            hi, ghi = t, g
                            break
                        else:
                            lo, glo = t, g
                elif zero(ghi):
                    found = True
                ir = [0] * m
                if found:
                    for i in range(m):
                        if watch(i) and (glo[i] * ghi[i] < 0 or ghi[i] == 0):
                            ir[i] = -1 if glo[i] > 0 else 1
                return dict(ok=ok and not ts, found=found, t=hi, g=ghi, lo=lo, ir=ir, cnt=cnt, failed=failed)
            col = lambda f, ty=F: (lambda e: np.array([f(x) for x in model(e)], dtype=ty))
            okc = not_(icmp('eq', r, RTF))
            fnd = icmp('eq', r, FOUND)
            ps = [('status', r, col(lambda x: RTF if x['failed'] else FOUND if x['found'] else 0, np.int64)),
                  ('every evaluation narrows the bracket until it is small enough', 1, col(lambda x: int(x['ok']), np.int64)),
                  ('evaluations', k.m('cv_nge'), col(lambda x: 7 + x['cnt'], np.int64)),
                  ('time found', k.m('cv_trout'), col(lambda x: x['t']), okc)]
            for i in range(m):
                ps.append(('value of function %d there' % (i + 1), arr(k, 'grout', i), col(lambda x, i=i: x['g'][i]), okc))
                ps.append(('report for function %d' % (i + 1), arr(k, 'iroots', i, 'i32'), col(lambda x, i=i: x['ir'][i], np.int64), fnd))
                ps.append(('direction of function %d stays' % (i + 1), arr(k, 'rootdir', i, 'i32'), sym('dir%d' % i, 'i')))
            for v in evs:
                ps.append(('user data', eqv(v.data[0][3], k.udata), True, v.pc))

            def pre(e, rng):
                n = len(e['tlo'])
                w = np.sign(e['thi'] - e['tlo']) * rng.uniform(.05, 4, n).astype(F)
                e['thi'] = e['tlo'] + w
                e['ttol'] = np.abs(w) * np.exp(rng.uniform(-3.5, .3, n)).astype(F)
                for i in range(m):
                    real_ = rng.random(n) < .7
                    e['glo%d' % i] = np.where(real_, G(i, e['tlo']), e['glo%d' % i])
                    e['ghi%d' % i] = np.where(real_, G(i, e['thi']), e['ghi%d' % i])
                return e
            decide(rep, 'search over a step, %d functions%s' % (m, ', evaluation %d fails' % (fail[0] + 1) if fail else ''), k, ps, seed, npts, rtol=1e-9, ufs=U, pre=pre,
                   assume_=lambda e: e['thi'] != e['tlo'], relate=False)
        return go
    for m in (1, 2, 3):
        out.append(('search %d' % m, search(m)))
    for f in ((0, 1), (0, -1), (1, 1), (2, -7)):
        out.append(('search failing %d %d' % f, search(2, f)))

    gc = lambda f, ty=np.int64: (lambda e: np.array([f(e, j) for j in range(e.n)], dtype=ty))
    Gm = lambda m: instances(N_, m, 2)
    Yat = lambda t: [Yf['Y%d' % i](t) for i in range(N_)]

    def modelled(run):
        memo = {}

        def model(e):
            if memo.get('e') is not e:
                with np.errstate(all='ignore'):
                    memo['e'], memo['L'] = e, [run(lambda x, j=j: e[x][j]) for j in range(e.n)]
            return memo['L']
        return lambda f, ty=F: (lambda e: np.array([f(x) for x in model(e)], dtype=ty))

    def clock(k):
        k.setm('cv_tn', k.f('tn'))
        k.setm('cv_h', k.f('h', real))
        k.setm('cv_uround', k.f('ur', lambda r, n: np.where(r.random(n) < .5, F(2.220446049250313e-16), np.exp(r.uniform(-8, -4, n)).astype(F))))
        for j in (0, 1):
            k.symvec(k.zn(j), 'z%d_' % j)

    def rounded(g):
        return 100 * g('ur') * (abs(g('tn')) + abs(g('h')))

    def started(m, fail=None):
        """the functions at the start"""
        def go(rep):
            k = setting(m, fail)
            clock(k)
            k.setm('cv_tlo', k.f('tlo'))
            r = k.call('cvRcheck1', k.mem)
            U = dict(Gm(m))

            def run(g):
                z0, z1 = [[g('z%d_%d' % (j, i)) for i in range(N_)] for j in (0, 1)]
                R = dict(st=0, nge=1, tlo=g('tn'), y=[g('yo%d' % i) for i in range(N_)], act=[0] * m, g=[0] * m)
                if fail and fail[0] == 0:
                    return dict(R, st=RTF, part=1)
                v = [U['G%d' % i](g('tn'), *z0) for i in range(m)]
                R.update(g=v, act=[int(x != 0) for x in v])
                if all(R['act']):
                    return R
                hr = max(rounded(g) / abs(g('h')), F(.1))
                R['nge'] = 2
                R['y'] = [a + hr * b for a, b in zip(z0, z1)]
                if fail and fail[0] == 1:
                    return dict(R, st=RTF, part=1)
                w = [U['G%d' % i](g('tn') + hr * g('h'), *R['y']) for i in range(m)]
                R['g'] = [b if a == 0 else a for a, b in zip(v, w)]
                R['act'] = [int(x != 0) for x in R['g']]
                return R
            vec_ = modelled(run)
            ok = icmp('eq', r, 0)
            ps = [('status', r, vec_(lambda x: x['st'], np.int64)), ('evaluations', k.m('cv_nge'), vec_(lambda x: x['nge'], np.int64)), ('start of the search', k.m('cv_tlo'), vec_(lambda x: x['tlo']))]
            for i in range(m):
                ps.append(('value of function %d' % i, arr(k, 'glo', i), vec_(lambda x, i=i: x['g'][i]), ok))
                ps.append(('function %d takes part' % i, arr(k, 'gactive', i, 'i32'), vec_(lambda x, i=i: x['act'][i], np.int64), ok))
                ps.append(('report for function %d' % i, arr(k, 'iroots', i, 'i32'), 0))
                ps.append(('direction of function %d stays' % i, arr(k, 'rootdir', i, 'i32'), sym('dir%d' % i, 'i')))
            for i in range(N_):
                ps.append(('state stays', k.column(0)[i], sym('z0_%d' % i)))
                ps.append(('derivative stays', k.column(1)[i], sym('z1_%d' % i)))
            for v in k.events('user:root'):
                ps.append(('user data', eqv(v.data[0][3], k.udata), True, v.pc))
            decide(rep, 'functions at the start, %d%s' % (m, ', evaluation %d fails' % (fail[0] + 1) if fail else ''), k, ps, seed, npts, rtol=1e-10, ufs=U, assume_=lambda e: e['h'] != 0)
        return go
    for m in (1, 2, 3):
        out.append(('start %d' % m, started(m)))
    for f in ((0, 1), (1, -3)):
        out.append(('start failing %d' % f[0], started(2, f)))

    def again(m, fail=None):
        """the functions just behind a zero already reported"""
        def go(rep):
            k = setting(m, fail)
            clock(k)
            k.setm('cv_tlo', k.f('tlo'))
            k.setm('cv_irfnd', sym('irf', 'i'))
            k.dom['irf'] = among(0, 1, 1, 1)
            r = k.call('cvRcheck2', k.mem)
            U = dict(Gm(m))
            U.update(Yf)

            def run(g):
                R = dict(st=0, nge=7, g=[g('glo%d' % i) for i in range(m)], ir=[None] * m)
                if g('irf') == 0:
                    return dict(R, ir=[g('old%d' % i) for i in range(m)])
                act = [g('act%d' % i) for i in range(m)]
                t, h = g('tlo'), g('h')
                R['nge'] += 1
                if fail and fail[0] == 0:
                    return dict(R, st=RTF)
                y = Yat(t)
                v = [U['G%d' % i](t, *y) for i in range(m)]
                R['g'] = list(v)
                z = [bool(a and x == 0) for a, x in zip(act, v)]
                R['ir'] = [0] * m
                if not any(z):
                    return R
                small = rounded(g) if h > 0 else -rounded(g)
                tp = t + small
                if (tp - g('tn')) * h >= 0:
                    y = [a + small / h * g('z1_%d' % i) for i, a in enumerate(y)]
                else:
                    y = Yat(tp)
                R['nge'] += 1
                if fail and fail[0] == 1:
                    return dict(R, st=RTF)
                w = [U['G%d' % i](tp, *y) for i in range(m)]
                for i in range(m):
                    if z[i] and w[i] == 0:
                        return dict(R, st=CLOSE)
                    if z[i]:
                        R['g'][i] = w[i]
                        R['ir'][i] = None
                    elif act[i] and w[i] == 0:
                        R['st'] = FOUND
                        R['ir'][i] = 1
                return R
            vec_ = modelled(run)
            ps = [('status', r, vec_(lambda x: x['st'], np.int64)), ('evaluations', k.m('cv_nge'), vec_(lambda x: x['nge'], np.int64)),
                  ('time', k.m('cv_tlo'), sym('tlo'))]
            ok = or_(icmp('eq', r, 0), icmp('eq', r, FOUND))
            for i in range(m):
                ps.append(('value of function %d' % i, arr(k, 'glo', i), vec_(lambda x, i=i: x['g'][i]), ok))
                ps.append(('function %d takes part as before' % i, arr(k, 'gactive', i, 'i32'), sym('act%d' % i, 'i')))
                got = arr(k, 'iroots', i, 'i32')
                ps.append(('report for function %d' % i, got, (lambda i, got: lambda e: np.where(vec_(lambda x: x['ir'][i] is None, bool)(e), e['ev'](got), vec_(lambda x: x['ir'][i] or 0, np.int64)(e)))(i, got), ok))
            for i in range(N_):
                ps.append(('state stays', k.column(0)[i], sym('z0_%d' % i)))
            for v in k.events('user:root'):
                ps.append(('user data', eqv(v.data[0][3], k.udata), True, v.pc))
            for v in k.events('user:dky'):
                ps.append(('values of the solution', v.data[0][1], 0, v.pc))

            def pre(e, rng):
                n = len(e['tn'])
                e['tlo'] = np.where(rng.random(n) < .5, e['tlo'], e['tn'] - e['h'] * rng.choice([0, 1e-4, .3], n).astype(F))
                return e
            decide(rep, 'functions behind a zero, %d%s' % (m, ', evaluation %d fails' % (fail[0] + 1) if fail else ''), k, ps, seed, npts, rtol=1e-10, ufs=U, pre=pre, assume_=lambda e: e['h'] != 0)
        return go
    for m in (1, 2, 3):
        out.append(('again %d' % m, again(m)))
    for f in ((0, 1), (1, -3)):
        out.append(('again failing %d' % f[0], again(2, f)))

    def step(m, task, fail=None):
        """the step just taken"""
        def go(rep):
            k = setting(m, fail)
            clock(k)
            k.setm('cv_tlo', k.f('tlo'))
            k.setm('cv_taskc', task)
            k.setm('cv_toutc', k.f('tout'))
            k.dom['rf'] = among(0, 0, FOUND, FOUND, RTF)

            def find(st, a, ty):
                old, k.s = k.s, st
                k.E.event(st, 'user:find', (k.m('cv_tlo'), k.m('cv_thi'), k.m('cv_ttol')), [arr(k, 'ghi', i) for i in range(m)] + [arr(k, 'glo', i) for i in range(m)])
                k.setm('cv_trout', k.f('tr'))
                for i in range(m):
                    k.st('double', k.f('gr%d' % i, mixed(real, 0.0)), k.m('cv_grout'), 8 * i)
                    k.st('i32', sym('nr%d' % i, 'i'), k.m('cv_iroots'), 4 * i)
                k.s = old
                return sym('rf', 'i')
            k.E.hooks['cvRootfind'] = find
            r = k.call('cvRcheck3', k.mem)
            U = dict(Gm(m))
            U.update(Yf)

            def run(g):
                thi = g('tn') if task == ONE_STEP or (g('tout') - g('tn')) * g('h') >= 0 else g('tout')
                y = [g('z0_%d' % i) for i in range(N_)] if task == ONE_STEP or (g('tout') - g('tn')) * g('h') >= 0 else Yat(thi)
                R = dict(st=RTF, thi=thi, ghi=[U['G%d' % i](thi, *y) for i in range(m)], tol=rounded(g), y=y, ir=[g('old%d' % i) for i in range(m)], tlo=g('tlo'))
                if fail:
                    return R
                R['st'] = g('rf')
                R['ir'] = [g('nr%d' % i) for i in range(m)]
                R['act'] = [g('act%d' % i) or int(g('gr%d' % i) != 0) for i in range(m)]
                if R['st'] == FOUND:
                    R['y'] = Yat(g('tr'))
                return R
            vec_ = modelled(run)
            ok = not_(icmp('eq', r, RTF))
            ps = [('status', r, vec_(lambda x: x['st'], np.int64)), ('evaluations', k.m('cv_nge'), 8)]
            evs = k.events('user:find')
            ps.append(('searched once', driver.ored(v.pc for v in evs), 0 if fail else 1))
            for v in evs:
                ps.append(('start of the bracket', v.data[0][0], sym('tlo'), v.pc))
                ps.append(('end of the bracket', v.data[0][1], vec_(lambda x: x['thi']), v.pc))
                ps.append(('tolerance', v.data[0][2], vec_(lambda x: x['tol']), v.pc))
                for i in range(m):
                    ps.append(('value of function %d at the end' % i, v.data[1][i], vec_(lambda x, i=i: x['ghi'][i]), v.pc))
                    ps.append(('value of function %d at the start' % i, v.data[1][m + i], sym('glo%d' % i), v.pc))
            for i in range(m):
                ps.append(('report for function %d' % i, arr(k, 'iroots', i, 'i32'), vec_(lambda x, i=i: x['ir'][i], np.int64)))
                if not fail:
                    ps.append(('function %d takes part' % i, arr(k, 'gactive', i, 'i32'), vec_(lambda x, i=i: x['act'][i], np.int64), ok))
                    ps.append(('value of function %d to go on from' % i, arr(k, 'glo', i), sym('gr%d' % i), ok))
            if not fail:
                ps.append(('time to go on from', k.m('cv_tlo'), sym('tr'), ok))
            found = icmp('eq', r, FOUND)
            for i in range(N_):
                ps.append(('solution returned %d' % i, k.data(k.m('cv_y'), N_)[i], vec_(lambda x, i=i: x['y'][i]), found))
                ps.append(('state stays', k.column(0)[i], sym('z0_%d' % i)))
            for v in k.events('user:root'):
                ps.append(('user data', eqv(v.data[0][3], k.udata), True, v.pc))
                for i in range(N_):
                    ps.append(('solution given %d' % i, v.data[1][i], vec_(lambda x, i=i: x['y'][i]), and_(v.pc, not_(found))))
            for v in k.events('user:dky'):
                ps.append(('values of the solution', v.data[0][1], 0, v.pc))
            decide(rep, 'step taken, %s, %d%s' % ({1: 'to a time', 2: 'one step'}[task], m, ', evaluation fails' if fail else ''), k, ps, seed, npts, rtol=1e-10, ufs=U, assume_=lambda e: e['h'] != 0)
        return go
    for task in (NORMAL, ONE_STEP):
        for m in (1, 3):
            out.append(('step %d %d' % (task, m), step(m, task)))
        out.append(('step %d failing' % task, step(2, task, (0, -1))))

    # ---------------------------------------------------------------- settings
    FIELDS = (('glo', 'double', 8), ('ghi', 'double', 8), ('grout', 'double', 8), ('iroots', 'i32', 4), ('rootdir', 'i32', 4), ('gactive', 'i32', 4))

    def usable(k, m, key, rep):
        """storage for m functions"""
        for f, ty, sz in FIELDS:
            p = k.m('cv_' + f)
            for i in range(m):
                k.st(ty, 5.5 if ty == 'double' else 1, p, sz * i)
        r = [k.call('cvRcheck1', k.mem)]
        decide(rep, key + ': storage', k, [('usable', x, 0) for x in r], seed, 20, relate=False)

    def settings(rep):
        for first in (0, 1, 2, 4):
            for then in (0, 1, 2, 4, -3):
                for g in ('same', 'other', 'none'):
                    k = Cv(BDF, N_, 0, tol=None)

                    def fn(st, a, ty):
                        for i in range(4):
                            if i < st.vars['m']:
                                k.E.store(st, 'double', 1.0, k.E.padd(a[2], 8 * i))
                        return 0
                    g1, g2 = k.hook('user_root', fn), k.hook('user_root2', fn)
                    w0 = k.m('cv_lrw'), k.m('cv_liw')
                    if first:
                        k.when(icmp('eq', k.call('CVodeRootInit', k.mem, first, g1), 0), True)
                        for i in range(first):
                            k.st('i32', 1, k.m('cv_rootdir'), 4 * i)
                            k.st('i32', 0, k.m('cv_gactive'), 4 * i)
                    was = k.record('CVodeMemRec', k.mem)
                    r = k.call('CVodeRootInit', k.mem, then, {'same': g1, 'other': g2, 'none': NULL}[g])
                    key = 'root functions: %d, then %d %s' % (first, then, g)
                    bad = then > 0 and g == 'none'
                    new = first if bad else max(then, 0)
                    ps = [('status', r, ILL if bad else 0), ('number', k.m('cv_nrtfn'), new)]
                    if bad:
                        now = k.record('CVodeMemRec', k.mem)
                        for f in now:
                            if f in was:
                                ps.append((f + ' stays', eqv(now[f], was[f]), True))
                    else:
                        ps.append(('function', eqv(k.m('cv_gfun'), {'same': g1, 'other': g2, 'none': NULL}[g] if then > 0 else NULL), True))
                        ps.append(('work space', isub(k.m('cv_lrw'), w0[0]), 3 * new))
                        ps.append(('integer work space', isub(k.m('cv_liw'), w0[1]), 3 * new))
                        if new and new != first:
                            for i in range(new):
                                ps.append(('direction %d' % i, arr(k, 'rootdir', i, 'i32'), 0))
                                ps.append(('function %d takes part' % i, arr(k, 'gactive', i, 'i32'), 1))
                    decide(rep, key, k, ps, seed, 20, relate=False)
                    if new:
                        k.s.vars['m'] = new
                        usable(k, new, key, rep)
    out.append(('settings', settings))

    def isub(a, b):
        return iop('sub', a, b)

    def reports(rep):
        for m in (0, 1, 2, 3):
            for null in (False, True):
                k = Cv(BDF, N_, 0, tol=None)
                fn = k.hook('user_root', lambda st, a, ty: 0)
                if m:
                    k.when(icmp('eq', k.call('CVodeRootInit', k.mem, m, fn), 0), True)
                a = k.buf(32, 'directions')
                b = k.buf(32, 'report')
                c = k.buf(8, 'count')
                for i in range(4):
                    k.st('i32', sym('d%d' % i, 'i'), a, 4 * i)
                    k.st('i32', sym('b%d' % i, 'i'), b, 4 * i)
                    if i < m:
                        k.st('i32', sym('r%d' % i, 'i'), k.m('cv_iroots'), 4 * i)
                k.st('i64', sym('c', 'i'), c)
                k.setm('cv_nge', sym('nge', 'i'))
                k.setm('cv_mxgnull', sym('mxg', 'i'))
                was = k.record('CVodeMemRec', k.mem)
                mem = NULL if null else k.mem
                ps = [('status of the directions', k.call('CVodeSetRootDirection', mem, a), MEMNULL if null else 0 if m else ILL),
                      ('status of the warning', k.call('CVodeSetNoInactiveRootWarn', mem), MEMNULL if null else 0),
                      ('status of the report', k.call('CVodeGetRootInfo', mem, b), MEMNULL if null else 0),
                      ('status of the count', k.call('CVodeGetNumGEvals', mem, c), MEMNULL if null else 0)]
                now = k.record('CVodeMemRec', k.mem)
                for f in now:
                    if f in was and f != 'cv_mxgnull':
                        ps.append((f + ' stays', eqv(now[f], was[f]), True))
                ps.append(('warning', k.m('cv_mxgnull'), sym('mxg', 'i') if null else 0))
                for i in range(4):
                    ps.append(('given direction stays', k.ld('i32', a, 4 * i), sym('d%d' % i, 'i')))
                    ps.append(('report %d' % i, k.ld('i32', b, 4 * i), sym('r%d' % i, 'i') if i < m and not null else sym('b%d' % i, 'i')))
                    if i < m:
                        ps.append(('direction %d' % i, arr(k, 'rootdir', i, 'i32'), 0 if null else sym('d%d' % i, 'i')))
                ps.append(('count', k.ld('i64', c), sym('c' if null else 'nge', 'i')))
                decide(rep, 'directions and reports, %d functions%s' % (m, ', no solver' if null else ''), k, ps, seed, 20)
    out.append(('reports', reports))

    # ---------------------------------------------------------------- the solver around it
    out += driver.tasks(tier, seed, roots=True)
    return out
