"""P65: advancing the solution: what a call returns and where it stops."""
from .cvk import *

RULE = ('advancing to a time takes internal steps until that time is reached or passed and returns the interpolated state there (one step at a time: the state just reached); '
        'a stop time is never passed; too many steps, too much accuracy, unusable weights or a failed step end the call with the matching code and the last time and state reached; '
        'the first call evaluates the initial derivatives once, scales them by the chosen first step, and keeps that step within its limits')
ILL, TMW, TMA, NOMALLOC, MEMNULL = -22, -1, -2, -23, -21
TSTOP = 1
for _n in ('cv_SensMallocDone cv_constraintsSet cv_user_efun cv_atolmin0 cv_fSDQ cv_mxgnull'.split()):
    TY[_n] = ('i32', 4)
Q, N_ = 2, 2
FOUND, RTF, CLOSE, ROOT = 1, -12, 3, 2      # outcomes of the root checks, and of a call ended by a root


def ored(cs):
    r = False
    for c in cs:
        r = or_(r, c)
    return b2i(r)


def tasks(tier, seed, roots=False):
    out = []
    npts = 250 if tier == 'quick' else 1500
    tiny = lambda r, n: np.exp(r.uniform(-36, -30, n)).astype(F)
    eps = lambda r, n: np.where(r.random(n) < .5, F(2.220446049250313e-16), np.exp(r.uniform(-12, 1, n)).astype(F))

    def setting(Ns, con, tstop, ism=STG, mx=(1, 2, 3, 0, -1, 500)):
        k = Cv(BDF, N_, Ns, ism, tol=None)
        r = k.call('CVodeSStolerances', k.mem, k.f('rtol', mixed(pos, 0.0, 1e-17)), k.f('atol', mixed(pos, 0.0, 1e-18)))
        k.when(icmp('eq', r, 0), True)
        k.setm('cv_errconS', con)
        k.setm('cv_e_data', k.mem)
        if Ns:
            for s in range(Ns):
                k.st('double', k.f('pbar%d' % s, pos), k.m('cv_pbar'), 8 * s)
        k.setm('cv_uround', k.f('ur', eps))
        k.setm('cv_mxstep', sym('mxstep', 'i'))
        k.dom['mxstep'] = among(*mx)
        k.setm('cv_mxhnil', sym('mxhnil', 'i'))
        k.dom['mxhnil'] = among(-1, 0, 1, 2)
        k.setm('cv_nhnil', 0)
        if tstop:
            k.setm('cv_tstopset', 1)
            k.setm('cv_tstop', k.f('tstop'))
        if roots:
            k.when(icmp('eq', k.call('CVodeRootInit', k.mem, 2, k.hook('user_root', lambda st, a, ty: 0)), 0), True)
            k.setm('cv_mxhnil', -1)
            k.setm('cv_irfnd', sym('irf', 'i'))
            k.dom['irf'] = among(0, 1)
            for i in range(2):
                k.st('i32', sym('act%d' % i, 'i'), k.m('cv_gactive'), 4 * i)
                k.dom['act%d' % i] = among(0, 1, 1, 1)
            k.setm('cv_mxgnull', sym('mxg', 'i'))
            k.dom['mxg'] = among(0, 1)

            def check(nm, dom):
                def f(st, a, ty):
                    old, k.s = k.s, st
                    c = k.m('cv_nst') - base[0]
                    k.E.event(st, 'user:' + nm, (c, k.m('cv_tn'), k.m('cv_h'), k.m('cv_taskc'), k.m('cv_toutc'), k.m('cv_y')), None)
                    x = '%s_%d' % (nm, c)
                    k.dom[x] = dom
                    for i in range(N_):
                        k.wr(st, k.m('cv_y'), i, k.f('%sy%d' % (x, i)))
                    k.setm('cv_tlo', k.f(x + 't'))
                    k.s = old
                    return sym(x, 'i')
                k.E.hooks['cvRcheck%s' % nm[1]] = f
            check('r1', among(0, 0, RTF))
            check('r2', among(0, 0, 0, CLOSE, FOUND, RTF))
            check('r3', among(0, 0, 0, 0, FOUND, RTF))
        return k

    def seth(k, v, near=True):
        """symbols of the step state after step v"""
        k.setm('cv_tn', k.f('tn%d' % v))
        k.setm('cv_h', k.f('h%d' % v, mixed(pos, 1e-30) if near else pos))
        k.setm('cv_hu', k.f('hu%d' % v, pos))
        k.setm('cv_hprime', k.f('hp%d' % v, pos))
        k.setm('cv_eta', k.f('eta%d' % v, pos))
        for j in range(Q + 1):
            k.symvec(k.zn(j), 'z%d_%d_' % (v, j), mixed(real, 0.0) if j == 0 else None)
            for s in range(k.Ns):
                k.symvec(k.znS(j, s), 'zs%d_%d_%d_' % (v, j, s), mixed(real, 0.0) if j == 0 else None)

    def step_hook(k, script):
        def h_step(st, a, ty):
            old, k.s = k.s, st
            v = k.m('cv_nst') - base[0] + 1
            k.E.event(st, 'user:step', (v, k.m('cv_hprime'), k.m('cv_eta'), k.m('cv_tn'), k.m('cv_h')), None)
            rc = script[v - 1]
            if rc == 0:
                seth(k, v)
                k.setm('cv_nst', base[0] + v)
                k.setm('cv_qprime', Q + (v % 2))
            k.s = old
            return rc
        k.E.hooks['cvStep'] = h_step
    base = [5]

    def weights(e, j, z, w):
        """weights of the state or None when unusable"""
        a = [e['rtol'][j] * abs(x) + w for x in z]
        return None if any(x <= 0 for x in a) else [1 / x for x in a]

    def run_model(e, j, itask, tout, Ns, con, tstop, script, first=None):
        """one sample; returns dict"""
        R = {'st': None, 'tret': None, 'y': None, 'tsset': int(tstop)}
        g = lambda x: e[x][j]
        ur = g('ur')
        cur = 0
        nst = 5 if first is None else 0
        tn = g('tn0')
        h = g('h0') if first is None else first['h']
        hu, hp, eta = g('hu0'), g('hp0') if first is None else h, g('eta0')
        y_ = lambda x: [g('%sy%d' % (x, i)) for i in range(N_)]
        R['irf'] = g('irf') if roots else 0
        R['r2'], R['r3'] = 0, []
        if roots and first:
            R['r1'], R['y'], R['tret'] = 1, first['y'], tn
        z = lambda v, jj: [g('z%d_%d_%d' % (v, jj, i)) for i in range(N_)]
        zs = lambda v, s: [g('zs%d_0_%d_%d' % (v, s, i)) for i in range(N_)]
        tst = g('tstop') if tstop else None
        R['steps'] = []
        R['nhnil'] = 0

        def dky(t):
            fz = 100 * ur * (abs(tn) + abs(hu))
            if hu < 0:
                fz = -fz
            tp, t1 = tn - hu - fz, tn + fz
            if (t - tp) * (t - t1) > 0:
                return None
            s = (t - tn) / h
            return [sum(z(cur, jj)[i] * s ** jj for jj in range(Q + 1)) for i in range(N_)]

        def fin(st, t=None, y=None):
            R.update(st=st, tn=tn, h=h, hp=hp, eta=eta, cur=cur)
            if t is not None:
                R['tret'] = t
            if y is not None:
                R['y'] = y
            return R
        trd = 100 * ur * (abs(tn) + abs(h))
        if nst > 0 and roots:
            was = R['irf']
            R['r2'] = 1
            R['y'] = y_('r2_0')
            if g('r2_0') == CLOSE:
                return fin(ILL)
            if g('r2_0') == RTF:
                return fin(RTF)
            if g('r2_0') == FOUND:
                return fin(ROOT, g('r2_0t'))
            if abs(tn - g('tretlast')) > trd:
                R['r3'].append((0, tn, h))
                R['y'] = y_('r3_0')
                if g('r3_0') == RTF:
                    return fin(RTF)
                R['irf'] = g('r3_0')
                if g('r3_0') == FOUND:
                    return fin(ROOT, g('r3_0t'))
                if was == 1 and itask == ONE_STEP:
                    return fin(0, tn, z(cur, 0))
        if nst > 0:
            if itask == NORMAL and (tn - tout) * h >= 0:
                y = dky(tout)
                if y is None:
                    return fin(ILL, tout)
                return fin(0, tout, y)
            if itask == ONE_STEP and abs(tn - g('tretlast')) > trd:
                return fin(0, tn, z(cur, 0))
            if R['tsset']:
                if abs(tn - tst) <= trd:
                    y = dky(tst)
                    if y is None:
                        return fin(ILL)
                    R['tsset'] = 0
                    return fin(TSTOP, tst, y)
                if (tn + hp - tst) * h > 0:
                    hp = (tst - tn) * (1 - 4 * ur)
                    eta = hp / h
        nloc = 0
        while True:
            Z = z(cur, 0)
            if nst > 0:
                w = weights(e, j, Z, g('atol'))
                if w is None:
                    return fin(ILL, tn, Z)
                ws = []
                for s in range(Ns):
                    x = weights(e, j, zs(cur, s), g('atol') / abs(g('pbar%d' % s)))
                    if x is None:
                        return fin(ILL, tn, Z)
                    ws.append(x)
            else:
                w = [g('w%d' % i) for i in range(N_)]
                ws = [[g('ws%d_%d' % (s, i)) for i in range(N_)] for s in range(Ns)]
            mx = g('mxstep')
            if mx > 0 and nloc >= mx:
                return fin(TMW, tn, Z)
            nr = wrms(Z, w)
            if con:
                for s in range(Ns):
                    nr = max(nr, wrms(zs(cur, s), ws[s]))
            if ur * nr > 1:
                R['tolsf'] = 2 * ur * nr
                return fin(TMA, tn, Z)
            if tn + h == tn:
                R['nhnil'] += 1
            v = nloc + 1
            R['steps'].append((hp, eta, tn, h))
            if script[v - 1] != 0:
                return fin(script[v - 1], tn, Z)
            nst += 1
            nloc += 1
            cur = v
            tn, h, hu, hp, eta = (g('%s%d' % (x, v)) for x in ('tn', 'h', 'hu', 'hp', 'eta'))
            if R['tsset'] and abs(tn - tst) <= 100 * ur * (abs(tn) + abs(h)):
                tn = tst
            if roots:
                x = 'r3_%d' % v
                R['r3'].append((v, tn, h))
                R['y'] = y_(x)
                if g(x) == FOUND:
                    R['irf'] = 1
                    return fin(ROOT, g(x + 't'))
                if g(x) == RTF:
                    return fin(RTF)
                if nst == 1:
                    R['warn'] = int(g('mxg') > 0 and not (g('act0') and g('act1')))
            if itask == NORMAL and (tn - tout) * h >= 0:
                R['next'] = (hp, Q + (v % 2))
                return fin(0, tout, dky(tout))
            if R['tsset']:
                if abs(tn - tst) <= 100 * ur * (abs(tn) + abs(h)):
                    y = dky(tst)
                    R['tsset'] = 0
                    return fin(TSTOP, tst, y)
                if (tn + hp - tst) * h > 0:
                    hp = (tst - tn) * (1 - 4 * ur)
                    eta = hp / h
            if itask == ONE_STEP:
                R['next'] = (hp, Q + (v % 2))
                return fin(0, tn, z(cur, 0))

    def finish(rep, key, k, r, tret, yout, itask, Ns, con, tstop, script, pre=None, first=None, assume_=None, more=(), ufs=None):
        memo = {}

        def model(e):
            if not memo:
                n = len(e['tn0'])
                with np.errstate(all='ignore'):
                    L = []
                    for j in range(n):
                        f = first(e, j) if first else None
                        if f is not None and 'st' in f:
                            L.append(f)
                        else:
                            L.append(run_model(e, j, itask, e['tout'][j], Ns, con, tstop, script, f))
                memo['L'] = L
            return memo['L']

        def vec_(fn_, ty=F):
            return lambda e: np.array([fn_(e, j, m) for j, m in enumerate(model(e))], dtype=ty)
        ps = [('status', r, vec_(lambda e, j, m: m['st'], np.int64)),
              ('reported time', k.ld('double', tret), vec_(lambda e, j, m: e['tret0'][j] if m['tret'] is None else m['tret'])),
              ('remembered time', k.m('cv_tretlast'), vec_(lambda e, j, m: e['tretlast'][j] if m['tret'] is None else m['tret'])),
              ('stop time pending', k.m('cv_tstopset'), vec_(lambda e, j, m: m['tsset'], np.int64)),
              ('time reached', k.m('cv_tn'), vec_(lambda e, j, m: m['tn']))]
        for i in range(N_):
            ps.append(('returned component %d' % i, k.data(yout, N_)[i], vec_(lambda e, j, m, i=i: e['yo%d' % i][j] if m['y'] is None else m['y'][i])))
        okm = lambda m: 'cur' in m
        ps.append(('planned step', k.m('cv_hprime'), vec_(lambda e, j, m: m['hp'])))
        ps.append(('planned ratio', k.m('cv_eta'), vec_(lambda e, j, m: m['eta'])))
        ps.append(('small-step count', k.m('cv_nhnil'), vec_(lambda e, j, m: m.get('nhnil', 0), np.int64)))
        nx = icmp('eq', r, 0)
        ps.append(('reported next step', ite(nx, k.m('cv_next_h'), 0.0), vec_(lambda e, j, m: (m['next'][0] if 'next' in m else e['nh'][j]) if m['st'] == 0 else 0)))
        ps.append(('reported next order', ite(nx, k.m('cv_next_q'), 0), vec_(lambda e, j, m: (m['next'][1] if 'next' in m else 77) if m['st'] == 0 else 0, np.int64)))
        ps.append(('suggested tolerance factor', ite(icmp('eq', r, TMA), k.m('cv_tolsf'), 0.0), vec_(lambda e, j, m: m['tolsf'] if m['st'] == TMA else 0)))
        for x in range(len(script)):
            evs = [v for v in k.events('user:step') if v.data[0][0] == x + 1]
            for c, nm in enumerate(('planned step', 'planned ratio', 'time', 'step')):
                val = 0.0
                for v in evs:
                    val = ite(v.pc, v.data[0][1 + c], val)
                ps.append(('%s when step %d is taken' % (nm, x + 1), val, vec_(lambda e, j, m, x=x, c=c: m['steps'][x][c] if len(m.get('steps', ())) > x else 0)))
        if roots:
            key += ', root functions watched'
            ps.append(('root pending', k.m('cv_irfnd'), vec_(lambda e, j, m: m.get('irf', e['irf'][j]), np.int64)))
            ps.append(('functions looked at again', ored(v.pc for v in k.events('user:r2')), vec_(lambda e, j, m: m.get('r2', 0), np.int64)))
            ps.append(('functions looked at initially', ored(v.pc for v in k.events('user:r1')), vec_(lambda e, j, m: m.get('r1', 0), np.int64)))
            for x in range(len(script)):
                evs = [v for v in k.events('user:r3') if v.data[0][0] == x]
                call = lambda m, x=x: ([c for c in m.get('r3', ()) if c[0] == x] + [None])[0]
                ps.append(('last step searched after step %d' % x, ored(v.pc for v in evs), vec_(lambda e, j, m, call=call: int(call(m) is not None), np.int64)))
                for c, nm in ((1, 'time'), (2, 'step')):
                    val = 0.0
                    for v in evs:
                        val = ite(v.pc, v.data[0][c], val)
                    ps.append(('%s when searched after step %d' % (nm, x), val, vec_(lambda e, j, m, call=call, c=c: (call(m) or (0, 0, 0))[c])))
            for v in k.events('user:r3'):
                ps.append(('task known to the search', v.data[0][3], itask, v.pc))
                if itask == NORMAL:
                    ps.append(('end time known to the search', v.data[0][4], sym('tout'), v.pc))
            ps.append(('told of functions that stay zero', ored(v.pc for v in k.events('msg') if v.data[0] == 99), vec_(lambda e, j, m: m.get('warn', 0), np.int64)))
            for nm in ('r1', 'r2', 'r3'):
                for v in k.events('user:' + nm):
                    ps.append(('storage of the solution', eqv(v.data[0][5], yout), True, v.pc))
        decide(rep, key, k, ps + list(more), seed, npts, pre=pre, assume_=assume_, rtol=1e-8, ufs=ufs)

    def io(k):
        k.setm('cv_next_h', k.f('nh'))
        k.setm('cv_next_q', 77)
        tret = k.buf(8, 'tret')
        k.st('double', k.f('tret0'), tret)
        return tret, k.vec(N_, 'yo'), k.f('tout')

    def later(itask, Ns, con, tstop, script, ism=STG):
        def go(rep):
            k = setting(Ns, con, tstop, ism)
            seth(k, 0)
            k.setm('cv_q', Q)
            k.setm('cv_L', Q + 1)
            base[0] = 5
            k.setm('cv_nst', 5)
            k.setm('cv_tretlast', k.f('tretlast'))
            step_hook(k, script)
            tret, yout, tout = io(k)
            if ism == STG1:
                for s in range(Ns):
                    k.st('i64', sym('ncf%d' % s, 'i'), k.m('cv_ncfnS1'), 8 * s)
                    k.st('i64', sym('nni%d' % s, 'i'), k.m('cv_nniS1'), 8 * s)
            r = k.call('CVode', k.mem, tout, yout, tret, itask)
            more = []
            if ism == STG1:
                # counters are gathered whenever the call got past its entry tests
                took = False
                for v in k.events('user:step'):
                    took = or_(took, v.pc)
                for nm, f in (('ncf', 'cv_ncfnS'), ('nni', 'cv_nniS')):
                    more.append((f, ite(took, k.m(f), 0), (lambda nm: lambda e: np.where(e['ev'](took), sum(e['%s%d' % (nm, s)] for s in range(Ns)), 0))(nm)))
            V_ = len(script) + 1

            def pre(env, rng):
                n = len(env['tout'])
                m = rng.random(n)
                up = rng.random(n) < .6     # steps in sequence, each ending where the size says
                for v in range(1, V_):
                    if 'tn%d' % v in env:
                        env['hu%d' % v] = np.where(up, np.abs(env['hu%d' % v]), env['hu%d' % v])
                        env['tn%d' % v] = np.where(up, env['tn%d' % (v - 1)] + env['hu%d' % v], env['tn%d' % v])
                bk = rng.random(n) < .3     # backward integration
                for x in ('h', 'hu', 'hp'):
                    for v in range(V_):
                        if '%s%d' % (x, v) in env:
                            env['%s%d' % (x, v)] = np.where(bk, -env['%s%d' % (x, v)], env['%s%d' % (x, v)])
                for v in range(1, V_):
                    if 'tn%d' % v in env:
                        env['tn%d' % v] = np.where(up & bk, env['tn%d' % (v - 1)] + env['hu%d' % v], env['tn%d' % v])
                last = 'tn%d' % max([v for v in range(V_) if 'tn%d' % v in env])
                fr = rng.uniform(-.3, 1.3, n)
                env['tout'] = np.where(m < .5, env['tn0'] + fr.astype(F) * (env[last] - env['tn0']), np.where(m < .6, env[last], env['tout']))
                if tstop:
                    m = rng.random(n)
                    fr = rng.uniform(-.2, 1.2, n)
                    v = rng.integers(0, V_, n)
                    ts = np.choose(v, [env.get('tn%d' % x, env['tn0']) for x in range(V_)])
                    env['tstop'] = np.where(m < .4, env['tn0'] + fr.astype(F) * (env[last] - env['tn0']), np.where(m < .7, ts, np.where(m < .8, ts * (1 + F(1e-15)), env['tstop'])))
                m = rng.random(n)
                env['tretlast'] = np.where(m < .5, env['tn0'], np.where(m < .6, env['tn0'] * (1 + F(1e-15)), env['tretlast']))
                return env
            key = 'later call, %s, %d sensitivities%s%s%s, steps %s' % ({1: 'to a time', 2: 'one step'}[itask], Ns, ' controlled' if con else '', ' one at a time' if ism == STG1 else '',
                                                                      ', stop time' if tstop else '', script)
            finish(rep, key, k, r, tret, yout, itask, Ns, con, tstop, script, pre=pre, more=more)
        return go
    for itask in (NORMAL, ONE_STEP):
        for tstop in (False, True):
            for Ns, con in ((0, 0), (2, 0), (3, 1)):
                for script in ((-3,), (0, 0, -41), (0, 0, 0, -99)):
                    if Ns == 2 and len(script) != 3:
                        continue
                    out.append(('later %d %d %d %d %d' % (itask, tstop, Ns, con, len(script)), later(itask, Ns, con, tstop, script)))
    out.append(('later one at a time', later(NORMAL, 2, 0, False, (0, 0, -8), STG1)))
    out.append(('later one at a time one step', later(ONE_STEP, 3, 0, False, (0, 0, -8), STG1)))
    for c in (-4, -6, -7, -8, -10, -11, -12, -43, -44, -14, -15, -16, -27):
        out.append(('failure %d' % c, later(NORMAL, 0, 0, False, (0, c))))

    # ------------------------------------------------ first call
    def first_call(itask, Ns, con, tstop, setup=0, frc=0, fsrc=0, hflag=0, own=False, script=(-3,)):
        def go(rep):
            k = setting(Ns, con, tstop)
            k.frc, k.fsrc = frc, fsrc
            base[0] = 0
            k.setm('cv_nst', 0)
            k.setm('cv_nfe', 3)
            k.setm('cv_nfSe', 4)
            k.setm('cv_q', Q)
            k.setm('cv_L', Q + 1)
            k.setm('cv_tn', k.f('tn0'))
            k.setm('cv_tretlast', k.f('tretlast'))
            for v in ('h', 'hu', 'hprime', 'eta'):
                k.setm('cv_' + v, k.f('old' + v))
            k.setm('cv_hmax_inv', k.f('hmi', mixed(pos, 0.0)))
            k.setm('cv_hmin', k.f('hmin', mixed(lambda r, n: np.exp(r.uniform(-4, 0, n)).astype(F), 0.0)))
            k.setm('cv_hin', k.f('hin', real) if own else 0.0)
            k.symvec(k.m('cv_ewt'), 'w', pos)
            for s in range(Ns):
                k.symvec(k.arr('cv_ewtS', s), 'ws%d_' % s, pos)
            for j in (0, 1):
                k.symvec(k.zn(j), 'y%d_' % j)
                for s in range(Ns):
                    k.symvec(k.znS(j, s), 's%d_%d_' % (j, s))
            step_hook(k, script)
            hs = k.f('hsel')

            def h_hin(st, a, ty):
                old, k.s = k.s, st
                k.E.event(st, 'user:hin', (a[1],), None)
                k.setm('cv_h', hs)
                k.s = old
                return hflag
            k.E.hooks['cvHin'] = h_hin
            k.E.hooks['cvInitialSetup'] = lambda st, a, ty: setup
            tret, yout, tout = io(k)
            U = ufs_of(N_, Ns)
            r = k.call('CVode', k.mem, tout, yout, tret, itask)

            def f(e, j):
                m = dict(st=None, tn=e['tn0'][j], tret=e['tn0'][j], y=None, tsset=int(tstop), hp=e['oldhprime'][j], eta=e['oldeta'][j], scale=None, hin=0, rhs=1)
                t0, to = e['tn0'][j], e['tout'][j]
                if setup:
                    return dict(m, st=setup, rhs=0)
                if frc:
                    return dict(m, st=-8 if frc < 0 else -9)
                if Ns and fsrc:
                    return dict(m, st=-41 if fsrc < 0 else -42)
                if tstop and (e['tstop'][j] - t0) * (to - t0) <= 0:
                    return dict(m, st=ILL)
                h = e['hin'][j] if own else F(0)
                if h != 0 and (to - t0) * h < 0:
                    return dict(m, st=ILL)
                if h == 0:
                    tt = to
                    if tstop and (to - t0) * (to - e['tstop'][j]) > 0:
                        tt = e['tstop'][j]
                    m['hin'] = tt
                    h = e['hsel'][j]
                    if hflag:
                        return dict(m, st=hflag)
                x = abs(h) * e['hmi'][j]
                if x > 1:
                    h = h / x
                if abs(h) < e['hmin'][j]:
                    h = h * e['hmin'][j] / abs(h)
                if tstop and (t0 + h - e['tstop'][j]) * h > 0:
                    h = (e['tstop'][j] - t0) * (1 - 4 * e['ur'][j])
                if roots:
                    yr = [e['r1_0y%d' % i][j] for i in range(N_)]
                    if e['r1_0'][j] == RTF:
                        return dict(m, st=RTF, hp=h, r1=1, y=yr)
                    return {'h': h, 'hin': m['hin'], 'y': yr}
                return {'h': h, 'hin': m['hin']}

            def alias(e):
                for i in range(N_):
                    e['z0_0_%d' % i] = e['y0_%d' % i]
                    for s in range(Ns):
                        e['zs0_0_%d_%d' % (s, i)] = e['s0_%d_%d' % (s, i)]
                e['hu0'] = e['oldhu']
                e['hp0'] = e['oldhprime']
                e['eta0'] = e['oldeta']

            def first(e, j):
                if 'z0_0_0' not in e:
                    alias(e)
                return f(e, j)

            def scale(e, j):
                x = f(e, j)
                return x['h'] if 'h' in x and not (x['h'] == 0) else None
            # derivatives scaled by the first step, from one evaluation of each right-hand side
            more = []
            evs = k.events('user:rhs')
            yd = lambda e, j: [U['f%d' % i](e['tn0'][j], *[e['y0_%d' % a][j] for a in range(N_)]) for i in range(N_)]
            st_ = k.events('user:step')
            taken = False
            for v in st_:
                if v.data[0][0] == 1:
                    taken = or_(taken, v.pc)
            ran = icmp('eq', r, script[0])
            if len(script) == 1:
                for i in range(N_):
                    more.append(('scaled derivative %d' % i, ite(ran, k.column(1)[i], 0.0),
                                 (lambda i: lambda e: np.where(e['ev'](ran), np.array([(lambda h, j: 0 if h is None else h * yd(e, j)[i])(scale(e, j), j) for j in range(len(e['tn0']))], dtype=F), 0))(i)))
                    for s in range(Ns):
                        more.append(('scaled derivative %d of sensitivity %d' % (i, s + 1), ite(ran, k.columnS(1, s)[i], 0.0),
                                     (lambda i, s: lambda e: np.where(e['ev'](ran), np.array([(lambda h, j: 0 if h is None else h * U['g%d_%d' % (s, i)](e['tn0'][j], *([e['y0_%d' % a][j] for a in range(N_)] + [
                                         e['s0_%d_%d' % (b, a)][j] for b in range(Ns) for a in range(N_)])))(scale(e, j), j) for j in range(len(e['tn0']))], dtype=F), 0))(i, s)))
                    more.append(('component %d' % i, k.column(0)[i], sym('y0_%d' % i)))
                for c in ('cv_hscale', 'cv_h0u', 'cv_hprime', 'cv_h'):
                    more.append((c, ite(ran, k.m(c), 0.0), (lambda c: lambda e: np.where(e['ev'](ran), np.array([scale(e, j) or 0 for j in range(len(e['tn0']))], dtype=F), 0))(c)))
            more.append(('evaluations', k.m('cv_nfe'), 3 + (0 if setup else 1)))
            more.append(('sensitivity evaluations', k.m('cv_nfSe'), 4 + (1 if Ns and not setup and not frc else 0)))
            for ev in k.events('user:sens'):
                for a in range(N_):
                    more.append(('derivative handed to the sensitivity right-hand side %d' % a, ev.data[1][1][a], (lambda a: lambda e: np.array([yd(e, j)[a] for j in range(len(e['tn0']))], dtype=F))(a)))
            hin = 0.0
            for ev in k.events('user:hin'):
                hin = ite(ev.pc, ev.data[0][0], hin)
            more.append(('end time of the first-step search', hin, lambda e: np.array([f(e, j)['hin'] for j in range(len(e['tn0']))], dtype=F)))

            def pre(env, rng):
                n = len(env['tout'])
                m = rng.random(n)
                if tstop:
                    env['tstop'] = np.where(m < .2, env['tn0'], np.where(m < .5, (env['tn0'] + env['tout']) / 2, env['tstop']))
                env['hsel'] = np.abs(env['hsel']) * np.sign(env['tout'] - env['tn0'])
                return env
            key = 'first call, %s, %d sensitivities%s%s, set-up %d, right-hand sides %d %d, first step %s' % (
                {1: 'to a time', 2: 'one step'}[itask], Ns, ' controlled' if con else '', ', stop time' if tstop else '', setup, frc, fsrc, 'given' if own else hflag)
            finish(rep, key, k, r, tret, yout, itask, Ns, con, tstop, script, pre=pre, more=more, first=first, ufs=U, assume_=lambda e: (e['hsel'] != 0))
        return go
    for itask in (NORMAL, ONE_STEP):
        for tstop in (False, True):
            for Ns, con in ((0, 0), (2, 0), (3, 1)):
                for own in (False, True):
                    out.append(('first %d %d %d %d' % (itask, tstop, Ns, own), first_call(itask, Ns, con, tstop, own=own)))
    for kw in (dict(setup=-22), dict(setup=-5), dict(setup=-13), dict(frc=-1), dict(frc=1), dict(fsrc=-1), dict(fsrc=1), dict(hflag=-27), dict(hflag=-8), dict(hflag=-10), dict(hflag=-41)):
        for Ns in (0, 2):
            out.append(('first %s %d' % (kw, Ns), first_call(NORMAL, Ns, 0, False, **kw)))
    out.append(('first then more', first_call(NORMAL, 2, 1, False, script=(0, 0, -3))))

    if roots:
        del out[:]
        for itask in (NORMAL, ONE_STEP):
            for tstop in (False, True):
                for script in ((-3,), (0, -8), (0, 0, -41), (0, 0, 0, -99)):
                    out.append(('later call %d %d %d' % (itask, tstop, len(script)), later(itask, 2 * (len(script) == 3), 0, tstop, script)))
                for script in ((-3,), (0, -8)):
                    out.append(('first call %d %d %d' % (itask, tstop, len(script)), first_call(itask, 0, 0, tstop, script=script)))
        return out

    # ------------------------------------------------ refused calls
    def refused(rep):
        for what in ('no solver', 'not set up', 'no output', 'no time', 'task'):
            for Ns in (0, 2):
                k = Cv(BDF, N_, Ns, init=what != 'not set up')
                if what == 'not set up':
                    k.mem = k.call('CVodeCreate', BDF, k.ctx())
                tret = k.buf(8, 'tret')
                k.st('double', k.f('tret0'), tret)
                yout = k.vec(N_, 'yo')
                was = k.record('CVodeMemRec', k.mem)
                for it in ((0, 3, -1, 5) if what == 'task' else (1, 2)):
                    r = k.call('CVode', NULL if what == 'no solver' else k.mem, k.f('tout'), NULL if what == 'no output' else yout, NULL if what == 'no time' else tret, it)
                    ps = [('status', r, {'no solver': MEMNULL, 'not set up': NOMALLOC}.get(what, ILL)), ('reported time', k.ld('double', tret), sym('tret0'))]
                    for i in range(N_):
                        ps.append(('output', k.data(yout, N_)[i], sym('yo%d' % i)))
                        if what != 'not set up':
                            ps.append(('state', k.column(0)[i], sym('y%d' % i)))
                    now = k.record('CVodeMemRec', k.mem)
                    for m in now:
                        if m not in ('cv_y', 'cv_toutc', 'cv_taskc') and m in was:
                            ps.append((m + ' stays', eqv(now[m], was[m]), True))
                    ps.append(('evaluations', len(k.events('user:rhs')), 0))
                    decide(rep, 'refused: %s %d %d' % (what, Ns, it), k, ps, seed, 20)
    out.append(('refused', refused))
    return out
