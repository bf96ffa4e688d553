"""P66: the sensitivity right-hand side the solver builds by difference quotients."""
from .cvk import *

RULE = ('without a sensitivity right-hand side, each one is the difference quotient of the state right-hand side along the sensitivity and its parameter, of the '
        'chosen kind and with the increments the scaling asks for; whatever the right-hand side answers, the parameters and the vectors handed in come back as they '
        'were and its status is passed on')
CENT, FORW = 1, 2


def quiet(f):
    def g(*a):
        with np.errstate(all='ignore'):
            return f(*a)
    return g


def ints(k, xs):
    b = k.buf(4 * len(xs), 'integer array')
    for j, x in enumerate(xs):
        k.st('i32', x, b, 4 * j)
    return b


def tasks(tier, seed):
    out = []
    npts = 400 if tier == 'quick' else 4000

    def quotient(n, Ns, np_, kind, switch, one, fail, listed=True):     # one: 0 all at once, 1 one of them, 2 all, one after the other
        def go(rep):
            k = Cv(BDF, n, 0, tol=None)
            ps_ = [k.f('p%d' % j) for j in range(np_)]
            parr = k.darr(ps_)

            def h(st, a, ty):
                t, y, yd, ud = a[:4]
                yv = k.data(y, n, st)
                pv = [k.E.load(st, 'double', k.E.padd(parr, 8 * j)) for j in range(np_)]
                k.note(st, 'rhs', (t, y, yd, ud), yv)
                c = st.vars.get('rhs', 0)
                st.vars['rhs'] = iop('add', c, 1)
                for i in range(n):
                    k.wr(st, yd, i, mk('uf', 'f', 'f%d' % i, t, *(yv + pv)))
                if fail is None:
                    return 0
                return ite(icmp('eq', c, fail[0]), fail[1], 0)
            rhs = k.hook('user_rhs_p', h)
            k.setm('cv_f', rhs)
            k.Ns = Ns
            vs = [k.vec(n, 's%d_' % j) for j in range(Ns)]
            k.when(icmp('eq', k.call('CVodeSStolerances', k.mem, k.f('rtol', lambda r, m: 10.0 ** r.uniform(-9, -2, m)), k.f('atol', pos)), 0), True)
            k.when(icmp('eq', k.call('CVodeSensInit1' if one else 'CVodeSensInit', k.mem, Ns, STG1 if one else STG, NULL, k.parr(vs)), 0), True)
            lst = [(3 * j + 1) % np_ for j in range(Ns)] if listed else list(range(Ns))
            pb = [k.f('pbar%d' % j, lambda r, m: pos(r, m) * np.where(r.random(m) < .4, -1, 1)) for j in range(Ns)]
            for x in pb:
                k.when(not_(fcmp('feq', x, 0.0)))
            k.when(icmp('eq', k.call('CVodeSetSensParams', k.mem, parr, k.darr(pb), ints(k, lst) if listed else NULL), 0), True)
            rho = 0.0
            if switch:
                rho = k.f('rho', lambda r, m: np.where(r.random(m) < .5, 10.0 ** r.uniform(0, 9, m), 1 + 9 * r.random(m)))
            if kind != CENT or switch:
                k.when(icmp('eq', k.call('CVodeSetSensDQMethod', k.mem, kind, rho), 0), True)
            k.litter()
            ew = k.m('cv_ewt')
            k.setdata(ew, [k.f('w%d' % i, pos) for i in range(n)])
            y, fy = k.vec(n, 'y_'), k.vec(n, 'fy_')
            xs = [k.vec(n, 'x%d_' % s, dom=mixed(real, 0.0)) for s in range(Ns)]
            os_ = [k.vec(n, 'o%d_' % s) for s in range(Ns)]
            t = k.f('t')
            k.setm('cv_nfSe', 5)
            k.setm('cv_nfeS', 7)
            k.s.vars['rhs'] = 0
            tmp1, tmp2 = k.m('cv_tempv'), k.m('cv_ftemp')
            if one == 1:
                is_ = Ns - 1
                r = k.call('cvSensRhs1Wrapper', k.mem, t, y, fy, is_, xs[is_], os_[is_], tmp1, tmp2)
                which = [is_]
            else:
                r = k.call('cvSensRhsWrapper', k.mem, t, y, fy, k.parr(xs), k.parr(os_), tmp1, tmp2)
                which = list(range(Ns))
            U = {'f%d' % i: g for i, g in enumerate([ufs_of(n)['f%d' % i] for i in range(n)])}

            @quiet
            def inc(e, s):
                d = np.sqrt(np.maximum(e['rtol'], F(np.finfo(float).eps)))
                pbar = np.abs(e['pbar%d' % s])
                Dp = pbar * d
                nrm = wrms([e['x%d_%d' % (s, i)] for i in range(n)], [e['w%d' % i] for i in range(n)])
                Dy = 1 / np.maximum(nrm, 1 / Dp)
                together = np.ones(len(Dp), bool)
                if switch:
                    q = Dy / Dp
                    together = np.maximum(q, 1 / q) <= e['rho']
                return Dp, Dy, together

            def f(e, i, s, ty_, tp):
                Y = [e['y_%d' % a] + ty_ * e['x%d_%d' % (s, a)] for a in range(n)]
                P = [e['p%d' % j] + (tp if j == lst[s] else 0) for j in range(np_)]
                return U['f%d' % i](e['t'], *(Y + P))

            def dq(s, i):
                @quiet
                def g(e):
                    Dp, Dy, tog = inc(e, s)
                    D = np.minimum(Dp, Dy)
                    base = e['fy_%d' % i]
                    if kind == CENT:
                        a = (f(e, i, s, D, D) - f(e, i, s, -D, -D)) / (2 * D)
                        b = (f(e, i, s, Dy, 0) - f(e, i, s, -Dy, 0)) / (2 * Dy) + (f(e, i, s, 0, Dp) - f(e, i, s, 0, -Dp)) / (2 * Dp)
                    else:
                        a = (f(e, i, s, D, D) - base) / D
                        b = (f(e, i, s, Dy, 0) - base) / Dy + (f(e, i, s, 0, Dp) - base) / Dp
                    return np.where(tog, a, b)
                return g

            def calls(e, upto):
                return sum(np.where(inc(e, s)[2], 2 if kind == CENT else 1, 4 if kind == CENT else 2) for s in which[:upto])
            total = lambda e: calls(e, len(which))
            failed = (lambda e: total(e) > fail[0]) if fail else (lambda e: np.zeros(len(e['t']), bool))
            ps = [('status', r, lambda e: np.where(failed(e), fail[1] if fail else 0, 0))]
            okc = icmp('eq', r, 0)
            for s in which:
                for i in range(n):
                    ps.append(('derivative %d of sensitivity %d' % (i, s + 1), k.data(os_[s], n)[i], dq(s, i), okc))
            ps.append(('evaluations', k.m('cv_nfeS'), lambda e: 7 + total(e), okc))
            ps.append(('sensitivity evaluations', k.m('cv_nfSe'), 5 + (len(which) if one == 2 else 1), okc))
            for j in range(np_):
                ps.append(('parameter %d afterwards' % j, k.ld('double', parr, 8 * j), sym('p%d' % j)))
            for i in range(n):
                ps.append(('state %d afterwards' % i, k.data(y, n)[i], sym('y_%d' % i)))
                ps.append(('derivative %d afterwards' % i, k.data(fy, n)[i], sym('fy_%d' % i)))
                for s in range(Ns):
                    ps.append(('sensitivity %d component %d afterwards' % (s + 1, i), k.data(xs[s], n)[i], sym('x%d_%d' % (s, i))))
                    if s not in which:
                        ps.append(('unasked sensitivity %d component %d' % (s + 1, i), k.data(os_[s], n)[i], sym('o%d_%d' % (s, i))))
            for ev in k.events('user:rhs'):
                ps.append(('time', ev.data[0][0], sym('t'), ev.pc))
                ps.append(('user data', eqv(ev.data[0][3], k.udata), True, ev.pc))
            decide(rep, '%s quotients, %d of %d sensitivities, %d parameters%s%s%s' % (
                {CENT: 'centered', FORW: 'forward'}[kind], len(which), Ns, np_, ', switching' if switch else '', ('', ', one at a time', ', one after the other')[one],
                ', evaluation %d returns %d' % (fail[0] + 1, fail[1]) if fail else ''), k, ps, seed, npts, rtol=1e-6, atol=1e-9, ufs=U)
        return go
    for n, Ns, np_ in ((1, 1, 1), (2, 1, 3), (2, 2, 3), (3, 3, 5)):
        for kind in (CENT, FORW):
            for switch in (False, True):
                for one in (0, 1, 2):
                    out.append(('quotient %d %d %d %d %d %d' % (n, Ns, np_, kind, switch, one), quotient(n, Ns, np_, kind, switch, one, None, listed=np_ > 1)))
    for kind in (CENT, FORW):
        for switch in (False, True):
            for one in (0, 1, 2):
                for m in range(4 if kind == CENT else 2):
                    for v in (1, -1, 3):
                        out.append(('failing %d %d %d %d %d' % (kind, switch, one, m, v), quotient(2, 2, 3, kind, switch, one, (m, v))))
    return out
