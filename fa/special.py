"""P08, P09, P10, P25: comparisons, constants and predicates, overflow-free forms, NaN."""
import math
from . import ops as OPS
from .opcheck import *
from .opcheck import possible, flat, locate
from .scen import Scen, SEngine, run_scens
from .report import Report
from .par import parmap
from .check_ops import merge_op

NAN, INF = mpf('nan'), mpf('inf')


class Some(OPS.Dom):
    """Ordinary numbers from a small set (so that equal values occur), signed zeros, extremes, NaN and infinities."""

    def __init__(self, special=True):
        OPS.Dom.__init__(self)
        self.special = special

    def inside(self, x, interior=True):
        return True

    def sample(self, rng):
        k = rng.random()
        if self.special and k < 0.2:
            return NAN
        if self.special and k < 0.4:
            return rng.choice((INF, -INF, mpf('1.7976931348623157e308'), mpf('-1.7976931348623157e308'), mpf('2.2250738585072014e-308'), mpf('5e-324')))
        if k < 0.9:
            return rng.choice((mpf(0), mpf(1), mpf(-1), mpf(2), mpf('0.1'), 1 + mpf(2) ** -52))
        return rng.gauss(0, 3)


V_ = Some()


def nanw(val):
    """Not-a-number keeps its identity in the recorded words."""
    return val


# ---------------------------------------------------------------- P08
REL = {'==': ('.eq.', lambda a, b: a == b), '/=': ('.ne.', lambda a, b: not (a == b)), '<': ('.lt.', lambda a, b: a < b), '<=': ('.le.', lambda a, b: a <= b), '>': ('.gt.', lambda a, b: a > b), '>=': ('.ge.', lambda a, b: a >= b)}


def p08(tier='quick'):
    S = []
    use = 'fazang_vari_mod fazang_var_mod fazang_rel_operator_mod'
    for j, (op, (alt, f)) in enumerate(REL.items()):
        nm = alt.strip('.')
        for kx, ky in (('v', 'v'), ('v', 'd'), ('d', 'v')):
            a = [('x', kx, (), V_), ('y', ky, (), V_)]
            S.append(Scen('%s_%s%s' % (nm, kx, ky), 'l = x %s y\nk = x %s y' % (op, alt), a, [('l', 'l', ()), ('k', 'l', ())],
                          lambda v, f=f: {'l': f(v.a('x'), v.a('y')), 'k': f(v.a('x'), v.a('y'))}, lambda v, X: X.unchanged() or X.heads(0, 0), use=use, interior=False))
            for rx, ry, t in ((1, 1, '11'), (0, 1, '01'), (1, 0, '10')):
                a = [('x', kx, ('n',) * rx, V_), ('y', ky, ('n',) * ry, V_)]

                def spec(v, f=f, rx=rx, ry=ry):
                    n = v.sizes['n']
                    return {'l': {(i,): f(v.a('x', *(i,) * rx), v.a('y', *(i,) * ry)) for i in range(1, n + 1)}}
                S.append(Scen('%s_%s%s_%s' % (nm, kx, ky, t), 'l = x %s y' % op, a, [('l', 'l', ('n_n',))], spec, lambda v, X: X.unchanged() or X.heads(0, 0), use=use, interior=False, points=15))
    return S


# ---------------------------------------------------------------- P09
def consts_():
    m = mpmath
    pi = +m.pi
    return {'pi': pi, 'two_pi': 2 * pi, 'sqrt_pi': m.sqrt(pi), 'half_sqrt_pi': m.sqrt(pi) / 2, 'two_over_sqrt_pi': 2 / m.sqrt(pi), 'euler_e': +m.e, 'epsilon': mpf(2) ** -1022, 'log_epsilon': m.log(mpf(2) ** -1022),
            'log_pi': m.log(pi), 'log_two': m.log(2), 'log_half': -m.log(2), 'log_two_pi': m.log(2 * pi), 'log_sqrt_two_pi': m.log(2 * pi) / 2, 'neg_log_sqrt_two_pi': -m.log(2 * pi) / 2,
            'log_ten': m.log(10), 'sqrt_two': m.sqrt(2)}


def p09(tier='quick'):
    S = []
    mpmath.mp.dps = 60
    use = 'fazang_vari_mod fazang_var_mod fazang_arith_mod fazang_value_of_mod'
    for n, x in consts_().items():
        S.append(Scen('constant_' + n, 'z = %s\nk = kind(%s)' % (n, n), [], [('z', 'd', ()), ('k', 'i', ())], lambda v, x=x: {'z': x, 'k': 8}, lambda v, X: X.unchanged() or X.heads(0, 0), use=use, points=3, tol=mpf(4) * mpf(2) ** -53))
    keep = lambda v, X: X.unchanged() or X.heads(0, 0)
    S.append(Scen('constant_nan64', 'l = nan64 /= nan64', [], [('l', 'l', ())], lambda v: {'l': True}, keep, use=use, points=3))
    isn = lambda x: bool(mpmath.isnan(x))
    for k in 'dv':
        S.append(Scen('is_nan_' + k, 'l = is_nan(x)', [('x', k, (), V_)], [('l', 'l', ())], lambda v: {'l': isn(v.a('x'))}, keep, use=use, interior=False))
        S.append(Scen('is_nan_array_' + k, 'l = is_nan(x)', [('x', k, ('n',), V_)], [('l', 'l', ('n_n',))], lambda v: {'l': {(i,): isn(v.a('x', i)) for i in range(1, v.sizes['n'] + 1)}}, keep, use=use, interior=False))
        S.append(Scen('value_of_' + k, 'z = value_of(x)', [('x', k, (), Some(False))], [('z', 'd', ())], lambda v: {'z': v.a('x')}, keep, use=use, interior=False))
        S.append(Scen('value_of_array_' + k, 'z = value_of(x)', [('x', k, ('n',), Some(False))], [('z', 'd', ('n_n',))], lambda v: {'z': {(i,): v.a('x', i) for i in range(1, v.sizes['n'] + 1)}}, keep, use=use, interior=False))
    for f, x in (('is_inf', INF), ('is_neg_inf', -INF)):
        S.append(Scen(f, 'l = %s(x)' % f, [('x', 'd', (), V_)], [('l', 'l', ())], lambda v, x=x: {'l': bool(v.a('x') == x)}, keep, use=use, interior=False))
        S.append(Scen(f + '_array', 'l = %s(x)' % f, [('x', 'd', ('n',), V_)], [('l', 'l', ('n_n',))], lambda v, x=x: {'l': {(i,): bool(v.a('x', i) == x) for i in range(1, v.sizes['n'] + 1)}}, keep, use=use, interior=False))
    return S


# ---------------------------------------------------------------- double precision
class Watch(F64):
    """Double precision; notes exponentials of positive numbers and overflow of intermediate results."""
    seen = None

    @staticmethod
    def fn(name, args):
        r = F64.fn(name, args)
        if Watch.seen is not None:
            if name == 'exp' and args[0] > 1e-3:
                Watch.seen.append('exp of %.6g' % args[0])
            if name in ('cosh', 'sinh') and abs(args[0]) > 1:
                Watch.seen.append('%s of %.6g' % (name, args[0]))
            if math.isinf(r) and all(math.isfinite(a) for a in args) and r > 0:
                Watch.seen.append('overflow of %s(%s)' % (name, ', '.join('%.6g' % a for a in args)))
        return r


def floats(val):
    """The same valuation with double-precision numbers."""
    f = lambda x: float(x)
    val.v = {h: f(x) for h, x in val.v.items()}
    val.args = {n: {ix: f(x) for ix, x in d.items()} for n, d in val.args.items()}
    val.adj0 = {h: f(x) for h, x in val.adj0.items()}
    w = {}
    for h, s in val.start.items():
        for off, x in ((0, val.v[h]), (2, val.adj0[h])):
            for k in (0, 1):
                w[s + off + k] = 0 if x == 0 else Word(x, k)
    val.words = w
    return val


def setval(val, n, ix, x):
    """Argument element (and every alias of it) takes the value x."""
    if val.handles[n]:
        h = val.handles[n][ix]
        val.v[h] = x
        for m, hs in val.handles.items():
            for j, q in hs.items():
                if q == h:
                    val.args[m][j] = x
    else:
        val.args[n][ix] = x


def start(eng, op, seed):
    rep = OpReport(op)
    rng = random.Random('%s/%s/special' % (seed, op.name))
    mpmath.mp.dps = 60
    try:
        an = eng.analyse(op)
    except Undecided as e:
        rep.undecided = str(e)
        return rep, None, None
    except (DeadPath, StaleChain):
        rep.undecided = 'no result'
        return rep, None, None
    rep.procs = sorted(an.fwd | (an.bwd if not op.real else set()))
    return rep, an, rng


def values(op, val, an, ev):
    if not op.res:
        return [((), ev(an.vals))]
    return [(ix, ev(an.vals).get(ix)) for ix in itertools.product(*[range(1, val.sizes[d] + 1) for d in op.res])]


def stops(an, ev):
    for pc, pos in an.aborts:
        if possible(ev, pc):
            return '%s:%s' % (str(pos[0]).replace('/repo/', ''), pos[1])
    return None


# ---------------------------------------------------------------- P25
def exempt(op, args):
    if 'pow' in op.name or '**' in op.expr:
        xs = list(args.values())
        b, e = xs[0], xs[1]
        return b == 1 or e == 0
    return False


def check_nan(eng, op, seed, npoints):
    rep, an, rng = start(eng, op, seed)
    if an is None:
        return rep
    M = eng.machine
    where = locate(eng.interp, an.fwd)
    rc, icn = consts([an.vals] + [pc for pc, _ in an.aborts])
    nargs = [n for n, k, d, _ in op.args]
    done = set()
    for pt in range(npoints):
        val = Valuation(op, rng, rc, set(), False)
        which = [nargs[pt % len(nargs)]] if pt % 5 else nargs
        for n in which:
            setval(val, n, (), float('nan'))
        floats(val)
        args = {n: val.args[n][()] for n in nargs}
        if exempt(op, args):
            continue
        rep.points += 1
        ev = Evaluator(val.binds(M), F64)
        try:
            s = stops(an, ev)
            rep.facts += 1
            if s:
                if 'abort' not in done:
                    done.add('abort')
                    rep.findings.append(Finding('nan', op.name, 'stops the program for %s' % args, '', [s]))
                continue
            got = ev(an.vals)
        except Poison as p:
            got = None
        except Unmodelled as u:
            rep.undecided = 'no meaning for %s' % u
            break
        rep.facts += 1
        if got is None or not got != got:
            if 'v' not in done:
                done.add('v')
                rep.findings.append(Finding('nan', op.name, 'the value is %s for %s instead of NaN' % (got, args), '', where))
    return rep


# ---------------------------------------------------------------- P10
BIG = OPS.Dom(scale=3.0)
P10OPS = ('log_sum_exp', 'inv_logit')


def stab(op):
    return any(x in op.name for x in P10OPS)


def check_stable(eng, op, seed, npoints):
    rep, an, rng = start(eng, op, seed)
    if an is None:
        return rep
    M = eng.machine
    where_f = locate(eng.interp, an.fwd)
    where_b = locate(eng.interp, an.bwd) if not op.real else where_f
    rc, icn = consts([an.vals])
    lse = 'log_sum_exp' in op.name
    a0 = op.args[0][0]
    done = set()

    def fail(kind, msg, val, where):
        if kind not in done:
            done.add(kind)
            rep.findings.append(Finding('stable', op.name, msg, '%s=%s' % (a0, list(val.args[a0].values())[:8]), where))
    for pt in range(npoints):
        val = None
        for _ in range(50):
            v = Valuation(op, rng, rc, icn, False)
            if all(n > 0 for n in v.sizes.values()):
                val = v
                break
        if val is None:
            continue
        mode = rng.random()
        inf = False
        scale = 10.0 ** rng.uniform(0, 300)
        for ix in sorted(val.args[a0]):
            if mode < 0.75:
                x = rng.choice((1, -1)) * scale * rng.random() if rng.random() < 0.7 else rng.gauss(0, 1000)
                if rng.random() < 0.1:
                    x = rng.choice((709.0, 710.0, -745.0, -746.0, 1e300, -1e300, 0.0, -708.4, 37.0, -37.0))
                setval(val, a0, ix, x)
            elif lse:
                inf = True
                setval(val, a0, ix, float('-inf') if mode < 0.88 or rng.random() < 0.5 else float('inf'))
        floats(val)
        xs = list(val.args[a0].values())
        if lse and mode >= 0.88 and all(math.isfinite(x) or x < 0 for x in xs):
            setval(val, a0, sorted(val.args[a0])[0], float('inf'))
            floats(val)
            xs = list(val.args[a0].values())
        rep.points += 1
        b = val.binds(M)
        b[sym('A', 'r')] = 1.0
        ev = Evaluator(b, Watch)
        Watch.seen = []
        try:
            s = stops(an, ev)
            if s:
                fail('abort', 'stops the program', val, [s])
                continue
            got = ev(an.vals)
            rep.facts += 2
            if lse and inf:
                if got != max(xs):
                    fail('inf', 'the result is %s' % got, val, where_f)
                continue
            if Watch.seen:
                fail('exp', 'takes the %s' % Watch.seen[0], val, where_f)
            if lse:
                m = max(mpf(x) for x in xs)
                want = m + mpmath.log(sum(mpmath.exp(mpf(x) - m) if mpf(x) - m > -2000 else mpf(0) for x in xs))
            else:
                x = mpf(xs[0])
                want = mpf(1) / (1 + mpmath.exp(-x)) if x > -1e5 else mpf(0)
            if want != 0 and abs(want) < mpf('1e-300'):
                ok = abs(mpf(got) - want) < mpf('1e-300')
            else:
                ok = math.isfinite(got) and abs(mpf(got) - want) <= mpf('1e-12') * max(abs(want), mpf('1e-3') if lse else mpf(0))
            if not ok:
                fail('value', 'the result is %.17g instead of %s' % (got, mpmath.nstr(want, 17)), val, where_f)
            if op.real:
                continue
            Watch.seen = []
            for h in sorted(set(val.handles[a0].values()))[:4]:
                b[an.h] = h
                ev = Evaluator(b, Watch)
                g = ev(an.adj) - val.adj0[h]
                rep.facts += 2
                if Watch.seen:
                    fail('exp', 'back-propagation takes the %s' % Watch.seen[0], val, where_b)
                k = sum(1 for q in val.handles[a0].values() if q == h)
                if lse:
                    w = mpmath.exp(mpf(val.v[h]) - want) * k if mpf(val.v[h]) - want > -2000 else mpf(0)
                else:
                    w = want * (1 - want)
                tol = mpf('1e-9') * max(1, abs(mpf(val.adj0[h]))) + (mpf('1e-15') * max(abs(mpf(x)) for x in xs) if lse else 0)
                if not (math.isfinite(g) and (abs(mpf(g) - w) <= tol or (tol > 0.1 and abs(g) <= k + 1e-6))):
                    fail('adj', 'the derivative is %.17g instead of %s' % (g, mpmath.nstr(w, 17)), val, where_b)
        except Poison as p:
            fail('undef', 'the result depends on %s' % p, val, where_f)
        except Unmodelled as u:
            rep.undecided = 'no meaning for %s' % u
            break
        finally:
            Watch.seen = None
    return rep


RULES = {
    'P08': 'the truth value delivered by each comparison form equals the comparison of the two value terms in the same order, at ordinary, equal, extreme, infinite and NaN values; the machine state is unchanged',
    'P09': 'each constant term evaluated at 60 digits agrees with its defining number to double precision and has double kind; predicate terms equal the classification of their argument',
    'P10': 'value and adjoint terms evaluated in double precision at inputs of any magnitude take no exponential of a positive number on any branch they use and agree with the exact function',
    'P25': 'value terms evaluated in double precision with NaN in each argument position are NaN and no stop is reachable',
}


def run(prop, repo, tier, seed):
    rep = Report(prop, RULES[prop])
    if prop in ('P08', 'P09'):
        eng = SEngine(OpEngine.load(repo))
        return run_scens(rep, eng, {'P08': p08, 'P09': p09}[prop](tier), seed, {'quick': 60, 'thorough': 800}[tier])
    eng = OpEngine(OpEngine.load(repo))
    if prop == 'P25':
        opl = [o for o in OPS.UNARY + OPS.BINARY + OPS.REALOPS if not o.dims]
        f, n, kinds = check_nan, {'quick': 60, 'thorough': 800}[tier], ('nan',)
    else:
        opl = [o for o in OPS.UNARY + OPS.ARRAY + OPS.REALOPS if stab(o)]
        f, n, kinds = check_stable, {'quick': 150, 'thorough': 2000}[tier], ('stable',)
    for op, (st, r) in zip(opl, parmap(lambda o: f(eng, o, seed, n), opl)):
        merge_op(rep, op, st, r, kinds)
    return rep
