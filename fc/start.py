"""P62: starting and restarting a problem: what is accepted, what is refused, and nothing of an earlier problem left over."""
from .cvk import *

RULE = ('a problem starts from exactly the initial time, state and sensitivities given, at order one with every counter zero; restarting an existing solver leaves nothing of the earlier '
        'problem that the new one could read, and keeps every option; a refused start changes nothing of the problem in progress; an unusable set-up is refused before the first step')
ILL, MEMNULL, NOMALLOC, NOSENS, LINIT, NLSINIT = -22, -21, -23, -40, -5, -13
for _n in ('cv_SensMallocDone cv_constraintsSet cv_user_efun cv_atolmin0 cv_fSDQ cv_quadr_sensi cv_acnrmcur cv_acnrmScur NLSsimown cv_irfnd cv_qu cv_next_q'.split()):
    TY[_n] = ('i32', 4)
for _n in ('cv_nor', 'cv_nge'):
    TY[_n] = ('i64', 8)

START = dict(cv_q=1, cv_L=2, cv_qwait=2, cv_etamax=10000.0, cv_qu=0, cv_hu=0.0, cv_tolsf=1.0, cv_forceSetup=0, cv_nst=0, cv_nfe=0, cv_ncfn=0, cv_netf=0, cv_nni=0, cv_nsetups=0,
             cv_nhnil=0, cv_nstlp=0, cv_nscon=0, cv_nge=0, cv_irfnd=0, cv_h0u=0.0, cv_next_h=0.0, cv_next_q=0, cv_nor=0)
START_S = dict(cv_nfSe=0, cv_nfeS=0, cv_ncfnS=0, cv_netfS=0, cv_nniS=0, cv_nsetupsS=0)
# what may hold left-overs of the earlier problem: everything the integrator writes while stepping
LEFT_F = 'cv_h cv_hprime cv_next_h cv_eta cv_hscale cv_tretlast cv_rl1 cv_gamma cv_gammap cv_gamrat cv_crate cv_crateS cv_delp cv_acnrm cv_acnrmS cv_etaqm1 cv_etaq cv_etaqp1 cv_saved_tq5 cv_etamax cv_tolsf cv_hu cv_h0u cv_tn'.split()
LEFT_I = dict(cv_q=(1, 5), cv_L=(2, 6), cv_qwait=(1, 6), cv_qprime=(1, 5), cv_next_q=(1, 5), cv_qu=(1, 5), cv_indx_acor=(1, 5), cv_jcur=(0, 1), cv_convfail=(0, 2), convfail=(0, 2), cv_nst=(1, 900),
              cv_nfe=(1, 900), cv_ncfn=(1, 900), cv_netf=(1, 900), cv_nni=(1, 900), cv_nsetups=(1, 900), cv_nhnil=(1, 9), cv_nstlp=(1, 900), cv_nscon=(0, 9), cv_nor=(0, 9), cv_forceSetup=(0, 1),
              cv_irfnd=(0, 1), cv_nge=(0, 9), cv_acnrmcur=(0, 1))
LEFT_IS = dict(cv_nfSe=(1, 900), cv_nfeS=(1, 900), cv_ncfnS=(1, 900), cv_netfS=(1, 900), cv_nniS=(1, 900), cv_nsetupsS=(1, 900), cv_acnrmScur=(0, 1))
# the vector operations the solver cannot do without
NEED = 'nvclone nvdestroy nvlinearsum nvconst nvprod nvdiv nvscale nvabs nvinv nvaddconst nvmaxnorm nvwrmsnorm'.split()


def tasks(tier, seed):
    out = []
    npts = 80 if tier == 'quick' else 800

    def blank(lmm=BDF, n=2):
        k = Cv(lmm, n, init=False)
        k.Ns = 0
        k.mem = k.call('CVodeCreate', lmm, k.ctx())
        return k

    def given(k, names='y'):
        v = k.vec(k.n, names)
        return v, k.data(v)

    def members(k, was, want, skip=()):
        now = k.record('CVodeMemRec', k.mem)
        ps, want = [], dict(want)
        for m in sorted(now):
            if m in want:
                x = want.pop(m)
                if callable(x):
                    ps.append((m, now[m], x))
                else:
                    ps.append((m, eqv(now[m], x), True))
            elif m in skip:
                continue
            elif m in was:
                ps.append((m + ' stays', eqv(now[m], was[m]), True))
        for m in want:
            raise Unsupported('member ' + m)
        return ps

    def column(k, j, xs, label='initial state'):
        return [('%s %d' % (label, i), a, b) for i, (a, b) in enumerate(zip(k.column(j), xs))]

    def apart(k, v, j=0):
        """the solver keeps its own copy"""
        a, b = k.call('N_VGetArrayPointer', v), k.call('N_VGetArrayPointer', k.zn(j))
        return [('own copy', a.o != b.o, True)]

    # ---------------------------------------------------------------- a first start
    def init(lmm, n):
        def go(rep):
            k = blank(lmm, n)
            k.rhs = k.hook('user_rhs', k.h_rhs)
            y, ys = given(k)
            was = k.record('CVodeMemRec', k.mem)
            t0 = k.f('t0')
            r = k.call('CVodeInit', k.mem, k.rhs, t0, y)
            want = dict(START, cv_tn=t0, cv_f=k.rhs, cv_MallocDone=1)
            own = 'cv_lrw cv_liw cv_lrw1 cv_liw1 cv_ewt cv_acor cv_tempv cv_ftemp cv_vtemp1 cv_vtemp2 cv_vtemp3 cv_cvals cv_Xvecs cv_Zvecs NLS ownNLS nls_f cv_qmax_alloc convfail'.split()
            ps = [('status', r, 0)] + members(k, was, want, own)
            ps += [('ownership', k.m('ownNLS'), 1), ('order of the history', k.m('cv_qmax_alloc'), 12 if lmm == ADAMS else 5),
                   ('right-hand side of the corrector', eqv(k.m('nls_f'), k.rhs), True)]
            ps += column(k, 0, ys) + apart(k, y)
            ps += [('given state %d' % i, a, b) for i, (a, b) in enumerate(zip(k.data(y), ys))]
            decide(rep, 'start %s' % NAME[lmm], k, ps, seed, npts)
        out.append(('start %s %d' % (NAME[lmm], n), go))
    for lmm in (ADAMS, BDF):
        for n in (1, 3):
            init(lmm, n)

    def refusals(rep):
        for what in ['no solver', 'no state', 'no right-hand side'] + NEED:
            k = blank()
            k.rhs = k.hook('user_rhs', k.h_rhs)
            y, ys = given(k)
            if what in NEED:
                k.put('_generic_N_Vector_Ops', k.get('_generic_N_Vector', y, 'ops', 'ptr'), what, NULL, 'ptr')
            was = k.record('CVodeMemRec', k.mem)
            r = k.call('CVodeInit', NULL if what == 'no solver' else k.mem, NULL if what == 'no right-hand side' else k.rhs, k.f('t0'), NULL if what == 'no state' else y)
            decide(rep, 'start with %s' % (what if what not in NEED else 'a vector lacking ' + what), k, [('status', r, MEMNULL if what == 'no solver' else ILL)] + members(k, was, {}), seed, 10)
    out.append(('refused starts', refusals))

    # ---------------------------------------------------------------- leftovers
    def used(k, skip=()):
        """an arbitrary earlier problem"""
        left = []
        for f in LEFT_F:
            k.setm(f, k.f('old_' + f, mixed(real, 0.0)))
        for f, (lo, hi) in list(LEFT_I.items()) + (list(LEFT_IS.items()) if k.Ns else []):
            if f in skip:
                continue
            x = k.i('old_' + f, lo, hi)
            k.setm(f, x)
        qa = k.m('cv_qmax_alloc')
        for j in range(qa + 1):
            k.symvec(k.zn(j), 'old_z%d_' % j)
            for s in range(k.Ns):
                k.symvec(k.znS(j, s), 'old_s%d_%d_' % (j, s))
        for j in range(14):
            k.setm('cv_tau', k.f('old_tau%d' % j, pos), j)
        for j in range(6):
            k.setm('cv_tq', k.f('old_tq%d' % j), j)
        for j in range(13):
            k.setm('cv_l', k.f('old_l%d' % j), j)
        for f in ('cv_ewt', 'cv_acor'):
            k.symvec(k.m(f), 'old_' + f, pos)
        for f in ('cv_ewtS', 'cv_acorS', 'cv_yS'):
            if k.Ns:
                for s in range(k.Ns):
                    k.symvec(k.arr(f, s), 'old_%s%d_' % (f, s), pos)
        return k

    def options(k):
        """every option at a value of its own"""
        for f in ('cv_hin', 'cv_hmin', 'cv_hmax_inv', 'cv_nlscoef', 'cv_reltol', 'cv_Sabstol', 'cv_tstop'):
            k.setm(f, k.f('opt_' + f, pos))
        for f in ('cv_mxstep', 'cv_maxnef', 'cv_maxncf', 'cv_mxhnil', 'cv_msbp', 'cv_sldeton', 'cv_tstopset'):
            k.setm(f, k.i('opt_' + f, 0, 50))

    def restart(lmm, Ns, ism):
        def go(rep):
            k = used(Cv(lmm, 2, Ns, ism))
            options(k)
            v = k.vec(2, 'ny')
            ys = k.data(v)
            was = k.record('CVodeMemRec', k.mem)
            rest = [k.column(j) for j in range(1, k.m('cv_qmax_alloc') + 1)]
            sens = [k.columnS(0, s) for s in range(Ns)]
            t0 = k.f('nt')
            r = k.call('CVodeReInit', k.mem, t0, v)
            ps = [('status', r, 0)] + members(k, was, dict(START, cv_tn=t0)) + column(k, 0, ys) + apart(k, v)
            for s in range(Ns):
                ps += [('sensitivity %d %d stays' % (s, i), a, b) for i, (a, b) in enumerate(zip(k.columnS(0, s), sens[s]))]
            ps += [('given state %d' % i, a, b) for i, (a, b) in enumerate(zip(k.data(v), ys))]
            decide(rep, 'restart %s with %d sensitivities' % (NAME[lmm], Ns), k, ps, seed, npts)
        out.append(('restart %s %d %d' % (NAME[lmm], Ns, ism), go))
    for lmm in (ADAMS, BDF):
        for Ns, ism in ((0, STG), (2, STG), (2, SIM)):
            restart(lmm, Ns, ism)

    def refused_restart(rep):
        for what, code in (('no solver', MEMNULL), ('no state', ILL), ('a solver never started', NOMALLOC)):
            if what == 'a solver never started':
                k = blank()
            else:
                k = used(Cv(BDF, 2, 2))
            v = k.vec(2, 'ny')
            was = k.record('CVodeMemRec', k.mem)
            z = [k.column(j) for j in range(2)] if what != 'a solver never started' else []
            r = k.call('CVodeReInit', NULL if what == 'no solver' else k.mem, k.f('nt'), NULL if what == 'no state' else v)
            ps = [('status', r, code)] + members(k, was, {})
            for j in range(len(z)):
                ps += column(k, j, z[j], 'history %d stays' % j)
            decide(rep, 'restart with ' + what, k, ps, seed, 30)
    out.append(('refused restarts', refused_restart))

    # ---------------------------------------------------------------- sensitivities
    def sens_init(Ns, ism, one, dq=False):
        def go(rep):
            k = Cv(BDF, 2)
            k.setm('cv_user_data', k.udata)
            n = 2
            vs = [k.vec(n, 's%d_' % j) for j in range(Ns)]
            given_ = [k.data(v) for v in vs]
            k.Ns, k.ism = Ns, ism
            fn_ = NULL if dq else (k.hook('user_sens1', k.h_sens1) if one else k.srhs)
            z0 = k.column(0)
            was = k.record('CVodeMemRec', k.mem)
            r = k.call('CVodeSensInit1' if one else 'CVodeSensInit', k.mem, Ns, ism, fn_, k.parr(vs))
            nls = {SIM: 'sim', STG: 'stg', STG1: 'stg1'}[ism]
            own = 'cv_lrw cv_liw cv_yS cv_ewtS cv_acorS cv_tempvS cv_ftempS cv_pbar cv_plist cv_cvals cv_Xvecs cv_Zvecs cv_qmax_allocS cv_ncfS1 cv_ncfnS1 cv_nniS1 convfail nls_f'.split()
            own += {SIM: ['NLSsim', 'zn0Sim', 'ycorSim', 'ewtSim', 'simMallocDone'], STG: ['NLSstg', 'zn0Stg', 'ycorStg', 'ewtStg', 'stgMallocDone'], STG1: ['NLSstg1']}[ism]
            want = dict(START_S, cv_Ns=Ns, cv_ism=ism, cv_ifS=1 if not one else was['cv_ifS'], cv_sensi=1, cv_SensMallocDone=1, cv_fSDQ=int(dq), cv_stgr1alloc=int(ism == STG1))
            del want['cv_ifS']
            want['ownNLS' + nls] = 1
            if not dq:
                want['cv_fS1' if one else 'cv_fS'] = fn_
                want['cv_fS_data'] = k.udata
            else:
                want['cv_fS_data'] = k.mem
                own += ['cv_fS1' if one else 'cv_fS']
            want['cv_fS' if one else 'cv_fS1'] = NULL
            ps = [('status', r, 0)] + members(k, was, want, own + ['cv_ifS'])
            TY['NLS' + nls] = ('ptr', 8)
            # the two kinds of right-hand side stay distinguishable
            ps.append(('kind of right-hand side', k.m('cv_ifS'), 1 if one else 2))
            if dq:
                p = k.m('cv_fS1' if one else 'cv_fS')
                ps.append(('difference quotients', eqv(p, P('@cvSensRhs1InternalDQ' if one else '@cvSensRhsInternalDQ', 0)), True))
            for s in range(Ns):
                ps += [('sensitivity %d component %d' % (s, i), a, b) for i, (a, b) in enumerate(zip(k.columnS(0, s), given_[s]))]
                ps += [('given sensitivity %d component %d' % (s, i), a, b) for i, (a, b) in enumerate(zip(k.data(vs[s]), given_[s]))]
                ps.append(('own copy of sensitivity %d' % s, k.call('N_VGetArrayPointer', vs[s]).o != k.call('N_VGetArrayPointer', k.znS(0, s)).o, True))
                ps.append(('scaling factor %d' % s, k.ld('double', k.m('cv_pbar'), 8 * s), 1.0))
                ps.append(('parameter %d' % s, k.ld('i32', k.m('cv_plist'), 4 * s), s))
                if ism == STG1:
                    ps.append(('convergence failures of sensitivity %d' % s, k.ld('i64', k.m('cv_ncfnS1'), 8 * s), 0))
                    ps.append(('iterations of sensitivity %d' % s, k.ld('i64', k.m('cv_nniS1'), 8 * s), 0))
            ps += column(k, 0, z0, 'state stays')
            for nm, el in (('cv_cvals', 8), ('cv_Xvecs', 8), ('cv_Zvecs', 8)):
                o = k.s.mem[k.m(nm).o]
                ps.append((nm + ' room for every sensitivity', icmp('sle', 13 * max(Ns, 1) * el, o.size), True))
            decide(rep, 'sensitivities %d, method %d%s%s' % (Ns, ism, ', one at a time' if one else '', ', difference quotients' if dq else ''), k, ps, seed, npts)
        out.append(('sensitivities %d %d %d %d' % (Ns, ism, one, dq), go))
    for Ns in (1, 3):
        for ism, one in ((SIM, 0), (STG, 0), (SIM, 1), (STG, 1), (STG1, 1)):
            sens_init(Ns, ism, one)
    sens_init(2, STG, 0, True)
    sens_init(2, STG1, 1, True)

    def sens_refused(rep):
        for one in (0, 1):
            f = 'CVodeSensInit1' if one else 'CVodeSensInit'
            for what in ('no solver', 'no sensitivities', 'a negative number', 'method 0', 'method 4', 'method 3', 'no initial values', 'a second start'):
                if what == 'method 3' and one:
                    continue
                k = Cv(BDF, 2, 2 if what == 'a second start' else 0)
                vs = [k.vec(2, 'x%d_' % j) for j in range(2)]
                was = k.record('CVodeMemRec', k.mem)
                z = [k.columnS(0, s) for s in range(2)] if what == 'a second start' else []
                ism = {'method 0': 0, 'method 4': 4, 'method 3': 3}.get(what, STG)
                r = k.call(f, NULL if what == 'no solver' else k.mem, {'no sensitivities': 0, 'a negative number': -2}.get(what, 2), ism, k.srhs, NULL if what == 'no initial values' else k.parr(vs))
                # the number and method of sensitivities mean nothing until they are switched on
                skip = () if what == 'a second start' else ('cv_Ns', 'cv_ism')
                ps = [('status', r, MEMNULL if what == 'no solver' else ILL)] + members(k, was, {}, skip)
                for s in range(len(z)):
                    ps += [('sensitivity %d stays' % i, a, b) for i, (a, b) in enumerate(zip(k.columnS(0, s), z[s]))]
                decide(rep, '%s with %s' % (f, what), k, ps, seed, 10)
    out.append(('refused sensitivities', sens_refused))

    def sens_restart(ism0, ism, Ns, off=False):
        """ism0 the method before, ism the one asked for"""
        def go(rep):
            k = used(Cv(BDF, 2, Ns, ism0, one=ism == STG1))
            if off:
                k.call('CVodeSensToggleOff', k.mem)
            for s in range(Ns):
                k.st('double', k.f('pb%d' % s, pos), k.m('cv_pbar'), 8 * s)
                k.st('i32', sym('pl%d' % s, 'i'), k.m('cv_plist'), 4 * s)
                k.dom['pl%d' % s] = among(0, 1, 2, 3)
                if ism0 == STG1:
                    k.st('i64', sym('onc%d' % s, 'i'), k.m('cv_ncfnS1'), 8 * s)
                    k.st('i64', sym('oni%d' % s, 'i'), k.m('cv_nniS1'), 8 * s)
            vs = [k.vec(2, 'ns%d_' % j) for j in range(Ns)]
            given_ = [k.data(v) for v in vs]
            z = [k.column(j) for j in range(3)]
            was = k.record('CVodeMemRec', k.mem)
            r = k.call('CVodeSensReInit', k.mem, ism, k.parr(vs))
            skip, want = [], dict(START_S, cv_ism=ism, cv_sensi=1)
            nls = {SIM: 'sim', STG: 'stg', STG1: 'stg1'}
            if ism != ism0:
                skip = 'convfail nls_f cv_acnrmcur cv_acnrmScur'.split()
                skip += {SIM: ['NLSsim', 'zn0Sim', 'ycorSim', 'ewtSim', 'simMallocDone'], STG: ['NLSstg', 'zn0Stg', 'ycorStg', 'ewtStg', 'stgMallocDone'], STG1: ['NLSstg1']}[ism]
                want['ownNLS' + nls[ism]] = 1
                if ism == STG1:
                    skip += ['cv_ncfS1', 'cv_ncfnS1', 'cv_nniS1']
                    want['cv_stgr1alloc'] = 1
            ps = [('status', r, 0)] + members(k, was, want, skip)
            for s in range(Ns):
                ps += [('sensitivity %d component %d' % (s, i), a, b) for i, (a, b) in enumerate(zip(k.columnS(0, s), given_[s]))]
                ps.append(('scaling factor %d stays' % s, k.ld('double', k.m('cv_pbar'), 8 * s), sym('pb%d' % s)))
                ps.append(('parameter %d stays' % s, k.ld('i32', k.m('cv_plist'), 4 * s), sym('pl%d' % s, 'i')))
                if ism == STG1:
                    ps.append(('convergence failures of sensitivity %d' % s, k.ld('i64', k.m('cv_ncfnS1'), 8 * s), 0))
                    ps.append(('iterations of sensitivity %d' % s, k.ld('i64', k.m('cv_nniS1'), 8 * s), 0))
                ps.append(('own copy of sensitivity %d' % s, k.call('N_VGetArrayPointer', vs[s]).o != k.call('N_VGetArrayPointer', k.znS(0, s)).o, True))
            for j in range(3):
                ps += column(k, j, z[j], 'state history %d stays' % j)
            decide(rep, 'sensitivity restart from method %d to %d with %d%s' % (ism0, ism, Ns, ' after switching off' if off else ''), k, ps, seed, npts)
        out.append(('sensitivity restart %d %d %d %d' % (ism0, ism, Ns, off), go))
    for a, b in ((SIM, SIM), (STG, STG), (STG1, STG1), (STG, SIM), (SIM, STG), (STG1, STG), (STG, STG1), (SIM, STG1), (STG1, SIM)):
        sens_restart(a, b, 2)
    sens_restart(STG, STG, 3, True)

    def sens_restart_refused(rep):
        for what in ('no solver', 'no sensitivities', 'method 0', 'method 4', 'method 3', 'no initial values', 'no initial values for another method'):
            k = Cv(BDF, 2, 0 if what == 'no sensitivities' else 2, STG)
            if k.Ns:
                used(k)
            vs = [k.vec(2, 'x%d_' % j) for j in range(2)]
            was = k.record('CVodeMemRec', k.mem)
            z = [k.columnS(0, s) for s in range(k.Ns)]
            ism = {'method 0': 0, 'method 4': 4, 'method 3': 3, 'no initial values for another method': SIM}.get(what, STG)
            r = k.call('CVodeSensReInit', NULL if what == 'no solver' else k.mem, ism, NULL if what.startswith('no initial') else k.parr(vs))
            ps = [('status', r, {'no solver': MEMNULL, 'no sensitivities': NOSENS}.get(what, ILL))] + members(k, was, {})
            for s in range(k.Ns):
                ps += [('sensitivity %d component %d stays' % (s, i), a, b) for i, (a, b) in enumerate(zip(k.columnS(0, s), z[s]))]
            decide(rep, 'sensitivity restart with ' + what, k, ps, seed, 20)
    out.append(('refused sensitivity restarts', sens_restart_refused))

    def toggle(rep):
        for ism in (SIM, STG, STG1):
            k = used(Cv(BDF, 2, 2, ism))
            was = k.record('CVodeMemRec', k.mem)
            z = [k.column(j) for j in range(3)]
            r = k.call('CVodeSensToggleOff', k.mem)
            ps = [('status', r, 0)] + members(k, was, dict(cv_sensi=0, cv_quadr_sensi=0))
            for j in range(3):
                ps += column(k, j, z[j], 'history %d stays' % j)
            decide(rep, 'sensitivities off, method %d' % ism, k, ps, seed, 20)
        k = blank()
        decide(rep, 'sensitivities off without a solver', k, [('status', k.call('CVodeSensToggleOff', NULL), MEMNULL)], seed, 5)
    out.append(('sensitivities off', toggle))

    # ---------------------------------------------------------------- checks before the first step
    def setup(name, Ns, ism, code, prep=None, tol='ss', stol='ee', uses=()):
        """uses: what must have been called, in order, on success"""
        def go(rep):
            k = Cv(BDF, 2, Ns, ism, tol=tol, stol=stol)
            k.symvec(k.m('cv_zn') if False else k.zn(0), 'y')
            for s in range(Ns):
                k.symvec(k.znS(0, s), 's%d_' % s)
                k.st('double', k.f('pbar%d' % s, pos), k.m('cv_pbar'), 8 * s)
            z0 = k.column(0)
            log = []
            res = {'linit': 0, 'nls': 0, 'sim': 0, 'stg': 0, 'stg1': 0}

            def ev(tag):
                def h(st, a, ty):
                    k.E.event(st, 'user:' + tag, (), None)
                    return res[tag]
                return h
            k.setm('cv_linit', k.hook('my_linit', ev('linit')))
            for tag, fn_ in (('nls', 'cvNlsInit'), ('sim', 'cvNlsInitSensSim'), ('stg', 'cvNlsInitSensStg'), ('stg1', 'cvNlsInitSensStg1')):
                k.E.hooks[fn_] = ev(tag)
            if prep:
                prep(k, res)
            r = k.call('cvInitialSetup', k.mem)
            ps = [('status', r, code)] + column(k, 0, z0, 'state stays')
            order = []
            for e in k.s.events:
                if e.kind in ('user:linit', 'user:nls', 'user:sim', 'user:stg', 'user:stg1'):
                    order.append((e.kind[5:], e.pc))
            if not callable(code):
                # the linear solver is initialised before every nonlinear solver, each exactly once
                want = ['linit', 'nls'] + ([{SIM: 'sim', STG: 'stg', STG1: 'stg1'}[ism]] if Ns else [])
                if code == 0:
                    once = lambda t, c=True: [iop('add', 0, ite(and_(p, c), 1, 0)) for x, p in order if x == t]
                    tot = lambda xs: xs[0] if len(xs) == 1 else iop('add', xs[0], tot(xs[1:])) if xs else 0
                    for t in sorted({t for t, p in order} | set(want)):
                        ps.append(('initialisations of %s' % t, tot(once(t)), int(t in want)))
                    for j, (t, p) in enumerate(order):
                        if t != 'linit':
                            before = False
                            for x, q in order[:j]:
                                if x == 'linit':
                                    before = or_(before, q)
                            ps.append(('linear solver ready before %s' % t, or_(not_(p), before), True))
                    ps.append(('weights of the built-in kind', eqv(k.m('cv_e_data'), k.mem), True))
            if code == 0 and not uses and tol == 'ss':
                W = lambda e, i: 1 / (e['rtol'] * abs(e['y%d' % i]) + e['atol'])
                ps += [('weight %d' % i, k.data(k.m('cv_ewt'))[i], (lambda i: lambda e: W(e, i))(i)) for i in range(2)]
            decide(rep, 'before the first step: ' + name, k, ps, seed, npts)
        out.append(('first checks ' + name, go))
    setup('everything in order', 0, STG, 0)
    for ism in (SIM, STG, STG1):
        setup('everything in order, sensitivities by method %d' % ism, 2, ism, 0)
    setup('no tolerances', 0, STG, ILL, tol=None)
    setup('no tolerances for the sensitivities', 2, STG, ILL, stol=None)

    def zero_tol(k, res):
        k.setm('cv_Sabstol', 0.0)
        k.setm('cv_atolmin0', 1)
        k.dom['y0'] = mixed(real, 0.0)
        k.dom['y1'] = mixed(real, 0.0)
    setup('zero absolute tolerance', 0, STG, lambda e: np.where((e['y0'] == 0) | (e['y1'] == 0), ILL, 0), zero_tol)

    def zero_tol_s(k, res):
        k.call('CVodeSensSStolerances', k.mem, k.f('rs', pos), k.darr([0.0, k.f('as', pos)]))
        for i in range(2):
            k.dom['s0_%d' % i] = mixed(real, 0.0)
            k.dom['s1_%d' % i] = mixed(real, 0.0)
    setup('zero absolute tolerance of a sensitivity', 2, STG, lambda e: np.where(np.logical_or.reduce([e['rs'] * abs(e['s%d_%d' % (s, i)]) + (e['as'] if s else 0) <= 0 for s in range(2) for i in range(2)]), ILL, 0), zero_tol_s)

    def no_params(k, res):
        k.setm('cv_fSDQ', 1)
        k.setm('cv_p', NULL)
    setup('difference quotients without parameters', 2, STG, ILL, no_params)
    for tag, code in (('linit', LINIT), ('nls', NLSINIT)):
        for rc in (-1, 1, 7):
            setup('%s fails with %d' % (tag, rc), 0, STG, code, (lambda tag, rc: lambda k, res: res.__setitem__(tag, rc))(tag, rc))
    for ism, tag in ((SIM, 'sim'), (STG, 'stg'), (STG1, 'stg1')):
        setup('%s fails' % tag, 2, ism, NLSINIT, (lambda tag: lambda k, res: res.__setitem__(tag, -1))(tag))

    # ---------------------------------------------------------------- nothing of the earlier problem reaches the new one
    def carry(lmm, Ns, ism, con, steps):
        def go(rep):
            k = used(Cv(lmm, 2, Ns, ism))
            k.setm('cv_errconS', con)
            for s in range(Ns):
                k.st('double', k.f('pbar%d' % s, pos), k.m('cv_pbar'), 8 * s)
            left = set(k.dom)
            left -= {'rtol', 'atol'} | {'pbar%d' % s for s in range(Ns)}
            v = k.vec(2, 'ny')
            r1 = k.call('CVodeReInit', k.mem, k.f('nt'), v)
            r2 = 0
            if Ns:
                r2 = k.call('CVodeSensReInit', k.mem, ism, k.parr([k.vec(2, 'ns%d_' % j) for j in range(Ns)]))
            k.E.hooks['cvHin'] = h_hin = lambda st, a, ty: hin(st)
            hs = k.f('hsel', pos)

            def hin(st):
                old, k.s = k.s, st
                k.setm('cv_h', hs)
                k.s = old
                return 0
            cnt = [0]

            def correct(st, sens):
                old, k.s = k.s, st
                c = cnt[0] = cnt[0] + 1
                if not sens:
                    k.symvec(k.m('cv_acor'), 'cor%d_' % c)
                    k.setm('cv_acnrm', k.f('nrm%d' % c, lambda r, m: np.exp(r.uniform(-6, -2, m)).astype(F)))
                    k.setm('cv_acnrmcur', 1)
                if sens or ism == SIM:
                    for s in range(Ns):
                        k.symvec(k.arr('cv_acorS', s), 'corS%d_%d_' % (c, s))
                    k.setm('cv_acnrmS', k.f('nrmS%d' % c, lambda r, m: np.exp(r.uniform(-6, -2, m)).astype(F)))
                    k.setm('cv_acnrmScur', 1)
                k.s = old
                return 0
            k.E.hooks['cvNls'] = lambda st, a, ty: correct(st, False)
            k.E.hooks['cvStgrNls'] = lambda st, a, ty: correct(st, True)
            k.E.hooks['cvDoErrorTest'] = h_test = None
            del k.E.hooks['cvDoErrorTest']

            def test(st, a, ty):
                old, k.s = k.s, st
                k.E.store(st, 'double', k.f('dsm%d' % cnt[0], unit), a[6])
                k.s = old
                return 0
            k.E.hooks['cvDoErrorTest'] = test
            tret, yout = k.buf(8, 'tret'), k.vec(2)
            ps = [('restart', and_(icmp('eq', r1, 0), icmp('eq', r2, 0)), True)]
            both = []
            for c in range(steps):
                r = k.call('CVode', k.mem, k.f('tout%d' % c, lambda r, m: np.exp(r.uniform(3, 5, m)).astype(F)), yout, tret, ONE_STEP)
                both += [('outcome %d' % c, r), ('time %d' % c, k.ld('double', tret))]
                both += [('state %d' % i, x) for i, x in enumerate(k.data(yout))]
                for j in range(3):
                    both += [('history %d %d after call %d' % (j, i, c + 1), x) for i, x in enumerate(k.column(j))] if j <= c + 1 and j <= 1 else []
                    for s in range(Ns):
                        both += [('sensitivity history %d %d %d after call %d' % (s, j, i, c + 1), x) for i, x in enumerate(k.columnS(j, s))] if j <= 1 else []
                both += [(m + ' after call %d' % (c + 1), k.m(m)) for m in ('cv_tn', 'cv_h', 'cv_hprime', 'cv_q', 'cv_qprime', 'cv_hu', 'cv_qu', 'cv_nst', 'cv_eta', 'cv_qwait', 'cv_etamax', 'cv_h0u',
                                                                             'cv_nfe', 'cv_gamma', 'cv_rl1', 'cv_ncfn', 'cv_netf')]

            def half(x):
                def f(e):
                    a = e['ev'](x)
                    h = len(a) // 2
                    return np.concatenate([a[:h], a[:h]]) if len(a) > 1 else a
                return f
            N = npts // 2 * 2

            def pre(env, rng):
                for x in env:
                    if x not in left and isinstance(env[x], np.ndarray) and len(env[x]) == N:
                        env[x] = np.concatenate([env[x][:N // 2], env[x][:N // 2]])
                return env
            ps += [(nm, x, half(x)) for nm, x in both]
            decide(rep, 'new problem on a used solver, %s, %d sensitivities by method %d%s' % (NAME[lmm], Ns, ism, ' controlled' if con else ''), k, ps, seed, N, pre=pre, ufs=ufs_of(2, Ns))
        out.append(('nothing left over %s %d %d %d' % (NAME[lmm], Ns, ism, con), go))
    for lmm in (BDF, ADAMS):
        carry(lmm, 0, STG, 0, 2)
        carry(lmm, 2, STG, 1, 2)
    carry(BDF, 2, SIM, 1, 2)
    return out
