"""P27-P32: the ODE layer over the model of the solver interface."""
import os
from . import ode
from .opcheck import OpEngine
from .scen import SEngine, run_scens
from .report import Report

SETS = {
    'P27': (ode.p27, 'with arbitrary state, sensitivities, partial derivatives and time handed to the registered sensitivity callback, the delivered vectors equal the chain-rule terms, and the machine state is as before'),
    'P28': (ode.p28, 'the sensitivity vectors handed to the integrator are the identity (initial conditions) or zero (parameters), in the requested number, with the staggered method'),
    'P29': (ode.p29, 'with arbitrary integrated states and sensitivities returned by the solver, column k of the result holds the k-th state, and the adjoints delivered to the inputs are the weighted integrated sensitivities'),
    'P30': (ode.p30, 'for every solver call on every solve path reporting an arbitrary failure code (or no object), no continuation of the solve reaches its return'),
    'P31': (ode.p31, 'liveness of every solver object is tracked through creation, use, release (FINAL procedure at the end of the scope) and references between objects; pointers to ended storage are tracked through copies made for non-contiguous arguments'),
    'P32': (ode.p32, 'the values handed to the integrator equal the terms of the caller\'s arguments and options; the right-hand side callback evaluates the caller\'s function at the solver\'s time and state into the solver\'s output'),
}
POINTS = {'quick': 12, 'thorough': 200}


def load(repo):
    P = OpEngine.load(repo)
    P.load_text(open(os.path.join(ode.HERE, 'env_cvodes.F90')).read(), 'env_cvodes')
    return P


def run(prop, repo, tier, seed):
    make, rule = SETS[prop]
    rep = Report(prop, rule)
    eng = SEngine(load(repo))
    eng.interp.finalize = True
    eng.interp.dead = set()
    eng.interp.unroll = 64
    eng.interp.hide = ('hz_', 'fcvodes_mod', 'fsun', 'fnvector')
    return run_scens(rep, eng, make(tier), seed, POINTS[tier], timeout=280 if tier == 'quick' else 700)
