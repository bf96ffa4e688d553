"""P12, P13, P15-P24: the tape, the registry, nesting, sweeps and local gradients."""
from . import core, core2
from .opcheck import OpEngine
from .scen import SEngine, run_scens
from .report import Report

SETS = {
    'P12': (core.p12, 'for an arbitrary tape and arbitrary (repeated) operand lists, the adjoint cells after delivering contributions are the earlier adjoints plus every contribution, and no other cell changes'),
    'P13': (core.p13, 'with an arbitrary number of nodes carrying arbitrary propagation rules, the trace of rule invocations is newest to oldest, each node once, down to the first node (of the innermost open scope), and the seed is in place before the first'),
    'P15': (core.p15, 'reading a record back yields the terms that were written, for every form of record, operand count and data count; a new adjoint is zero; all other cells keep their terms'),
    'P16': (core.p16, 'every subscript of the tape lies in its allocated extent, recorded cells keep their terms across enlargement, the free part is zero and there is room for the request; for every fill level including never used and exactly full'),
    'P17': (core.p17, 'the slot of a new variable is reserved before it is used, the handle names that slot, and every earlier slot keeps location and propagation rule across enlargement'),
    'P18': (core2.p18, 'for every creation form, with arbitrary old contents in the unused part of the registry, the new adjoint is zero and the new node calls no rule'),
    'P19': (core2.p19, 'each element of a constructed array is a new variable with its own record and the corresponding value; assignment changes the value cells of the assigned elements to the corresponding source terms and nothing else'),
    'P20': (core2.p20, 'after closing, both heads and the nesting level are those at the opening, every cell below the saved head is unchanged, every cell from it on is zero, and every subscript lies in the allocated extent'),
    'P21': (core2.p21, 'after a local gradient or Jacobian of an arbitrary function (given by arbitrary partial derivatives, also nested) the registry, the tape cells, both heads and the nesting level are the terms they were before'),
    'P22': (core2.p22, 'the result array of a local gradient or Jacobian holds the value terms and the partial-derivative terms in the documented positions, for every number of inputs and outputs'),
    'P23': (core2.p23, 'the adjoint cells of exactly the intended variables become zero; every other cell keeps its term'),
    'P24': (core2.p24, 'dimensions, rows and columns read back from a stored array are the terms of the stored elements in order, for every shape and index'),
}
POINTS = {'quick': 40, 'thorough': 600}


def run(prop, repo, tier, seed):
    make, rule = SETS[prop]
    rep = Report(prop, rule)
    eng = SEngine(OpEngine.load(repo))
    return run_scens(rep, eng, make(), seed, POINTS[tier], timeout=280 if tier == 'quick' else 700)
