#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, R)
from fa import registry
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
VF = 'interprocedural value-flow analysis (gated value graph) + identity test of extracted terms'
VC = 'abstract interpretation of the LLVM IR (symbolic heap, gated values, no solver): value-flow extraction and identity test against a specification of the method'
TECH = {'P07': VF + '; overload resolution with compile witnesses',
        'P30': VF + ' over a model of the solver interface (every call may fail)', 'P31': VF + ' over a model of the solver interface (typestate of solver objects)',
        'P58': 'forwarding analysis of the interface: IR dataflow of the C wrappers, syntax-tree matching of the Fortran halves, layout and constant comparison with the debug information',
        'P60': 'ownership (typestate) analysis of the LLVM IR over call-sequence trees', 'P61': 'effect analysis: writable storage and external calls of the LLVM IR, saved-variable dataflow of the Fortran syntax tree'}
for i in range(50, 70):
    TECH.setdefault('P%d' % i, VC)
NOTE = {}
LN = ('Terms are extracted from the current source for every input, size, fill level and prior state at once (no execution, no path enumeration); '
      'each obligation is an identity between two terms, settled syntactically where possible and otherwise by evaluating both terms at seeded valuations '
      '(a violated identity is reported with the construct and a witness; a held one is certain only up to the sampled valuations). Trusts the front end, '
      'real arithmetic in place of floating point, and the default build configuration. Constructs outside the analysed Fortran subset are reported as undecided, not as violations.')
LC = ('The value of every result, field and output is extracted from the IR of the current source for all inputs at once, over bounded instances (vector lengths 0-5, orders to 12, a few sensitivities, scripted '
      'outcomes of user routines and of the sub-solver: every outcome, depths in DESIGN.md) and compared with the method written down independently; syntactic identity settles most obligations, seeded valuations of both terms the rest '
      '(a violated obligation comes with construct and witness). Trusts clang, real arithmetic and the default configuration; loops and depths beyond the bounds are reported as undecided, not as held.')
for i in range(50, 70):
    NOTE['P%d' % i] = LC
NA = {
    'P40': 'Accuracy of ODE solutions depends on CVODES step-size control over run-time trajectories; no sound static argument in reach bounds the global error.',
    'P41': 'Accuracy in units in the last place is a property of rounding at run time.',
    'P42': 'Rounding error bounds for all inputs need a floating-point error analysis of elementary functions whose implementations (libm) are outside the source.',
}
if os.path.exists(os.path.join(R, 'tools', 'notes.py')):
    exec(open(os.path.join(R, 'tools', 'notes.py')).read())
checks, na = [], []
for p in ids:
    if p in registry.OF:
        checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s quick' % p, 'thorough_cmd': 'python3-vt check.py %s thorough' % p,
                       'technique': TECH.get(p, VF), 'level': 'other', 'level_note': NOTE.get(p, LN)})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'No check is registered for this property yet.')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. See DESIGN.md.'}, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
