#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans of the checks (checks/plans.py) and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks')); sys.path.insert(0, os.path.join(V, 'gen'))
from plans import PLANS
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
TRACE = 'traces of the real library validated by a TLA+ specification (TLC)'
MODEL = 'TLA+ model explored by TLC, its behaviours replayed into the real library, and ' + TRACE
NUM = 'Numbers: binary64 operators (Java overrides of Real.tla, Vec.tla) with tolerances derived from the operands; inputs are sampled, so this is exploration of the numeric part.'
NOTE = {
 'P01': 'Every history of the graph model (2-4 variables and 2-3 factors of a pool with clashing ids) is replayed, plus random longer ones; the registry is state of the specification and every list/lookup result must equal it.',
 'P02': 'Every history of the graph model, plus random ones; the layout is computed by the specification (Layout) and compared with every placement and size reported.',
 'P03': 'Every history of the graph model: the finalized flag and the caches are state of the specification; a call must be served or refused exactly as the specification says. Random longer histories in addition.',
 'P04': 'Every history of the graph model, plus random graphs of all factor kinds; the expected vector is assembled by the specification from the factors\' own residuals at that state. ' + NUM,
 'P05': 'As P04, for the dense and the sparse matrix. ' + NUM,
 'P06': 'Every history of the graph model, plus random graphs with all variable kinds; the state vector is computed by the specification.',
 'P17': 'Steps of Gauss-Newton are judged by certificates: a recorded witness solves the normal equations (the specification verifies the residual of the equations) and must explain the state the run left. ' + NUM,
 'P18': 'Acceptance and rollback rules are those of the optimizer model (MCOpt), evaluated on every iteration of recorded runs. ' + NUM,
 'P19': 'The damping ladder is that of the optimizer model (MCOpt), evaluated on every iteration of recorded runs. ' + NUM,
 'P20': 'The stop rules and statuses are those of the optimizer model (MCOpt); every prefix of a run is observed. Runs whose numbers fall within rounding of a threshold are allowed both verdicts. ' + NUM,
 'P21': 'Statistics are recomputed by the specification from the recorded values; repetition is compared exactly. ' + NUM,
 'P22': 'Fault factors (NaN, infinities, exceptions, in residual or Jacobian) placed where iterations go; verdicts are those of the optimizer model. ' + NUM,
 'P25': 'The life of an optimizer (setup/run/prepare/grow/finalize) is a model explored completely, all its behaviours are replayed; random longer ones in addition.',
 'P29': 'One script is run through the C++ API and through the Python API (arguments left out, positional, by keyword in any order); pairs of records are judged by JPy.tla, which owns the documented defaults, class and enumerator names and the list of results that must agree.',
 'P30': 'PyLife.tla: handles of a Python program as a state machine; every transition of the model is replayed (freed memory is overwritten) and every handle still held is read after every step; in addition random programs of all classes that drop handles and keep arrays must agree with the same programs that keep everything.',
 'P31': 'Plot.tla: which markers, lines, arrows and regions are drawn for which contents and options; every combination of item kinds and options of MCPlot is built and plotted, with random values; the drawing is read back from the axes and compared, position by position, with the geometry the specification gives. Surfaces of ellipsoids are meshes: their extents are judged within 10 per cent.',
 'P32': 'JText.tla: the text the library prints is captured and read back as labels and numbers; each number is compared with the state, the served Jacobian and residual, or the statistics of the run. ' + NUM,
 'P33': 'JVar.tla gives type, name, weights and observations of every factor kind; the driver leaves out every argument that has its default, and asks again after evaluations and changes of the variables.',
 'P28': 'The stopwatch is a state machine of the specification; recorded elapsed times are bounded by clock readings around every call.',
}
checks = []
for p in props:
    if p not in PLANS: continue
    P = PLANS[p]; m = bool(P.get('parts'))
    checks.append(dict(property=p, quick_cmd='python3 checks/run.py %s quick' % p, thorough_cmd='python3 checks/run.py %s thorough' % p, technique=P.get('technique', MODEL if m else TRACE),
                       level=P['level'], level_note=NOTE.get(p, P.get('note', 'Every recorded call is judged by the specification\'s definition of what it must return. ' + NUM))))
NA = {}
json.dump(dict(version=1, setup_cmd='python3 checks/build.py && python3 checks/selftest.py', checks=checks, not_applicable=[dict(property=p, reason=NA[p]) for p in props if p not in PLANS]),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
