#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules present."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ('Every obligation is decided from the current source by an abstract interpreter over gated value numbers: identical normal forms are a proof for '
        'all values of the symbols; "agree" means equal under random interpretation of the two value graphs (error probability negligible, not a proof). '
        'Bounded to the listed grid shapes (small panel counts, one or two sails); real arithmetic, not floating point. ')
T = 'abstract interpretation of the source over gated value numbers; '
CHECKS = {
 'P01': (T + 'mirror relation of panel corners', 'Airfoil and rotation helpers enter through contracts decided by P02 and P09.'),
 'P02': (T + 'surface compared with its specification', 'Camber position strictly between 0 and 1; the camber line itself is compared on its exact pieces.'),
 'P03': (T + 'rig dimensions and mounting points', 'Rake 84-115 degrees and a mast top that lies aft of the forestay foot.'),
 'P04': (T + 'Biot-Savart normal forms and closed circuits', 'The core region is decided at sampled geometric configurations of the two sides.'),
 'P05': (T + 'assembled system and guard (gating) analysis', 'Assertions are assumed to be enabled (no -O).'),
 'P06': (T + 'panel quantities', ''),
 'P07': (T + 'force law normal forms', ''),
 'P08': (T + 'wind profiles and apparent wind', ''),
 'P09': (T + 'rotation matrices and their inverses', 'One known finding: the centreline vectors are turned the wrong way.'),
 'P10': (T + 'sums, moments and centre of effort', ''),
 'P11': (T + 'label-to-value provenance of table columns, rows, sheets and curves', 'pandas, xlsxwriter and matplotlib enter as models of the calls used.'),
 'P12': (T + 'strip averages', ''),
 'P13': ('effect and alias analysis (writes to caller-owned objects, shared state, impure calls) on the abstract interpretation', 'Aliasing follows numpy view semantics as modelled.'),
 'P14': ('guarded-exit analysis: conditions under which the run ends, before which sinks, with which status', 'Enumerated options plus a symbolic unknown string.'),
 'P15': ('path-provenance analysis of every file sink reachable from the command line', 'Library calls that write files are enumerated in the sink model.'),
 'P16': ('provenance of every case-file setting to model constructors, solution and output', 'Every setting is its own symbol, so dropping or swapping one changes a value number.'),
 'P17': ('scaling (homogeneity) of the value graphs under substitution of wind speed and density', ''),
 'P18': (T + 'interpolation stations and basis', 'scipy interpolation enters as its documented contract.'),
 'P19': (T + 'wing system, force law and coefficients', ''),
}
NA = {
 'P20': 'convergence and conditioning quantify over floating-point run-time magnitudes (residual norms, refinement limits); no sound static argument in reach bounds them',
 'P21': 'equality of compiled and interpreted execution is a property of the numba compiler and floating-point rounding, not decidable from the repository source',
}
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
        continue
    if not os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')):
        na.append(dict(property=pid, reason='check not built yet'))
        continue
    t, note = CHECKS[pid]
    checks.append(dict(property=pid, quick_cmd='python3-vt check.py %s --quick' % pid, thorough_cmd='python3-vt check.py %s --thorough' % pid,
                       technique=t, level='other', level_note=(BASE + note).strip()))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
