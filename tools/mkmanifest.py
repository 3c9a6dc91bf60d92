#!/usr/bin/env python3
"""Writes MANIFEST.json and harness/bounds.json from the table below."""
import json
T = 'symbolic execution of the Go SSA of the real functions, assertions decided by an SMT solver (z3), counterexamples replayed natively'
C = {}
N = []
def c(p, bounds, note):
    C[p] = (bounds, note)
exec(open('/verif/tools/claims.py').read())
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': [], 'not_applicable': N}
for p in sorted(C):
    m['checks'].append({'property': p, 'quick_cmd': './check.sh %s quick' % p, 'thorough_cmd': './check.sh %s thorough' % p,
        'technique': T, 'level': 'model_checking', 'level_note': 'Bounds: ' + C[p][0] + ' ' + C[p][1]})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
json.dump({p: C[p][0] for p in sorted(C)}, open('/verif/harness/bounds.json', 'w'), indent=1)
open('/verif/harness/bounds.json', 'a').write('\n')
