#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from properties.jsonl and the contracts (run by hand after adding contracts)."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, '/repo']
from engine import contract as C

props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(here, 'contracts', i.lower() + '.py')):
        na.append(dict(property=i, reason='no contract written yet (work in progress)'))
        continue
    m = importlib.import_module('contracts.' + i.lower())
    cs = C.REG[i]
    pr = [c for c in cs if c.proof]
    bo = [c for c in cs if not c.proof]
    level = 'proof' if pr else 'exploration'
    note = ''
    if pr:
        note += 'Proved for all inputs, sizes and iterations (real source interpreted on every run, every obligation discharged by normal form + z3): ' + ', '.join(dict.fromkeys(c.name for c in pr)) + '. '
    if bo:
        note += 'Bounded (executed contracts on seeded small inputs, not counted as proved): ' + ', '.join(dict.fromkeys(c.name for c in bo)) + '. '
    note += getattr(m, 'LEVEL_NOTE', '')
    note += ' Assumed: NumPy/SciPy contracts and exact arithmetic as listed in the evidence.'
    checks.append(dict(property=i, quick_cmd='python3-vt -W ignore run.py ' + i,
                       thorough_cmd='python3-vt -W ignore run.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='contract-based deductive verification of the real Python source (symbolic interpretation, obligations discharged by an algebraic normal form and z3)'
                       if pr else 'executable contracts on the real code, bounded check (labelled stand-in: outside the reach of the deductive engine)',
                       level=level, level_note=note.strip()))
m = dict(version=1, setup_cmd='python3-vt -c "import numpy, scipy, z3"', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
