#!/usr/bin/env python3
"""Writes MANIFEST.json from the drivers that exist and properties.jsonl."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if not os.path.exists(os.path.join(here, 'drivers', pid.lower() + '.py')):
        na.append({'property': pid, 'reason': 'check not built yet'})
        continue
    m = importlib.import_module('drivers.' + pid.lower())
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 check.py %s --tier quick' % pid,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': getattr(m, 'TECHNIQUE',
                             'TLA+ specification model checked with TLC; recorded sessions of the real library validated against it by TLC'),
        'level': getattr(m, 'LEVEL', 'model_checking'),
        'level_note': getattr(m, 'LEVEL_NOTE',
                              'The model is explored exhaustively within the stated constants; the implementation is '
                              'checked on every session the driver generates, each result compared exactly (after '
                              'scaling to integers) by TLC with the value the specification defines. Trusts the '
                              'recorder (scaling and rounding to integers), numpy/scipy/sympy and TLC.')})
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'TLA+ (TLC). No hooks in /repo: sessions are recorded at the public API. See DESIGN.md.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not claimed')
