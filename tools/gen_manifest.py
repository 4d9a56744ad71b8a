#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, 'engine'), os.path.join(H, 'specs')]
import scalar
for m in ('blocks', 'arrays', 'strings', 'effects', 'memory', 'st'):
    if os.path.exists(os.path.join(H, 'specs', m + '.py')): __import__(m)
from verify import TASKS
import rules
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in TASKS:
        t, level, note = rules.TECH[i]
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json', technique=t, level=level, level_note=note))
    else: na.append(dict(property=i, reason=rules.NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='bash mirdump/dump.sh', checks=checks, not_applicable=na,
  notes='Static analysis only: see DESIGN.md. Every check re-extracts the MIR of /repo (about 8 s in a fresh sandbox) before deciding.'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
