#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md. catch.json: {seed: [checks that report it]} (measured by hand)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
C = json.load(open(os.path.join(R, 'tools/catch.json')))
print('| planted bug | needs | reported by |\n|---|---|---|')
for s in sorted(os.listdir(os.path.join(R, 'seeded'))):
    m = json.load(open(os.path.join(R, 'seeded', s, 'meta.json')))
    print(f"| {s} | {m['needs']} | {' '.join(sorted(set(C.get(s, [])) | {m['property']}))} |")
