#!/usr/bin/env python3
"""Writes specs/st_api.json: the interface of the Structured Text files (run once, when the specification is written)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, 'engine'), os.path.join(H, 'specs')]
import st
p, c, b = st.src(); assert not b, b
open(os.path.join(H, 'specs', 'st_api.json'), 'w').write('{\n' + ',\n'.join(json.dumps(q.name) + ': ' + json.dumps(st.describe_api(q)) for q in p) + '\n}\n')
