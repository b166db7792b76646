#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the real code + SMT/SAT (bounded, all values), counterexamples replayed natively'
NOTES = {}
NA = {}
exec(open(os.path.join(HERE, 'tools', 'manifest_data.py')).read())
ids = [json.loads(ln)['id'] for ln in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in NOTES and os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        tech, note = NOTES[i]
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': tech or TECH, 'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
