"""DESIGN.md from tools/design_head.md, the statements, the checks' bounds, and the planted bugs."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from engine import env  # noqa: E402
env.setup('cy')
out = open(os.path.join(ROOT, 'tools', 'design_head.md')).read().rstrip() + '\n\n## The properties\n\n'
man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
na = {x['property_id'] if 'property_id' in x else x.get('property') or x.get('id'): x['reason'] for x in man['not_applicable']}
for ln in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(ln)
    i = p['id']
    out += '### %s %s\n\n%s\n\n' % (i, p['title'], p['statement'])
    if not os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        out += 'Not applicable: %s.\n\n' % na.get(i, '?')
        continue
    m = importlib.import_module('checks.' + i.lower())
    q, t = m.configs('quick'), m.configs('thorough')
    kinds = sorted(set(('path by path' if c.get('fork') else 'merged') + (', IEEE' if c.get('fp') else '') for c in q + t))
    out += '* oracle: `checks/%s.py` (%s)\n' % (i.lower(), ', '.join(sorted(set(c['harness'] for c in q + t))))
    out += '* bounds: %s\n' % m.BOUNDS
    out += '* outside: %s\n' % m.OUTSIDE
    for a in getattr(m, 'ASSUMPTIONS', ()) if not isinstance(getattr(m, 'ASSUMPTIONS', ()), str) else (m.ASSUMPTIONS,):
        out += '* assumes: %s\n' % a
    out += '* configurations: %d quick, %d thorough (%s)\n' % (len(q), len(t), '; '.join(kinds))
    ev = os.path.join(ROOT, 'evidence', i + '.json')
    out += '\n'
out += '## Planted bugs (`seeded/`)\n\nEvery one was written from the property and the code, builds, passes the test suite and fails its demonstration.\n\n'
out += '| bug | property | needs | caught by its check |\n|---|---|---|---|\n'
missed = {}
fn = os.path.join(ROOT, 'tools', 'bug_notes.json')
if os.path.exists(fn):
    missed = json.load(open(fn))
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    b = os.path.basename(d)
    out += '| %s | %s | %s | %s |\n' % (b, m['property'], m['needs'].replace('|', '/'), missed.get(b, 'yes'))
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as fh:
    fh.write(out)
