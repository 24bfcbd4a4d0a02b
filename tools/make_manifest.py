"""Writes MANIFEST.json from the check modules which exist"""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if not os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'check under construction'})
        continue
    m = importlib.import_module(i.lower())
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt check.py %s' % i,
        'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': getattr(m, 'TECHNIQUE', 'property-based testing with Hypothesis, schema/value/layout '
                             'generators, independent wire codec as oracle'),
        'level': getattr(m, 'LEVEL', 'exploration'),
        'level_note': getattr(m, 'LEVEL_NOTE', 'Random search with shrinking: ' + m.RULE)})
out = {'version': 1, 'setup_cmd': 'python3-vt lib/build.py pure pyx', 'checks': checks, 'not_applicable': na}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
