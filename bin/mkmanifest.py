#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/checks.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
out, na = [], []
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        level, fn = checks.CHECKS[i]
        doc = re.sub(r'\s+', ' ', (fn.__doc__ or '').strip())
        tech, _, note = doc.partition(' | ')
        out.append({'property': i, 'quick_cmd': f'bin/check {i} quick',
                    'thorough_cmd': f'bin/check {i} thorough',
                    'technique': tech or 'TLA+ specification (TLC), trace validation',
                    'level': level,
                    'level_note': note or 'bounded; see DESIGN.md'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile harness/vlib.py harness/checks.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks build /repo as it is',
               'source_commits': []},
     'checks': out, 'not_applicable': na}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(out), 'checks', len(na), 'not applicable')
