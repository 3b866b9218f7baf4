#!/usr/bin/env python3
# Writes MANIFEST.json from props.py and properties.jsonl.
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from props import PROPS, NOT_APPLICABLE
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
     'notes': 'No hooks: /repo only has fix: commits. Contracts live in specs/*.vs and are attached to functions extracted from /repo by go2verus on every run.'}
for l in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if pid not in PROPS:
        continue
    p = PROPS[pid]
    c = {'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid, 'thorough_cmd': 'python3 check.py %s thorough' % pid, 'evidence_file': 'evidence/%s.json' % pid,
         'technique': p['technique'], 'level': p['level'], 'level_note': p['note']}
    if p.get('theorems'):
        c['theorems'] = p['theorems']
    m['checks'].append(c)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
