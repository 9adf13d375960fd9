#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py (run by hand after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA
TECH = 'contract-based deductive verification of the real code: symbolic weakest-precondition/path VCs over the LLVM IR of /repo, discharged by polynomial normal form, z3 and cvc5; callees replaced by their own verified contracts'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'hooks': {'guard': 'none', 'enable': 'no hook is needed: the harnesses include the headers of /repo unchanged', 'source_commits': []},
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt run.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt run.py %s thorough' % p['id'],
                 'technique': p.get('tech', TECH), 'level': p.get('level', 'proof'), 'level_note': p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
for p in PROPS + NA:
    assert len(p['title']) <= 80, p['id']
print(len(PROPS), 'checks', len(NA), 'not applicable')
