#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks_table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + '/tools']
from props import PROPS
from checks_table import CHECKS, NOT_APPLICABLE
ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
for p in PROPS: assert len(p['title']) <= 80, p['title']
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS: f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': './check --setup', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': f'./check {i} --tier quick', 'thorough_cmd': f'./check {i} --tier thorough',
            'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE[i]})
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
