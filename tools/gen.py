#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
from props import P, NA
import rules
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('tech', 'note', 'na')}) + '\n')
checks = []
for p in P:
    if p['id'] in rules.PROPS:
        checks.append({'property': p['id'],
                       'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'technique': 'static analysis: ' + p['tech'],
                       'level': 'other', 'level_note': p['note']})
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'no rule built')} for p in P if p['id'] not in rules.PROPS]
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties', len(checks), 'claimed', [x['property'] for x in na])
