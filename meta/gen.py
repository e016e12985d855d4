#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from meta/props.py (one table, so they stay in step)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'meta'))
from props import PROPS, NA
checks, lines = [], []
for p in PROPS:
    d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
             anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
    assert len(d['title']) <= 80, (p['id'], len(d['title']))
    lines.append(json.dumps(d))
    if p['id'] in NA:
        continue
    checks.append(dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --thorough",
                       technique=p['technique'], level=p.get('level', 'proof'), level_note=p['note']))
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(lines), 'properties', len(checks), 'checks')
