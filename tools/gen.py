#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py (run by hand after an edit)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
from props import PROPS, NA                    # noqa: E402
from rules.registry import RULES               # noqa: E402

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if p['id'] not in RULES:
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
na = [{'property': p['id'], 'reason': p['na']} for p in PROPS if p['id'] not in RULES and 'na' in p]
missing = [p['id'] for p in PROPS if p['id'] not in RULES and 'na' not in p]
if missing:
    print('no check yet:', missing)
extra = set(RULES) - {p['id'] for p in PROPS}
assert not extra, extra
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa rules spec/vspec', 'checks': checks, 'not_applicable': na + NA,
     'notes': 'One static analyser (sa/) interprets the source of /repo abstractly on every run; rules/ states the obligations; nothing of /repo is executed. Known findings: known_findings.txt.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks', len(m['not_applicable']), 'not applicable')
