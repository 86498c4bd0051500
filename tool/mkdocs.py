#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/props.py (run after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tool')
from props import PROPS, NA
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
        assert len(p['title']) <= 80, p['id']
m = dict(version=1, setup_cmd='python3 tool/setup.py',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
                      technique=p['tech'], level=p.get('level', 'other'), level_note=p['note']) for p in PROPS],
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
         notes='All checks are static: tool/cxxir.cc (clang 18 AST export) + vf/flow.py (path-sensitive dataflow) + rules/<id>.py. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'claimed', len(NA), 'not applicable')
