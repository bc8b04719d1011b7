#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table in spec/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'spec'))
sys.dont_write_bytecode = True
from props import PROPS, NA
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']),
                                why_tests_cant=p['tests'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                                                         observe_at=p.get('observe', []), hook_needed=None))) + '\n')
        assert len(p['title']) <= 80, p['id']
man = dict(version=1, setup_cmd='sh tool/build.sh', checks=[dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py --thorough %s' % p['id'],
           technique=p['technique'], level='other', level_note=p['note']) for p in PROPS],
           not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
           notes='All checks are static: tool/gfacts (a libclang-based extractor) turns the current source of /repo into a fact base, the Python rules in lib/rules decide each property on it. Exit 2 means that the analysis could not be carried out.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'claimed', len(NA), 'not applicable')
