#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import registry
from table import TABLE, NOT_APPLICABLE

props, checks, na = [], [], []
for t in TABLE:
    props.append(dict(id=t['id'], title=t['title'], statement=t['statement'],
                      quantifier=dict(over=t['over'], text=t['forall']),
                      why_tests_cant=t['why'],
                      anchors=dict(files=t['files'],
                                   mechanism=[dict(name=n, where=w) for n, w in t['mech']])))
    assert len(t['title']) <= 80, t['title']
    if t['id'] in registry.PROPS:
        checks.append(dict(property=t['id'],
                           quick_cmd='python3 harness/check.py %s quick' % t['id'],
                           thorough_cmd='python3 harness/check.py %s thorough' % t['id'],
                           technique=t['technique'], level=t.get('level', 'model_checking'),
                           level_note=t['note']))
    else:
        na.append(dict(property=t['id'], reason=NOT_APPLICABLE[t['id']]))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='python3 harness/setup.py',
           checks=checks, not_applicable=na,
           notes='No hooks: the checks observe public calls only. TLA+ checked with TLC.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
print(len(props), 'properties', len(checks), 'checks', len(na), 'not applicable')
