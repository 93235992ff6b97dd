#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'meta'))
import props
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p.get('over', ['inputs']), text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                              observe_at=p.get('observe', []), hook_needed=None))
        assert len(d['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='python3 setup.py', checks=[], not_applicable=[])
for p in props.PROPS:
    if p.get('na'):
        m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    else:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                                thorough_cmd='python3 check.py %s --thorough' % p['id'],
                                evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other', level_note=p['note']))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
