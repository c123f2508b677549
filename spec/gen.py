#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA, NOTES

ids = set()
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert p['id'] not in ids, p['id']
        ids.add(p['id'])
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
        }) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'python3 engine/extract.py',
    'checks': [{
        'property': p['id'], 'quick_cmd': 'python3 engine/check.py %s' % p['id'], 'thorough_cmd': 'python3 engine/check.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': p['note'],
    } for p in PROPS],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
    'notes': NOTES,
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(PROPS), 'claimed', len(NA), 'not applicable')
