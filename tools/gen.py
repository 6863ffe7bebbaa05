#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from props import P, NA

checks, na = [], []
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
        reason = NA.get(p['id'])
        if os.path.exists(V + '/sa/obl/%s.py' % p['id'].lower()) and not reason:
            cmd = '/opt/venv/bin/python sa/check.py %s --tier %%s' % p['id']
            checks.append({'property': p['id'], 'quick_cmd': cmd % 'quick',
                           'thorough_cmd': cmd % 'thorough',
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['tech'], 'level': 'other', 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': reason or 'check not built yet'})
json.dump({'version': 1,
           'setup_cmd': '/opt/venv/bin/python -m compileall -q sa',
           'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only: the code of /repo is parsed and interpreted over '
                    'abstract values, never imported or run. Fix commits in /repo are listed in '
                    'known_findings.txt.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
