#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from props.py and the registered rules."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import P
import props
from hopsa.registry import RULES

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
NA = getattr(props, 'NA', {})
checks, na = [], []
for p in P:
    if p['id'] in RULES and p['id'] not in NA:
        cmd = 'python3 check.py ' + p['id']
        checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd, 'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': 'static analysis: ' + p['tech'], 'level': 'other', 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check built for it yet')})
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'One entry point: check.py <ID>. It rebuilds the MIR facts from /repo whenever the tree changed. No hooks in /repo. '
              'Findings recorded and repaired: known-findings.txt.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not applicable')
