#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (one place to edit)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
from registry import CHECKS
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        rec = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
               'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
               'why_tests_cant': p['why'],
               'anchors': {'files': p['files'],
                           'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                           'observe_at': p.get('observe', []), 'hook_needed': None}}
        if p.get('state'):
            rec['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(rec) + '\n')
        if p['id'] in NOT_APPLICABLE:
            na.append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]})
        else:
            assert p['id'] in CHECKS, p['id']
            cmd = 'python3 checks/check.py ' + p['id']
            checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd + ' --thorough', 'technique': p['tech'],
                           'level': 'other', 'level_note': p['note']})
assert not set(CHECKS) - {p['id'] for p in PROPS}, set(CHECKS) - {p['id'] for p in PROPS}
json.dump({'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. All checks analyse the type-checked syntax trees of /repo\'s current sources; nothing of the library is run.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
