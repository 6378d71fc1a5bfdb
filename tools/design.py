#!/usr/bin/env python3
"""Writes DESIGN.md (from DESIGN.in.md) and known_findings.json (from FIXES and KNOWN below)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import NOT_APPLICABLE, BEYOND
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXES = {'A01': 'c772267 61a6d99', 'A02': '37cb939', 'A04': 'e9db30b f119358 b274dc1 d0af75f 5472639 9ec67a2', 'A05': '5335add 2f99f65',
         'A06': 'd898346 4c2096e bc62580 94cdf3f df2676d', 'A07': 'ee82fb3 8973c87 7a57e2d 0630fb7', 'A08': 'c76157d',
         'A09': '4598585 9244068', 'A10': '92c36ed 434aebc', 'A11': '457fbac 8878570', 'A13': '1934229 0c3baf0 e037d12',
         'A14': 'b91f38c 946126c', 'A16': '45df9f7 940dfae', 'A17': 'cd8dcad 1497b82 e214fa3 3583ccc c5f4778', 'A18': '1955dd9 e824103 a1c1335 70a8de1 4d5269b 5efc231', 'A19': '4921694 a226fe9',
         'A20': 'd4602bd f37464b f989f29 c652300 c28d5bf 1552b62 f6806db',
         'A21': 'e2bb964 e5c16ba a9cc969 2c46037 4c9b2f0 084896f 0cbbf79 4635a90',
         '-': '1c71dba b093cbe 563e61f c592af4 edc5b3e c1a80e1 99dcff0 8a55501 9f69aa6 85ae5de'}
KNOWN = [dict(property='A18', key='truncated block eigh: order of the values', status='known',
              what='eigh(btensor, split, tol, ...) hands ascending eigenvalues to the truncation, which searches descending ones: with eigenvalues '
                   '{1,2} and {1,3} in two blocks it keeps the wrong ones. The author marks the meaning of this truncation as undecided (TODO in the '
                   'function), so no small repair is evident')]


def git(*a):
    return subprocess.run(['git', '-C', '/repo', *a], capture_output=True, text=True, check=True).stdout.strip()


fix = []
of = {c: p for p, cs in FIXES.items() for c in cs.split()}
for l in git('log', '--reverse', '--format=%h|%s', '21ebf9c..HEAD').split('\n'):
    h, s = l.split('|', 1)
    assert h in of, l
    what = s[len('fix: '):]
    p = of[h]
    fix.append(dict(property=p, key=h, status='fixed', commit=h, what=what,
                    record=('fixed: property=%s %s %s' % (p, h, what)) if p != '-' else 'fixed: (no property) %s %s' % (h, what)))
json.dump(KNOWN + fix, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
rows = ['| commit | property | what was wrong (subject of the commit) |', '|---|---|---|']
rows += ['| %s | %s | %s |' % (f['commit'], f['property'], f['what']) for f in fix]
seeds = ['| seed | caught by | what it breaks | needs |', '|---|---|---|---|']
C = json.load(open(os.path.join(V, 'tools/caught.json'))) if os.path.exists(os.path.join(V, 'tools/caught.json')) else {}
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    seeds.append('| %s | %s | %s | %s |' % (d, C.get(d, m['property']), m['what_it_breaks'], m['needs']))
t = open(os.path.join(V, 'tools/DESIGN.in.md')).read()
na = ['* **%s**: %s' % kv for kv in list(NOT_APPLICABLE.items()) + list(BEYOND)]
known = ['Known findings (not repaired): ' + ('none.' if not KNOWN else '')] + ['* %s: %s' % (k['property'], k['what']) for k in KNOWN]
t = t.replace('@@MORE@@\n\n', '').replace('@@NA@@', '\n'.join(na)).replace('@@FIX@@', '\n'.join(rows + [''] + known)).replace('@@SEED@@', '\n'.join(seeds))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
