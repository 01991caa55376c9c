#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, UNITS
import notes
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in P:
        continue
    p = P[i]
    checks.append(dict(property=i, quick_cmd='python3 vp/check.py %s --tier quick' % i, thorough_cmd='python3 vp/check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='contract-based deductive verification (CBMC code contracts, dfcc) of the functions in /repo',
                       level=p.get('level', 'proof'), level_note=notes.LEVEL.get(i, notes.DEFAULT)))
na = [dict(property=i, reason=notes.NA[i]) for i in ids if i not in P]
json.dump(dict(version=1, setup_cmd='sh vp/setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: contracts are attached to a mechanically instrumented scratch copy of the sources (vp/inject.py).'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
