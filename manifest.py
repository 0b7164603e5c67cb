#!/usr/bin/env python3
"""writes MANIFEST.json from the table below (kept in step with properties.jsonl)"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
TECH = 'TLA+ specification model-checked with TLC; '
COMMON = ' Assumes the TLA+ modules state the property faithfully; the code is covered on the replayed/recorded executions only.'
CLAIMS = {}
exec(open(os.path.join(H, 'claims.py')).read())
checks = [dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
               technique=TECH + CLAIMS[p][0], level='model_checking', level_note=CLAIMS[p][1] + COMMON) for p in ids if p in CLAIMS]
na = [dict(property=p, reason=NA.get(p, 'check under construction')) for p in ids if p not in CLAIMS]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: every observation goes through the public API (user-supplied objective, surrogate, acquisition, evaluator) or public attributes.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
