#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has a plan is claimed."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
ROOT = plans.ROOT
TV = 'TLA+ specification checked with TLC; TLC-generated histories replayed into the code and their traces validated by TLC'
NOTE = {}
exec(open(os.path.join(ROOT, 'tools', 'notes.py')).read(), globals())
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[])
for i in ids:
    if i in plans.PLANS and i in NOTE:
        t, n = NOTE[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 tools/check.py ' + i,
                                thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + i,
                                technique=t, level='model_checking', level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason='no check registered yet'))
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print([c['property'] for c in m['checks']])
