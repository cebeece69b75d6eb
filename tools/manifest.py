#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the checks that exist."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = json.load(open(os.path.join(here, 'tools', 'techniques.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'pbt', i.lower()+'.py')) and i in TECH:
        checks.append(dict(property=i, level='exploration', technique='property-based testing: '+TECH[i][0],
                           level_note=TECH[i][1],
                           quick_cmd='%s run_check.py %s --tier quick' % (PY, i),
                           thorough_cmd='%s run_check.py %s --tier thorough' % (PY, i)))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd=PY+' -c "import sys; sys.path.insert(0, \'.\'); import pbt.core"', checks=checks,
         not_applicable=na)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
