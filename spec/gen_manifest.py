#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = {}
TECH = {}
exec(open(os.path.join(R, 'spec', 'notes.py')).read()) if os.path.exists(os.path.join(R, 'spec', 'notes.py')) else None
checks, na = [], []
for l in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(R, 'checks', p.lower() + '.py')) and p not in NA:
        checks.append(dict(property=p, quick_cmd='./run.py %s quick' % p, thorough_cmd='./run.py %s thorough' % p,
                           technique=TECH.get(p, 'bounded symbolic execution of the real Python code (z3), counterexamples replayed on the real code'),
                           level='model_checking', level_note=NOTE.get(p, 'exhaustive over all symbolic inputs within the bounds stated in the evidence file; floating-point values are reals')))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='./run.py --setup', checks=checks, not_applicable=na), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
