#!/usr/bin/env python3
"""add_fixed.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p))
pr, commit, what = sys.argv[1:4]
k.append(dict(property=pr, status='fixed', line='fixed: property=%s %s %s' % (pr, commit, what), what=what, commit=commit))
json.dump(k, open(p, 'w'), indent=1)
