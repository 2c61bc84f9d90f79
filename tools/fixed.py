"""Usage: fixed.py PROPERTY COMMIT 'what failed' -- records a repaired defect."""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(P))
line = 'fixed: property=%s %s %s' % tuple(sys.argv[1:4])
if line not in d['fixed']:
    d['fixed'].append(line)
json.dump(d, open(P, 'w'), indent=1)
