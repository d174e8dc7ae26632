#!/usr/bin/env python3
"""addfixed.py 'property=ID commit what' ...: appends to known_findings.json."""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
for a in sys.argv[1:]:
    e = 'fixed: ' + a
    if e not in d['fixed']:
        d['fixed'].append(e)
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
