#!/usr/bin/env python3
"""tools/fixed.py PROP COMMIT TEXT: record a repaired defect."""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
k = [x for x in d if 'fixed' in x][0]
d[k].append('fixed: property=%s %s %s' % tuple(sys.argv[1:4]))
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
