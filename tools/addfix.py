"""addfix.py PROP COMMIT 'what failed' : record a repaired defect"""
import json, sys, os
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
L = json.load(open(f))
p, c, w = sys.argv[1:4]
L.append({'property': p, 'status': 'fixed', 'commit': c, 'what': 'fixed: property=%s %s %s' % (p, c, w)})
json.dump(L, open(f, 'w'), indent=1)
open(f, 'a').write('\n')
