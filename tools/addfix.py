"""Record a repaired defect: addfix.py PROPERTY COMMIT TEXT"""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
pid, c, t = sys.argv[1:4]
d.append(dict(status='fixed', property=pid, commit=c, line='fixed: property=%s %s %s' % (pid, c, t)))
json.dump(d, open(p, 'w'), indent=1)
