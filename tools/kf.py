"""usage: kf.py Pxx commit text...   -- records a repaired defect"""
import json, sys
p = '/verif/known_findings.json'; d = json.load(open(p))
n = len(d['findings']) + 1
d['findings'].append({'id': 'F%02d' % n, 'property': sys.argv[1], 'fn': '*', 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (sys.argv[1], sys.argv[2], ' '.join(sys.argv[3:]))})
json.dump(d, open(p, 'w'), indent=1)
