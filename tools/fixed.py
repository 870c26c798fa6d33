"""fixed.py FILE: writes the "fixed" list of known_findings.json from lines 'commit property what failed'"""
import json, sys
f = '/verif/known_findings.json'
d = json.load(open(f))
d['fixed'] = ['fixed: property=%s %s %s' % (p, h, w.strip()) for h, p, w in (l.split(' ', 2) for l in open(sys.argv[1]) if l.strip())]
json.dump(d, open(f, 'w'), indent=1)
