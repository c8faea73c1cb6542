"""tools/known.py PROPERTY PART WHAT SPECFILE: adds a recorded, unrepaired finding."""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
e = dict(property=sys.argv[1], part=sys.argv[2], what=sys.argv[3], spec=json.load(open(sys.argv[4])))
d['findings'] = [x for x in d['findings'] if (x['property'], x['what']) != (e['property'], e['what'])] + [e]
json.dump(d, open(p, 'w'), indent=1); open(p, 'a').write('\n')
