"""tools/fixed.py CID <commit subject substring> <what failed>: records a repaired defect."""
import json, subprocess, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
cid, sub, what = sys.argv[1:4]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
h = [l.split()[0] for l in log if sub in l]
assert len(h) == 1, h
e = 'fixed: property=%s %s %s' % (cid, h[0], what)
if e not in d['fixed']:
    d['fixed'].append(e)
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
