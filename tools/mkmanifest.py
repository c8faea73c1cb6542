"""Regenerates /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    path = os.path.join(here, 'checks', i.lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
        continue
    doc = re.match(r'"""(.*?)"""', open(path).read(), re.S).group(1)
    note = ' '.join(doc.split('\n\n', 1)[1].split()) if '\n\n' in doc else doc
    checks.append(dict(property=i, quick_cmd='./run.sh %s --tier quick' % i,
                       thorough_cmd='./run.sh %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='property-based testing (Hypothesis): generated inputs against an explicit oracle',
                       level='exploration',
                       level_note='Randomised search, no proof of absence. ' + note))
m = dict(version=1, setup_cmd='./run.sh selftest', checks=checks, not_applicable=na,
         notes='All checks: Hypothesis-driven generation (seeded by VERIF_SEED), 8 worker processes, '
               'oracle per check; emitted Verilog is executed with Icarus Verilog 12.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
