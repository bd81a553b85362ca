#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a registered check is claimed."""
import json, re, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = {
    'default': 'property-based testing: generated cases against an explicit oracle, coverage-guided mutation of cases, shrinking to a replay file',
}
exec(open(V + '/tools/techniques.py').read())
src = ''.join(open(f).read() for f in glob.glob(V + '/harness/checks/*.cpp'))
have = set(re.findall(r'PROPERTY\("(P\d+)"', src))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(property=i, quick_cmd='python3 /verif/check.py %s --tier quick' % i,
                           thorough_cmd='python3 /verif/check.py %s --tier thorough' % i,
                           technique=TECH.get(i, TECH['default']), level='exploration',
                           level_note=NOTE.get(i, 'Holds for the generated cases of a run; bounds are in DESIGN.md.'),
                           evidence_file='/verif/evidence/%s.json' % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check yet.')))
json.dump(dict(version=1, setup_cmd='python3 /verif/harness/build.py', checks=checks, not_applicable=na,
               notes='No hooks: the checks compile /repo/src as it is, out of tree, with AddressSanitizer.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
