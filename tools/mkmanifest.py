#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the modules in props/."""
import json, os, ast
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for l in open(R + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; f = '%s/props/%s.py' % (R, i.lower())
    if not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet'))); continue
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try: v[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
    checks.append(dict(property=i, quick_cmd='/usr/local/bin/python3-vt check.py %s quick' % i,
                       thorough_cmd='/usr/local/bin/python3-vt check.py %s thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=v.get('TECHNIQUE', 'property-based testing (Hypothesis) of generated programs against an independent oracle'),
                       level=v.get('LEVEL', 'exploration'),
                       level_note=v.get('NOTE', 'Holds on every generated case of the run; generated-input search, no proof of absence. Trusts the generator (domain), lib/vdesc.py (oracle) and CPython 3.12.')))
m = dict(version=1, setup_cmd='/usr/local/bin/python3-vt -c "import hypothesis"', checks=checks, not_applicable=na)
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
