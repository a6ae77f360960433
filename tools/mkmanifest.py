"""Writes MANIFEST.json from the plans and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import plans
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plans.PLANS:
        pl = plans.PLANS[i]
        checks.append(dict(property=i, quick_cmd='python3 harness/check.py ' + i,
                           thorough_cmd='VERIF_TIER=thorough python3 harness/check.py ' + i,
                           technique=pl.get('technique', plans.TECHNIQUE), level=pl['level'],
                           level_note=plans.NOTES.get(i, plans.NOTE)))
    else:
        na.append(dict(property=i, reason='check under construction'))
m = dict(version=1, setup_cmd='python3 harness/setup.py', checks=checks, not_applicable=na,
         notes='Specification in spec/ (TLA+, TLC).  No hooks in /repo are needed: the public API exposes the abstract state.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
