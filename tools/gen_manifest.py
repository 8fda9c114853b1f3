#!/usr/bin/env python3
import json, sys
sys.path.insert(0, '/verif/bin')
import plan
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
TECH = 'TLA+ specification checked by TLC; traces of the real code (random histories and exhaustive small-bound exploration) validated against it'
checks = []
na = []
for p in props:
    i = p['id']
    c = plan.CHECKS.get(i)
    if c is None:
        na.append(dict(property=i, reason='no check yet'))
        continue
    checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s --tier quick' % i, thorough_cmd='python3 bin/check.py %s --tier thorough' % i,
                       technique=c.get('technique', TECH), level=c.get('level', 'model_checking'),
                       level_note=c.get('note', 'TLC enumerates the specification at the bounds of its cfg files; the implementation is bound to it by trace validation, so the verdict covers the histories recorded, not all')))
m = dict(version=1, setup_cmd='bash bin/setup.sh', hooks=dict(guard='verif', enable='no hooks are used: the driver is an external module that replaces github.com/masagroup/soft.go by /repo', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
