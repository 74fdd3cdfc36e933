#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED: property -> (technique, level note)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
CLAIMED = json.load(open(os.path.join(R, 'tools', 'claimed.json')))
NA = json.load(open(os.path.join(R, 'tools', 'not_applicable.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CLAIMED:
        t, n = CLAIMED[p]
        checks.append(dict(property=p, quick_cmd=f'bin/check {p} quick', thorough_cmd=f'bin/check {p} thorough',
                           technique=t, level='model_checking', level_note=n))
na = [dict(property=p, reason=NA.get(p, 'Not decided yet: the check for this property is not built.')) for p in props if p not in CLAIMED]
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: the checks drive build.Build, the parser and the scanner in process and run the generated code. Known findings: known-findings.txt. See DESIGN.md.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(R, 'MANIFEST.json'), 'a').write('\n')
