#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py (committed output; run after changing the table)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/lib')
sys.dont_write_bytecode = True
import props
NA = {}
p = H + '/tools/not_applicable.json'
if os.path.exists(p):
    NA = json.load(open(p))
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl') if l.strip()]
checks, na = [], []
for i in ids:
    if i in props.SPECS:
        s = props.SPECS[i]
        note = 'Holds on every execution in the bounds: ' + s['bounds'] + '.'
        if s['assumptions']:
            note += ' Assumes: ' + '; '.join(s['assumptions']) + '.'
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                           thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique='model checking: ' + s['technique'], level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks use only its public interfaces and sources.'),
          open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
