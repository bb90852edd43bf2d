#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        c = dict(property=i, quick_cmd='./check.py ' + i, thorough_cmd='VERIF_TIER=thorough ./check.py ' + i, evidence_file='evidence/%s.json' % i,
            technique=P.get('technique', 'contract-based deductive verification (Verus) of the functions extracted from /repo on every run, failed obligations replayed on the real code'),
            level=P['level'], level_note=P.get('note', 'All obligations of the listed functions discharged for all inputs, assuming the contracts of std and of the dependencies (contracts/prelude), the mechanical extraction (vx) and non-NaN floats; a bounded search on the real code validates these assumptions and supplies failing inputs.'))
        if P['level'] == 'proof' and P.get('theorems'): c['theorems'] = P['theorems']
        checks.append(c)
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'not claimed yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the checks extract functions from /repo/src mechanically (vx) and compile a pub-ified copy of /repo/src against stand-in crates (stubs/).')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
