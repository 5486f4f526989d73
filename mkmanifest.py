#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = 'contract-based deductive verification of the real code: weakest-precondition style VCs over its LLVM IR, discharged by z3/cvc5'
CLAIMED = json.load(open(os.path.join(here, 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    c = CLAIMED['claimed'].get(i)
    if c is not None:
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % i,
                       'technique': T, 'level': 'proof', 'level_note': c})
    else:
        na.append({'property': i, 'reason': CLAIMED['not_applicable'].get(i, 'no contract within reach yet: the check for this property is not built')})
m = {'version': 1, 'setup_cmd': "python3-vt -c 'import z3'", 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: contracts live in /verif/spec and are compiled together with the unmodified sources.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
