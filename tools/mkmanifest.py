#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
CLAIM = {}
exec(open(V + '/tools/claims.py').read())
checks = []; na = []
for p in props:
    i = p['id']
    if i in CLAIM:
        lvl, note = CLAIM[i]
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': 'contract-based deductive verification: symbolic execution of the LLVM IR of the real sources against pre/postconditions, obligations discharged by term rewriting and z3',
                       'level': lvl, 'level_note': note})
    else: na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: harnesses include the unmodified sources', 'source_commits': []}, 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
