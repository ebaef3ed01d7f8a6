#!/usr/bin/env python3
"""Regenerate MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py check ' + i,
            'thorough_cmd': 'python3 run.py check %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the real code (LLVM IR) with Z3',
            'level': 'model_checking',
            'level_note': checks.CHECKS[i].get('note', 'Exhaustive within the stated bounds: every feasible path of the real code for every value of the symbolic inputs, decided by Z3; nothing is claimed outside them.') + ' Bounds: ' + checks.CHECKS[i]['bounds']})
    else:
        m['not_applicable'].append({'property': i, 'reason': checks.NA.get(i, 'check not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
