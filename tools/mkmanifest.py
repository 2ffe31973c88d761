#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/vlib')
import checks
TRUST = 'Trusted: TLC, the Java overrides of exact arithmetic (spec/java), the driver that executes requests and logs responses, the Go toolchain. '
notes = json.load(open(V + '/tools/levels.json'))
out = {'version': 1, 'setup_cmd': 'python3 -B tools/setup.py', 'checks': [], 'not_applicable': [],
       'notes': 'All checks: python3 run.py ID. TLA+/TLC specifications in spec/, drivers of the real code in harness/. No hooks in /repo.'}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p not in checks.CHECKS:
        out['not_applicable'].append({'property': p, 'reason': 'check not built yet'})
        continue
    n = notes[p]
    out['checks'].append({'property': p, 'quick_cmd': 'python3 -B run.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 -B run.py ' + p,
                          'technique': n['technique'], 'level': 'model_checking', 'level_note': n['note'] + ' ' + TRUST})
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1)
