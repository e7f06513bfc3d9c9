#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans and the property list."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plans import PLANS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    if i not in PLANS: continue
    pl = PLANS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
      'technique': 'runtime monitoring: ' + pl['monitors'], 'level': 'exploration',
      'level_note': 'randomised workloads (%s): %s; held means no monitor objected on the executions explored' % (', '.join(j['mode'] for j in pl['jobs']), pl['rule']),
      'evidence_file': 'evidence/%s.json' % i})
na = [{'property': p['id'], 'reason': 'check not built yet'} for p in props if p['id'] not in PLANS]
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py asan python', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in the repository: the library is observed through its public interface, interposed read() and allocation functions, and compiler instrumentation.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
