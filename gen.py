#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, subprocess
from props import P, ORDER, NA
from checks import CHECKS
with open('properties.jsonl', 'w') as f:
    for i in sorted(ORDER):
        f.write(json.dumps(P[i]) + '\n')
checks = []
for i in sorted(CHECKS):
    assert i in P, i
    c = CHECKS[i]
    checks.append({
        'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
        'technique': 'deterministic simulation with fault injection: ' + c.get('tech', 'seeded schedules and faults, reference model oracle'),
        'level': c.get('level', 'exploration'), 'level_note': c.get('note', c['rule'])})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'planned, the simulation check is under construction')}
                        for i in sorted(ORDER) if i not in CHECKS]}
with open('MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
