#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a module in checks/, not_applicable for the rest."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
NA = {}     # id -> reason, for properties that simulation genuinely cannot decide
NOTE = {}   # id -> extra sentence
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists('checks/%s.py' % i.lower()):
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
        continue
    checks.append({
        'property': i, 'quick_cmd': './run.py %s --tier quick' % i, 'thorough_cmd': './run.py %s --tier thorough' % i,
        'technique': 'deterministic simulation with fault injection', 'level': 'exploration',
        'level_note': NOTE.get(i, 'Seeded search over simulated schedules and fault sequences of the real code; no exhaustiveness claim. '
                       'Trusts the simulator (clock, scheduler, network, helper and peer models in sim/) and the oracle. '
                       'Any violation is shrunk, written as a replay file and confirmed in a fresh process before it is reported.')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: all seams are existing module-level names replaced inside the simulator process (sim/seams.py). '
                    'Commits to /repo are "fix:" repairs, see known_findings.jsonl.'}, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'na')
