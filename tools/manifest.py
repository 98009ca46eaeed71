#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'gen'))
import plan
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTE = 'Exploration: the real headers, instantiated by generated programs, run on randomised inputs and histories; the verdict is the monitors\' over what was executed. Trusts the reference tape, its tolerance model and the compilers.'
checks, na = [], []
for p in props:
    i = p['id']
    if plan.parts(i, 'quick', 1):
        checks.append(dict(property=i, quick_cmd=f'python3 run.py {i} --tier quick', thorough_cmd=f'python3 run.py {i} --tier thorough', technique=plan.TECH.get(i, plan.TECH_DEFAULT), level='exploration', level_note=plan.NOTES.get(i, NOTE)))
    else: na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the monitors sit on the public interface (storage handed to expressions, variables, user-defined expression nodes, malloc, sanitizers).'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
