#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.json."""
import json
plan = json.load(open('plan.json'))
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
TECH = ("symbolic execution of bromine's compiled code (LLVM IR of the harness, /repo, tokio::sync and the standard library) "
        "with every branch and assertion decided by z3 over all inputs and schedules within the bounds; counterexamples replayed on the compiled program")
checks = []
for i in ids:
    if i not in plan:
        continue
    b = '; '.join('%s: %s' % (h['name'], h['bounds']['quick']) for h in plan[i]['harnesses'])
    checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                       technique=TECH, level='model_checking', level_note='Holds for every value within the bounds. ' + b))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks,
               not_applicable=[dict(property=i, reason='') for i in ids if i not in plan]), open('MANIFEST.json', 'w'), indent=1)
print(len(checks))
