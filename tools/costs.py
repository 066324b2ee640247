#!/usr/bin/env python3
"""Update tools/design/costs.json from the evidence of complete quick runs"""
import glob, json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = VERIF + '/tools/design/costs.json'
costs = json.load(open(path)) if os.path.exists(path) else {}
for f in glob.glob(VERIF + '/evidence/*.json'):
    e = json.load(open(f))
    c = e['coverage']
    if e['tier'] == 'quick' and c['exhaustive']:
        costs[e['property']] = [c['executions'], c['states'],
                                c['transitions'], round(e['wall_s'])]
json.dump(costs, open(path, 'w'), sort_keys=True, indent=0)
