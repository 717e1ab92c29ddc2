#!/usr/bin/env python3
# regenerates MANIFEST.json from the table below (run by hand)
import json
T = 'contract-based deductive verification: VCs generated from the LLVM IR of the real functions, discharged by z3/cvc5; runtime contract checking as the labelled bounded stand-in'
NA = {'C17': 'Linearizability of the lock-based tree under threads is a property of schedules; sequential function contracts cannot express it, no permission/rely-guarantee verifier for this C code is installed, and Diva itself drives the tree from one thread.',
      'C18': 'The false positive rate is a probability over a distribution of keys and queries; function contracts decide facts about every single execution, not expectations. C06 decides the exact set of positives instead.'}
LEVEL = {}; NOTE = {}
try: exec(open('levels.py').read())
except FileNotFoundError: pass
props = [json.loads(l) for l in open('properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in NA: m['not_applicable'].append({'property': i, 'reason': NA[i]}); continue
    m['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough', 'technique': T, 'level': LEVEL.get(i, 'exploration'),
        'level_note': NOTE.get(i, 'Runtime contract checking of the real code on generated histories: bounded.')})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
