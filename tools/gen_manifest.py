#!/usr/bin/env python3
"""writes MANIFEST.json: one check per property that has a contract file"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {'C32': 'the observable is the content of matplotlib artists produced by matplotlib itself; a contract would have to assume the contracts of the plotting library that are the whole content of the property, and no verifier here reaches it'}
LEVEL = {}
NOTE = ('Contracts on the real functions of /repo/cbx, executed symbolically from the current source over arbitrary array sizes and values; every ensures is discharged by the term normaliser or z3. '
        'Trusted: the engine, assumed contracts of numpy/scipy/torch operations, real arithmetic in place of floating point. '
        'Every contract is in addition evaluated on the real code with real numpy on sampled inputs (bounded, used for counterexample replay). Contracts outside the prover\'s reach are listed as bounded_only in the evidence and not counted as proved.')
EXTRA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA or not os.path.exists(os.path.join(V, 'contracts', i.lower() + '.py')):
        na.append(dict(property=i, reason=NA.get(i, 'contract not written yet')))
        continue
    checks.append(dict(property=i, quick_cmd='python3 engine/run_check.py %s --tier quick' % i, thorough_cmd='python3 engine/run_check.py %s --tier thorough' % i,
                       technique='contract-based deductive verification: symbolic execution of the real code against pre/postconditions, obligations discharged by normaliser and z3',
                       level=LEVEL.get(i, 'proof'), level_note=(EXTRA.get(i, '') + ' ' + NOTE).strip()))
json.dump(dict(version=1, setup_cmd='python3 engine/setup_check.py', checks=checks, not_applicable=na,
               notes='no hooks: /repo is checked as it is'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
