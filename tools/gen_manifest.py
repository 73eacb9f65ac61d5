#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered cases and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import cases as C
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = {'R01': 'The statistic is computed in double precision with log, sqrt and erfc-like sums from libm over millions of samples; neither the executor nor an SMT solver decides that arithmetic, and there is no exact specification to compare with.'}
checks, nal = [], []
for p in props:
    i = p['id']
    if i in C.GEN and i not in na:
        info = C.INFO.get(i, {})
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': 'symbolic execution of the LLVM bitcode of the current source, obligations decided by term normalisation and SMT (z3)',
            'level': 'other', 'level_note': (info.get('note') or 'Bounded: every value of the symbolic inputs within the stated sizes and configurations; cases the solver does not decide are listed as undecided. ') + ' Trusts clang, the executor in engine/, z3 and the references under harness/ and ref/.'})
    else:
        nal.append({'property': i, 'reason': na.get(i, 'No check yet.')})
json.dump({'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': nal,
  'notes': 'See DESIGN.md. Undecided cases never fail a check; they are printed as UNDECIDED and listed in the evidence file.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(nal), 'not applicable')
