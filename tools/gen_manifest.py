#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, glob, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA={}
if os.path.exists(V+'/tools/not_applicable.json'): NA=json.load(open(V+'/tools/not_applicable.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    hs=glob.glob(f'{V}/harness/{i}_*.cpp')
    if hs and i not in NA:
        checks.append(dict(property=i,quick_cmd=f'./check.py {i} --tier quick',thorough_cmd=f'./check.py {i} --tier thorough',
          evidence_file=f'evidence/{i}.json',
          technique='symbolic execution of the real code (LLVM-instrumented) with every assertion decided by an SMT solver (z3/cvc5)',
          level='model_checking',
          level_note='Bounded: every value of the symbolic inputs within the stated sizes and loop counts, all feasible paths forked and each assertion decided by the solver; doubles are exact reals, external LAPACK/MPI/UMFPACK are contract stubs. Every reported violation is replayed natively in double arithmetic before it is printed.'))
    else:
        na.append(dict(property=i,reason=NA.get(i,'No check has been built for this property yet.')))
json.dump(dict(version=1,setup_cmd='./check.py --setup',checks=checks,not_applicable=na,
  notes='One driver (check.py), one symbolic engine (engine/), one harness file per property (harness/). No hooks in /repo. See DESIGN.md.'),
  open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
