#!/usr/bin/env python3
"""writes MANIFEST.json from the spec modules present"""
import importlib
import json
import os
import re
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/specs', H + '/vcg']
NA = {
    'C28': 'quantifies over schedules of concurrent threads: the verification conditions here are generated per sequential call, and neither the generator nor any installed deductive verifier for this code has a permission logic for data_mutex/std::atomic; the lock discipline is outside what these contracts can express',
}
checks, na = [], []
for l in open(H + '/properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    f = H + '/specs/%s.py' % i.lower()
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    if not os.path.exists(f):
        na.append(dict(property=i, reason='contracts not written yet'))
        continue
    m = importlib.import_module(i.lower())
    ded = hasattr(m, 'verify')
    lv = getattr(m, 'LEVEL', 'proof' if ded else 'exploration')
    checks.append(dict(
        property=i, quick_cmd='python3-vt run.py --prop %s --tier quick' % i, thorough_cmd='python3-vt run.py --prop %s --tier thorough' % i,
        technique=getattr(m, 'TECHNIQUE', 'contracts on the real functions, verification conditions from their LLVM IR discharged by z3/cvc5; bounded executable contracts alongside for replayable inputs'),
        level=lv, level_note=getattr(m, 'NOTE', 'postconditions proved for all inputs and iterations from the IR of the current sources; trusts the VC generator, clang front end, solvers and the contracts listed in the evidence; the native harness is bounded and not counted as proof')))
json.dump(dict(version=1, setup_cmd='python3-vt -m compileall -q vcg specs run.py', checks=checks, not_applicable=na,
               notes='see DESIGN.md; no hooks are needed in /repo'), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
