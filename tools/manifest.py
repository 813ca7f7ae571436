#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl, the harness files and not_applicable.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
na = json.load(open(V + '/not_applicable.json'))
nas = {x['property'] for x in na}
checks = []
for p in props:
    i = p['id']
    if i in nas:
        continue
    h = open(f'{V}/harness/{i}.cpp').read()
    b = re.findall(r'^// BOUND: (.*)', h, re.M)
    real, fp = bool(re.search(r'VP_REAL', h)), bool(re.search(r'VP_FP', h))
    arith = {(1, 0): 'real-arithmetic (QF_NRA)', (0, 1): 'bit-exact IEEE (QF_BVFP)', (1, 1): 'bit-exact IEEE (QF_BVFP) and real-arithmetic (QF_NRA)'}[(real, fp)]
    checks.append(dict(property=i, quick_cmd=f'./check {i} --tier quick', thorough_cmd=f'./check {i} --tier thorough',
                       technique='solver-based checking: symbolic execution of the LLVM IR compiled from /repo, ' + arith + ' SMT queries (z3, cvc5), counterexamples replayed natively',
                       level='model_checking', level_note=('Bounds: ' + '; '.join(b))[:900]))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
