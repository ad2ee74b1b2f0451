#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py (claimed properties) and NOT_APPLICABLE (the rest)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import jobs

NOT_APPLICABLE = {
}
TODO = 'No check of it has been built yet.'
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl')) if l.strip()]
checks = []
for p in props:
    if p not in jobs.PROPS: continue
    d = jobs.PROPS[p]
    checks.append(dict(
        property=p,
        quick_cmd='VERIF_TIER=quick python3 check.py ' + p,
        thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
        evidence_file='evidence/%s.json' % p,
        technique='symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3), counterexamples replayed natively',
        level='model_checking',
        level_note='Bounded: ' + d.get('bounds', '') + '. Outside: ' + d.get('outside', '') + '. Trusts rustc\'s translation to LLVM IR, the executor in engine/ and z3; sampled paths are re-run natively and compared.',
    ))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, TODO)) for p in props if p not in jobs.PROPS]
hooks = dict(guard='cfg typelalr_verif', enable='build.sh builds the harness and /repo with RUSTFLAGS --cfg typelalr_verif',
             source_commits=['8bed51b'])
json.dump(dict(version=1, setup_cmd='./build.sh', hooks=hooks, checks=checks, not_applicable=na), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
