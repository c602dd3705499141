#!/usr/bin/env python3
# Writes MANIFEST.json from the ids registered in engine/checks.go.
import json, re
ids = re.findall(r'\{ID: "(C\d\d)"', open('engine/checks.go').read())
props = [json.loads(l) for l in open('properties.jsonl')]
checks = []
for p in props:
    if p['id'] not in ids:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './run.sh check %s quick' % p['id'],
        'thorough_cmd': './run.sh check %s thorough' % p['id'],
        'technique': 'symbolic execution of the Go SSA of the whole program, assertions decided by Z3, counterexamples replayed on the real binary',
        'level': 'model_checking',
        'level_note': 'Every input within the stated bounds (evidence: bounds, outside_bounds) is decided by the solver when bound_exhausted is true; trusts the SSA interpreter, the models of os/fmt/log/time.Now and Z3, all compared with native runs of sampled paths.',
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': 'check under construction'} for p in props if p['id'] not in ids],
     'notes': 'See DESIGN.md. Known findings and repairs: known-findings.txt.'}
open('MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
