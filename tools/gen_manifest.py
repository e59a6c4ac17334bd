#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness files that exist."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = set()
for f in glob.glob(root + '/harness/*.go'):
    have |= set(re.findall(r'^func H_(C\d\d)_\w+\(\)', open(f).read(), re.M))
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i} quick',
            'thorough_cmd': f'./check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'solver-based symbolic execution of the Go SSA of the real code (z3), counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'Every path of the listed harnesses within the bounds in the evidence file (shapes, lengths, exponent and power ranges) is executed symbolically from the SSA of the current source and each assertion is decided by z3 for all variable identities, exponents and coefficients on that path. '
                          'Assumes coefficients are exact reals (rounding, overflow, NaN and infinities outside), monomials with distinct factors and positive exponents unless a harness says otherwise, and the intercepted library functions (fmt, strings, gonum kernels) as described in DESIGN.md; translation is spot-checked by native replay of sampled paths. Nothing is claimed outside the bounds.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
m = {'version': 1, 'setup_cmd': './check.sh build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. See DESIGN.md.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
