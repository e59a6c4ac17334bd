#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT 'what failed': records a repair in known_findings.json."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
k = json.load(open(p))
k['fixed'].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(k, open(p, 'w'), indent=1, ensure_ascii=False)
open(p, 'a').write('\n')
