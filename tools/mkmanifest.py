#!/usr/bin/env python3
"""writes MANIFEST.json from vcg/registry.py"""
import sys, json
sys.path.insert(0, '/verif')
from vcg import registry
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    r = registry.REG.get(p['id'])
    if r is None:
        na.append(dict(property=p['id'], reason=registry.NA.get(p['id'], 'check not built yet')))
        continue
    checks.append(dict(property=p['id'], quick_cmd="python3-vt check.py %s --tier quick" % p['id'], thorough_cmd="python3-vt check.py %s --tier thorough" % p['id'],
                       evidence_file="evidence/%s.json" % p['id'], technique=r.get('technique', registry.TECH if r['units'] else registry.TECH_B), level=r['level'] if r['units'] else 'exploration', level_note=r.get('note', registry.NOTE if r['units'] else registry.NOTE_B)))
json.dump(dict(version=1, setup_cmd="python3-vt -c \"import z3, sympy\" && bash -c 'command -v gcc && ls /usr/lib/llvm-18/bin/clang'", checks=checks, not_applicable=na,
               notes="No hooks in /repo. Every check recompiles /repo's sources to LLVM IR and verifies that, and builds a sanitizer driver from the same sources for replay and bounded conformance."),
          open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
