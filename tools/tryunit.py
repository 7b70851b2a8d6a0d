#!/usr/bin/env python3
"""developer helper: run one unit and summarise: tryunit.py module Class '{kwargs}' [shard/n] [ops]"""
import sys, os, time, tempfile, ast
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib
from collections import Counter
from vcg import unit
from vcg import build
d = tempfile.mkdtemp(prefix='vcgll')
unit.modules(d)
os.system("rm -rf '%s'" % d)
U = getattr(importlib.import_module('vcg.' + sys.argv[1]), sys.argv[2])
u = U(deadline=float(os.environ.get('DL', '240')), **ast.literal_eval(sys.argv[3] if len(sys.argv) > 3 else '{}'))
if len(sys.argv) > 4 and sys.argv[4] != '-':
    a, b = sys.argv[4].split('/')
    u.shard = (int(a), int(b))
if len(sys.argv) > 5:
    flt = sys.argv[5]
    oc = u.case
    u.case = lambda lb, f, *a: oc(lb, f, *a) if flt in lb else None
if os.environ.get('CANARY'):
    u.canary = True
r = u.run()
seen = Counter()
for n, s, dd in r['results']:
    if s != 'proved':
        k = (s, dd[:60])
        seen[k] += 1
        if seen[k] <= 2 and len(seen) < 14:
            print(s, '|', n, '|', dd[-int(os.environ.get('W', '350')):])
print(Counter(s for _, s, _ in r['results']), "wall %.1f solver %.1f queries %d fns %d" % (r['wall'], r['solver'], r['queries'], len(r['functions'])), sorted(r['contracts'])[:0])
