"""writes specs/baseline.json from /repo: run it only after the contracts were proved on that tree"""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from jpv import par
from jpv.core import declared
import checks
out = {}
for name in sorted({m for c in checks.PROPS.values() for m, _ in c.get('jobs', [])}):
    m = par.module(name); fns = sorted({f for c in checks.PROPS.values() for n, f in c.get('jobs', []) if n == name} | set(m.specs))
    out[name] = dict(fingerprint=m.tu.fingerprint(), fns={f: par.fnprint(m, f) for f in fns if f in m.tu.funcs and not m.specs[f].trusted}, roles={f: declared(m.tu, m.tu.funcs[f]) for f in fns if f in m.tu.funcs})
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'baseline.json')
json.dump(out, open(p, 'w'), indent=0, sort_keys=True)
