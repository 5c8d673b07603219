"""Record the function paths of every unit on the pinned tree (used to recognise functions that appear later)."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract, units, verus
out = {}
for n, u in units.UNITS.items():
    g = extract.build_unit(u)
    out[n] = sorted(set(f for f, _ in g.fns))
    c = {f: verus.closures(b) for f, b in sorted(g.bodies.items()) if verus.closures(b)}
    if c: out["closures:" + n] = c
    s = {f: x for f, x in sorted(g.shapes.items()) if x}
    if s: out["loops:" + n] = s
    if g.guarded: out["guarded:" + n] = sorted(g.guarded)
json.dump(out, open(units.V + "/contracts/baseline.json", "w"), indent=1)
