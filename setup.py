#!/usr/bin/env python3
"""Prebuild the native harnesses (every check rebuilds incrementally from /repo's current tree)."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/vlib")
import run, props
for n in sorted({n for P in props.PROPS.values() for n in P.get("native", [])}):
    if n == "core": run.build_native(n, consts=True)
    b, err, t = run.build_native(n)
    print("native %s: %s (%.1f s)" % (n, "ok" if b else "FAILED " + err[-800:], t))
print("native neg: %s" % run.check_neg()["status"])
