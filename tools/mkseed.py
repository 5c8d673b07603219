#!/usr/bin/env python3
"""mkseed.py SPEC.py  -- build /verif/seeded/<id>/ from a spec and confirm it in a scratch copy of /repo.

SPEC defines: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (demo program), FEATURES=[...], DEPS="" (extra Cargo.toml lines)
Confirms: demo passes on the unchanged tree; with the patch it builds, the stable tests pass and the demo fails."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the behaviour holds on the tree in the current directory; nonzero: it does not
set -u
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$here/Cargo.lock" "$d/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$d/Cargo.toml"
cd "$d" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" cargo build --offline -q 2>"$d/err" || { tail -20 "$d/err"; exit 2; }
timeout 100 "$d/target/debug/demo"
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    out = V + "/seeded/" + spec["ID"]
    os.makedirs(out, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        sh("git clone -q /repo r", w)
        r = w + "/r"
        for f, a, b in spec["EDITS"]:
            p = r + "/" + f; s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        open(out + "/patch.diff", "w").write(sh("git diff", r).stdout)
        open(out + "/main.rs", "w").write(spec["MAIN"])
        shutil.copy(V + "/vlib/Cargo.lock.base", out + "/Cargo.lock")
        feats = ", ".join('"%s"' % x for x in spec.get("FEATURES", []))
        open(out + "/Cargo.toml.in", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\npostcard-rpc = { path = "@REPO@/source/postcard-rpc", features = [%s] }\n%s' % (feats, spec.get("DEPS", "")))
        open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        d0 = sh("bash %s/demo.sh" % out, "/repo"); print("demo unchanged:", d0.returncode, (d0.stdout + d0.stderr)[-600:])
        if os.environ.get("FAST"):
            d1 = sh("bash %s/demo.sh" % out, r); print("demo patched:", d1.returncode, (d1.stdout + d1.stderr)[-400:]); return
        ok = False
        assert not sh("git status --porcelain", "/repo").stdout.strip(), "repo dirty"
        try:
            a = sh("git apply %s/patch.diff" % out, "/repo"); print("apply:", a.returncode, a.stderr)
            b = sh("bash /opt/vp/build.sh", "/repo"); print("build:", b.returncode)
            t = sh("bash /opt/vp/test.sh %s/o.json" % w, "/repo")
            o = json.load(open(w + "/o.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            st = base.get("stable") or base.get("passed") or base.get("stable_tests") or base
            miss = [x for x in st if x not in o["passed"]] if isinstance(st, list) else None
            print("tests: passed %d failed %d missing %s" % (len(o["passed"]), len(o["failed"]), miss))
            d1 = sh("bash %s/demo.sh" % out, "/repo"); print("demo patched:", d1.returncode, (d1.stdout + d1.stderr)[-400:])
            ok = d0.returncode == 0 and b.returncode == 0 and not miss and not o["failed"] and (d1.returncode == 1 or d1.returncode > 2)
        finally:
            sh("git checkout -- .", "/repo")
        print("SEED", spec["ID"], "OK" if ok else "BAD")
        if not ok and not os.environ.get("KEEP"): shutil.rmtree(out)
    finally:
        shutil.rmtree(w)
main()
