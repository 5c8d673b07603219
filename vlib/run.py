"""Builders/runners for the native harnesses and the Kani harnesses (both compile /repo's current tree)."""
import glob, os, re, shutil, subprocess, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = V + "/.build"
LOCK = V + "/vlib/Cargo.lock.base"

def env():
    e = dict(os.environ)
    e.pop("RUSTC_WRAPPER", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"): e.pop(k, None)
    return e

_stage_lock = threading.Lock()
def stage(kind, name, tag=""):
    with _stage_lock: return _stage(kind, name, tag)

def _stage(kind, name, tag):
    """copy the harness crate to the (ignored) build folder, so that cargo's lock file handling never touches committed files"""
    src, dst = "%s/%s/%s" % (V, kind, name), "%s/%s/%s" % (BUILD, kind, name + tag)
    os.makedirs(dst, exist_ok=True)
    if os.path.isdir(dst + "/src"): shutil.rmtree(dst + "/src")
    shutil.copytree(src + "/src", dst + "/src")
    shutil.copy(src + "/Cargo.toml", dst + "/Cargo.toml")
    shutil.copy(LOCK, dst + "/Cargo.lock")
    if kind == "native": shutil.copy(V + "/native/common.rs", BUILD + "/native/common.rs")
    if os.path.isdir(V + "/stubs"):
        shutil.copytree(V + "/stubs", BUILD + "/stubs", dirs_exist_ok=True)
    return dst

def fresh(target):
    """never trust file times for the crate under test"""
    for d in glob.glob(target + "/**/.fingerprint/postcard-rpc-*", recursive=True):
        shutil.rmtree(d, ignore_errors=True)

def build_native(name, timeout=700, consts=False):
    d = stage("native", name)
    tgt = BUILD + "/target-" + name
    fresh(tgt)
    t0 = time.time()
    try:
        p = subprocess.run(["cargo", "build", "--offline", "--target-dir", tgt] + (["--features", "consts"] if consts else []), cwd=d, env=env(), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "build timeout", time.time() - t0
    if p.returncode != 0:
        m = re.search(r"error\[E0080\].*?(?=\nerror|\Z)", p.stderr, re.S)  # a const of a declared table or type list failed to evaluate
        return None, ("E0080: " + m.group(0)[:3000]) if m else p.stderr[-4000:], time.time() - t0
    return "%s/debug/nat-%s" % (tgt, name), "", time.time() - t0

def check_neg(timeout=400):
    """applications that must be refused by the compiler (native/neg), next to some that must be accepted"""
    import json
    d = stage("native", "neg")
    tgt = BUILD + "/target-neg"
    fresh(tgt)
    t0 = time.time()
    cmd = ["cargo", "check", "--offline", "--lib", "--message-format=json", "--target-dir", tgt]
    r = dict(status="undecided", fails=[], covers={}, cases=0, reason="", cmd=" ".join(cmd) + " (native/neg)",
             bounds=["a fixed set of applications, each to be refused or accepted by the compiler"])
    try: p = subprocess.run(cmd, cwd=d, env=env(), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: r["reason"] = "build timeout"; return r
    cases = []       # (first line, must compile, name)
    for n, l in enumerate(open(d + "/src/lib.rs"), 1):
        m = re.match(r"// (OK|NEG): (.*)", l)
        if m: cases.append((n, m.group(1) == "OK", m.group(2).strip()))
    errs, other, built = {}, [], False
    for l in p.stdout.split("\n"):
        if not l.startswith("{"): continue
        j = json.loads(l)
        if j.get("reason") == "compiler-artifact" and j["target"]["name"].replace("-", "_") == "postcard_rpc": built = True
        m = j.get("message")
        if j.get("reason") != "compiler-message" or m["level"] != "error" or not m["spans"]: continue
        lines = []
        for s in m["spans"]:
            while s:
                if s["file_name"] == "src/lib.rs": lines.append(s["line_start"])
                s = (s.get("expansion") or {}).get("span")
        if (m.get("code") or {}).get("code") != "E0080" or not lines: other.append(m["message"]); continue
        for x in lines:
            c = [c for c in cases if c[0] <= x]
            if c: errs[c[-1][0]] = m["message"]
    r["cases"] = len(cases); r["wall_s"] = time.time() - t0
    if other or not built or (p.returncode != 0 and not errs):
        r["reason"] = "the sample applications could not be judged: " + ("; ".join(other) or p.stderr[-300:]); return r
    for n, ok, name in cases:
        if ok and n in errs: r["fails"].append("application refused by the compiler although its tables list everything it serves (%s): %s" % (name, errs[n]))
        if not ok and n not in errs: r["fails"].append("application accepted by the compiler although %s (native/neg/src/lib.rs:%d)" % (name, n))
    r["covers"] = dict(refused=len(errs)); r["status"] = "fail" if r["fails"] else "ok"
    return r

def run_native(binary, prop, seed, tier, timeout=500, extra=()):
    t0 = time.time()
    r = dict(status="undecided", fails=[], covers={}, bounds=[], cases=0, reason="", cmd="%s %s %d %s" % (binary, prop, seed, tier))
    try:
        p = subprocess.run(["timeout", "-k", "5", str(timeout), binary, prop, str(seed), tier] + list(extra), env=env(), capture_output=True, text=True, errors="replace", timeout=timeout + 20, cwd="/tmp")
    except subprocess.TimeoutExpired:
        r["reason"] = "native harness timed out"; r["wall_s"] = time.time() - t0; return r
    for line in p.stdout.split("\n"):
        if line.startswith("COVER "): k, v = line[6:].rsplit(" ", 1); r["covers"][k] = int(v)
        elif line.startswith("FAIL "): r["fails"].append(line[5:])
        elif line.startswith("BOUND "): r["bounds"].append(line[6:])
        elif line.startswith("CASES "): r["cases"] = int(line[6:])
    r["wall_s"] = time.time() - t0
    if r["fails"]: r["status"] = "fail"
    elif "DONE" in p.stdout and p.returncode == 0: r["status"] = "ok"
    elif p.returncode in (124, 137): r["status"] = "hang"; r["reason"] = "no result within %d s (the harness bounds its own steps)" % timeout
    else: r["status"] = "crash"; r["reason"] = "exit %d: %s" % (p.returncode, p.stderr[-800:])
    return r

def run_kani(name, harnesses, timeout=600, playback=False):
    d = stage("kani", name)
    tgt = BUILD + "/ktarget-" + name
    fresh(tgt)
    cmd = ["cargo", "kani", "--target-dir", tgt, "-j", "6", "--output-format", "terse"]
    for h in harnesses: cmd += ["--harness", h]
    if len(harnesses) == 1 and playback:
        cmd = ["cargo", "kani", "--target-dir", tgt, "--harness", harnesses[0], "--exact", "-Z", "concrete-playback", "--concrete-playback=print"]
    t0 = time.time()
    r = dict(status="undecided", reason="", harnesses=harnesses, checks=0, failed=[], covers=(0, 0), cmd=" ".join(cmd), out="")
    try:
        p = subprocess.run(["timeout", "-k", "5", str(timeout)] + cmd, cwd=d, env=env(), capture_output=True, text=True, errors="replace")
    except Exception as e:
        r["reason"] = str(e); return r
    o = p.stdout
    r["wall_s"] = time.time() - t0
    r["checks"] = sum(int(x) for x in re.findall(r"\*\* \d+ of (\d+) failed", o))
    cs = re.findall(r"\*\* (\d+) of (\d+) cover properties", o)
    r["covers"] = (sum(int(a) for a, _ in cs), sum(int(b) for _, b in cs))
    r["out"] = "\n".join(l for l in (o + p.stderr).split("\n") if not l.startswith("aborting path"))[-6000:]
    m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", o)
    r["failed"] = re.findall(r"Verification failed for - (\S+)", o)
    bad_cover = r["covers"][0] != r["covers"][1]
    if m and int(m.group(2)) == 0 and int(m.group(3)) == len(harnesses):
        r["status"] = "undecided" if bad_cover else "ok"
        if bad_cover: r["reason"] = "vacuous: a cover was not satisfied"
    elif "VERIFICATION:- FAILED" in o:
        # unwinding-assertion-only failures and unsupported constructs are not refutations
        fl = re.findall(r"Failed Checks: (.*)", o)
        real = [f for f in fl if "unwinding assertion" not in f and "is not currently supported" not in f]
        r["checks_failed"] = fl
        if real and not any("unwinding assertion" in f or "not currently supported" in f for f in fl): r["status"] = "fail"
        else: r["reason"] = "kani: " + "; ".join(fl[:3])
    else: r["reason"] = "kani did not finish: " + r["out"][-300:]
    return r

def expand_core():
    """/repo's crate after macro expansion by rustc itself (features of the core harness)"""
    d = stage("native", "core", "-x")
    tgt = BUILD + "/xtarget-core"
    fresh(tgt)
    p = subprocess.run(["cargo", "+nightly", "rustc", "--offline", "-p", "postcard-rpc", "--lib", "--profile", "check", "--target-dir", tgt, "--", "-Zunpretty=expanded"],
                       cwd=d, env=env(), capture_output=True, text=True, timeout=600)
    if p.returncode != 0 or "fn " not in p.stdout: raise RuntimeError("macro expansion failed: " + p.stderr[-600:])
    return p.stdout
