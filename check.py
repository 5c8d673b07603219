#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]  -- decide one property on /repo's current tree.

1. Verus: extract the functions of /repo the property depends on, splice the
   contracts of contracts/*.rs, and discharge every obligation.
2. Native: compile /repo's crate and look for a failing input (counterexample
   search; also the labelled bounded stand-in where Verus cannot decide).
3. Kani (where a complete harness exists): thorough tier, or when 1. cannot decide.
"""
import json, os, re, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/vlib")
import run, units, verus, props
from concurrent.futures import ThreadPoolExecutor

def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[prop]
    t0 = time.time()
    base = json.load(open(V + "/contracts/baseline.json")) if os.path.exists(V + "/contracts/baseline.json") else {}
    ex = ThreadPoolExecutor(8); procs = []
    vjobs = [(u, owns, ex.submit(verus.run, u, units.UNITS[u], run.BUILD + "/verus-" + prop, base, units.UNITS[u].get("rlimit", 60), 560, None, procs)) for u, owns in P.get("verus", [])]
    njobs = [(n, ex.submit(run.build_native, n, 700, P.get("consts", False))) for n in P.get("native", [])]
    neg = ex.submit(run.check_neg) if P.get("neg") else None
    natives = []
    for n, j in njobs:
        b, err, bt = j.result()
        if b is None and err.startswith("E0080") and P.get("consts"):
            # the harness only declares valid tables and type lists: evaluating one of them failed in the real code
            natives.append((n, None, dict(status="fail", reason="", fails=["evaluating a declared table or type list at compile time failed: " + " ".join(err.split())[:900]], covers={}, cases=1, bounds=[], cmd="cargo build --offline --features consts (native/%s)" % n)))
        elif b is None:
            natives.append((n, None, dict(status="undecided", reason="harness did not build: " + err[-1500:], fails=[], covers={}, cases=0, bounds=[], cmd="")))
        else:
            natives.append((n, b, run.run_native(b, prop, seed, tier)))
    if neg: natives.append(("neg", None, neg.result()))
    # a failing input is already a verdict: give the verifier a little longer (failed proofs take it long), then stop it
    if any(r["status"] == "fail" for _, _, r in natives):
        end = time.time() + 90
        while time.time() < end and not all(j.done() for _, _, j in vjobs): time.sleep(0.2)
        for pr in procs:
            if pr.poll() is None: verus.kill(pr)
    vs = [(u, owns, j.result()) for u, owns, j in vjobs]

    # ---- deductive layer: which owned obligations failed, which could not be decided
    failed, undecided, excused = [], [], []
    for u, owns, r in vs:
        own = lambda f: any(re.fullmatch(o, f) for o in owns)
        if r["status"] == "undecided":
            undecided.append("%s: %s" % (u, r["reason"])); continue
        for m in r["missing"]:
            if own(m): undecided.append("%s: contracted function %s not found" % (u, m))
        for f in r["failed"]:
            if not own(f["fn"]): continue
            if f["rlimit"]: undecided.append("%s: %s: solver resource limit" % (u, f["fn"]))
            elif f["fn"] in r["excused"]: undecided.append("%s: %s: %s (new loop shape, closure or uncontracted callee)" % (u, f["fn"], f["msg"]))
            elif f["fn"].startswith("lemma "): undecided.append("%s: %s: %s" % (u, f["fn"], f["msg"]))
            else: failed.append((u, f))
        if not any(own(f) for f in r.get("contracted", []) + ["lemma " + x for x in []]):
            undecided.append("%s: no contracted function left" % u)
    # a rejected front end hides everything in that unit: retry is pointless, the stand-ins decide
    nat_fail = [(n, b, r) for n, b, r in natives if r["status"] == "fail"]
    nat_hang = [(n, b, r) for n, b, r in natives if r["status"] in ("hang", "crash")]

    # ---- look harder for a failing input before reporting a bare failed obligation
    if failed and not nat_fail:
        for n, b, r in natives:
            if b is None: continue
            for s in range(2, 5):
                if time.time() - t0 > 640: break
                r2 = run.run_native(b, prop, seed * 1000 + s, "thorough", timeout=120)
                if r2["status"] == "fail": nat_fail.append((n, b, r2)); break
    kani = None
    if "kani" in P and (tier == "thorough" or failed or undecided) and not nat_fail and (tier == "thorough" or time.time() - t0 < 250):
        kn, hs, complete = P["kani"]
        kani = run.run_kani(kn, hs)
        kani["complete"] = complete
        if kani["status"] == "fail":
            pb = run.run_kani(kn, [kani["failed"][0]], playback=True) if kani["failed"] else None
            kani["playback"] = pb["out"][-4000:] if pb else ""

    # ---- verdict
    violation = None
    if nat_fail:
        n, b, r = nat_fail[0]
        violation = dict(kind="failing input on the compiled code", input=r["fails"], command=r["cmd"], obligations=[f for _, f in failed])
    elif kani and kani["status"] == "fail":
        violation = dict(kind="counterexample of a symbolic harness on the compiled code", harness=kani["failed"], checks=kani.get("checks_failed"), playback=kani.get("playback"), command=kani["cmd"], output=kani["out"])
    elif nat_hang:
        n, b, r = nat_hang[0]
        violation = dict(kind="the compiled code did not finish / aborted under the harness", input=[r["reason"]], command=r["cmd"])
    elif failed and not (kani and kani["status"] == "ok" and kani["complete"]):
        violation = dict(kind="failed obligation", nfif=True, obligations=[dict(unit=u, **f) for u, f in failed],
                         verifier_output=[r["out"] for _, _, r in vs if r["status"] == "failed"], command=[r["cmd"] for _, _, r in vs])
    # ---- known findings
    known = []
    kf = V + "/known_findings.json"
    if os.path.exists(kf):
        for k in json.load(open(kf)).get("findings", []):
            if k["property"] == prop: known.append(k)

    # ---- evidence
    nob = sum(r["verified"] + r["errors"] for _, _, r in vs)
    decided_by_proof = bool(vs) and not failed and not undecided
    if kani and kani["status"] == "ok" and kani["complete"] and (failed or undecided): decided_by_proof = True
    level = "proof" if (P["level"] == "proof" and (decided_by_proof or violation)) else "other"
    own_fns, smt = [], 0.0
    for u, owns, r in vs:
        own_fns += ["%s::%s" % (u, f) for f in r.get("contracted", []) if any(re.fullmatch(o, f) for o in owns)]
        smt += r["smt_ms"] / 1000.0
    per_fn = {}
    for u, owns, r in vs:
        for f, mode, ms, ok in r["breakdown"]:
            if mode in ("exec", "proof"): per_fn[f] = dict(mode=mode, solver_ms=ms, discharged=ok)
    cov = dict(obligations=nob, discharged=sum(r["verified"] for _, _, r in vs),
               checker_cmd="; ".join(r["cmd"] for _, _, r in vs) or "none",
               trusted_base=["Verus 0.2026.09.13 and Z3", "the mechanical extractor vlib/extract.py"] + P.get("trusted", []),
               functions_under_contract=own_fns, solver_s=round(smt, 2), solver="Z3 (bundled with Verus)", per_function=per_fn,
               extraction=[dict(unit=u, files=[f if isinstance(f, str) else f["path"] + (" (macro expansion by rustc)" if f.get("expand") else "") + (" (selected items)" if f.get("select") else "") for f in units.UNITS[u].get("files", [])], status=r["status"], dropped=r.get("dropped", [])[:40], rewrites=[list(map(str, x)) for x in units.UNITS[u].get("rewrite", [])],
                                new_functions=r.get("new_fns", []), lost_loops=r.get("lost_loops", [])) for u, _, r in vs],
               undecided_by_verifier=undecided,
               bounded_native=[dict(harness=n, status=r["status"], cases=r["cases"], covers=r["covers"], bound=r["bounds"], command=r["cmd"], note="bounded: not counted as proved", reason=r.get("reason", "")[-600:]) for n, b, r in natives])
    if kani: cov["kani"] = dict(status=kani["status"], harnesses=kani["harnesses"], checks=kani["checks"], covers="%d of %d" % tuple(kani["covers"]), complete=kani["complete"], reason=kani["reason"][-400:], note=("full domain, no input-dependent loop" if kani["complete"] else "bounded"))
    if level == "other":
        cov["explanation"] = P.get("explanation", "") + (" This run could not be decided by the deductive verifier (%s); the bounded native search%s stands in." % ("; ".join(undecided)[:600], " and the Kani harness" if kani else "") if undecided else "")
    assum = list(P.get("assumptions", []))
    for _, _, r in vs: assum += ["unchecked in Verus: " + a for a in r["assumptions"]]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=sorted(set(assum)), wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    # ---- report
    for u, _, r in vs: print("verus %s: %s, %d verified, %d errors, solver %.1f s %s" % (u, r["status"], r["verified"], r["errors"], r["smt_ms"] / 1000.0, r["reason"][:200]))
    for n, b, r in natives: print("native %s: %s, %d cases (bounded) %s" % (n, r["status"], r["cases"], r.get("reason", "")[-300:].replace("\n", " ")))
    if kani: print("kani %s: %s, %d checks %s" % (kani["harnesses"], kani["status"], kani["checks"], kani["reason"][:200]))
    for u in undecided: print("undecided: " + u[:300])
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violation:
        rp = V + "/evidence/replay/%s.json" % prop
        json.dump(dict(property=prop, **violation), open(rp, "w"), indent=1)
        for x in (violation.get("input") or [])[:3]: print("  failing: " + x[:400])
        for o in (violation.get("obligations") or [])[:4]: print("  obligation: %s: %s" % (o["fn"], o["msg"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, " no-failing-input-found" if violation.get("nfif") else ""))
        sys.stdout.flush(); os._exit(1)
    print("OK property=%s (%s, %.1f s)" % (prop, "proof" if level == "proof" else "bounded/partial", time.time() - t0))
    sys.stdout.flush(); os._exit(0)

main()
