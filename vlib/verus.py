"""Run Verus on a generated unit and classify the outcome per function."""
import json, os, re, subprocess, time, bisect
import extract


def fn_at(text):
    """[(line, fn path)] markers"""
    marks = []
    for n, line in enumerate(text.split("\n"), 1):
        m = re.search(r"/\*@fn (.*?)\*/", line)
        if m: marks.append((n, m.group(1))); continue
        m = re.match(r"\s*(?:pub |broadcast |open |closed |unsafe |const )*(?:proof |spec |exec )?fn (\w+)", line)
        if m: marks.append((n, "lemma " + m.group(1)))
    return marks

def lookup(marks, line):
    i = bisect.bisect_right([m[0] for m in marks], line) - 1
    return marks[i][1] if i >= 0 else "?"

def assumptions(text):
    out = []
    for n, line in enumerate(text.split("\n"), 1):
        l = line.split("//")[0]
        if re.search(r"assume_specification|external_body|\badmit\s*\(|\bassume\s*\(|uninterp spec|external_type_specification|verifier::external\b", l):
            out.append(re.sub(r"\s+", " ", line.strip())[:160])
    return out

def closures(body):
    """number of closures among the tokens of a body: the verifier knows nothing of what an unannotated closure returns"""
    starts = ("(", ",", "=", "=>", "return", "move", "{", ";", "")
    return sum(1 for p, t in zip([""] + body, body) if t in ("|", "||") and p in starts)

def kill(pr):
    try: os.killpg(pr.pid, 9)
    except OSError: pass

def run(name, unit, workdir, baseline, rlimit=60, timeout=600, seed=None, procs=None):
    t0 = time.time(); rlimit = unit.get("rlimit", rlimit)
    res = dict(unit=name, status="undecided", reason="", failed=[], fns=[], verified=0, errors=0, smt_ms=0,
               assumptions=[], missing=[], lost_loops=[], new_fns=[], breakdown=[], cmd="", out="")
    os.makedirs(workdir, exist_ok=True)
    try:
        g = extract.build_unit(unit)
    except Exception as e:
        res["reason"] = "extraction: %s: %s" % (type(e).__name__, e); res["wall_s"] = time.time() - t0
        return res
    text = g.out.text()
    path = os.path.join(workdir, name + ".rs")
    open(path, "w").write(text)
    res["file"] = path
    res["fns"] = [f for f, _ in g.fns]
    res["contracted"] = sorted(g.used)
    res["missing"] = g.missing
    res["lost_loops"] = [list(map(str, x)) for x in g.lost_loops]
    res["dropped"] = g.dropped
    res["assumptions"] = assumptions(text)
    base = set(baseline.get(name, []))
    new = [f for f in res["fns"] if base and f not in base]
    res["new_fns"] = new
    newnames = set(re.split(r"::", f)[-1] for f in new)
    # functions whose proof cannot be expected to go through: they call a function that has no contract yet, or their loops changed
    known = baseline.get("guarded:" + name, [])
    excused = set(p for p, _ in g.lost_loops) | set(f for f in g.guarded if g.guarded.count(f) != known.count(f))
    cls = baseline.get("closures:" + name, {})
    for f, body in g.bodies.items():
        if base and closures(body) > cls.get(f, 0): excused.add(f)
        if any(b in newnames for b in body): excused.add(f)
    shp = baseline.get("loops:" + name, {})
    for f, now in g.shapes.items():
        was = shp.get(f)
        if was and (len(was) != len(now) or any(w[0] != n[0] or (not w[1] and n[1]) for w, n in zip(was, now))):
            excused.add(f)      # a loop of another kind, or one that can now be left with `break`: the facts known after it differ
    # a loop with another condition, entered in a state its invariant does not describe, was rewritten (it counts down, say)
    rewritten = set(f for f, now in g.shapes.items() if f in shp and [w[2] for w in shp[f]] != [n[2] for n in now])
    excused |= set(new)
    res["excused"] = sorted(excused)
    cmd = ["verus", "--rlimit", str(rlimit), "--output-json", "--time-expanded", "--multiple-errors", "1",
           "--num-threads", "8", "--error-format=json"] + unit.get("flags", []) + [path]
    if seed: cmd += ["-V", "smt-option=smt.random_seed=%d" % seed] if False else []
    res["cmd"] = " ".join(cmd)
    pr = subprocess.Popen(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    if procs is not None: procs.append(pr)
    try:
        so, se = pr.communicate(timeout=timeout)
        p = subprocess.CompletedProcess(cmd, pr.returncode, so, se)
        if pr.returncode is not None and pr.returncode < 0: raise subprocess.TimeoutExpired(cmd, timeout)
    except subprocess.TimeoutExpired:
        kill(pr)
        res["reason"] = "verus stopped after %d s" % (time.time() - t0); res["wall_s"] = time.time() - t0
        return res
    diags = []
    for line in p.stderr.split("\n"):
        if line.startswith("{"):
            try: diags.append(json.loads(line))
            except ValueError: pass
    try: j = json.loads(p.stdout)
    except ValueError: j = {}
    vr = j.get("verification-results", {})
    res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            res["breakdown"].append((f["function"], f.get("mode:", f.get("mode")), round(f["time-micros"] / 1000.0, 2), f["success"]))
    res["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
    marks = fn_at(text)
    rendered = []
    unsupported = False
    for d in diags:
        if d.get("level") != "error" or d["message"].startswith("aborting"): continue
        rendered.append(d.get("rendered", d["message"]))
        msg = d["message"]
        fns = [lookup(marks, s["line_start"]) for s in sorted(d["spans"], key=lambda s: not s["is_primary"]) if s["file_name"].endswith(name + ".rs")]
        real = [f for f in fns if not f.startswith("lemma ")]
        fn = (real or fns or ["?"])[0]
        if fn in rewritten and msg == "invariant not satisfied before loop": res["excused"] = sorted(set(res["excused"]) | {fn})
        rl = "rlimit" in msg or "Resource limit" in msg
        res["failed"].append(dict(fn=fn, msg=msg, rlimit=rl, where=[(s["line_start"], (s["text"] or [{}])[0].get("text", "").strip()[:200]) for s in d["spans"]]))
        if d.get("code"): unsupported = True      # a rustc error, not a failed obligation
    res["out"] = "\n".join(rendered)[-12000:]
    res["wall_s"] = time.time() - t0
    if not vr or vr.get("encountered-vir-error") or unsupported or (vr.get("encountered-error") and res["errors"] == 0 and res["verified"] == 0):
        res["status"] = "undecided"
        res["reason"] = "verifier front end rejected the extracted text: " + (res["failed"][0]["msg"] if res["failed"] else p.stderr[-300:])
        res["failed"] = []
        return res
    if res["errors"] == 0 and vr.get("success") and res["verified"] > 0:
        res["status"] = "ok"
    elif res["errors"]:
        res["status"] = "failed"
    else:
        res["reason"] = "no obligations"
    return res
