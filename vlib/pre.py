"""Source-level desugarings applied before extraction (line numbers are kept)."""
import re
from rustlex import lex
LOG = ("error", "warn", "info", "debug", "trace", "println", "eprintln")

def _nl(s): return "\n" * s.count("\n")

def logs(src):
    """logging macros write to a subscriber and return (): they become `()`"""
    toks, out, last = lex(src), [], 0
    q = 0
    while q < len(toks) - 3:
        if toks[q].k == "id" and toks[q].s in LOG and toks[q + 1].s == "!" and toks[q + 2].s == "(":
            a = q
            if q >= 2 and toks[q - 1].s == "::" and toks[q - 2].s in ("tracing", "log", "defmt"): a = q - 2
            elif q >= 3 and toks[q - 1].s == ":" and toks[q - 3].s in ("tracing", "log", "defmt"): a = q - 3
            e = toks[q + 2].m
            stmt = e + 1 < len(toks) and toks[e + 1].s == ";" and toks[a - 1].s in ("{", "}", ";")
            z = e + 1 if stmt else e
            out.append(src[last:toks[a].a] + ("" if stmt else "()") + _nl(src[toks[a].a:toks[z].b])); last = toks[z].b
            q = z
        q += 1
    return "".join(out) + src[last:]

def apply(src, names):
    if test_stmts in names: src = test_stmts(src)
    src = logs(src)
    for n in names: src = n(src)
    return src

# ---------------------------------------------------------------------
# host client: select!, futures held in variables, find/retain closures
# ---------------------------------------------------------------------
def _sub(src, a, b, t): return src[:a] + t + "\n" * max(0, src[a:b].count("\n") - t.count("\n")) + src[b:]

def _stmt_let(toks, name, before, lo):
    """last `let [mut] NAME = E;` before token index `before` -> (first, last token, first of E)"""
    for q in range(before, lo, -1):
        if toks[q].s == "let":
            n = q + 1 + (toks[q + 1].s == "mut")
            if toks[n].s == name and toks[n + 1].s == "=":
                e = n + 2
                while toks[e].s != ";": e = toks[e].m + 1 if toks[e].m is not None and toks[e].m > e else e + 1
                return q, e, n + 2
    return None

def _fn_start(toks, q):
    while q > 0 and not (toks[q].s == "fn" and toks[q + 1].k == "id"): q -= 1
    return q

def pins(src):
    """`pin!(X)` only fixes an address: it is dropped, and so is `.as_mut()` on what was pinned"""
    src = re.sub(r"std::pin::pin!\(\s*(\w+)\s*\)", r"vx_pinned(\1)", src)
    return re.sub(r"\.as_mut\(\)(\s*\.enqueue)", r"\1", src)

def async_blocks(src):
    """`async { A.await?; B.await?; E }.await` -> nested matches with the same early exits"""
    while True:
        toks = lex(src)
        hit = None
        for q in range(len(toks) - 3):
            if toks[q].s == "async" and toks[q + 1].s == "{" and [toks[toks[q + 1].m + 1].s, toks[toks[q + 1].m + 2].s] == [".", "await"]: hit = q; break
        if hit is None: return src
        a, z = hit + 1, toks[hit + 1].m
        parts, st, q = [], a + 1, a + 1
        while q < z:
            if toks[q].s == ";": parts.append((st, q)); st = q + 1
            q = toks[q].m + 1 if toks[q].m is not None and toks[q].m > q else q + 1
        tail = src[toks[st].a:toks[z - 1].b] if st < z else "()"
        out = tail
        for s, e in reversed(parts):
            if toks[e - 1].s != "?": return src
            out = "match %s { Err(__x) => Err(__x), Ok(_) => %s }" % (src[toks[s].a:toks[e - 2].b], out)
        src = _sub(src, toks[hit].a, toks[z + 2].b, out)

def selects(src):
    """`select! { P = F => B, .. }`: one branch's future completes, the others are dropped at some await.
    -> match vx_pick() { 0u8 => { vx_drop(F1); let P = F0.await; B } .. }, marked when one of them waits for the stop signal; a future held in a variable
    (`let f = call(..);`, which runs nothing) is written where it is polled"""
    while True:
        toks = lex(src)
        hit = next((q for q in range(len(toks) - 2) if toks[q].s == "select" and toks[q + 1].s == "!" and toks[q + 2].s == "{"), None)
        if hit is None: return src
        a, z = hit + 2, toks[hit + 2].m
        first = hit - 2 if toks[hit - 1].s == "::" else hit - 3 if toks[hit - 1].s == ":" else hit
        lo = _fn_start(toks, hit)
        q, br = a + 1, []
        if toks[q].s == "biased": q += 2
        while q < z:
            p = q
            while toks[q].s != "=": q = toks[q].m + 1 if toks[q].m is not None and toks[q].m > q else q + 1
            pat, f = src[toks[p].a:toks[q - 1].b], q + 1
            while toks[q].s != "=>": q = toks[q].m + 1 if toks[q].m is not None and toks[q].m > q else q + 1
            fut, b = (f, q), q + 1
            if toks[b].s == "{" : q = toks[b].m + 1; body = src[toks[b].a:toks[q - 1].b]
            else:
                q = b
                while q < z and toks[q].s != ",": q = toks[q].m + 1 if toks[q].m is not None and toks[q].m > q else q + 1
                body = src[toks[b].a:toks[q - 1].b]
            if q < z and toks[q].s == ",": q += 1
            br.append((pat, fut, body))
        kill, futs = [], []
        for pat, (f, e), body in br:
            t = src[toks[f].a:toks[e - 1].b]
            if e - f == 1:
                d = _stmt_let(toks, t, hit, lo)
                if d:
                    x = src[toks[d[2]].a:toks[d[1] - 1].b]
                    if "vx_pinned" in x: t = t + ".vx_wait()"
                    else: t = x; kill.append(d)
            futs.append(t)
        arms, stop = [], any(".wait_stopped(" in re.sub(r"\s", "", f) for f in futs)
        for i, (pat, _, body) in enumerate(br):
            lose = " ".join("vx_drop(%s);" % f for j, f in enumerate(futs) if j != i)
            arms.append("%s => { %s%s let %s = %s.await; %s%s }" % ("%du8" % i if i + 1 < len(br) else "_", "vx_race(); " if stop else "", lose, "_" if pat == "_" else pat, futs[i], "vx_raced(); " if stop else "", body))
        src = _sub(src, toks[first].a, toks[z].b, "match vx_pick() { " + " ".join(arms) + " }")
        for d in sorted(kill, reverse=True): src = _sub(src, toks[d[0]].a, toks[d[1]].b, "")

def _value(toks, src, lo, hi):
    """statements lo..hi of an async block as an expression of type Result<(), Cancelled>: an await that does not complete ends it"""
    st, q, parts = lo, lo, []
    while q < hi:
        if toks[q].s == ";": parts.append((st, q, True)); st = q + 1; q += 1; continue
        q = toks[q].m + 1 if toks[q].m is not None and toks[q].m > q else q + 1
    if st < hi: parts.append((st, hi, False))
    out = "Ok(())"
    for n, (a, z, semi) in reversed(list(enumerate(parts))):
        aw = [q for q in range(a, z - 1) if toks[q].s == "." and toks[q + 1].s == "await"]
        if not aw and (semi or n + 1 < len(parts)): out = "{ %s; %s }" % (src[toks[a].a:toks[z - 1].b], out); continue
        if aw == [z - 2]:
            if toks[a].s == "let" and toks[a + 1].s == "_" and toks[a + 2].s == "=": a += 3
            if toks[a].s == "_" and toks[a + 1].s == "=": a += 2
            out = "match %s { Err(__x) => Err(__x), Ok(_) => %s }" % (src[toks[a].a:toks[z - 3].b], out); continue
        if toks[a].s == "if" and n + 1 == len(parts):
            q, txt, seen = a, "", False
            while q < z:
                b = q
                while toks[b].s != "{": b = toks[b].m + 1 if toks[b].m is not None and toks[b].m > b else b + 1
                v = _value(toks, src, b + 1, toks[b].m)
                if v is None: return None
                txt += src[toks[q].a:toks[b].a] + "{ " + v + " } "; seen = toks[q].s == "else" and b == q + 1
                q = toks[b].m + 1
            out = txt if seen else txt + "else { Ok(()) }"; continue
        return None
    return out

def async_vals(src):
    """`let f = async { .. };` of unit value, polled in a select! below -> its value where it is polled (see selects)"""
    while True:
        toks, hit = lex(src), None
        for q in range(len(toks) - 6):
            if toks[q].s == "let" and toks[q + 2].s == "=" and toks[q + 3].s == "async":
                a = q + 4 + (toks[q + 4].s == "move")
                if toks[a].s == "{" and toks[toks[a].m + 1].s == ";":
                    v = _value(toks, src, a + 1, toks[a].m)
                    if v: hit = (q + 3, toks[a].m, v); break
        if not hit: return src
        src = _sub(src, toks[hit[0]].a, toks[hit[1]].b, "(%s)" % hit[2])

def _closure(toks, src, q):
    """`(|(K, _)| COND)` at token q -> (K, COND, index after)"""
    if [toks[q + i].s for i in (0, 1, 2, 4)] != ["(", "|", "(", ","]: return None
    e = toks[q + 2].m
    if toks[e + 1].s != "|": return None
    return toks[q + 3].s, src[toks[e + 2].a:toks[toks[q].m - 1].b], toks[q].m + 1

def _recv(toks, q):
    """start of the place expression that ends before token q (which is `.`)"""
    z = q - 1
    while toks[z - 1].s in (".", "::"): z -= 2
    return z

def _count(toks, src, q):
    """number of such loops before token q in its function"""
    return len(re.findall(r"let mut __[fr]\d+: usize", src[toks[_fn_start(toks, q)].a:toks[q].a]))

def finds(src):
    """`if let Some(P) = L.iter()[_mut]().find(|(k, _)| C) { A }` -> an index loop, then `if i < L.len() { let P = &L[i]; A }`;
    `L.retain(|(k, _)| C)` -> an index loop that removes"""
    while True:
        toks, done = lex(src), True
        for q in range(len(toks) - 8):
            if toks[q].s == "." and toks[q + 1].s == "retain":
                c = _closure(toks, src, q + 2)
                if not c: continue
                z = _recv(toks, q); L = src[toks[z].a:toks[q - 1].b]; L = re.sub(r"\s+", "", L); n = _count(toks, src, z)
                t = "{ let mut __r%d: usize = 0; while __r%d < %s.len() { let %s = &%s[__r%d].0; if %s { __r%d += 1; } else { let _ = %s.remove(__r%d); } } }" % (n, n, L, c[0], L, n, c[1], n, L, n)
                src = _sub(src, toks[z].a, toks[c[2] - 1].b, t); done = False; break
            if toks[q].s == "." and toks[q + 1].s == "find" and toks[q - 1].s == ")" and toks[q - 3].s in ("iter", "iter_mut"):
                c = _closure(toks, src, q + 2)
                if not c or toks[c[2]].s != "{": continue
                z = _recv(toks, q - 4); L = re.sub(r"\s+", "", src[toks[z].a:toks[q - 5].b]); n = _count(toks, src, z)
                s = z
                while not (toks[s].s == "if" and toks[s + 1].s == "let"): s -= 1
                if [toks[s + 2].s, toks[s + 3].s] != ["Some", "("]: continue
                pat = src[toks[s + 3].b:toks[toks[s + 3].m].a]
                amp = "&mut " if toks[q - 3].s == "iter_mut" else "&"
                t = "let mut __f%d: usize = 0; while __f%d < %s.len() { let %s = &%s[__f%d].0; if %s { break; } __f%d += 1; } if __f%d < %s.len() { let %s = %s%s[__f%d]; " % (n, n, L, c[0], L, n, c[1], n, n, L, pat, amp, L, n)
                e = c[2]
                # the whole if/else becomes a block expression
                w = toks[e].m
                while toks[w + 1].s == "else": w = toks[w + 2].m if toks[w + 2].s == "{" else w
                src = src[:toks[w].b] + " }" + src[toks[w].b:]
                src = _sub(src, toks[s].a, toks[e].b, "{ " + t); done = False; break
        if done: return src
def test_stmts(src):
    """statements under #[cfg(test)] are not compiled"""
    while True:
        toks = lex(src)
        hit = next((q for q in range(len(toks) - 8) if [t.s for t in toks[q:q + 7]] == ["#", "[", "cfg", "(", "test", ")", "]"] and toks[q - 1].s in ("{", "}", ";") and toks[q + 7].s not in ("mod", "fn", "pub", "impl", "use", "struct", "#")), None)
        if hit is None: return src
        e = hit + 7
        while toks[e].s != ";": e = toks[e].m + 1 if toks[e].m is not None and toks[e].m > e else e + 1
        src = _sub(src, toks[hit].a, toks[e].b, "")
def windows_stmts(src):
    """statements under #[cfg(target_os = "windows")] are not compiled here"""
    while True:
        toks = lex(src)
        hit = next((q for q in range(len(toks) - 10) if [t.s for t in toks[q:q + 9]] == ["#", "[", "cfg", "(", "target_os", "=", '"windows"', ")", "]"] and toks[q - 1].s in ("{", "}", ";") and toks[q + 9].s not in ("mod", "fn", "pub", "impl", "use", "struct", "#")), None)
        if hit is None: return src
        e = hit + 9
        while toks[e].s != ";": e = toks[e].m + 1 if toks[e].m is not None and toks[e].m > e else e + 1
        src = _sub(src, toks[hit].a, toks[e].b, "")
NUSB = [windows_stmts]
CHAN = [test_stmts, async_vals, selects]
CLIENT = [pins, async_blocks, selects, finds]
