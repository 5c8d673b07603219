"""Mechanical extraction of real source text into a Verus file.

build_unit(unit) -> Generated(text, linemap, missing, fns)

What the extraction does to the source text (and nothing else):
  * copies the selected items of the source file(s) verbatim, in order;
  * drops comments, attributes on items (keeping `derive(...)` filtered to
    Clone/Copy/PartialEq/Eq), `pub`/`pub(..)`, and (if the unit says so)
    `const` in front of `fn`, `async` and `.await`, `unsafe { .. }` braces stay;
  * names the return value, and splices the contract, loop invariants and
    proof hints written in the unit's contract file;
  * applies the unit's literal rewrite rules (each is reported in the evidence).
"""
import pre
import re, os
from rustlex import RustFile, lex, items, loops, Item, LexError

REPO = os.environ.get("VERIF_REPO", "/repo")
CRATE = REPO + "/source/postcard-rpc"

class Missing(Exception):
    pass

class Contract:
    def __init__(self, name):
        self.name, self.ret, self.spec, self.loops, self.hints, self.attrs = name, None, "", {}, {}, ""

def parse_contracts(path):
    """Contract file -> (preamble text, {fn path: Contract})."""
    pre, cs, cur, slot, buf = [], {}, None, None, []
    def flush():
        nonlocal buf
        text = "".join(buf)
        if cur is None: pre.append(text)
        elif slot == "spec": cur.spec += text
        elif slot == "attr": cur.attrs += text
        elif slot[0] == "loop": cur.loops[slot[1]] = cur.loops.get(slot[1], "") + text
        elif slot[0] == "hint": cur.hints[slot[1:]] = cur.hints.get(slot[1:], "") + text
        buf = []
    for line in open(path, encoding="utf-8"):
        m = re.match(r"\s*//@\s*(\w+)\s*(.*)$", line)
        if not m:
            buf.append(line); continue
        flush()
        d, arg = m.group(1), m.group(2).strip()
        if d == "fn":
            name, _, rest = arg.partition(" ret ")
            cur = cs.setdefault(name.strip(), Contract(name.strip())); slot = "spec"
            if rest: cur.ret = rest.strip()
        elif d == "attr": slot = "attr"
        elif d == "loop": slot = ("loop", int(arg))
        elif d == "hint":
            m2 = re.match(r"(before|after)\s+/(.*)/(?:\s+(\d+))?$", arg)
            if m2: slot = ("hint", m2.group(1), "/" + m2.group(2), int(m2.group(3) or 0))
            else:
                p = arg.split()
                slot = ("hint",) + tuple(int(x) if x.isdigit() else x for x in p)
        elif d == "text": cur, slot = None, None
        else: raise ValueError("bad directive " + line)
    flush()
    return "".join(pre), cs

class Out:
    def __init__(self): self.parts, self.line, self.map = [], 1, []
    def add(self, s, org=None):
        if not s: return
        if org: self.map.append((self.line, org))
        self.parts.append(s); self.line += s.count("\n")
    def text(self): return "".join(self.parts)

def strip_comments(src, a, b, toks, lo, hi):
    """source text between tokens lo..hi without comments, newlines kept."""
    out, prev = [], None
    for t in toks[lo:hi]:
        if prev is not None:
            gap = src[prev:t.a]
            nl = gap.count("\n")
            out.append("\n" * nl if nl else (" " if gap else ""))
            if nl:
                out.append(" " * (t.a - src.rfind("\n", 0, t.a) - 1))
        out.append(src[t.a:t.b]); prev = t.b
    return "".join(out)

def desugar_array_let(text):
    """`let [a, b] = E;` -> `let __arrN = E; let a = __arrN[0]; let b = __arrN[1];` (exact desugaring)"""
    n = [0]
    def f(m):
        names = [x.strip() for x in m.group(1).split(",") if x.strip()]
        n[0] += 1
        v = "__arr%d" % n[0]
        return "let %s = %s; " % (v, m.group(2)) + " ".join("let %s = %s[%d];" % (x, v, i) for i, x in enumerate(names) if x != "_")
    return re.sub(r"let\s*\[((?:\s*\w+\s*,?)+)\]\s*=\s*([^;]+);", f, text)

def _find_guards(toks):
    out = []
    for q, t in enumerate(toks):
        if t.s != "if" or q == 0: continue
        p = toks[q - 1]
        if not (p.k in ("id", "num", "str") and p.s not in ("else", "return", "in", "match", "implies") or p.s in (")", "]")): continue
        e = q + 1
        while e < len(toks) and toks[e].s not in ("=>", "{", ";", "}"):
            e = toks[e].m + 1 if toks[e].m is not None and toks[e].m > e else e + 1
        if e < len(toks) and toks[e].s == "=>": out.append((q, e))
    return out

def _arm(toks, st):
    """arm starting at token st -> (pattern range, has guard, body range, index after the arm)"""
    e, g = st, None
    while toks[e].s != "=>":
        if toks[e].s == "if" and g is None: g = e
        e = toks[e].m + 1 if toks[e].m is not None and toks[e].m > e else e + 1
    b = e + 1
    if toks[b].s == "{":
        z = toks[b].m + 1
        nxt = z + 1 if toks[z].s == "," else z
        if toks[z].s in (",", "}") or toks[z].k in ("id", "num", "p"): return (st, g or e), (g, e), (b, z), nxt
    z = b
    while toks[z].s not in (",", "}"):
        z = toks[z].m + 1 if toks[z].m is not None and toks[z].m > z else z + 1
    return (st, g or e), (g, e), (b, z), z + 1 if toks[z].s == "," else z

def desugar_guards(text):
    """`P if G => A, P => B` -> `P => if G { A } else { B }` and `C(7) if G => A, C(_) => B` -> `C(n) => if n == 7 && G { A } else { B }` (exact);
    Verus loses the end of &mut borrows across guarded arms"""
    for n in range(40):
        toks = lex(text)
        for q, arrow in _find_guards(toks):
            st = q
            while toks[st - 1].s not in (",", "{", "}"): st = toks[st - 1].m if toks[st - 1].m is not None and toks[st - 1].m < st - 1 else st - 1
            P, g, A, nx = _arm(toks, st)
            if toks[nx].s == "}": continue
            Q, g2, B, nx2 = _arm(toks, nx)
            if g2[0] is not None: continue
            tx = lambda r: text[toks[r[0]].a:toks[r[1] - 1].b]
            ps, qs = re.sub(r"\s", "", tx(P)), re.sub(r"\s", "", tx(Q))
            m1, m2 = re.fullmatch(r"([\w:]+)\((\d+)\)", ps), re.fullmatch(r"([\w:]+)\(_\)", qs)
            if ps == qs and "(" not in ps: pat, cond = tx(P), tx((q + 1, arrow))
            elif m1 and m2 and m1.group(1) == m2.group(1): pat, cond = "%s(__g%d)" % (m1.group(1), n), "__g%d == %s && (%s)" % (n, m1.group(2), tx((q + 1, arrow)))
            elif (m3 := re.fullmatch(r"([\w:]+)\(_\)", ps)) and (m4 := re.fullmatch(r"([\w:]+)\((\w+)\)", qs)) and m3.group(1) == m4.group(1) and not re.search(r"\b%s\b" % m4.group(2), tx((q + 1, arrow)) + tx(A)): pat, cond = tx(Q), tx((q + 1, arrow))
            else: continue
            new = "%s => if %s { %s } else { %s }," % (pat, cond, tx(A), tx(B))
            text = text[:toks[st].a] + new + "\n" * text[toks[st].a:toks[nx2 - 1].b].count("\n") + text[toks[nx2 - 1].b:]
            break
        else: return text
    return text

DERIVES = ("Clone", "Copy", "PartialEq", "Eq")

class Gen:
    def __init__(self, unit):
        self.u = unit
        self.pre, self.cs = "", {}; self.code, self.std = [], []
        cf = unit["contracts"]
        for c in ([cf] if isinstance(cf, str) else cf):
            p, cs = parse_contracts(c)
            self.pre += p; self.cs.update((k, v) for k, v in cs.items() if not any(re.fullmatch(q, k) for q in unit.get("skip_contracts", ())))
        self.src_opts, self.aside, self.guarded = {}, [], []
        self.used, self.missing, self.fns, self.lost_loops, self.shapes = set(), [], [], [], {}
        self.dropped, self.bodies = [], {}
        self.out = Out()

    # ---- token-level copy with edits
    def copy(self, src, toks, lo, hi, edits):
        """copy tokens [lo,hi); edits: {token index: (before_text, skip_count or None)}"""
        pieces, i, prev = [], lo, None
        while i < hi:
            t = toks[i]
            before, skip = edits.get(i, ("", 0))
            gap = ""
            if prev is not None:
                g = src[prev:t.a]
                nl = g.count("\n")
                if nl: gap = "\n" * nl + " " * (t.a - src.rfind("\n", 0, t.a) - 1)
                elif g: gap = " "
            if skip:
                prev = toks[i + skip - 1].b if i + skip - 1 < hi else toks[hi - 1].b
                pieces.append(gap + before)
                i += skip; continue
            pieces.append(gap + before + src[t.a:t.b])
            prev = t.b
            i += 1
        return "".join(pieces)

    def hoist(self, f, it, path, edits):
        """nested `fn` items of a body become module-level functions (same text, same name)"""
        if it.body is None: return
        toks, lo, hi = it.toks, it.body + 1, it.toks[it.body].m
        i = lo
        while i < hi:
            if toks[i].s == "fn" and toks[i + 1].k == "id" and toks[i - 1].s in ("const", "{", "}", ";", "async", "unsafe"):
                j = i
                while toks[j - 1].s in ("const", "async", "unsafe"): j -= 1
                k = i
                while toks[k].s != "{":
                    k = toks[k].m + 1 if toks[k].m is not None and toks[k].m > k else k + 1
                end = toks[k].m + 1
                sub = Item("fn", toks[i + 1].s, j, j, end, k, toks, it.src)
                edits[j] = ("", end - j)
                self.emit(f, sub, path)
                i = end; continue
            i += 1

    def fn_edits(self, it, path, edits, trait_sig=False):
        toks, src = it.toks, it.src
        c = self.cs.get(path)
        # drop modifiers up to `fn`
        i = it.attr_hi
        is_async = False
        while toks[i].s != "fn":
            if toks[i].s == "pub":
                n = 1
                if toks[i + 1].s == "(": n = toks[i + 1].m - i + 1
                edits[i] = ("", n); i += n; continue
            if toks[i].s == "const" and self.u.get("drop_const", True): edits[i] = ("", 1)
            if toks[i].s == "async": edits[i] = ("", 1); is_async = True
            i += 1
        fn_i = i
        self.fns.append((path, it.line()))
        b0, s0 = edits.get(fn_i, ("", 0))
        edits[fn_i] = ("/*@fn %s*/ " % path + b0, s0)
        # find params
        k = fn_i + 2
        if toks[k].s == "<":
            d = 0
            while True:
                s = toks[k].s
                if s == "<": d += 1
                elif s == ">": d -= 1
                elif s == ">>": d -= 2
                elif s == "->": pass
                k += 1
                if d <= 0: break
        params = k
        k = toks[params].m + 1
        th = self.u.get("thread", {})
        if toks[fn_i + 1].s in th:       # ghost parameter (erased by the compiler)
            cl = toks[params].m
            lead = "" if toks[cl - 1].s in (",", "(") else ", "
            b, sk = edits.get(cl, ("", 0))
            edits[cl] = (b + lead + th[toks[fn_i + 1].s][0], sk)
        end = it.body if it.body is not None else it.hi - 1
        where = None
        q = k
        while q < end:
            if toks[q].s == "where": where = q; break
            if toks[q].m is not None and toks[q].m > q: q = toks[q].m + 1
            else: q += 1
        cancel = is_async and self.u.get("cancel")
        w0, w1 = ("Result<", ", Cancelled>") if cancel else ("", "")
        ret = c.ret if c is not None and c.ret else None
        if toks[k].s == "->" and (ret or cancel):
            r1 = (where if where is not None else end)
            edits[k + 1] = (("(%s: " % ret if ret else "") + w0, 0)
            b, s = edits.get(r1, ("", 0))
            edits[r1] = (w1 + (") " if ret else " ") + b, s)
        elif (ret or cancel) and toks[k].s != "->":
            b, s = edits.get(k, ("", 0))
            edits[k] = ("-> " + ("(%s: " % ret if ret else "") + w0 + "()" + w1 + (") " if ret else " ") + b, s)
        if c is not None:
            self.used.add(path)
            spec = c.spec.strip("\n")
            if spec:
                b, s = edits.get(end, ("", 0))
                edits[end] = (b + "\n" + spec + "\n", s)
            if c.attrs.strip():
                b, s = edits.get(it.attr_hi, ("", 0))
                edits[it.attr_hi] = (c.attrs.strip() + "\n" + b, s)
        if it.body is None: return
        lo, hi = it.body + 1, toks[it.body].m
        gone = []
        if cancel:
            # `let NAME = async { B };` becomes a function with the parameters of the enclosing one
            for q in range(lo, hi):
                if toks[q].s == "let" and toks[q + 2].s == "=" and toks[q + 3].s == "async":
                    a = q + 4 + (toks[q + 4].s == "move")
                    if toks[a].s != "{" or toks[toks[a].m + 1].s != ";": continue
                    gone.append((q, toks[a].m + 2, a, toks[q + 1].s))
        self.body_edits(it, path, lo, hi, c, edits, cancel, gone)
        for q, e, a, nm in gone:
            edits[q] = ("", e - q)
            for z in range(q + 1, e): edits.pop(z, None)
            sub = path + "::" + nm
            self.fns.append((sub, it.line()))
            c2, e2 = self.cs.get(sub), {}
            if c2 is not None: self.used.add(sub)
            self.body_edits(it, sub, a + 1, toks[a].m, c2, e2, True, [])
            h = "fn " + nm + self.copy(src, toks, fn_i + 2, k, {}) + " -> (%s: Result<%s, Cancelled>) " % ((c2.ret if c2 and c2.ret else "r"), self.copy(src, toks, k + 1, where or end, {}) if toks[k].s == "->" else "()")
            h += (self.copy(src, toks, where, end, {}) if where else "") + "\n" + (c2.spec if c2 else "")
            gen = [toks[z].s for z in range(fn_i + 3, params) if toks[z].k == "id" and toks[z - 1].s in ("<", ",") and toks[z].s != "const"] if toks[fn_i + 2].s == "<" else []
            names, z = [], params + 1
            while z < toks[params].m:
                if toks[z].k == "id" and toks[z + 1].s == ":" : names.append(toks[z].s)
                while z < toks[params].m and toks[z].s != ",":
                    z = toks[z].m + 1 if toks[z].m is not None and toks[z].m > z else z + 1
                z += 1
            for z in range(lo, hi):
                if toks[z].s == nm and not any(x <= z < y for x, y, _, _ in gone) and z not in edits:
                    edits[z] = ("%s%s(%s)" % (nm, "::<%s>" % ", ".join(gen) if gen else "", ", ".join(names)), 1)
            self.aside.append("/*@fn %s*/ " % sub + h + "{" + self.copy(src, toks, a + 1, toks[a].m + 1, e2))

    def body_edits(self, it, path, lo, hi, c, edits, cancel, gone):
        toks, src = it.toks, it.src
        inside = lambda q: any(x <= q < y for x, y, _, _ in gone)
        # async / await inside the body
        for q in range(lo, hi):
            if toks[q].s == "." and toks[q + 1].s == "await": edits[q] = ("?" if cancel else "", 2)
            elif toks[q].s == "const" and toks[q + 1].s == "fn" and self.u.get("drop_const", True) and q not in edits: edits[q] = ("", 1)
        # `use` statements inside a body: names are global in the generated file
        q = lo
        while q < hi:
            if toks[q].s == "use" and toks[q - 1].s in ("{", "}", ";", "]") and q not in edits:
                e = q
                while toks[e].s != ";": e += 1
                edits[q] = ("", e - q + 1); q = e
            q += 1
        self.thread_calls(toks, lo, hi, edits)
        self.bodies[path] = [toks[q].s for q in range(lo, hi)]
        lps = [l for l in loops(toks, lo, hi) if not inside(l[0])]
        self.shapes[path] = [[toks[k].s + (" let" if toks[k + 1].s == "let" else ""), sum(toks[z].s == "break" for z in range(b, toks[b].m)), " ".join(toks[z].s for z in range(k, b))] for k, b in lps]
        for kwi, bi in list(lps):      # `for b in S.iter_mut() { *b = V; }` -> vx_fill(S, V) (a verified loop of the preamble)
            tx = [toks[z].s for z in range(kwi, toks[bi].m + 1)]
            b = toks[kwi + 1].s
            if tx[0] == "for" and tx[2] == "in" and [toks[z].s for z in range(bi - 4, bi)] == [".", "iter_mut", "(", ")"] and tx[bi - kwi + 1:bi - kwi + 4] == ["*", b, "="] and tx[-2] == ";" and tx.count(";") == 1:
                edits[kwi] = ("vx_fill(%s, %s);" % (self.copy(src, toks, kwi + 3, bi - 4, {}), self.copy(src, toks, bi + 4, toks[bi].m - 1, {})), toks[bi].m + 1 - kwi)
                lps.remove((kwi, bi))
        for n, (kwi, bi) in enumerate(lps):
            if toks[kwi].s == "for" and self.u.get("for_slices") and not any(toks[z].s in ("..", "..=") for z in range(kwi, bi)):
                # `for PAT in E { B }` over a slice -> indexed while loop (exact desugaring for slices)
                inn = next(z for z in range(kwi, bi) if toks[z].s == "in")
                pat, ex = self.copy(src, toks, kwi + 1, inn, {}), self.copy(src, toks, inn + 1, bi, {})
                flt = re.search(r"\.\s*filter\s*\(\s*\|\s*(\w+)\s*\|(.*)\)\s*$", ex, re.S)      # `.filter(|x| C)`: skip the items for which C is false
                if flt: ex = ex[:flt.start()]
                ex = re.sub(r"\.\s*iter\s*\(\s*\)\s*$", "", ex)
                edits[kwi] = (edits.get(kwi, ("", 0))[0] + "let mut __i%d: usize = 0; let __s%d = %s; while __i%d < __s%d.len() " % (n, n, ex, n, n), bi - kwi)
                b, sk = edits.get(bi + 1, ("", 0))
                if ex.strip() in self.u.get("for_vecs", ()):      # by value
                    edits[bi + 1] = (" let %s = vx_item(&__s%d, __i%d); __i%d += 1; " % (pat, n, n, n) + b, sk); continue
                ref = "" if re.search(r"\.\s*chunks\s*\(", ex) else "&"
                edits[bi + 1] = (" let %s = %s__s%d[__i%d]; __i%d += 1; %s" % (pat, ref, n, n, n, "if !({ let %s = &%s; %s }) { continue; } " % (flt.group(1), pat, flt.group(2).strip().rstrip(",")) if flt else "") + b, sk)
            elif toks[kwi].s == "for" and toks[kwi + 1].s == "_" and toks[kwi + 2].s == "in" and any(toks[z].s in ("..", "..=") for z in range(kwi, bi)): edits[kwi + 1] = ("__k%d" % n, 1)
        if cancel: self.cancel_edits(toks, src, lo, hi, edits, inside)
        if c is None: return
        def put(ix, text):
            b, s = edits.get(ix, ("", 0))
            edits[ix] = ("\n" + text.strip("\n") + "\n" + b if text.strip() else b, s)
        def put_after(ix, text):   # after token ix => before token ix+1
            put(ix + 1, text)
        for n, text in c.loops.items():
            if n >= len(lps):
                self.lost_loops.append((path, n)); continue
            put(lps[n][1], text)
        for key, text in c.hints.items():
            if key == ("start",): put(lo, text)
            elif key == ("end",): put(hi, text)
            elif key[0] in ("before", "after"):
                # anchored on source text; a lost anchor only loses the hint
                hits = [q for q in range(lo, hi) if re.match(key[1][1:], src[toks[q].a:toks[hi].a])]
                if len(hits) <= key[2]:
                    self.lost_loops.append((path, "hint " + key[1])); continue
                q = hits[key[2]]
                if key[0] == "before": put(q, text)
                else:
                    while q < hi and toks[q].s != ";":
                        q = toks[q].m + 1 if toks[q].m is not None and toks[q].m > q else q + 1
                    put(q + 1, text)
            elif key[0] == "loop":
                n = key[1]
                if n >= len(lps):
                    self.lost_loops.append((path, n)); continue
                kwi, bi = lps[n]
                if key[2] == "start": put(bi + 1, text)
                elif key[2] == "end": put(toks[bi].m, text)
                elif key[2] == "after": put(toks[bi].m + 1, text)
                elif key[2] == "before":
                    p = kwi
                    if toks[p - 1].s == ":" and toks[p - 2].k == "life": p -= 2
                    put(p, text)
            else: raise ValueError("bad hint %r" % (key,))
        if len(lps) != len(c.loops) and not self.u.get("loops_free"):
            # a loop appeared or disappeared: invariants may be attached to the wrong loop
            self.lost_loops.append((path, "count %d, contract has %d" % (len(lps), len(c.loops))))

    def cancel_edits(self, toks, src, lo, hi, edits, inside):
        """an async body as a function that may stop at any await: awaits become `?` on Result<_, Cancelled>,
        its own returns, `?` and value are wrapped in Ok"""
        def pre(ix, t):
            b, s = edits.get(ix, ("", 0)); edits[ix] = (t + b, s)
        def post(ix, t):
            b, s = edits.get(ix, ("", 0)); edits[ix] = (b + t, s)
        z = lo - 1
        while z > 0 and toks[z].s not in ("->", "fn"): z -= 1
        opt = toks[z].s == "->" and toks[z + 1].s == "Option"
        for q in range(lo, hi):
            if inside(q): continue
            if toks[q].s == "return":
                e = q + 1
                while e < hi and toks[e].s not in (";", ",", "}", ")", "]"):
                    e = toks[e].m + 1 if toks[e].m is not None and toks[e].m > e else e + 1
                if e == q + 1: post(e, " Ok(())")
                else: post(q + 1, " Ok("); pre(e, ")")
            elif toks[q].s == "?":
                z = q - 1
                while True:
                    if toks[z].s in (")", "]", "}"): z = toks[z].m
                    if toks[z - 1].s in ("=", "{", ";", "(", ",", "return", "&", "}", "=>") : break
                    z -= 1
                pre(z, "(match "); edits[q] = (" { Some(__v) => __v, None => return Ok(None) })", 1) if opt else (" { Ok(__v) => __v, Err(__e) => return Ok(Err(%s)) })" % ("__e.%s()" % (self.u["q_into"] if isinstance(self.u["q_into"], str) else "into") if self.u.get("q_into") else "__e"), 1)
        b, s = edits.get(lo, ("", 0)); edits[lo] = ("Ok({ " + b, s)
        b, s = edits.get(hi, ("", 0)); edits[hi] = (b + " })", s)

    def thread_calls(self, toks, lo, hi, edits):
        """pass the ghost log to every call of a threaded function"""
        th = self.u.get("thread", {})
        for q in range(lo, hi):
            if toks[q].k != "id" or toks[q].s not in th or toks[q - 1].s == "fn": continue
            k = q + 1
            if toks[k].s == "::" and toks[k + 1].s in ("<", "<<"):
                d, k = 0, k + 1
                while True:
                    if toks[k].s in ("<", "<<"): d += len(toks[k].s)
                    elif toks[k].s == ">": d -= 1
                    elif toks[k].s == ">>": d -= 2
                    k += 1
                    if d <= 0: break
            if toks[k].s != "(": continue
            cl = toks[k].m
            lead = "" if toks[cl - 1].s in (",", "(") else ", "
            b, sk = edits.get(cl, ("", 0))
            edits[cl] = (b + lead + th[toks[q].s][1], sk)

    def keep_cfg(self, it):
        """decide #[cfg(..)] on an item: None = keep"""
        for m in re.finditer(r"#\s*\[\s*cfg\s*\((.*?)\)\s*\]", it.attrs(), re.S):
            cond = re.sub(r"\s+", "", m.group(1))
            v = self.u.get("cfg", {}).get(cond)
            if v is None:
                v = cond != "test"
            if not v: return False
        return True

    def item_attr(self, it):
        ds = []
        for m in re.finditer(r"derive\s*\((.*?)\)", it.attrs(), re.S):
            for d in m.group(1).split(","):
                d = d.strip()
                if d in DERIVES: ds.append(d)
        no = self.u.get("no_derive", {}).get(it.name, ())
        ds = [d for d in ds if d not in no]
        return "#[derive(%s)]\n" % ", ".join(ds) if ds else ""

    def vis_edits(self, toks, lo, hi, edits):
        i = lo
        while i < hi:
            if toks[i].s == "pub":
                n = 1
                if toks[i + 1].s == "(" and toks[i + 2].s in ("crate", "super", "in", "self"): n = toks[i + 1].m - i + 1
                edits.setdefault(i, ("", n)); i += n
            else: i += 1

    def attr_edits(self, toks, lo, hi, edits):
        i = lo
        while i < hi:
            if toks[i].s == "#" and i + 1 < hi and toks[i + 1].s == "[":
                n = toks[i + 1].m - i + 1
                edits.setdefault(i, ("", n)); i += n
            else: i += 1

    def emit(self, f, it, prefix="", modpath=""):
        toks, src = it.toks, it.src
        sel = self.src_opts.get("select")
        full = (prefix + "::" if prefix else "") + it.name
        if it.kind in ("use", "macro_rules") or (it.kind == "mod" and it.body is None):
            self.dropped.append("%s %s" % (it.kind, full)); return
        if not self.keep_cfg(it):
            self.dropped.append("%s %s (cfg)" % (it.kind, full)); return
        ex = self.u.get("exclude", ())
        tag = it.kind + " " + full
        if any(re.fullmatch(p, tag) for p in ex):
            self.dropped.append(tag); return
        if it.kind == "mod":
            for ch in it.children(): self.emit(f, ch, prefix, modpath + it.name + "::")
            return
        if sel is not None and not prefix and not any(re.fullmatch(p, it.kind + " " + modpath + it.name) for p in sel):
            return
        if it.kind == "other" and self.u.get("drop_other", True):
            self.dropped.append(tag); return
        edits, assoc = {}, {}
        if it.kind == "fn":
            self.hoist(f, it, full, edits)
            self.attr_edits(toks, it.body or it.hi, it.hi, edits)
            self.fn_edits(it, full, edits)
            self.vis_edits(toks, it.attr_hi, it.body or it.hi, edits)
        elif it.kind in ("impl", "trait"):
            hdr = it.name
            selfty = hdr.split(" for ")[-1] if it.kind == "impl" else it.name
            selfname = re.sub(r"\s*<.*$", "", selfty).split("::")[-1].strip()
            trait = re.sub(r"\s+", "", hdr.rsplit(" for ", 1)[0]) if it.kind == "impl" and " for " in hdr else None
            base = (trait + " for " if trait else "") + selfname
            keep = []
            for ch in it.children():
                p = (selfname + "::" + ch.name) if not trait else ("<%s as %s>::%s" % (selfname, trait, ch.name))
                if not self.keep_cfg(ch) or any(re.fullmatch(q, ch.kind + " " + p) for q in ex):
                    if ch.kind == "type":      # a dropped associated type is written out where it is used
                        m = re.match(r"\s*type\s+(\w+)\s*=\s*(.*?);\s*$", src[toks[ch.attr_hi].a:toks[ch.hi - 1].b], re.S)
                        if m: assoc[m.group(1)] = m.group(2)
                    edits[ch.lo] = ("", ch.hi - ch.lo); self.dropped.append(ch.kind + " " + p); continue
                self.attr_edits(toks, ch.lo, ch.hi, edits)
                if ch.kind == "fn":
                    self.fn_edits(ch, p, edits)
                self.vis_edits(toks, ch.attr_hi, ch.hi, edits)
            self.vis_edits(toks, it.attr_hi, it.body, edits)
        else:
            self.attr_edits(toks, it.attr_hi, it.hi, edits)
            self.vis_edits(toks, it.attr_hi, it.hi, edits)
        text = self.copy(src, toks, it.attr_hi, it.hi, edits)
        if it.kind in ("struct", "enum"): text = self.u.get("item_attrs", {}).get(it.name, "") + self.item_attr(it) + text
        if it.kind in ("fn", "impl"):
            text = desugar_guards(text)
            tk = lex(text)
            for q, _ in _find_guards(tk):
                m = re.findall(r"/\*@fn (.*?)\*/", text[:tk[q].a])
                if m: self.guarded.append(m[-1])
        for k, v in assoc.items(): text = re.sub(r"\bSelf\s*::\s*%s\b" % k, v, text)
        for x in set(re.findall(r"\b(\w+)\s*:\s*&(?:'\w+ )?str\b", text)) if it.kind in ("fn", "impl") else ():
            text = re.sub(r"\b%s\.len\(\)" % x, x + ".as_bytes().len()", text)      # str::len is the byte length
        text = "\n".join(self.aside + [text]); self.aside = []
        text = desugar_array_let(text)
        for pat, rep in list(self.u.get("rewrite", ())) + list(self.src_opts.get("rewrite", ())):
            text = re.sub(pat, rep, text)
        text = re.sub(r"\.(min|max)\((?=\s*[^)\s])", r".vx_\1(", text); text = re.sub(r"\b(?:core|std)::cmp::(min|max)\(", r"VxMin::vx_\1(", text)
        self.code.append(text)
        self.out.add("\n// ---- %s (%s:%d)\n" % (tag, os.path.relpath(f.path, REPO), it.line()))
        self.out.add(text + "\n", tag)

    def run(self):
        self.out.add("#![feature(allocator_api)]\n#![allow(unused, non_snake_case, dead_code)]\nuse vstd::prelude::*;\nverus! {\n")
        self.out.add(self.pre, "preamble")
        for fn in self.u["files"]:
            self.src_opts = fn if isinstance(fn, dict) else dict(path=fn)
            path = self.src_opts["path"]
            path = path if path.startswith("/") else CRATE + "/src/" + path
            if "expand" in self.src_opts:       # macro-expanded by rustc itself
                text = self.src_opts["expand"]()
                if isinstance(text, tuple):     # (items, mechanically derived ghost text)
                    self.out.add(text[1] + "\n", "derived"); text = text[0]
                f = RustFile(src=text, name=path)
            else: f = RustFile(src=pre.apply(open(path, encoding="utf-8").read(), self.u.get("pre", ())), name=path)
            for it in f.items: self.emit(f, it)
        code = "\n".join(self.code)
        for b in open(os.path.join(os.path.dirname(__file__), "..", "contracts", "std.rs")).read().split("//@ std ")[1:]:      # library functions the code calls
            n, body = b.split("\n", 1)
            if re.search(n[3:] if n.startswith("re:") else r"\.%s(?:::<[^()]*>)?\(" % re.escape(n), code) and not re.search(r"assume_specification[^;]*\[\s*%s" % re.escape(body.split("[", 1)[1].split("] (")[0] + "]" if "[" in body else "@"), self.pre):
                self.out.add("\n" + body, "std"); self.std.append(n)
        self.out.add("\n} // verus!\nfn main() {}\n")
        for n in self.cs:
            if n not in self.used: self.missing.append(n)
        return self

def build_unit(unit):
    return Gen(unit).run()
