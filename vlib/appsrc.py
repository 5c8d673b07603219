"""Text of define_dispatch!'s expansion (by rustc) for the sample application, made acceptable to Verus.

Mechanical steps, all exact desugarings of the expanded text:
  * path prefixes are dropped (one module);
  * `impl Dispatch for App<N>` becomes an inherent impl of AppN;
  * `match key { CONST => A, .., other => Z }` over key constants becomes an if/else chain in the same order;
  * a key constant `<X as Endpoint>::REQ_KEY1` is replaced by the trait's own default for it, read from lib.rs;
  * `const NAME: T = E;` of mod sizer becomes `fn NAME(..) -> T { E }`, over symbolic lists EPS, TIN, TOUT;
    a constant that only measures a list becomes a const generic with that equation as precondition.
"""
import re, subprocess
import run, rustlex
from rustlex import RustFile, lex

def expand_app():
    d = run.stage("expand", "app")
    tgt = run.BUILD + "/xtarget-app"
    run.fresh(tgt)
    p = subprocess.run(["cargo", "+nightly", "rustc", "--offline", "--lib", "--profile", "check", "--target-dir", tgt, "--", "-Zunpretty=expanded"],
                       cwd=d, env=run.env(), capture_output=True, text=True, timeout=600)
    if p.returncode != 0 or "mod impls" not in p.stdout: raise RuntimeError("macro expansion failed: " + p.stderr[-600:])
    return p.stdout

def clean(t):
    t = re.sub(r"(::)?\bpostcard_rpc::", "", t)
    t = re.sub(r"\b(standard_icd|server|header|sizer)::", "", t)
    t = re.sub(r"\bpostcard::from_bytes\b", "vx_from_bytes", t)
    return t

def key_defaults():
    """{REQ_KEY1: 'Key1::from_key8(Self::REQ_KEY)'} from the trait definitions"""
    import extract
    out = {}
    f = RustFile(extract.CRATE + "/src/lib.rs")
    for it in f.items:
        if it.kind == "trait" and it.name in ("Endpoint", "Topic"):
            for ch in it.children():
                m = re.search(r"const\s+(\w+)\s*:\s*\w+\s*=\s*(.*?);", ch.text(), re.S)
                if ch.kind == "const" and m: out[m.group(1)] = re.sub(r"\s+", " ", m.group(2))
    return out

def subst_keys(t, defs):
    def f(m):
        d = defs.get(m.group(3))
        return m.group(0) if d is None else d.replace("Self::", "<%s as %s>::" % (m.group(1), m.group(2)))
    return re.sub(r"<\s*(\w+)\s+as\s+(Endpoint|Topic)\s*>::(\w+)", f, t)

def match_chains(t):
    """match over constants -> if/else chain"""
    while True:
        toks = lex(t)
        hit = None
        for i, k in enumerate(toks):
            if k.s == "match" and toks[i + 1].k == "id" and toks[i + 2].s == "{" and toks[i + 3].s == "<":
                hit = i; break
        if hit is None: return t
        var, o = toks[hit + 1].s, hit + 2
        q, arms = o + 1, []
        while q < toks[o].m:
            p0 = q
            while toks[q].s != "=>": q += 1
            pat = t[toks[p0].a:toks[q - 1].b]
            q += 1
            if toks[q].s != "{": raise ValueError("arm without block")
            b = t[toks[q].a:toks[toks[q].m].b]
            q = toks[q].m + 1
            if toks[q].s == ",": q += 1
            arms.append((re.sub(r"\s+", " ", pat), b))
        out = []
        for n, (p, b) in enumerate(arms):
            if re.fullmatch(r"\w+", p):
                out.append(b); break
            out.append("if %s.vx_same(&%s) %s" % (var, p, b))
        if not re.fullmatch(r"\w+", arms[-1][0]): raise ValueError("no catch-all arm")
        t = t[:toks[hit].a] + " else ".join(out) + t[toks[toks[o].m].b:]

def app_impls():
    src = expand_app()
    defs = key_defaults()
    f = RustFile(src=src, name="app")
    out = []
    mods = dict((it.name, it) for it in f.items if it.kind == "mod")
    for ch in mods["impls"].children():
        m = re.search(r"\bDispatch\s+for\s+App\s*<\s*(\d)\s*>", ch.name)
        if ch.kind != "impl" or not m: continue
        t = clean(ch.text())
        t = re.sub(r"impl\s+Dispatch\s+for\s+App\s*<\s*(\d)\s*>", r"impl App\1", t)
        t = re.sub(r"type\s+Tx\s*=\s*\w+\s*;", "", t)
        t = re.sub(r"<\s*Self::Tx\s+as\s+WireTx\s*>::Error", "TxErr", t).replace("Self::Tx", "Tx")
        t = re.sub(r"<(Key\d?)>::try_from", r"\1::try_from", t)
        t = match_chains(subst_keys(t, {}))
        out.append(subst_keys(t, defs))
    return "\n".join(out)

def app_sizer():
    src = expand_app()
    f = RustFile(src=src, name="app")
    mods = dict((it.name, it) for it in f.items if it.kind == "mod")
    consts, rest = [], []
    for ch in mods["sizer"].children():
        t = clean(ch.text())
        if ch.kind == "const":
            m = re.match(r"(?:pub\s+)?const\s+(\w+)\s*:\s*(.*?)\s*=\s*(.*);\s*$", t, re.S)
            if m: consts.append([m.group(1), re.sub(r"\s+", " ", m.group(2)), m.group(3)])
        elif ch.kind == "fn": rest.append(t)
    gens = [(n, e) for n, ty, e in consts if ty == "usize" and re.fullmatch(r"\w+\.\w+\.len\(\)", e.strip())]
    gn = [n for n, _ in gens]
    # the device description built by App::new
    dm = None
    for ch in mods["impls"].children():
        if ch.kind == "impl" and "Dispatch" not in ch.name:
            t = clean(ch.text())
            m = re.search(r"const\s+MAP\s*:\s*&\s*DeviceMap\s*=\s*&\s*(DeviceMap\s*\{)", t)
            if m:
                toks = lex(t)
                o = next(i for i, k in enumerate(toks) if k.a == m.end() - 1)
                lit = t[m.start(1):toks[toks[o].m].b]
                # the `types` entry (list merging) is the uniques unit's business
                lt = lex(lit)
                q = next(i for i, k in enumerate(lt) if k.s == "types")
                e = next(i for i, k in enumerate(lt) if i > q and k.s == "{")
                lit = lit[:lt[q].a] + "types: EPS.types" + lit[lt[lt[e].m].b:]
                consts.append(["DEVICE_MAP", "DeviceMap", lit])
    m = re.search(r"type\s+App\s*=\s*(?:\w+::)*App\s*<\s*\{(.*?)\}\s*>", clean(src), re.S)
    if m: consts.append(["APP_WIDTH", "usize", m.group(1).strip()])
    names = [n for n, ty, e in consts if n not in gn]
    G = ", ".join("const %s: usize" % g for g in gn)
    out = list(rest)
    for n, ty, e in consts:
        if n in gn: continue
        e = re.sub(r"\bconst\s*\{", "{", e)
        e = re.sub(r"(?<![\w.])(%s)\b(?!\s*[:(])" % "|".join(names), lambda m: "%s::<%s>(EPS, TIN, TOUT)" % (m.group(1), ", ".join(gn)), e)
        e = e.replace("::core::panicking::unreachable_default_msg()", "return vx_panic()")
        ty2 = ty.replace("&[", "&'static [")
        out.append("fn %s<%s>(EPS: &'static EndpointMap, TIN: &'static TopicMap, TOUT: &'static TopicMap) -> %s {\n%s\n}" % (n, G, ty2, e))
    eq = ", ".join("%s == %s" % (n, e.strip().replace(".len()", "@.len()")) for n, e in gens)
    return "\n\n".join(out), "spec fn sizes(EPS: &EndpointMap, TIN: &TopicMap, TOUT: &TopicMap, %s) -> bool { %s }" % (", ".join(g + ": usize" for g in gn), " && ".join(eq.split(", ")))

# ---------------------------------------------------------------- declared tables
def tables_clean(t):
    t = re.sub(r"#\[(?:doc|automatically_derived)[^\]]*\]", "", t)
    t = re.sub(r"(::)?\b(?:postcard_rpc|crate|postcard_schema|core::marker|schema|uniques|standard_icd|sizer|header|super|key)\s*::\s*", "", t)
    return t

def split_top(t, sep):
    """split at top-level separators"""
    toks, out, a, q = lex(t), [], 0, 0
    while q < len(toks):
        k = toks[q]
        if k.m is not None and k.m > q: q = k.m
        elif k.s == sep: out.append(t[a:k.a]); a = k.b
        q += 1
    return out + [t[a:]]

def table_expr(t, lists, assoc):
    """const initialiser -> function body (see app_tables)"""
    t = re.sub(r"\.as_slice\(\)", "", t)
    t = re.sub(r"\b(?:const|unsafe)\s*\{", "{", t)
    t = re.sub(r"<\s*<\s*(\w+)\s+as\s+(?:Endpoint|Topic)\s*>\s*::\s*(\w+)\s+as\s+Schema\s*>\s*::\s*SCHEMA", lambda m: "vx_schema::<%s>()" % assoc[(m.group(1), m.group(2))], t)
    t = re.sub(r"<\s*(\w+)\s+as\s+(?:Endpoint|Topic)\s*>\s*::\s*(\w+)", r"\1_\2()", t)
    used = []
    def ref(m):  # a const is evaluated once: every mention is the same value
        if m.group(1) not in used: used.append(m.group(1))
        return "vx_c_" + m.group(1)
    t = re.sub(r"&?(?<![\w.])(%s)\b(?!\s*[:(])" % "|".join(lists), ref, t)
    return "".join("let vx_c_%s = %s();\n" % (u, u) for u in used) + tx_expr(t)

def tx_expr(t):
    """const items -> let, array literals behind & -> vx_static"""
    toks, out, a, q = lex(t), [], 0, 0
    while q < len(toks):
        k = toks[q]
        if k.s == "const" and toks[q + 1].k == "id" and toks[q + 2].s == ":":
            e = q
            while toks[e].s != "=": e = toks[e].m if toks[e].m is not None and toks[e].m > e else e + 1
            f = e
            while toks[f].s != ";": f = toks[f].m if toks[f].m is not None and toks[f].m > f else f + 1
            ty, ex = t[toks[q + 3].a:toks[e].a].strip(), t[toks[e].b:toks[f].a].strip()
            ty = re.sub(r"\s+", " ", ty)
            m = re.fullmatch(r"\(?\[.*;\s*([\w.]+)\](?:,\s*usize\))?", ty)
            c = re.fullmatch(r"(\w+)\s*\((.*)\)", ex, re.S)
            if m and c and not ty.startswith("[u8"): new = "let %s = vx_%s(%s, %s);" % (toks[q + 1].s, c.group(1), m.group(1), tx_expr(c.group(2)))
            elif ty == "usize":
                parts = [tx_expr(p.strip()) for p in split_top(ex, "+")]
                v = parts[0]
                for p in parts[1:]: v = "vx_add(%s, %s)" % (v, p)
                new = "let %s: usize = %s;" % (toks[q + 1].s, re.sub(r"\b(total_len|unique_types_nty_upper)\(", r"vx_\1(", v))
            else: new = "let %s: %s = %s;" % (toks[q + 1].s, ty.replace("&str", "&'static str"), tx_expr(ex))
            out.append(t[a:k.a] + new); a = toks[f].b; q = f + 1
        elif k.s == "&" and toks[q + 1].s == "[":
            c = toks[q + 1].m
            out.append(t[a:k.a] + "vx_static([" + tx_expr(t[toks[q + 1].b:toks[c].a]) + "])"); a = toks[c].b; q = c + 1
        else: q += 1
    return "".join(out) + t[a:]

def app_tables():
    """Every table macro of the sample tables and of standard_icd.rs, as expanded by rustc:
      * `impl Endpoint/Topic for X { const C: T = E; }` -> `fn X_C() -> T { E }`; `<X as Endpoint>::C` -> `X_C()`;
      * `<<X as Endpoint>::Request as Schema>::SCHEMA` -> `vx_schema::<R>()` for the type R the impl declares;
      * `const LIST: Map = E;` -> `fn LIST() -> Map { E }`;
      * `const { const A: T = E; .. tail }` -> `{ let A = E; .. tail }`; a const generic length that the type of a const
        supplies becomes the first argument of a stand-in with the same contract; `.as_slice()` and `unsafe` are dropped."""
    out, lists, assoc, todo = [], set(), {}, []
    dm = None
    core = RustFile(src=run.expand_core(), name="core")
    app = RustFile(src=expand_app(), name="app")
    items = []
    for it in core.items:
        if it.kind == "mod" and it.name == "standard_icd": items += list(it.children())
    if not items: raise RuntimeError("standard_icd not found in the expansion")
    for it in app.items:
        if it.kind == "mod" and it.name == "tables": items += list(it.children())
        elif it.kind == "mod" and it.name == "impls":
            for ch in it.children():
                if ch.kind == "impl" and "Dispatch" not in ch.name:
                    t = tables_clean(ch.text())
                    m = re.search(r"const\s+MAP\s*:\s*&\s*DeviceMap\s*=\s*&\s*(DeviceMap\s*\{)", t)
                    if m:
                        toks = lex(t)
                        o = next(i for i, k in enumerate(toks) if k.a == m.end() - 1)
                        dm = t[m.start(1):toks[toks[o].m].b]
        else: items.append(it)
    for it in items:
        if it.kind == "impl":
            m = re.search(r"\b(Endpoint|Topic)\s+for\s+(\w+)", it.name)
            if not m: continue
            for ch in it.children():
                t = tables_clean(ch.text())
                c = re.match(r"(?:#\[[^\]]*\]\s*)*type\s+(\w+)\s*=\s*(.*?);\s*$", t, re.S)
                if c: assoc[(m.group(2), c.group(1))] = re.sub(r"<(?:\s*'\w+\s*,?)+>", "", re.sub(r"\s+", " ", c.group(2))).strip()
                c = re.match(r"(?:#\[[^\]]*\]\s*)*const\s+(\w+)\s*:\s*(.*?)\s*=\s*(.*);\s*$", t, re.S)
                if c: todo.append(("%s_%s" % (m.group(2), c.group(1)), re.sub(r"\s+", " ", c.group(2)), c.group(3)))
        elif it.kind == "const":
            c = re.match(r"(?:\s*(?:#\[[^\]]*\]|///[^\n]*)\s*)*(?:pub\s+)?const\s+(\w+)\s*:\s*(.*?)\s*=\s*(.*);\s*$", tables_clean(it.text()), re.S)
            if c and re.search(r"EndpointMap|TopicMap|\bKey\b|&\s*(?:'static\s+)?str$", c.group(2)):
                lists.add(c.group(1)); todo.append((c.group(1), re.sub(r"\s+", " ", c.group(2)), c.group(3)))
    if dm:
        lt = lex(dm)
        q = next(i for i, k in enumerate(lt) if k.s == "min_key_len")
        e = next(i for i, k in enumerate(lt) if i > q and k.s == "{")
        dm = dm[:lt[q].a] + "min_key_len: vx_width()" + dm[lt[lt[e].m].b:]
        todo.append(("DEVICE_MAP", "DeviceMap", dm))
    for n, ty, e in todo:
        out.append("fn %s() -> %s {\n%s\n}" % (n, re.sub(r"&\s*(?:'static\s*)?str", "&'static str", ty), table_expr(e, lists, assoc)))
    return "\n\n".join(out)
