"""Writes native/core/src/tables_gen.rs: declared tables of many shapes with an explicit restatement of what each declares."""
import os, random
R = random.Random(20260)
PRIM = ["u8", "u16", "u32", "u64", "i8", "i64", "bool", "f32", "char", "String", "()"]
TYS = ["A0", "A1", "A2", "A3", "A4", "A5", "A6", "A7", "A8", "N0", "N1", "E0", "E1", "U0", "T0"]
GRP = ["[u8; 4]", "[A1; 2]", "(u8, A2)", "(A3, E0, u16)", "[[u8; 2]; 3]"]
BOR = ["B0", "B1"]
CFG = [("cfg(all())", 1), ("cfg(any())", 0), ("cfg(not(any()))", 1), ("cfg(not(all()))", 0), ('cfg(feature = "no-such-feature")', 0)]
def ty(lt):
    q = R.random()
    if q < .25: return R.choice(PRIM), ""
    if q < .40: return R.choice(GRP), ""
    if q < .55 and lt: return R.choice(BOR), "<%s>" % lt
    return R.choice(TYS), ""
def path(used):
    while True:
        n = R.choice([0, 1, 2, 3, 5, 9, 17, 40, 130]) if R.random() < .5 else R.randint(3, 12)
        p = "".join(R.choice("abcdefgXYZ019/_-. é☃") for _ in range(n))
        if p not in used: used.add(p); return p
def kf(t, p): return "Key::for_path::<%s>(%s)" % (t, rs(p))
def rs(p): return '"' + p + '"'
out, calls = [], []
def epl(i, n, omit, cfgcol):
    used, body, want, tys, chk = set(), [], [], [], []
    for r in range(n):
        name = "Ep%d" % r
        q, ql = ty("'a"); s, sl = ty("'b")
        p = path(used); meta, on = ("", 1)
        if cfgcol and R.random() < .5: meta, on = R.choice(CFG)
        body.append("        | %s | %s%s | %s%s | %s | %s" % (name, q, ql, s, sl, rs(p), meta + " |" if cfgcol else ""))
        if on:
            want.append("(%s, %s, %s)" % (rs(p), kf(q, p), kf(s, p))); tys += [q, s]
            chk.append("ep::<%s, %s, %s>(c, \"%s\", %s);" % (name, q, s, name, rs(p)))
        if R.random() < .15: tys = tys
    o = {None: "", True: "        omit_std = true;\n", False: "        omit_std = false;\n"}[omit]
    hdr = "        | EndpointTy | RequestTy | ResponseTy | Path | %s\n        | --- | --- | --- | --- | %s" % (("Cfg |", "--- |") if cfgcol else ("", ""))
    out.append("mod e%d {\n    #![allow(dead_code, unused)]\n    use super::*;\n    endpoints! {\n        list = LIST;\n%s%s\n%s\n    }\n    pub fn check(c: &mut Ctx) {\n        %s\n        ep_list(c, \"e%d\", &LIST, %s, &[%s], &[%s]);\n    }\n}" %
               (i, o, hdr, "\n".join(body), "\n        ".join(chk), i, "false" if omit else "true", ", ".join(want), ", ".join("<%s as Schema>::SCHEMA" % t for t in tys)))
    calls.append("e%d::check(c);" % i)
def tpl(i, n, omit, cfgcol, d):
    used, body, want, tys, chk = set(), [], [], [], []
    for r in range(n):
        name = "Tp%d" % r
        q, ql = ty("'a"); p = path(used); meta, on = ("", 1)
        if cfgcol and R.random() < .5: meta, on = R.choice(CFG)
        body.append("        | %s | %s%s | %s | %s" % (name, q, ql, rs(p), meta + " |" if cfgcol else ""))
        if on:
            want.append("(%s, %s)" % (rs(p), kf(q, p))); tys.append(q)
            chk.append("tp::<%s, %s>(c, \"%s\", %s);" % (name, q, name, rs(p)))
    o = {None: "", True: "        omit_std = true;\n", False: "        omit_std = false;\n"}[omit]
    hdr = "        | TopicTy | MessageTy | Path | %s\n        | --- | --- | --- | %s" % (("Cfg |", "--- |") if cfgcol else ("", ""))
    out.append("mod t%d {\n    #![allow(dead_code, unused)]\n    use super::*;\n    topics! {\n        list = LIST;\n        direction = TopicDirection::%s;\n%s%s\n%s\n    }\n    pub fn check(c: &mut Ctx) {\n        %s\n        tp_list(c, \"t%d\", &LIST, TopicDirection::%s, %s, &[%s], &[%s]);\n    }\n}" %
               (i, d, o, hdr, "\n".join(body), "\n        ".join(chk), i, d, "false" if omit else "true", ", ".join(want), ", ".join("<%s as Schema>::SCHEMA" % t for t in tys)))
    calls.append("t%d::check(c);" % i)
SZ = [0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33]
for i in range(36): epl(i, SZ[i % len(SZ)], [None, True, False][i % 3] if i else None, bool(i // 3 % 2) )
for i in range(36): tpl(i, SZ[i % len(SZ)], [None, True, False][i % 3], bool(i // 3 % 2), "ToServer" if i // 2 % 2 else "ToClient")
epl(36, 70, None, False); tpl(36, 70, None, False, "ToClient"); epl(37, 270, None, False); tpl(37, 270, True, False, "ToServer")
for i in range(10):
    q, s, p = ty("")[0], ty("")[0], path(set())
    out.append("mod s%d {\n    #![allow(dead_code, unused)]\n    use super::*;\n    endpoint!(LongerName%d, %s, %s);\n    endpoint!(WithPath, %s, %s, %s);\n    topic!(Topic_name%d, %s);\n    topic!(TWithPath, %s, %s);\n"
               "    pub fn check(c: &mut Ctx) {\n        ep::<LongerName%d, %s, %s>(c, \"LongerName%d\", \"LongerName%d\");\n        ep::<WithPath, %s, %s>(c, \"WithPath\", %s);\n        tp::<Topic_name%d, %s>(c, \"Topic_name%d\", \"Topic_name%d\");\n        tp::<TWithPath, %s>(c, \"TWithPath\", %s);\n    }\n}"
               % (i, i, q, s, s, q, rs(p), i, s, q, rs(p), i, q, s, i, i, s, q, rs(p), i, s, i, i, q, rs(p)))
    calls.append("s%d::check(c);" % i)
for i, (e, a, b) in enumerate([("e0", "t2", "t0"), ("e7", "t7", "t5"), ("e13", "t2", "t13"), ("e17", "t15", "t16"), ("e33", "t34", "t17"), ("e14", "t11", "t9"), ("e35", "t35", "t33")]):
    out.append("mod d%d {\n    #![allow(dead_code, unused)]\n    use super::*;\n    use super::%s::LIST as EPL; use super::%s::LIST as TIL; use super::%s::LIST as TOL;\n    define_dispatch! {\n        app: App; spawn_fn: nsp; tx_impl: RecTx; spawn_impl: NoSpawn; context: Cx;\n"
               "        endpoints: { list: EPL; | EndpointTy | kind | handler | | ---------- | ---- | ------- | };\n        topics_in: { list: TIL; | TopicTy | kind | handler | | ------- | ---- | ------- | };\n        topics_out: { list: TOL; };\n    }\n"
               "    pub fn check(c: &mut Ctx) { dev(c, \"d%d\", App::new(Cx, NoSpawn).device_map, &EPL, &TIL, &TOL); }\n}" % (i, e, a, b, i))
    calls.append("d%d::check(c);" % i)
out.append("pub fn all(c: &mut Ctx) {\n    %s\n}" % "\n    ".join(calls))
open(os.path.dirname(os.path.abspath(__file__)) + "/../native/core/src/tables_gen.rs", "w").write("// written by tools/gen_tables.py\n" + "\n".join(out) + "\n")
