"""Writes contracts/tables.rs: the contracts of the sample tables of expand/app, from a restatement of what they declare."""
import os
HEAD = open(os.path.dirname(os.path.abspath(__file__)) + "/../contracts/tables_head.rs").read()
EPS = [("PingEndpoint", "u32", "u32", "postcard-rpc/ping"), ("GetAllSchemasEndpoint", "()", "SchemaTotals", "postcard-rpc/schemas/get"),
       ("EpB", "u16", "u32", "e/b"), ("EpA", "u16", "u64", "e/a"), ("EpS", "u64", "u16", "e/s"),
       ("OneEp", "SA", "SB", "OneEp"), ("TwoEp", "SB", "u32", "two/ep"),
       ("DefA", "SA", "SB", "d/a"), ("DefC", "()", "SA", "d/c"), ("DefD", "SB", "[u8; 4]", "d/d"),
       ("OmA", "BR", "SB", "o/a"), ("OmB", "u8", "BR", "o/b"), ("OmC", "BR", "BT", "o/c"), ("InA", "SA", "SB", "i/a")]
TPS = [("GetAllSchemaDataTopic", "OwnedSchemaData", "postcard-rpc/schema/data"), ("LoggingTopic", "String", "postcard-rpc/logging"),
       ("TpB", "u16", "t/b"), ("TpA", "u16", "t/a"), ("TpS", "u64", "t/s"), ("TpO", "u16", "t/o"), ("OneTp", "SA", "OneTp"), ("TwoTp", "SB", "two/tp"),
       ("TiB", "SB", "ti/b"), ("TiC", "BR", "ti/c"), ("ToA", "SA", "to/a"), ("ToB", "u8", "to/b"), ("TcA", "SB", "tc/a"), ("TmA", "SB", "tm/a"), ("TmB", "SA", "tm/b")]
ELISTS = [("STANDARD_ICD_ENDPOINTS", 0, ["PingEndpoint", "GetAllSchemasEndpoint"]), ("EPS", 1, ["EpB", "EpA", "EpS"]), ("EP_DEF", 1, ["DefA", "DefC", "DefD"]),
          ("EP_OMIT", 0, ["OmA", "OmB", "OmC"]), ("EP_INCL", 1, ["InA"]), ("EP_EMPTY", 1, []), ("EP_NONE", 0, [])]
TLISTS = [("STANDARD_ICD_TOPICS_OUT", 0, "ToClient", ["GetAllSchemaDataTopic", "LoggingTopic"]), ("STANDARD_ICD_TOPICS_IN", 0, "ToServer", []), ("TIN", 1, "ToServer", ["TpB", "TpA", "TpS"]), ("TOUT", 1, "ToClient", ["TpO"]),
          ("TP_IN", 1, "ToServer", ["TiB", "TiC"]), ("TP_OUT", 1, "ToClient", ["ToA", "ToB"]), ("TP_OUT_INCL", 1, "ToClient", ["TcA"]), ("TP_OUT_OMIT", 0, "ToClient", ["TmA", "TmB"]), ("TP_IN_NONE", 0, "ToServer", [])]
def k(p, t): return 'key_of("%s", schema_of::<%s>())' % (p, t)
def seq(rows): return "seq![%s]" % ", ".join(rows)
def types(ts): return " + ".join(["Set::<Tree>::empty()"] + ["reach(schema_of::<%s>())" % t for t in ts])
E, T = dict((e[0], e) for e in EPS), dict((t[0], t) for t in TPS)
def erow(n): _, q, r, p = E[n]; return '("%s", %s, %s)' % (p, k(p, q), k(p, r))
def trow(n): _, m, p = T[n]; return '("%s", %s)' % (p, k(p, m))
def efull(std, rows):
    s, t = ("std_eps() + " if std else "") + ("seq![%s]" % ", ".join(erow(n) for n in rows) if rows else "Seq::<ERow>::empty()"), types([x for n in rows for x in E[n][1:3]])
    return s, t + (" + std_ep_types()" if std else "")
def tfull(std, d, rows):
    x = "in" if d == "ToServer" else "out"
    s, t = ("std_%s() + " % x if std else "") + ("seq![%s]" % ", ".join(trow(n) for n in rows) if rows else "Seq::<TRow>::empty()"), types([T[n][1] for n in rows])
    return s, t + (" + std_%s_types()" % x if std else "")
o = [HEAD]
s, t = efull(0, ELISTS[0][2]); o.append("spec fn std_eps() -> Seq<ERow> { %s }\nspec fn std_ep_types() -> Set<Tree> { %s }" % (s, t))
s, t = tfull(0, "ToClient", TLISTS[0][3]); o.append("spec fn std_out() -> Seq<TRow> { %s }\nspec fn std_out_types() -> Set<Tree> { %s }" % (s, t))
s, t = tfull(0, "ToServer", []); o.append("spec fn std_in() -> Seq<TRow> { %s }\nspec fn std_in_types() -> Set<Tree> { %s }" % (s, t))
o.append('//@ fn ERROR_PATH ret r\n    ensures r == "error"\n//@ fn ERROR_KEY ret r\n    ensures r == key_of("error", schema_of::<WireError>())')
for n, q, r, p in EPS: o.append('//@ fn %s_PATH ret r\n    ensures r == "%s"\n//@ fn %s_REQ_KEY ret r\n    ensures r == %s\n//@ fn %s_RESP_KEY ret r\n    ensures r == %s' % (n, p, n, k(p, q), n, k(p, r)))
for n, m, p in TPS: o.append('//@ fn %s_PATH ret r\n    ensures r == "%s"\n//@ fn %s_TOPIC_KEY ret r\n    ensures r == %s' % (n, p, n, k(p, m)))
HINT = "//@ hint start\n    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }"
for n, std, rows in ELISTS:
    s, t = efull(std, rows)
    o.append("//@ fn %s ret r\n    ensures r.endpoints@ =~= %s, listed(r.types@, %s)\n%s" % (n, s, t, HINT))
for n, std, d, rows in TLISTS:
    s, t = tfull(std, d, rows)
    o.append("//@ fn %s ret r\n    ensures r.topics@ =~= %s, listed(r.types@, %s), r.direction is %s\n%s" % (n, s, t, d, HINT))
a, ta = efull(1, ELISTS[1][2]); b, tb = tfull(1, "ToServer", TLISTS[2][3]); c, tc = tfull(1, "ToClient", TLISTS[3][3])
o.append("//@ fn DEVICE_MAP ret r\n    ensures r.endpoints@ =~= %s, r.topics_in@ =~= %s, r.topics_out@ =~= %s, listed(r.types@, %s)\n%s" % (a, b, c, ta + " + " + tb + " + " + tc, HINT))
open(os.path.dirname(os.path.abspath(__file__)) + "/../contracts/tables.rs", "w").write("\n".join(o) + "\n")
