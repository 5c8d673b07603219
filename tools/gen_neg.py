"""Applications that must not compile (and three that must): an application serves an endpoint or topic its tables do not
list, or its tables hold the same 8-byte key twice. Writes native/neg/src/lib.rs."""
import os
EP = {"A": ("u16", "u32", "e/a"), "B": ("u16", "u64", "e/b"), "C": ("u64", "u16", "e/c"), "D": ("u8", "u8", "e/d"),
      "B2": ("u16", "u8", "e/b"), "A2": ("u16", "u8", "e/a"), "AA": ("u16", "u8", "e/a"), "X": ("u16", "u32", "t/x"), "Y": ("u8", "u16", "t/o")}
TP = {"P": ("u16", "t/p"), "Q": ("u32", "t/q"), "R": ("u64", "t/r"), "PP": ("u16", "t/p"), "TX": ("u16", "t/x"), "O": ("u16", "t/o"), "O2": ("u8", "t/o2"), "OO": ("u8", "t/o2")}
# name, must it compile, listed endpoints, listed topics in, listed topics out, served endpoints, served topics
CASES = [
 ("everything listed", 1, "A B C", "P Q", "O", "A B C", "P Q"),
 ("listed but not all served, other order", 1, "A B C D", "P Q R", "O O2", "D B", "R P"),
 ("nothing served", 1, "A", "P", "O", "", ""),
 ("the only served endpoint is not listed", 0, "A", "P", "O", "B", "P"),
 ("the first served endpoint is not listed", 0, "A B", "P", "O", "C A B", "P"),
 ("the middle served endpoint is not listed", 0, "A B", "P", "O", "A C B", "P"),
 ("the last served endpoint is not listed", 0, "A B", "P", "O", "A B C", "P"),
 ("a served endpoint differs from the listed one in the response type only", 0, "A B C", "P", "O", "A B2 C", "P"),
 ("the first served endpoint differs from the listed one in the response type only", 0, "A B C", "P", "O", "A2", "P"),
 ("the only served topic is not listed", 0, "A", "P", "O", "A", "Q"),
 ("the first served topic is not listed", 0, "A", "P Q", "O", "A", "R P Q"),
 ("the last served topic is not listed", 0, "A", "P Q", "O", "A", "P Q R"),
 ("a served topic is listed as outgoing only", 0, "A", "P", "O Q", "A", "Q"),
 ("two listed endpoints share the request key", 0, "A AA", "P", "O", "A", "P"),
 ("two listed incoming topics share the key", 0, "A", "P Q PP", "O", "A", "P"),
 ("two listed outgoing topics share the key", 0, "A", "P", "O O2 OO", "A", "P"),
 ("a request key equals an incoming topic key", 0, "A X", "P TX", "O", "A", "P"),
 ("a response key equals an outgoing topic key", 0, "A Y", "P", "O", "A", "P"),
]
def mod(n, case):
    name, ok, le, li, lo, se, st = case
    def eps(lst, names): return "endpoints! { list = %s; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | %s }" % (lst, " ".join('| %s | %s | %s | "%s" |' % ((x,) + EP[x]) for x in names))
    def tps(lst, d, names): return "topics! { list = %s; direction = TopicDirection::%s; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | %s }" % (lst, d, " ".join('| %s | %s | "%s" |' % ((x,) + TP[x]) for x in names))
    le, li, lo, se, st = [x.split() for x in (le, li, lo, se, st)]
    o = ["// %s: %s" % ("OK" if ok else "NEG", name), "pub mod m%d {" % n, "    use crate::*;", "    " + eps("EPS", le), "    " + tps("TIN", "ToServer", li), "    " + tps("TOUT", "ToClient", lo)]
    xe, xt = [e for e in se if e not in le], [t for t in st if t not in li + lo]
    if xe: o.append("    " + eps("XEPS", xe))
    if xt: o.append("    " + tps("XTIN", "ToServer", xt))
    for e in se: o.append("    fn h_%s(_: &mut Ctx, _: VarHeader, r: %s) -> %s { r as _ }" % (e.lower(), EP[e][0], EP[e][1]))
    for t in st: o.append("    fn t_%s(_: &mut Ctx, _: VarHeader, _: %s, _: &Sender<Tx>) {}" % (t.lower(), TP[t][0]))
    o.append("    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;")
    o.append("        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | %s };" % " ".join("| %s | blocking | h_%s |" % (e, e.lower()) for e in se))
    o.append("        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | %s };" % " ".join("| %s | blocking | t_%s |" % (t, t.lower()) for t in st))
    o.append("        topics_out: { list: TOUT; }; }")
    o.append("}")
    return o
HEAD = '''//! Written by tools/gen_neg.py. Applications that must not compile, and three that must; only checked, never run.
#![allow(dead_code, unused_imports)]
use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection, header::VarHeader, server::{Sender, SpawnContext, WireTx}};
pub struct Ctx;
pub struct SpawnCtx;
impl SpawnContext for Ctx { type SpawnCtxt = SpawnCtx; fn spawn_ctxt(&mut self) -> SpawnCtx { SpawnCtx } }
pub struct Spawn;
pub struct Fut;
pub struct TxErr;
#[derive(Clone)]
pub struct Tx;
impl postcard_rpc::server::AsWireTxErrorKind for TxErr { fn as_kind(&self) -> postcard_rpc::server::WireTxErrorKind { postcard_rpc::server::WireTxErrorKind::Other } }
impl WireTx for Tx {
    type Error = TxErr;
    async fn send<T: serde::Serialize + ?Sized>(&self, _: VarHeader, _: &T) -> Result<(), TxErr> { Ok(()) }
    async fn send_raw(&self, _: &[u8]) -> Result<(), TxErr> { Ok(()) }
    async fn send_log_str(&self, _: postcard_rpc::header::VarKeyKind, _: &str) -> Result<(), TxErr> { Ok(()) }
    async fn send_log_fmt<'a>(&self, _: postcard_rpc::header::VarKeyKind, _: core::fmt::Arguments<'a>) -> Result<(), TxErr> { Ok(()) }
}
pub fn spawn_it(_: &Spawn, _: Fut) -> Result<(), ()> { Ok(()) }'''.split("\n")
lines = list(HEAD)
for n, c in enumerate(CASES): lines += mod(n, c)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../native/neg/src/lib.rs"), "w").write("\n".join(lines) + "\n")
