#!/usr/bin/env python3
"""Writes contracts/dispatch.rs (the same contract for the four key widths)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EPS = [("PingEndpoint", "u32", "u32"), ("GetAllSchemasEndpoint", "()", "SchemaTotals"), ("EpB", "u16", "u32"), ("EpA", "u16", "u64"), ("EpS", "u64", "u16")]
TPS = [("TpB", "u16"), ("TpA", "u16"), ("TpS", "u64")]
o = ['''// =====================================================================
// Dispatch unit: contract for the `handle` that define_dispatch! expands to, for a sample application with one
// endpoint and one topic of every handler flavour; keys, handlers, bodies and the device description are arbitrary.
// (written by tools/gen_dispatch.py)
// =====================================================================
/// postcard's decoder (assumed: a function of the bytes)
uninterp spec fn deser<T>(b: Seq<u8>) -> Option<T>;
#[verifier::external_body]
fn vx_from_bytes<T>(b: &[u8]) -> (r: Result<T, ()>) ensures match r { Ok(v) => deser::<T>(b@) == Some(v), Err(_) => deser::<T>(b@) is None } { unimplemented!() }
/// matching a constant pattern: structural equality (derived PartialEq)
trait VxSame: Sized { fn vx_same(&self, o: &Self) -> (b: bool) ensures b == (*self == *o); }
impl VxSame for Key1 { fn vx_same(&self, o: &Self) -> (b: bool) { self.0 == o.0 } }
impl VxSame for Key2 { fn vx_same(&self, o: &Self) -> (b: bool) { let b = self.0[0] == o.0[0] && self.0[1] == o.0[1]; proof { if b { assert(self.0 =~= o.0); } } b } }
impl VxSame for Key4 { fn vx_same(&self, o: &Self) -> (b: bool) { let b = self.0[0] == o.0[0] && self.0[1] == o.0[1] && self.0[2] == o.0[2] && self.0[3] == o.0[3]; proof { if b { assert(self.0 =~= o.0); } } b } }
impl VxSame for Key { fn vx_same(&self, o: &Self) -> (b: bool) { let b = self.0[0] == o.0[0] && self.0[1] == o.0[1] && self.0[2] == o.0[2] && self.0[3] == o.0[3]
    && self.0[4] == o.0[4] && self.0[5] == o.0[5] && self.0[6] == o.0[6] && self.0[7] == o.0[7]; proof { if b { assert(self.0 =~= o.0); } } b } }
impl Schema for u16 {}
impl Schema for u64 {}
impl Serialize for u16 {}
impl Serialize for u32 {}
impl Serialize for u64 {}
struct PingEndpoint; struct EpB; struct EpA; struct EpS; struct TpB; struct TpA; struct TpS;
''']
X = "#[verifier::external_body] const"
for n, q, r in EPS:
    if n == "GetAllSchemasEndpoint": continue
    o.append("impl Endpoint for %s { type Request = %s; type Response = %s; const PATH: &'static str = \"\"; %s REQ_KEY: Key = Key([1; 8]); %s RESP_KEY: Key = Key([1; 8]); }\n" % (n, q, r, X, X))
for n, q in TPS:
    o.append("impl Topic for %s { type Message = %s; const PATH: &'static str = \"\"; %s TOPIC_KEY: Key = Key([1; 8]); }\n" % (n, q, X))
o.append('''struct Ctx { c: u8 }
struct SpawnCtx { c: u8 }
struct Spawn { c: u8 }
struct Fut { id: Ghost<int>, hdr: Ghost<VarHeader>, arg: Ghost<int> }
struct TxErr { c: u8 }
#[derive(Clone)]
struct Tx { c: u8 }
impl AsWireTxErrorKind for TxErr { #[verifier::external_body] fn as_kind(&self) -> WireTxErrorKind { unimplemented!() } }
impl WireTx for Tx {
    type Error = TxErr;
    #[verifier::external_body] fn send<T: Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T, Tracked(lg): Tracked<&mut TxLog>) -> Result<(), TxErr> { unimplemented!() }
    #[verifier::external_body] fn send_log_str(&self, kkind: VarKeyKind, s: &str, Tracked(lg): Tracked<&mut TxLog>) -> Result<(), TxErr> { unimplemented!() }
    #[verifier::external_body] fn send_log_fmt<'a>(&self, kkind: VarKeyKind, a: Arguments<'a>, Tracked(lg): Tracked<&mut TxLog>) -> Result<(), TxErr> { unimplemented!() }
}
impl SpawnContext for Ctx { type SpawnCtxt = SpawnCtx; #[verifier::external_body] fn spawn_ctxt(&mut self) -> SpawnCtx { unimplemented!() } }
// user code (assumed): a handler records that it ran and returns anything; its answer may depend on everything so far
uninterp spec fn ret_b(h: VarHeader, q: u16, l: Seq<Ev>) -> u32;
uninterp spec fn ret_a(h: VarHeader, q: u16, l: Seq<Ev>) -> u64;
#[verifier::external_body] fn h_ep_b(c: &mut Ctx, h: VarHeader, q: u16, Tracked(lg): Tracked<&mut TxLog>) -> (r: u32) ensures final(lg).v == old(lg).v.push(Ev::Call(2, h, q as int)), r == ret_b(h, q, old(lg).v) { unimplemented!() }
#[verifier::external_body] fn h_ep_a(c: &mut Ctx, h: VarHeader, q: u16, Tracked(lg): Tracked<&mut TxLog>) -> (r: u64) ensures final(lg).v == old(lg).v.push(Ev::Call(3, h, q as int)), r == ret_a(h, q, old(lg).v) { unimplemented!() }
#[verifier::external_body] fn h_ep_s(c: SpawnCtx, h: VarHeader, q: u64, s: Sender<Tx>) -> (r: Fut) ensures r.id@ == 4, r.hdr@ == h, r.arg@ == q { unimplemented!() }
#[verifier::external_body] fn h_tp_b(c: &mut Ctx, h: VarHeader, q: u16, s: &Sender<Tx>, Tracked(lg): Tracked<&mut TxLog>) ensures final(lg).v == old(lg).v.push(Ev::Call(5, h, q as int)) { unimplemented!() }
#[verifier::external_body] fn h_tp_a(c: &mut Ctx, h: VarHeader, q: u16, s: &Sender<Tx>, Tracked(lg): Tracked<&mut TxLog>) ensures final(lg).v == old(lg).v.push(Ev::Call(6, h, q as int)) { unimplemented!() }
#[verifier::external_body] fn h_tp_s(c: SpawnCtx, h: VarHeader, q: u64, s: Sender<Tx>) -> (r: Fut) ensures r.id@ == 7, r.hdr@ == h, r.arg@ == q { unimplemented!() }
#[verifier::external_body] fn spawn_it(s: &Spawn, f: Fut, Tracked(lg): Tracked<&mut TxLog>) -> (r: Result<(), ()>) ensures final(lg).v == old(lg).v.push(Ev::Spawn(f.id@, f.hdr@, f.arg@, r is Ok)) { unimplemented!() }
''')
for n in (1, 2, 4, 8):
    o.append("struct App%d { context: Ctx, spawn: Spawn, device_map: &'static DeviceMap }\n" % n)
keys = ["%s::REQ_KEY" % n for n, _, _ in EPS] + ["%s::TOPIC_KEY" % n for n, _ in TPS]
o.append('''proof fn key_eq() ensures forall|a: Key1, b: Key1| #[trigger] seq![a.0] == #[trigger] seq![b.0] ==> a == b, forall|a: Key2, b: Key2| #[trigger] a.0@ == #[trigger] b.0@ ==> a == b,
    forall|a: Key4, b: Key4| #[trigger] a.0@ == #[trigger] b.0@ ==> a == b, forall|a: Key, b: Key| #[trigger] a.0@ == #[trigger] b.0@ ==> a == b
{
    assert forall|a: Key1, b: Key1| #[trigger] seq![a.0] == #[trigger] seq![b.0] implies a == b by { assert(seq![a.0][0] == seq![b.0][0]); }
    assert forall|a: Key2, b: Key2| #[trigger] a.0@ == #[trigger] b.0@ implies a == b by { assert(a.0 =~= b.0); }
    assert forall|a: Key4, b: Key4| #[trigger] a.0@ == #[trigger] b.0@ implies a == b by { assert(a.0 =~= b.0); }
    assert forall|a: Key, b: Key| #[trigger] a.0@ == #[trigger] b.0@ implies a == b by { assert(a.0 =~= b.0); }
}
''')
o.append("/// the key of each arm\nspec fn arm(i: int) -> Key { %s }\n" % " else ".join("if i == %d { %s }" % (i, k) if i < len(keys) - 1 else "{ %s }" % k for i, k in enumerate(keys)))
o.append('''spec fn akey(i: int, n: nat) -> Seq<u8> { compact(arm(i).0@, n) }
/// C05 guarantees this for the width the dispatcher uses
spec fn arms_distinct(n: nat) -> bool { forall|i: int, j: int| 0 <= i < j < 8 ==> #[trigger] akey(i, n) != #[trigger] akey(j, n) }
proof fn arm_facts(n: nat) requires arms_distinct(n) ensures
    ''' + " && ".join("akey(%d, n) != akey(%d, n)" % (i, j) for i in range(8) for j in range(i + 1, 8)) + ",\n    " + ", ".join("akey(%d, n) == compact(%s.0@, n)" % (i, k) for i, k in enumerate(keys)) + '''
{}
/// exactly one error frame, with the request's sequence number
spec fn err1(kk: VarKeyKind, h: VarHeader, e: WireError, a: Seq<Ev>, b: Seq<Ev>, ok: bool) -> bool { one_tx(a, b, error_key(), kk, h.seq_no, ser(&e), ok) }
/// the handler ran once (logged as c), then exactly one response frame; if the transport refused it, one error frame
spec fn reply1(kk: VarKeyKind, h: VarHeader, k: Key, body: Seq<u8>, c: Seq<Ev>, b: Seq<Ev>, ok: bool) -> bool {
    (ok && one_tx(c, b, k, kk, h.seq_no, body, true)) || (b.len() > 0 && one_tx(c, b.drop_last(), k, kk, h.seq_no, body, false) && err1(kk, h, WireError::SerFailed, b.drop_last(), b, ok))
}
spec fn handle_post(n: nat, dm: DeviceMap, kk: VarKeyKind, h: VarHeader, body: Seq<u8>, a: Seq<Ev>, b: Seq<Ev>, ok: bool) -> bool {
    let k = compact(kbytes(h.key), n);
    if kbytes(h.key).len() < n { err1(kk, h, WireError::KeyTooSmall, a, b, ok) } else {
        &&& k == akey(0, n) ==> match deser::<u32>(body) { None => err1(kk, h, WireError::DeserFailed, a, b, ok), Some(q) => one_tx(a, b, PingEndpoint::RESP_KEY, kk, h.seq_no, ser(&q), ok) }
        &&& k == akey(1, n) ==> b.len() > 0 && sent_ok(dm, kk, a, b.drop_last(), dm_total(dm)) && one_tx(b.drop_last(), b, GetAllSchemasEndpoint::RESP_KEY, kk, h.seq_no, ser(&SchemaTotals {
            types_sent: dm.types@.len() as u32, endpoints_sent: dm.endpoints@.len() as u32, topics_in_sent: dm.topics_in@.len() as u32, topics_out_sent: dm.topics_out@.len() as u32,
            errors: nfail(b.drop_last(), a.len() as int) as u32 }), ok)
        &&& k == akey(2, n) ==> match deser::<u16>(body) { None => err1(kk, h, WireError::DeserFailed, a, b, ok), Some(q) => reply1(kk, h, EpB::RESP_KEY, ser(&ret_b(h, q, a)), a.push(Ev::Call(2, h, q as int)), b, ok) }
        &&& k == akey(3, n) ==> match deser::<u16>(body) { None => err1(kk, h, WireError::DeserFailed, a, b, ok), Some(q) => reply1(kk, h, EpA::RESP_KEY, ser(&ret_a(h, q, a)), a.push(Ev::Call(3, h, q as int)), b, ok) }
        &&& k == akey(4, n) ==> match deser::<u64>(body) { None => err1(kk, h, WireError::DeserFailed, a, b, ok), Some(q) => (ok && b == a.push(Ev::Spawn(4, h, q as int, true)))
                || err1(kk, h, WireError::FailedToSpawn, a.push(Ev::Spawn(4, h, q as int, false)), b, ok) }
        &&& k == akey(5, n) ==> ok && match deser::<u16>(body) { None => b == a, Some(q) => b == a.push(Ev::Call(5, h, q as int)) }
        &&& k == akey(6, n) ==> ok && match deser::<u16>(body) { None => b == a, Some(q) => b == a.push(Ev::Call(6, h, q as int)) }
        &&& k == akey(7, n) ==> ok && match deser::<u64>(body) { None => b == a, Some(q) => b == a.push(Ev::Spawn(7, h, q as int, true)) || b == a.push(Ev::Spawn(7, h, q as int, false)) }
        &&& (forall|i: int| 0 <= i < 8 ==> k != #[trigger] akey(i, n)) ==> err1(kk, h, WireError::UnknownKey, a, b, ok)
    }
}
''')
for n in (1, 2, 4, 8):
    o.append('''//@ fn App%d::min_key_len ret r
    ensures kwidth(r) == %d
//@ fn App%d::handle ret r
    requires arms_distinct(%d), dm_total(*old(self).device_map) <= 0xffff,
    ensures handle_post(%d, *old(self).device_map, tx.kkind, *hdr, body@, old(lg).v, final(lg).v, r is Ok)
//@ hint start
    proof { push_facts(); key_eq(); arm_facts(%d); }
//@ hint after /let Ok\\(keyb\\)/
    proof { assert(%s =~= compact(kbytes(hdr.key), %d)); }
''' % (n, n, n, n, n, n, "seq![keyb.0]" if n == 1 else "keyb.0@", n))
o.append("//@ text\n")
open(V + "/contracts/dispatch.rs", "w").write("".join(o))
