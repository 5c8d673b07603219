// =====================================================================
// Dispatch unit: contract for the `handle` that define_dispatch! expands to, for a sample application with one
// endpoint and one topic of every handler flavour; keys, handlers, bodies and the device description are arbitrary.
// (written by tools/gen_dispatch.py)
// =====================================================================
/// postcard's decoder (assumed: a function of the bytes)
uninterp spec fn deser<T>(b: Seq<u8>) -> Option<T>;
#[verifier::external_body]
fn vx_from_bytes<T>(b: &[u8]) -> (r: Result<T, ()>) ensures match r { Ok(v) => deser::<T>(b@) == Some(v), Err(_) => deser::<T>(b@) is None } { unimplemented!() }
/// matching a constant pattern: structural equality (derived PartialEq)
trait VxSame: Sized { fn vx_same(&self, o: &Self) -> (b: bool) ensures b == (*self == *o); }
impl VxSame for Key1 { fn vx_same(&self, o: &Self) -> (b: bool) { self.0 == o.0 } }
impl VxSame for Key2 { fn vx_same(&self, o: &Self) -> (b: bool) { let b = self.0[0] == o.0[0] && self.0[1] == o.0[1]; proof { if b { assert(self.0 =~= o.0); } } b } }
impl VxSame for Key4 { fn vx_same(&self, o: &Self) -> (b: bool) { let b = self.0[0] == o.0[0] && self.0[1] == o.0[1] && self.0[2] == o.0[2] && self.0[3] == o.0[3]; proof { if b { assert(self.0 =~= o.0); } } b } }
impl VxSame for Key { fn vx_same(&self, o: &Self) -> (b: bool) { let b = self.0[0] == o.0[0] && self.0[1] == o.0[1] && self.0[2] == o.0[2] && self.0[3] == o.0[3]
    && self.0[4] == o.0[4] && self.0[5] == o.0[5] && self.0[6] == o.0[6] && self.0[7] == o.0[7]; proof { if b { assert(self.0 =~= o.0); } } b } }
impl Schema for u16 {}
impl Schema for u64 {}
impl Serialize for u16 {}
impl Serialize for u32 {}
impl Serialize for u64 {}
struct PingEndpoint; struct EpB; struct EpA; struct EpS; struct TpB; struct TpA; struct TpS;
impl Endpoint for PingEndpoint { type Request = u32; type Response = u32; const PATH: &'static str = ""; #[verifier::external_body] const REQ_KEY: Key = Key([1; 8]); #[verifier::external_body] const RESP_KEY: Key = Key([1; 8]); }
impl Endpoint for EpB { type Request = u16; type Response = u32; const PATH: &'static str = ""; #[verifier::external_body] const REQ_KEY: Key = Key([1; 8]); #[verifier::external_body] const RESP_KEY: Key = Key([1; 8]); }
impl Endpoint for EpA { type Request = u16; type Response = u64; const PATH: &'static str = ""; #[verifier::external_body] const REQ_KEY: Key = Key([1; 8]); #[verifier::external_body] const RESP_KEY: Key = Key([1; 8]); }
impl Endpoint for EpS { type Request = u64; type Response = u16; const PATH: &'static str = ""; #[verifier::external_body] const REQ_KEY: Key = Key([1; 8]); #[verifier::external_body] const RESP_KEY: Key = Key([1; 8]); }
impl Topic for TpB { type Message = u16; const PATH: &'static str = ""; #[verifier::external_body] const TOPIC_KEY: Key = Key([1; 8]); }
impl Topic for TpA { type Message = u16; const PATH: &'static str = ""; #[verifier::external_body] const TOPIC_KEY: Key = Key([1; 8]); }
impl Topic for TpS { type Message = u64; const PATH: &'static str = ""; #[verifier::external_body] const TOPIC_KEY: Key = Key([1; 8]); }
struct Ctx { c: u8 }
struct SpawnCtx { c: u8 }
struct Spawn { c: u8 }
struct Fut { id: Ghost<int>, hdr: Ghost<VarHeader>, arg: Ghost<int> }
struct TxErr { c: u8 }
#[derive(Clone)]
struct Tx { c: u8 }
impl AsWireTxErrorKind for TxErr { #[verifier::external_body] fn as_kind(&self) -> WireTxErrorKind { unimplemented!() } }
impl WireTx for Tx {
    type Error = TxErr;
    #[verifier::external_body] fn send<T: Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T, Tracked(lg): Tracked<&mut TxLog>) -> Result<(), TxErr> { unimplemented!() }
    #[verifier::external_body] fn send_log_str(&self, kkind: VarKeyKind, s: &str, Tracked(lg): Tracked<&mut TxLog>) -> Result<(), TxErr> { unimplemented!() }
    #[verifier::external_body] fn send_log_fmt<'a>(&self, kkind: VarKeyKind, a: Arguments<'a>, Tracked(lg): Tracked<&mut TxLog>) -> Result<(), TxErr> { unimplemented!() }
}
impl SpawnContext for Ctx { type SpawnCtxt = SpawnCtx; #[verifier::external_body] fn spawn_ctxt(&mut self) -> SpawnCtx { unimplemented!() } }
// user code (assumed): a handler records that it ran and returns anything; its answer may depend on everything so far
uninterp spec fn ret_b(h: VarHeader, q: u16, l: Seq<Ev>) -> u32;
uninterp spec fn ret_a(h: VarHeader, q: u16, l: Seq<Ev>) -> u64;
#[verifier::external_body] fn h_ep_b(c: &mut Ctx, h: VarHeader, q: u16, Tracked(lg): Tracked<&mut TxLog>) -> (r: u32) ensures final(lg).v == old(lg).v.push(Ev::Call(2, h, q as int)), r == ret_b(h, q, old(lg).v) { unimplemented!() }
#[verifier::external_body] fn h_ep_a(c: &mut Ctx, h: VarHeader, q: u16, Tracked(lg): Tracked<&mut TxLog>) -> (r: u64) ensures final(lg).v == old(lg).v.push(Ev::Call(3, h, q as int)), r == ret_a(h, q, old(lg).v) { unimplemented!() }
#[verifier::external_body] fn h_ep_s(c: SpawnCtx, h: VarHeader, q: u64, s: Sender<Tx>) -> (r: Fut) ensures r.id@ == 4, r.hdr@ == h, r.arg@ == q { unimplemented!() }
#[verifier::external_body] fn h_tp_b(c: &mut Ctx, h: VarHeader, q: u16, s: &Sender<Tx>, Tracked(lg): Tracked<&mut TxLog>) ensures final(lg).v == old(lg).v.push(Ev::Call(5, h, q as int)) { unimplemented!() }
#[verifier::external_body] fn h_tp_a(c: &mut Ctx, h: VarHeader, q: u16, s: &Sender<Tx>, Tracked(lg): Tracked<&mut TxLog>) ensures final(lg).v == old(lg).v.push(Ev::Call(6, h, q as int)) { unimplemented!() }
#[verifier::external_body] fn h_tp_s(c: SpawnCtx, h: VarHeader, q: u64, s: Sender<Tx>) -> (r: Fut) ensures r.id@ == 7, r.hdr@ == h, r.arg@ == q { unimplemented!() }
#[verifier::external_body] fn spawn_it(s: &Spawn, f: Fut, Tracked(lg): Tracked<&mut TxLog>) -> (r: Result<(), ()>) ensures final(lg).v == old(lg).v.push(Ev::Spawn(f.id@, f.hdr@, f.arg@, r is Ok)) { unimplemented!() }
struct App1 { context: Ctx, spawn: Spawn, device_map: &'static DeviceMap }
struct App2 { context: Ctx, spawn: Spawn, device_map: &'static DeviceMap }
struct App4 { context: Ctx, spawn: Spawn, device_map: &'static DeviceMap }
struct App8 { context: Ctx, spawn: Spawn, device_map: &'static DeviceMap }
proof fn key_eq() ensures forall|a: Key1, b: Key1| #[trigger] seq![a.0] == #[trigger] seq![b.0] ==> a == b, forall|a: Key2, b: Key2| #[trigger] a.0@ == #[trigger] b.0@ ==> a == b,
    forall|a: Key4, b: Key4| #[trigger] a.0@ == #[trigger] b.0@ ==> a == b, forall|a: Key, b: Key| #[trigger] a.0@ == #[trigger] b.0@ ==> a == b
{
    assert forall|a: Key1, b: Key1| #[trigger] seq![a.0] == #[trigger] seq![b.0] implies a == b by { assert(seq![a.0][0] == seq![b.0][0]); }
    assert forall|a: Key2, b: Key2| #[trigger] a.0@ == #[trigger] b.0@ implies a == b by { assert(a.0 =~= b.0); }
    assert forall|a: Key4, b: Key4| #[trigger] a.0@ == #[trigger] b.0@ implies a == b by { assert(a.0 =~= b.0); }
    assert forall|a: Key, b: Key| #[trigger] a.0@ == #[trigger] b.0@ implies a == b by { assert(a.0 =~= b.0); }
}
/// the key of each arm
spec fn arm(i: int) -> Key { if i == 0 { PingEndpoint::REQ_KEY } else if i == 1 { GetAllSchemasEndpoint::REQ_KEY } else if i == 2 { EpB::REQ_KEY } else if i == 3 { EpA::REQ_KEY } else if i == 4 { EpS::REQ_KEY } else if i == 5 { TpB::TOPIC_KEY } else if i == 6 { TpA::TOPIC_KEY } else { TpS::TOPIC_KEY } }
spec fn akey(i: int, n: nat) -> Seq<u8> { compact(arm(i).0@, n) }
/// C05 guarantees this for the width the dispatcher uses
spec fn arms_distinct(n: nat) -> bool { forall|i: int, j: int| 0 <= i < j < 8 ==> #[trigger] akey(i, n) != #[trigger] akey(j, n) }
proof fn arm_facts(n: nat) requires arms_distinct(n) ensures
    akey(0, n) != akey(1, n) && akey(0, n) != akey(2, n) && akey(0, n) != akey(3, n) && akey(0, n) != akey(4, n) && akey(0, n) != akey(5, n) && akey(0, n) != akey(6, n) && akey(0, n) != akey(7, n) && akey(1, n) != akey(2, n) && akey(1, n) != akey(3, n) && akey(1, n) != akey(4, n) && akey(1, n) != akey(5, n) && akey(1, n) != akey(6, n) && akey(1, n) != akey(7, n) && akey(2, n) != akey(3, n) && akey(2, n) != akey(4, n) && akey(2, n) != akey(5, n) && akey(2, n) != akey(6, n) && akey(2, n) != akey(7, n) && akey(3, n) != akey(4, n) && akey(3, n) != akey(5, n) && akey(3, n) != akey(6, n) && akey(3, n) != akey(7, n) && akey(4, n) != akey(5, n) && akey(4, n) != akey(6, n) && akey(4, n) != akey(7, n) && akey(5, n) != akey(6, n) && akey(5, n) != akey(7, n) && akey(6, n) != akey(7, n),
    akey(0, n) == compact(PingEndpoint::REQ_KEY.0@, n), akey(1, n) == compact(GetAllSchemasEndpoint::REQ_KEY.0@, n), akey(2, n) == compact(EpB::REQ_KEY.0@, n), akey(3, n) == compact(EpA::REQ_KEY.0@, n), akey(4, n) == compact(EpS::REQ_KEY.0@, n), akey(5, n) == compact(TpB::TOPIC_KEY.0@, n), akey(6, n) == compact(TpA::TOPIC_KEY.0@, n), akey(7, n) == compact(TpS::TOPIC_KEY.0@, n)
{}
/// exactly one error frame, with the request's sequence number
spec fn err1(kk: VarKeyKind, h: VarHeader, e: WireError, a: Seq<Ev>, b: Seq<Ev>, ok: bool) -> bool { one_tx(a, b, error_key(), kk, h.seq_no, ser(&e), ok) }
/// the handler ran once (logged as c), then exactly one response frame; if the transport refused it, one error frame
spec fn reply1(kk: VarKeyKind, h: VarHeader, k: Key, body: Seq<u8>, c: Seq<Ev>, b: Seq<Ev>, ok: bool) -> bool {
    (ok && one_tx(c, b, k, kk, h.seq_no, body, true)) || (b.len() > 0 && one_tx(c, b.drop_last(), k, kk, h.seq_no, body, false) && err1(kk, h, WireError::SerFailed, b.drop_last(), b, ok))
}
spec fn handle_post(n: nat, dm: DeviceMap, kk: VarKeyKind, h: VarHeader, body: Seq<u8>, a: Seq<Ev>, b: Seq<Ev>, ok: bool) -> bool {
    let k = compact(kbytes(h.key), n);
    if kbytes(h.key).len() < n { err1(kk, h, WireError::KeyTooSmall, a, b, ok) } else {
        &&& k == akey(0, n) ==> match deser::<u32>(body) { None => err1(kk, h, WireError::DeserFailed, a, b, ok), Some(q) => one_tx(a, b, PingEndpoint::RESP_KEY, kk, h.seq_no, ser(&q), ok) }
        &&& k == akey(1, n) ==> b.len() > 0 && sent_ok(dm, kk, a, b.drop_last(), dm_total(dm)) && one_tx(b.drop_last(), b, GetAllSchemasEndpoint::RESP_KEY, kk, h.seq_no, ser(&SchemaTotals {
            types_sent: dm.types@.len() as u32, endpoints_sent: dm.endpoints@.len() as u32, topics_in_sent: dm.topics_in@.len() as u32, topics_out_sent: dm.topics_out@.len() as u32,
            errors: nfail(b.drop_last(), a.len() as int) as u32 }), ok)
        &&& k == akey(2, n) ==> match deser::<u16>(body) { None => err1(kk, h, WireError::DeserFailed, a, b, ok), Some(q) => reply1(kk, h, EpB::RESP_KEY, ser(&ret_b(h, q, a)), a.push(Ev::Call(2, h, q as int)), b, ok) }
        &&& k == akey(3, n) ==> match deser::<u16>(body) { None => err1(kk, h, WireError::DeserFailed, a, b, ok), Some(q) => reply1(kk, h, EpA::RESP_KEY, ser(&ret_a(h, q, a)), a.push(Ev::Call(3, h, q as int)), b, ok) }
        &&& k == akey(4, n) ==> match deser::<u64>(body) { None => err1(kk, h, WireError::DeserFailed, a, b, ok), Some(q) => (ok && b == a.push(Ev::Spawn(4, h, q as int, true)))
                || err1(kk, h, WireError::FailedToSpawn, a.push(Ev::Spawn(4, h, q as int, false)), b, ok) }
        &&& k == akey(5, n) ==> ok && match deser::<u16>(body) { None => b == a, Some(q) => b == a.push(Ev::Call(5, h, q as int)) }
        &&& k == akey(6, n) ==> ok && match deser::<u16>(body) { None => b == a, Some(q) => b == a.push(Ev::Call(6, h, q as int)) }
        &&& k == akey(7, n) ==> ok && match deser::<u64>(body) { None => b == a, Some(q) => b == a.push(Ev::Spawn(7, h, q as int, true)) || b == a.push(Ev::Spawn(7, h, q as int, false)) }
        &&& (forall|i: int| 0 <= i < 8 ==> k != #[trigger] akey(i, n)) ==> err1(kk, h, WireError::UnknownKey, a, b, ok)
    }
}
//@ fn App1::min_key_len ret r
    ensures kwidth(r) == 1
//@ fn App1::handle ret r
    requires arms_distinct(1), dm_total(*old(self).device_map) <= 0xffff,
    ensures handle_post(1, *old(self).device_map, tx.kkind, *hdr, body@, old(lg).v, final(lg).v, r is Ok)
//@ hint start
    proof { push_facts(); key_eq(); arm_facts(1); }
//@ hint after /let Ok\(keyb\)/
    proof { assert(seq![keyb.0] =~= compact(kbytes(hdr.key), 1)); }
//@ fn App2::min_key_len ret r
    ensures kwidth(r) == 2
//@ fn App2::handle ret r
    requires arms_distinct(2), dm_total(*old(self).device_map) <= 0xffff,
    ensures handle_post(2, *old(self).device_map, tx.kkind, *hdr, body@, old(lg).v, final(lg).v, r is Ok)
//@ hint start
    proof { push_facts(); key_eq(); arm_facts(2); }
//@ hint after /let Ok\(keyb\)/
    proof { assert(keyb.0@ =~= compact(kbytes(hdr.key), 2)); }
//@ fn App4::min_key_len ret r
    ensures kwidth(r) == 4
//@ fn App4::handle ret r
    requires arms_distinct(4), dm_total(*old(self).device_map) <= 0xffff,
    ensures handle_post(4, *old(self).device_map, tx.kkind, *hdr, body@, old(lg).v, final(lg).v, r is Ok)
//@ hint start
    proof { push_facts(); key_eq(); arm_facts(4); }
//@ hint after /let Ok\(keyb\)/
    proof { assert(keyb.0@ =~= compact(kbytes(hdr.key), 4)); }
//@ fn App8::min_key_len ret r
    ensures kwidth(r) == 8
//@ fn App8::handle ret r
    requires arms_distinct(8), dm_total(*old(self).device_map) <= 0xffff,
    ensures handle_post(8, *old(self).device_map, tx.kkind, *hdr, body@, old(lg).v, final(lg).v, r is Ok)
//@ hint start
    proof { push_facts(); key_eq(); arm_facts(8); }
//@ hint after /let Ok\(keyb\)/
    proof { assert(keyb.0@ =~= compact(kbytes(hdr.key), 8)); }
//@ text
