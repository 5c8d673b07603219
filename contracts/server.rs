// =====================================================================
// Server unit: contracts for server/mod.rs (Server::run, Sender::*)
// =====================================================================

// ----- dependencies (stand-ins; only their names and the listed contracts are used) -----
trait Serialize {}
trait Schema {}
struct Arguments<'a> { a: &'a u8 }
struct NamedType { n: u8 }
struct OwnedNamedType { n: u8 }
/// postcard's encoding of a value
uninterp spec fn ser<T: ?Sized>(t: &T) -> Seq<u8>;
/// the conversions `(*ty).into()` and `path.into()` used when describing the device
uninterp spec fn owned_ty(t: &NamedType) -> OwnedNamedType;
uninterp spec fn owned_str(t: &str) -> String;
trait VxInto<T>: Sized { spec fn into_spec(self) -> T; fn vx_into(self) -> (r: T) ensures r == self.into_spec(); }
impl VxInto<OwnedNamedType> for &NamedType {
    spec fn into_spec(self) -> OwnedNamedType { owned_ty(self) }
    #[verifier::external_body] fn vx_into(self) -> (r: OwnedNamedType) { unimplemented!() }
}
impl VxInto<String> for &str {
    spec fn into_spec(self) -> String { owned_str(self) }
    #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() }
}
impl Schema for OwnedSchemaData {}
impl Serialize for OwnedSchemaData {}
impl Schema for WireError {}
impl Serialize for WireError {}
impl Schema for SchemaTotals {}
impl Serialize for SchemaTotals {}
impl Schema for () {}
impl Schema for u32 {}
type SchemaData = OwnedSchemaData;
// keys are hashes computed by postcard-schema: any value
struct GetAllSchemasEndpoint;
struct GetAllSchemaDataTopic;
impl Endpoint for GetAllSchemasEndpoint { type Request = (); type Response = SchemaTotals; const PATH: &'static str = ""; #[verifier::external_body] const REQ_KEY: Key = Key([1; 8]); #[verifier::external_body] const RESP_KEY: Key = Key([2; 8]); }
impl Topic for GetAllSchemaDataTopic { type Message = OwnedSchemaData; const PATH: &'static str = ""; #[verifier::external_body] const TOPIC_KEY: Key = Key([3; 8]); }
uninterp spec fn error_key() -> Key;
#[verifier::external_body]
fn vx_error_key() -> (r: Key) ensures r == error_key() { unimplemented!() }
/// the receive buffer: anything that derefs to a byte slice (the implicit deref is made explicit)
trait VxBuf: Sized { fn vx_deref_mut(&mut self) -> &mut [u8]; }

// ----- ghost logs -----
ghost enum Ev { Tx(VarHeader, Seq<u8>, bool), Log(VarKeyKind, bool), Call(int, VarHeader, int), Spawn(int, VarHeader, int, bool) }
/// frames handed to the transport and handlers run, in order, and whether the transport accepted them
tracked struct TxLog { ghost v: Seq<Ev> }
ghost enum Sv { Rx(Option<Seq<u8>>, WireRxErrorKind), Handle(VarHeader, Seq<u8>, Option<WireTxErrorKind>) }
/// what the server loop did: receives and dispatches, in order
tracked struct SvLog { ghost v: Seq<Sv> }
uninterp spec fn rxkind<E: ?Sized>(e: &E) -> WireRxErrorKind;
uninterp spec fn txkind<E: ?Sized>(e: &E) -> WireTxErrorKind;
#[verifier::external_body]
broadcast proof fn axiom_rxkind(k: WireRxErrorKind) ensures #[trigger] rxkind(&k) == k {}
#[verifier::external_body]
broadcast proof fn axiom_txkind(k: WireTxErrorKind) ensures #[trigger] txkind(&k) == k {}

/// a key shortened to the negotiated width
spec fn short(k: Key, kk: VarKeyKind) -> VarKey { match kk {
    VarKeyKind::Key1 => VarKey::Key1(Key1(compact(k.0@, 1)[0])),
    VarKeyKind::Key2 => VarKey::Key2(mk2(compact(k.0@, 2))),
    VarKeyKind::Key4 => VarKey::Key4(mk4(compact(k.0@, 4))),
    VarKeyKind::Key8 => VarKey::Key8(k),
} }
spec fn is_short(v: VarKey, k: Key, kk: VarKeyKind) -> bool { kbytes(v) == compact(k.0@, kwidth(kk)) && kbytes(v).len() == kwidth(kk) }
spec fn one_tx(a: Seq<Ev>, b: Seq<Ev>, key: Key, kk: VarKeyKind, seq: VarSeq, body: Seq<u8>, ok: bool) -> bool {
    b.len() == a.len() + 1 && b.drop_last() == a && (b.last() matches Ev::Tx(h, bd, o) && is_short(h.key, key, kk) && h.seq_no == seq && bd == body && o == ok)
}

proof fn push_facts() ensures forall|a: Seq<Ev>, x: Ev| #[trigger] a.push(x).drop_last() == a, forall|a: Seq<Ev>, x: Ev| #[trigger] a.push(x).last() == x
{ assert forall|a: Seq<Ev>, x: Ev| #[trigger] a.push(x).drop_last() == a by { assert(a.push(x).drop_last() =~= a); } }
proof fn spush_facts() ensures forall|a: Seq<Sv>, x: Sv| #[trigger] a.push(x).drop_last() == a
{ assert forall|a: Seq<Sv>, x: Sv| #[trigger] a.push(x).drop_last() == a by { assert(a.push(x).drop_last() =~= a); } }
proof fn take_all() ensures forall|a: Seq<Ev>| #[trigger] a.take(a.len() as int) == a
{ assert forall|a: Seq<Ev>| #[trigger] a.take(a.len() as int) == a by { assert(a.take(a.len() as int) =~= a); } }
//@ fn AsWireTxErrorKind::as_kind ret r
    ensures r == txkind(self)
//@ fn AsWireRxErrorKind::as_kind ret r
    ensures r == rxkind(self)
//@ fn <WireTxErrorKind as AsWireTxErrorKind>::as_kind
//@ hint start
    proof { axiom_txkind(*self); }
//@ fn <WireRxErrorKind as AsWireRxErrorKind>::as_kind
//@ hint start
    proof { axiom_rxkind(*self); }
//@ fn WireTx::send ret r
    ensures final(lg).v == old(lg).v.push(Ev::Tx(hdr, ser(msg), r is Ok))
//@ fn WireTx::send_log_str ret r
    ensures final(lg).v == old(lg).v.push(Ev::Log(kkind, r is Ok))
//@ fn WireTx::send_log_fmt ret r
    ensures final(lg).v == old(lg).v.push(Ev::Log(kkind, r is Ok))
//@ fn WireRx::receive ret r
    ensures match r { Ok(u) => final(sv).v == old(sv).v.push(Sv::Rx(Some(u@), WireRxErrorKind::Other)), Err(e) => final(sv).v == old(sv).v.push(Sv::Rx(None, rxkind(&e))) }
//@ fn Dispatch::handle ret r
    ensures final(sv).v == old(sv).v.push(Sv::Handle(*hdr, body@, match r { Ok(_) => None, Err(e) => Some(txkind(&e)) }))
//@ fn Sender::new ret r
    ensures r.kkind == kkind, r.tx == tx
//@ fn Sender::reply ret r
    ensures one_tx(old(lg).v, final(lg).v, E::RESP_KEY, self.kkind, seq_no, ser(resp), r is Ok)
//@ hint start
    proof { push_facts(); }
//@ fn Sender::reply_keyed ret r
    ensures one_tx(old(lg).v, final(lg).v, key, self.kkind, seq_no, ser(resp), r is Ok)
//@ hint start
    proof { push_facts(); }
//@ fn Sender::publish ret r
    ensures one_tx(old(lg).v, final(lg).v, T::TOPIC_KEY, self.kkind, seq_no, ser(msg), r is Ok)
//@ hint start
    proof { push_facts(); }
//@ fn Sender::log_str ret r
    ensures final(lg).v == old(lg).v.push(Ev::Log(self.kkind, r is Ok))
//@ fn Sender::log_fmt ret r
    ensures final(lg).v == old(lg).v.push(Ev::Log(self.kkind, r is Ok))
//@ fn Sender::error ret r
    ensures one_tx(old(lg).v, final(lg).v, error_key(), self.kkind, seq_no, ser(&error), r is Ok)
//@ fn Sender::send_all_schemas ret r
    requires dm_total(*device_map) <= 0xffff,
    ensures
        sent_ok(*device_map, self.kkind, old(lg).v, final(lg).v.drop_last(), dm_total(*device_map)),
        one_tx(final(lg).v.drop_last(), final(lg).v, GetAllSchemasEndpoint::RESP_KEY, self.kkind, hdr.seq_no, ser(&SchemaTotals {
            types_sent: device_map.types@.len() as u32, endpoints_sent: device_map.endpoints@.len() as u32,
            topics_in_sent: device_map.topics_in@.len() as u32, topics_out_sent: device_map.topics_out@.len() as u32,
            errors: nfail(final(lg).v.drop_last(), old(lg).v.len() as int) as u32 }), r is Ok),
//@ hint start
    proof { push_facts(); take_all(); }
//@ loop 0
    invariant sent_ok(*device_map, self.kkind, old(lg).v, lg.v, 0 + __i0), msg_ctr == 0 + __i0, err_ctr == nfail(lg.v, old(lg).v.len() as int), __s0@ == device_map.types@,
        dm_total(*device_map) <= 0xffff, __i0 <= __s0@.len(),
    decreases __s0@.len() - __i0
//@ hint loop 0 start
    let ghost l0 = lg.v;
    proof { nfail_push(lg.v, old(lg).v.len() as int); }
//@ hint loop 0 end
    proof { take_step(old(lg).v, l0, lg.v); }
//@ loop 1
    invariant sent_ok(*device_map, self.kkind, old(lg).v, lg.v, device_map.types@.len() + __i1), msg_ctr == device_map.types@.len() + __i1, err_ctr == nfail(lg.v, old(lg).v.len() as int), __s1@ == device_map.endpoints@,
        dm_total(*device_map) <= 0xffff, __i1 <= __s1@.len(),
    decreases __s1@.len() - __i1
//@ hint loop 1 start
    let ghost l0 = lg.v;
    proof { nfail_push(lg.v, old(lg).v.len() as int); }
//@ hint loop 1 end
    proof { take_step(old(lg).v, l0, lg.v); }
//@ loop 2
    invariant sent_ok(*device_map, self.kkind, old(lg).v, lg.v, device_map.types@.len() + device_map.endpoints@.len() + __i2), msg_ctr == device_map.types@.len() + device_map.endpoints@.len() + __i2, err_ctr == nfail(lg.v, old(lg).v.len() as int), __s2@ == device_map.topics_out@,
        dm_total(*device_map) <= 0xffff, __i2 <= __s2@.len(),
    decreases __s2@.len() - __i2
//@ hint loop 2 start
    let ghost l0 = lg.v;
    proof { nfail_push(lg.v, old(lg).v.len() as int); }
//@ hint loop 2 end
    proof { take_step(old(lg).v, l0, lg.v); }
//@ loop 3
    invariant sent_ok(*device_map, self.kkind, old(lg).v, lg.v, device_map.types@.len() + device_map.endpoints@.len() + device_map.topics_out@.len() + __i3), msg_ctr == device_map.types@.len() + device_map.endpoints@.len() + device_map.topics_out@.len() + __i3, err_ctr == nfail(lg.v, old(lg).v.len() as int), __s3@ == device_map.topics_in@,
        dm_total(*device_map) <= 0xffff, __i3 <= __s3@.len(),
    decreases __s3@.len() - __i3
//@ hint loop 3 start
    let ghost l0 = lg.v;
    proof { nfail_push(lg.v, old(lg).v.len() as int); }
//@ hint loop 3 end
    proof { take_step(old(lg).v, l0, lg.v); }
//@ fn Server::new ret r
    ensures r.tx.kkind == kkind, r.tx.tx == tx, r.rx == rx, r.buf == buf, r.dis == dis
//@ fn Server::sender ret r
//@ fn Server::run ret r
    requires old(sv).v.len() == 0,
    ensures
        match r {
            ServerError::RxFatal(e) => final(sv).v.len() > 0 && steady(final(sv).v.drop_last()) && final(sv).v.last() == Sv::Rx(None, WireRxErrorKind::ConnectionClosed) && rxkind(&e) is ConnectionClosed,
            ServerError::TxFatal(e) => final(sv).v.len() > 1 && steady(final(sv).v.drop_last().drop_last()) && fatal_pair(final(sv).v) && final(sv).v.last()->Handle_2 == Some(txkind(&e)),
        }
//@ hint loop 0 start
    proof { spush_facts(); }
//@ attr
#[verifier::exec_allows_no_decreases_clause]
//@ loop 0
    invariant steady(sv.v)
//@ text
/// how many schema messages a device description has, and which is the i-th
spec fn dm_total(d: DeviceMap) -> int { (d.types@.len() + d.endpoints@.len() + d.topics_out@.len() + d.topics_in@.len()) as int }
spec fn schema_msg(d: DeviceMap, i: int) -> OwnedSchemaData {
    let (t, e, o) = (d.types@.len() as int, d.endpoints@.len() as int, d.topics_out@.len() as int);
    if i < t { OwnedSchemaData::Type(owned_ty(d.types@[i])) }
    else if i < t + e { OwnedSchemaData::Endpoint { path: owned_str(d.endpoints@[i - t].0), request_key: d.endpoints@[i - t].1, response_key: d.endpoints@[i - t].2 } }
    else if i < t + e + o { OwnedSchemaData::Topic { direction: TopicDirection::ToClient, path: owned_str(d.topics_out@[i - t - e].0), key: d.topics_out@[i - t - e].1 } }
    else { OwnedSchemaData::Topic { direction: TopicDirection::ToServer, path: owned_str(d.topics_in@[i - t - e - o].0), key: d.topics_in@[i - t - e - o].1 } }
}
/// the first n schema messages have been handed to the transport after `a`, each once
spec fn sent_ok(d: DeviceMap, kk: VarKeyKind, a: Seq<Ev>, b: Seq<Ev>, n: int) -> bool {
    b.len() == a.len() + n && b.take(a.len() as int) == a && forall|i: int| 0 <= i < n ==> (#[trigger] b[a.len() + i] matches Ev::Tx(h, bd, _) &&
        is_short(h.key, GetAllSchemaDataTopic::TOPIC_KEY, kk) && h.seq_no == VarSeq::Seq2(i as u16) && bd == ser(&schema_msg(d, i)))
}
/// how many sends after position k failed
spec fn nfail(b: Seq<Ev>, k: int) -> int decreases b.len() {
    if b.len() <= k || b.len() == 0 { 0 } else { nfail(b.drop_last(), k) + if (b.last() matches Ev::Tx(_, _, ok) && !ok) { 1int } else { 0 } }
}
proof fn nfail_push(b: Seq<Ev>, k: int) requires 0 <= k ensures 0 <= nfail(b, k) <= (if b.len() > k { b.len() - k } else { 0 }) decreases b.len() { if b.len() > 0 { nfail_push(b.drop_last(), k); } }
proof fn take_step(a: Seq<Ev>, b: Seq<Ev>, c: Seq<Ev>) requires b.len() >= a.len(), b.take(a.len() as int) == a, c.len() == b.len() + 1, c.drop_last() == b
    ensures c.take(a.len() as int) == a, forall|i: int| 0 <= i < b.len() ==> #[trigger] c[i] == b[i]
{ assert(c.take(a.len() as int) =~= b.take(a.len() as int)); assert forall|i: int| 0 <= i < b.len() implies #[trigger] c[i] == b[i] by { assert(c.drop_last()[i] == c[i]); } }
/// the frame at the end of the log was dispatched with exactly its header and the bytes after it
spec fn pair_ok(e: Seq<Sv>) -> bool {
    e.len() >= 2 && (e.last() matches Sv::Handle(h, body, k) && (e[e.len() - 2] matches Sv::Rx(Some(b), _) && dec_ok(b) && enc(h) + body == b))
}
spec fn fatal_pair(e: Seq<Sv>) -> bool { pair_ok(e) && (e.last()->Handle_2 matches Some(k) && (k is ConnectionClosed || k is Timeout)) }
/// every step so far was one the loop survives: a frame without a header skipped, a decodable frame
/// dispatched once straight away, a transient error ignored
spec fn steady(e: Seq<Sv>) -> bool decreases e.len() {
    if e.len() == 0 { true } else { match e.last() {
        Sv::Rx(None, k) => !(k is ConnectionClosed) && steady(e.drop_last()),
        Sv::Rx(Some(b), _) => !dec_ok(b) && steady(e.drop_last()),
        Sv::Handle(h, body, k) => pair_ok(e) && !fatal_pair(e) && steady(e.drop_last().drop_last()),
    } }
}
// ----- C06 over the log: the decodable frames received are exactly the frames dispatched, in order -----
spec fn frames(e: Seq<Sv>) -> Seq<Seq<u8>> decreases e.len() {
    if e.len() == 0 { Seq::empty() } else { match e.last() { Sv::Rx(Some(b), _) if dec_ok(b) => frames(e.drop_last()).push(b), _ => frames(e.drop_last()) } }
}
spec fn handled(e: Seq<Sv>) -> Seq<(VarHeader, Seq<u8>)> decreases e.len() {
    if e.len() == 0 { Seq::empty() } else { match e.last() { Sv::Handle(h, body, _) => handled(e.drop_last()).push((h, body)), _ => handled(e.drop_last()) } }
}
spec fn matches_frames(e: Seq<Sv>) -> bool {
    handled(e).len() == frames(e).len() && forall|i: int| 0 <= i < frames(e).len() ==> enc((#[trigger] handled(e)[i]).0) + handled(e)[i].1 == frames(e)[i]
}
proof fn thm_c06_exactly_once_in_order(e: Seq<Sv>) requires steady(e) ensures matches_frames(e) decreases e.len()
{
    if e.len() > 0 { match e.last() {
        Sv::Handle(h, body, k) => { thm_c06_pair(e); },
        _ => { thm_c06_exactly_once_in_order(e.drop_last()); },
    } }
}
proof fn thm_c06_pair(e: Seq<Sv>) requires pair_ok(e), steady(e.drop_last().drop_last()) ensures matches_frames(e) decreases e.len(), 0nat
{
    let d = e.drop_last();
    assert(d.last() == e[e.len() - 2]);
    thm_c06_exactly_once_in_order(d.drop_last());
    assert(handled(d) == handled(d.drop_last()));
    assert(frames(e) == frames(d));
}
/// when the loop ends, every decodable frame was still dispatched exactly once, in order
proof fn thm_c06_at_exit(e: Seq<Sv>) requires e.len() > 0, (steady(e.drop_last()) && e.last() == Sv::Rx(None, WireRxErrorKind::ConnectionClosed)) || (e.len() > 1 && steady(e.drop_last().drop_last()) && fatal_pair(e))
    ensures matches_frames(e)
{ if fatal_pair(e) { thm_c06_pair(e); } else { thm_c06_exactly_once_in_order(e.drop_last()); } }
