// =====================================================================
// Schema report unit: contracts for SchemaReport and HostClient::get_schema_report
// =====================================================================
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::FromSpecImpl;

// ----- dependencies (stand-ins; only their names and the listed contracts are used) -----
#[derive(Clone, Copy)]
struct Key([u8; 8]);
impl PartialEqSpecImpl for Key { closed spec fn obeys_eq_spec() -> bool { true } closed spec fn eq_spec(&self, o: &Key) -> bool { self == o } }
impl PartialEq for Key { #[verifier::external_body] fn eq(&self, o: &Key) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
struct OwnedNamedType { n: u8 }
impl Clone for OwnedNamedType { #[verifier::external_body] fn clone(&self) -> (r: OwnedNamedType) ensures r == *self { unimplemented!() } }
/// the key of a type at a path
uninterp spec fn key_of(path: Seq<char>, t: OwnedNamedType) -> Key;
impl Key { #[verifier::external_body] fn for_owned_schema_path(path: &String, t: &OwnedNamedType) -> (r: Key) ensures r == key_of(path@, *t) { unimplemented!() } }
struct HashSet<T> { t: Vec<T> }
impl<T> HashSet<T> {
    uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body] fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t) { unimplemented!() }
    /// iteration: every element, in some order
    #[verifier::external_body] fn vx_items(&self) -> (r: &[T]) ensures forall|t: T| #[trigger] self@.contains(t) <==> exists|i: int| 0 <= i < r@.len() && r@[i] == t { unimplemented!() }
}
#[verifier::external_body] fn vx_unreachable() requires false { unimplemented!() }
/// `for x in v`: the items of an owned vector, by value
#[verifier::external_body] fn vx_item<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
trait DeserializeOwned {}
trait Schema {}
struct IoClosed;
struct GetAllSchemaDataTopic;
struct GetAllSchemasEndpoint;
struct JoinError;
struct PostcardError;
struct Sub { x: u8 }
/// what the client received while building the report: the schema messages, and the device's totals
tracked struct RptLog { ghost msgs: Seq<OwnedSchemaData>, ghost resp: Option<SchemaTotals> }
struct HostClient<WireErr> { x: WireErr }
impl<WireErr> HostClient<WireErr> {
    #[verifier::external_body] fn subscribe_multi<T>(&self, depth: usize) -> (r: Result<Sub, IoClosed>) { unimplemented!() }
    #[verifier::external_body] fn send_resp<E>(&self, t: &(), Tracked(lg): Tracked<&mut RptLog>) -> (r: Result<SchemaTotals, HostErr<WireErr>>)
        ensures final(lg).msgs == old(lg).msgs, final(lg).resp == (match r { Ok(v) => Some(v), Err(_) => None }) { unimplemented!() }
}
#[verifier::external_body] fn vx_recv_timeout(s: &mut Sub, Tracked(lg): Tracked<&mut RptLog>) -> (r: Result<Result<OwnedSchemaData, ()>, ()>)
    ensures final(lg).resp == old(lg).resp, final(lg).msgs == (match r { Ok(Ok(v)) => old(lg).msgs.push(v), _ => old(lg).msgs }) { unimplemented!() }
/// a spawned task's output, unless the task is aborted or panics
#[verifier::external_body] fn vx_spawn<T>(v: T) -> (r: Result<T, JoinError>) ensures r matches Ok(x) ==> x == v { unimplemented!() }
/// the schema of a type, as `Schema` gives it
uninterp spec fn schema_of<T>() -> OwnedNamedType;
#[verifier::external_body] fn vx_owned<T>() -> (r: OwnedNamedType) ensures r == schema_of::<T>() { unimplemented!() }
impl<T> HashSet<T> { #[verifier::external_body] fn new() -> (r: HashSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() } }
/// the types every device has and none announces
pub closed spec fn prims() -> Set<OwnedNamedType> {
    Set::empty().insert(schema_of::<bool>()).insert(schema_of::<i8>()).insert(schema_of::<u8>()).insert(schema_of::<i16>()).insert(schema_of::<i32>()).insert(schema_of::<i64>()).insert(schema_of::<i128>()).insert(schema_of::<u16>()).insert(schema_of::<u32>()).insert(schema_of::<u64>()).insert(schema_of::<u128>()).insert(schema_of::<f32>()).insert(schema_of::<f64>()).insert(schema_of::<char>()).insert(schema_of::<String>()).insert(schema_of::<Vec<u8>>()).insert(schema_of::<()>()).insert(schema_of::<OwnedNamedType>())
}
pub closed spec fn fresh(r: SchemaReport) -> bool { r.types@ =~= prims() && r.topics_in@.len() == 0 && r.topics_out@.len() == 0 && r.endpoints@.len() == 0 }
impl<WireErr> FromSpecImpl<UnableToFindType> for SchemaError<WireErr> { closed spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(e: UnableToFindType) -> SchemaError<WireErr> { SchemaError::InvalidReportData } }

// ----- specification -----
/// `t` is a known type with this key
spec fn found(tys: Set<OwnedNamedType>, path: Seq<char>, key: Key, t: OwnedNamedType) -> bool { tys.contains(t) && key_of(path, t) == key }
spec fn lost(tys: Set<OwnedNamedType>, path: Seq<char>, key: Key) -> bool { forall|t: OwnedNamedType| #[trigger] tys.contains(t) ==> key_of(path, t) != key }
spec fn tp_ok(tys: Set<OwnedNamedType>, path: Seq<char>, key: Key, t: TopicReport) -> bool { t.path@ == path && t.key == key && found(tys, path, key, t.ty) }
spec fn ep_ok(tys: Set<OwnedNamedType>, path: Seq<char>, rq: Key, rs: Key, e: EndpointReport) -> bool { e.path@ == path && e.req_key == rq && e.resp_key == rs && found(tys, path, rq, e.req_ty) && found(tys, path, rs, e.resp_ty) }
/// the types in a stream of messages
spec fn types_of(m: Seq<OwnedSchemaData>) -> Set<OwnedNamedType> decreases m.len() {
    if m.len() == 0 { prims() } else { match m.last() { OwnedSchemaData::Type(t) => types_of(m.drop_last()).insert(t), _ => types_of(m.drop_last()) } }
}
spec fn n_types(m: Seq<OwnedSchemaData>) -> int decreases m.len() { if m.len() == 0 { 0 } else { n_types(m.drop_last()) + if m.last() is Type { 1int } else { 0 } } }
/// the endpoints and topics among the messages, in order
spec fn anns(m: Seq<OwnedSchemaData>) -> Seq<OwnedSchemaData> decreases m.len() { if m.len() == 0 { Seq::empty() } else if m.last() is Type { anns(m.drop_last()) } else { anns(m.drop_last()).push(m.last()) } }
/// the report lists exactly the announced endpoints and topics, in order, each with a known type for each of its keys
spec fn listed(tys: Set<OwnedNamedType>, a: Seq<OwnedSchemaData>, ep: Seq<EndpointReport>, ti: Seq<TopicReport>, to: Seq<TopicReport>) -> bool decreases a.len() {
    if a.len() == 0 { ep.len() == 0 && ti.len() == 0 && to.len() == 0 }
    else {
        let b = a.drop_last();
        match a.last() {
            OwnedSchemaData::Type(_) => listed(tys, b, ep, ti, to),
            OwnedSchemaData::Endpoint { path, request_key, response_key } => ep.len() > 0 && ep_ok(tys, path@, request_key, response_key, ep.last()) && listed(tys, b, ep.drop_last(), ti, to),
            OwnedSchemaData::Topic { path, key, direction } => match direction {
                TopicDirection::ToServer => ti.len() > 0 && tp_ok(tys, path@, key, ti.last()) && listed(tys, b, ep, ti.drop_last(), to),
                TopicDirection::ToClient => to.len() > 0 && tp_ok(tys, path@, key, to.last()) && listed(tys, b, ep, ti, to.drop_last()),
            },
        }
    }
}
/// some announced key belongs to no known type
spec fn unresolved(tys: Set<OwnedNamedType>, e: OwnedSchemaData) -> bool {
    match e {
        OwnedSchemaData::Type(_) => false,
        OwnedSchemaData::Endpoint { path, request_key, response_key } => lost(tys, path@, request_key) || lost(tys, path@, response_key),
        OwnedSchemaData::Topic { path, key, direction } => lost(tys, path@, key),
    }
}
spec fn totals(m: Seq<OwnedSchemaData>, ep: int, ti: int, to: int, t: SchemaTotals) -> bool { t.types_sent == n_types(m) && t.endpoints_sent == ep && t.topics_in_sent == ti && t.topics_out_sent == to && t.errors == 0 }
spec fn n_ep(a: Seq<OwnedSchemaData>) -> int decreases a.len() { if a.len() == 0 { 0 } else { n_ep(a.drop_last()) + if a.last() is Endpoint { 1int } else { 0 } } }
spec fn n_tp(a: Seq<OwnedSchemaData>, d: TopicDirection) -> int decreases a.len() { if a.len() == 0 { 0 } else { n_tp(a.drop_last(), d) + if a.last() is Topic && a.last()->direction == d { 1int } else { 0 } } }
spec fn consistent(m: Seq<OwnedSchemaData>, t: SchemaTotals) -> bool {
    (forall|i: int| 0 <= i < anns(m).len() ==> !unresolved(types_of(m), #[trigger] anns(m)[i])) && totals(m, n_ep(anns(m)), n_tp(anns(m), TopicDirection::ToServer), n_tp(anns(m), TopicDirection::ToClient), t)
}
proof fn listed_counts(tys: Set<OwnedNamedType>, a: Seq<OwnedSchemaData>, ep: Seq<EndpointReport>, ti: Seq<TopicReport>, to: Seq<TopicReport>)
    requires listed(tys, a, ep, ti, to)
    ensures ep.len() == n_ep(a), ti.len() == n_tp(a, TopicDirection::ToServer), to.len() == n_tp(a, TopicDirection::ToClient), forall|i: int| 0 <= i < a.len() ==> !unresolved(tys, #[trigger] a[i])
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        match a.last() {
            OwnedSchemaData::Type(_) => listed_counts(tys, b, ep, ti, to),
            OwnedSchemaData::Endpoint { path, request_key, response_key } => listed_counts(tys, b, ep.drop_last(), ti, to),
            OwnedSchemaData::Topic { path, key, direction } => match direction { TopicDirection::ToServer => listed_counts(tys, b, ep, ti.drop_last(), to), TopicDirection::ToClient => listed_counts(tys, b, ep, ti, to.drop_last()) },
        }
        assert forall|i: int| 0 <= i < a.len() implies !unresolved(tys, #[trigger] a[i]) by { if i < b.len() { assert(a[i] == b[i]); } else { assert(a[i] == a.last()); } }
    }
}
/// a report is produced exactly for consistent streams, and it lists what was announced
spec fn report_post<W>(lg: RptLog, r: Result<SchemaReport, SchemaError<W>>) -> bool {
    let m = lg.msgs;
    match r {
        Ok(p) => lg.resp is Some && consistent(m, lg.resp->0) && p.types@ == types_of(m) && listed(types_of(m), anns(m), p.endpoints@, p.topics_in@, p.topics_out@),
        Err(SchemaError::InvalidReportData) => lg.resp is Some && exists|i: int| 0 <= i < anns(m).len() && unresolved(types_of(m), #[trigger] anns(m)[i]),
        Err(SchemaError::LostData) => lg.resp is Some && !consistent(m, lg.resp->0),
        Err(_) => true,
    }
}
proof fn thm_c18_no_wrong_report<W>(lg: RptLog, r: Result<SchemaReport, SchemaError<W>>)
    requires report_post(lg, r), lg.resp is Some, !consistent(lg.msgs, lg.resp->0)
    ensures r is Err
{}

// ----- contracts on the code -----
//@ fn <SchemaError as From<UnableToFindType>>::from ret r
//@ fn <SchemaReport as Default>::default ret r
    ensures fresh(r)
//@ fn SchemaReport::add_type
    ensures final(self).types@ == old(self).types@.insert(t), final(self).topics_in == old(self).topics_in, final(self).topics_out == old(self).topics_out, final(self).endpoints == old(self).endpoints
//@ fn SchemaReport::add_topic_in ret r
    ensures final(self).types == old(self).types, final(self).topics_out == old(self).topics_out, final(self).endpoints == old(self).endpoints,
        match r {
            Ok(_) => final(self).topics_in@.len() == old(self).topics_in@.len() + 1 && final(self).topics_in@.drop_last() == old(self).topics_in@ && tp_ok(old(self).types@, path@, key, final(self).topics_in@.last()),
            Err(_) => final(self).topics_in == old(self).topics_in && lost(old(self).types@, path@, key),
        }
//@ loop 0
    invariant __i0 <= __s0@.len(), *self == *old(self), forall|t: OwnedNamedType| #[trigger] self.types@.contains(t) <==> exists|i: int| 0 <= i < __s0@.len() && __s0@[i] == t, forall|i: int| 0 <= i < __i0 ==> key_of(path@, #[trigger] __s0@[i]) != key
    decreases __s0@.len() - __i0
//@ hint before /self\s*\.topics_in\s*\.push/
    proof { assert(self.types@.contains(*ty)); }
//@ hint before /return Ok/
    proof { assert(self.topics_in@.drop_last() =~= old(self).topics_in@); }
//@ fn SchemaReport::add_topic_out ret r
    ensures final(self).types == old(self).types, final(self).topics_in == old(self).topics_in, final(self).endpoints == old(self).endpoints,
        match r {
            Ok(_) => final(self).topics_out@.len() == old(self).topics_out@.len() + 1 && final(self).topics_out@.drop_last() == old(self).topics_out@ && tp_ok(old(self).types@, path@, key, final(self).topics_out@.last()),
            Err(_) => final(self).topics_out == old(self).topics_out && lost(old(self).types@, path@, key),
        }
//@ loop 0
    invariant __i0 <= __s0@.len(), *self == *old(self), forall|t: OwnedNamedType| #[trigger] self.types@.contains(t) <==> exists|i: int| 0 <= i < __s0@.len() && __s0@[i] == t, forall|i: int| 0 <= i < __i0 ==> key_of(path@, #[trigger] __s0@[i]) != key
    decreases __s0@.len() - __i0
//@ hint before /self\s*\.topics_out\s*\.push/
    proof { assert(self.types@.contains(*ty)); }
//@ hint before /return Ok/
    proof { assert(self.topics_out@.drop_last() =~= old(self).topics_out@); }
//@ fn SchemaReport::add_endpoint ret r
    ensures final(self).types == old(self).types, final(self).topics_in == old(self).topics_in, final(self).topics_out == old(self).topics_out,
        match r {
            Ok(_) => final(self).endpoints@.len() == old(self).endpoints@.len() + 1 && final(self).endpoints@.drop_last() == old(self).endpoints@ && ep_ok(old(self).types@, path@, req_key, resp_key, final(self).endpoints@.last()),
            Err(_) => final(self).endpoints == old(self).endpoints && (lost(old(self).types@, path@, req_key) || lost(old(self).types@, path@, resp_key)),
        }
//@ loop 0
    invariant_except_break req_ty is None, forall|i: int| 0 <= i < __i0 ==> key_of(path@, #[trigger] __s0@[i]) != req_key, __i0 <= __s0@.len(), *self == *old(self), forall|t: OwnedNamedType| #[trigger] self.types@.contains(t) <==> exists|i: int| 0 <= i < __s0@.len() && __s0@[i] == t
    ensures *self == *old(self), match req_ty { Some(t) => found(self.types@, path@, req_key, t), None => lost(self.types@, path@, req_key) }
    decreases __s0@.len() - __i0
//@ loop 1
    invariant_except_break resp_ty is None, forall|i: int| 0 <= i < __i1 ==> key_of(path@, #[trigger] __s1@[i]) != resp_key, __i1 <= __s1@.len(), *self == *old(self), forall|t: OwnedNamedType| #[trigger] self.types@.contains(t) <==> exists|i: int| 0 <= i < __s1@.len() && __s1@[i] == t
    ensures *self == *old(self), match resp_ty { Some(t) => found(self.types@, path@, resp_key, t), None => lost(self.types@, path@, resp_key) }
    decreases __s1@.len() - __i1
//@ hint before /Ok\(\(\)\)\s*$/
    proof { assert(self.endpoints@.drop_last() =~= old(self).endpoints@); }
//@ fn HostClient::get_schema_report ret r
    requires old(lg).msgs.len() == 0, old(lg).resp is None
    ensures report_post(*final(lg), r)
//@ attr
    #[verifier::exec_allows_no_decreases_clause]
//@ loop 0
    invariant got@ == lg.msgs, lg.resp is None
//@ hint after /let mut types_received/
    let ghost m = lg.msgs; let ghost tys = types_of(m);
    proof { assert(data@.take(0) =~= Seq::<OwnedSchemaData>::empty()); assert(data@ =~= m); }
//@ loop 1
    invariant __i1 <= __s1@.len(), __s1@ == m, e_and_t@ == anns(m.take(__i1 as int)), types_received == n_types(m.take(__i1 as int)), rpt.types@ == types_of(m.take(__i1 as int)), rpt.endpoints@.len() == 0, rpt.topics_in@.len() == 0, rpt.topics_out@.len() == 0, types_received <= __i1
    decreases __s1@.len() - __i1
//@ hint loop 1 start
    proof { assert(m.take(__i1 + 1).drop_last() =~= m.take(__i1 as int)); assert(m.take(__i1 + 1).last() == m[__i1 as int]); }
//@ hint loop 1 after
    proof { assert(m.take(m.len() as int) =~= m); no_types(m); assert(anns(m).take(0) =~= Seq::<OwnedSchemaData>::empty()); }
//@ loop 2
    invariant __i2 <= __s2@.len(), __s2@ == anns(m), lg.msgs == m, lg.resp is Some, rpt.types@ == tys, tys == types_of(m), forall|i: int| 0 <= i < anns(m).len() ==> !((#[trigger] anns(m)[i]) is Type), listed(tys, anns(m).take(__i2 as int), rpt.endpoints@, rpt.topics_in@, rpt.topics_out@)
    decreases __s2@.len() - __i2
//@ hint loop 2 start
    let ghost a = anns(m); let ghost i = __i2 as int;
    proof { assert(a.take(i + 1).drop_last() =~= a.take(i)); assert(a.take(i + 1).last() == a[i]); assert(!(a[i] is Type)); }
//@ hint loop 2 after
    proof { assert(anns(m).take(anns(m).len() as int) =~= anns(m)); listed_counts(tys, anns(m), rpt.endpoints@, rpt.topics_in@, rpt.topics_out@); }
//@ text
proof fn no_types(m: Seq<OwnedSchemaData>) ensures forall|i: int| 0 <= i < anns(m).len() ==> !((#[trigger] anns(m)[i]) is Type) decreases m.len() { if m.len() > 0 { no_types(m.drop_last()); } }
