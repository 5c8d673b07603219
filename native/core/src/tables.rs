//! C22: what a declared table contains.
use crate::common::Ctx;
use crate::mock::*;
use crate::schema::{check_list, reach};
use crate::server::apps::{nsp, NoSpawn};
use postcard_rpc::server::SpawnContext;
pub struct Cx;
impl SpawnContext for Cx { type SpawnCtxt = (); fn spawn_ctxt(&mut self) {} }
use postcard_rpc::{define_dispatch, endpoint, endpoints, standard_icd, topic, topics, DeviceMap, Endpoint, EndpointMap, Key, Topic, TopicDirection, TopicMap};
use postcard_schema::schema::NamedType;
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};
type NT = &'static NamedType;

#[derive(Serialize, Deserialize, Schema)] pub struct A0 { pub a: u8 }
#[derive(Serialize, Deserialize, Schema)] pub struct A1 { pub a: A0, pub b: A0 }
#[derive(Serialize, Deserialize, Schema)] pub struct A2 { pub a: Option<A1>, pub v: Vec<A0> }
#[derive(Serialize, Deserialize, Schema)] pub struct A3 { pub x: (A2, u16), pub y: [A0; 3] }
#[derive(Serialize, Deserialize, Schema)] pub struct A4(pub A3, pub u8);
#[derive(Serialize, Deserialize, Schema)] pub struct A5 { pub r: Result<A0, A1>, pub e: E0 }
#[derive(Serialize, Deserialize, Schema)] pub struct A6 { pub deep: Option<Option<Vec<A5>>> }
#[derive(Serialize, Deserialize, Schema)] pub struct A7 { pub a: u16 }
#[derive(Serialize, Deserialize, Schema)] pub struct A8 { pub one: A7, pub two: N0, pub three: U0 }
#[derive(Serialize, Deserialize, Schema)] pub struct N0(pub u32);
#[derive(Serialize, Deserialize, Schema)] pub struct N1(pub N0);
#[derive(Serialize, Deserialize, Schema)] pub enum E0 { A, B(u8), C { x: A7 } }
#[derive(Serialize, Deserialize, Schema)] pub enum E1 { X(E0), Y(A6, N1), Z }
#[derive(Serialize, Deserialize, Schema)] pub struct U0;
#[derive(Serialize, Deserialize, Schema)] pub struct T0(pub u8, pub A8, pub U0);
#[derive(Serialize, Deserialize, Schema)] pub struct B0<'a> { pub s: &'a str, pub n: A7 }
#[derive(Serialize, Deserialize, Schema)] pub struct B1<'a> { pub b: B0<'a>, pub t: &'a [u8] }

/// the type named by the declaration, lifetimes aside
fn name<T: ?Sized>() -> String { std::any::type_name::<T>().replace("<'_>", "") }
fn ep<E: Endpoint, Q: Schema, S: Schema>(c: &mut Ctx, n: &str, p: &str) {
    c.cases += 1;
    c.ok(E::PATH == p, || format!("endpoint {n}: path {:?}, declared {p:?}", E::PATH));
    c.ok(E::REQ_KEY == Key::for_path::<Q>(p), || format!("endpoint {n}: request key is not the key of {} at {p:?}", name::<Q>()));
    c.ok(E::RESP_KEY == Key::for_path::<S>(p), || format!("endpoint {n}: response key is not the key of {} at {p:?}", name::<S>()));
    c.ok(name::<E::Request>() == name::<Q>() && name::<E::Response>() == name::<S>(), || format!("endpoint {n}: types {} -> {}, declared {} -> {}", name::<E::Request>(), name::<E::Response>(), name::<Q>(), name::<S>()));
    let k = E::REQ_KEY.to_bytes(); let r = E::RESP_KEY.to_bytes();
    c.ok(E::REQ_KEY4 == postcard_rpc::Key4::from_key8(E::REQ_KEY) && E::RESP_KEY1 == postcard_rpc::Key1::from_key8(E::RESP_KEY) && E::RESP_KEY2 == postcard_rpc::Key2::from_key8(E::RESP_KEY), || format!("endpoint {n}: short keys do not belong to {k:?} / {r:?}"));
}
fn tp<E: Topic, M: Schema>(c: &mut Ctx, n: &str, p: &str) {
    c.cases += 1;
    c.ok(E::PATH == p, || format!("topic {n}: path {:?}, declared {p:?}", E::PATH));
    c.ok(E::TOPIC_KEY == Key::for_path::<M>(p), || format!("topic {n}: key is not the key of {} at {p:?}", name::<M>()));
    c.ok(name::<E::Message>() == name::<M>(), || format!("topic {n}: message {}, declared {}", name::<E::Message>(), name::<M>()));
}
const PING: &str = "postcard-rpc/ping";
const GET: &str = "postcard-rpc/schemas/get";
const DATA: &str = "postcard-rpc/schema/data";
const LOG: &str = "postcard-rpc/logging";
fn std_eps() -> Vec<(&'static str, Key, Key)> { vec![(PING, Key::for_path::<u32>(PING), Key::for_path::<u32>(PING)), (GET, Key::for_path::<()>(GET), Key::for_path::<standard_icd::SchemaTotals>(GET))] }
fn std_out() -> Vec<(&'static str, Key)> { vec![(DATA, Key::for_path::<standard_icd::OwnedSchemaData>(DATA)), (LOG, Key::for_path::<String>(LOG))] }
fn closure(ts: &[NT]) -> Vec<NT> { let mut v = vec![]; for t in ts { reach(t, &mut v); } v }
fn std_ep_tys() -> Vec<NT> { vec![<u32 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <standard_icd::SchemaTotals as Schema>::SCHEMA] }
fn std_out_tys() -> Vec<NT> { vec![<standard_icd::OwnedSchemaData as Schema>::SCHEMA, <String as Schema>::SCHEMA] }
fn ep_list(c: &mut Ctx, n: &str, got: &EndpointMap, std: bool, rows: &[(&'static str, Key, Key)], tys: &[NT]) {
    c.cases += 1; c.cover(if std { "endpoints-with-standard" } else { "endpoints-without-standard" });
    let mut want = if std { std_eps() } else { vec![] };
    want.extend_from_slice(rows);
    c.ok(got.endpoints == want.as_slice(), || format!("table {n}: endpoints {:?}, declared {:?}", paths(got.endpoints.iter().map(|e| (e.0, e.1))), paths(want.iter().map(|e| (e.0, e.1)))));
    let mut t = tys.to_vec(); if std { t.extend(std_ep_tys()); }
    check_list(c, &format!("types of table {n}"), got.types, &closure(&t));
}
fn tp_list(c: &mut Ctx, n: &str, got: &TopicMap, d: TopicDirection, std: bool, rows: &[(&'static str, Key)], tys: &[NT]) {
    c.cases += 1; c.cover(if std { "topics-with-standard" } else { "topics-without-standard" });
    let out = d == TopicDirection::ToClient;
    let mut want = if std && out { std_out() } else { vec![] };
    want.extend_from_slice(rows);
    c.ok(got.direction == d, || format!("table {n}: direction {:?}, declared {d:?}", got.direction));
    c.ok(got.topics == want.as_slice(), || format!("table {n}: topics {:?}, declared {:?}", paths(got.topics.iter().copied()), paths(want.iter().copied())));
    let mut t = tys.to_vec(); if std && out { t.extend(std_out_tys()); }
    check_list(c, &format!("types of table {n}"), got.types, &closure(&t));
}
fn paths<'a>(i: impl Iterator<Item = (&'a str, Key)>) -> Vec<String> { i.map(|(p, k)| format!("{p}:{:02x?}", &k.to_bytes()[..3])).collect() }
fn dev(c: &mut Ctx, n: &str, d: &DeviceMap, e: &EndpointMap, i: &TopicMap, o: &TopicMap) {
    c.cases += 1; c.cover("device-description");
    c.ok(d.endpoints == e.endpoints && d.topics_in == i.topics && d.topics_out == o.topics, || format!("device description {n}: lists differ from the tables it was built from"));
    let mut t = e.types.to_vec(); t.extend_from_slice(i.types); t.extend_from_slice(o.types);
    check_list(c, &format!("types of device description {n}"), d.types, &closure(&t));
}
pub fn c22(c: &mut Ctx) {
    c.bound("76 declared endpoint and topic tables of 0 to 270 rows (standard entries included or omitted, cfg'd rows, lifetimes, array and tuple types, unicode paths up to 130 characters), 40 single declarations, 7 device descriptions, the standard tables");
    ep::<standard_icd::PingEndpoint, u32, u32>(c, "PingEndpoint", PING);
    ep::<standard_icd::GetAllSchemasEndpoint, (), standard_icd::SchemaTotals>(c, "GetAllSchemasEndpoint", GET);
    tp::<standard_icd::GetAllSchemaDataTopic, standard_icd::OwnedSchemaData>(c, "GetAllSchemaDataTopic", DATA);
    tp::<standard_icd::LoggingTopic, String>(c, "LoggingTopic", LOG);
    ep_list(c, "STANDARD_ICD_ENDPOINTS", &standard_icd::STANDARD_ICD_ENDPOINTS, false, &std_eps(), &std_ep_tys());
    tp_list(c, "STANDARD_ICD_TOPICS_OUT", &standard_icd::STANDARD_ICD_TOPICS_OUT, TopicDirection::ToClient, false, &std_out(), &std_out_tys());
    tp_list(c, "STANDARD_ICD_TOPICS_IN", &standard_icd::STANDARD_ICD_TOPICS_IN, TopicDirection::ToServer, false, &[], &[]);
    c.ok(standard_icd::ERROR_PATH == "error" && standard_icd::ERROR_KEY == Key::for_path::<standard_icd::WireError>("error"), || "the error path or key is not the published one".into());
    gen::all(c);
}
mod gen { use super::*; include!("tables_gen.rs"); }
