//! Written by tools/gen_neg.py. Applications that must not compile, and three that must; only checked, never run.
#![allow(dead_code, unused_imports)]
use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection, header::VarHeader, server::{Sender, SpawnContext, WireTx}};
pub struct Ctx;
pub struct SpawnCtx;
impl SpawnContext for Ctx { type SpawnCtxt = SpawnCtx; fn spawn_ctxt(&mut self) -> SpawnCtx { SpawnCtx } }
pub struct Spawn;
pub struct Fut;
pub struct TxErr;
#[derive(Clone)]
pub struct Tx;
impl postcard_rpc::server::AsWireTxErrorKind for TxErr { fn as_kind(&self) -> postcard_rpc::server::WireTxErrorKind { postcard_rpc::server::WireTxErrorKind::Other } }
impl WireTx for Tx {
    type Error = TxErr;
    async fn send<T: serde::Serialize + ?Sized>(&self, _: VarHeader, _: &T) -> Result<(), TxErr> { Ok(()) }
    async fn send_raw(&self, _: &[u8]) -> Result<(), TxErr> { Ok(()) }
    async fn send_log_str(&self, _: postcard_rpc::header::VarKeyKind, _: &str) -> Result<(), TxErr> { Ok(()) }
    async fn send_log_fmt<'a>(&self, _: postcard_rpc::header::VarKeyKind, _: core::fmt::Arguments<'a>) -> Result<(), TxErr> { Ok(()) }
}
pub fn spawn_it(_: &Spawn, _: Fut) -> Result<(), ()> { Ok(()) }
// OK: everything listed
pub mod m0 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | | B | u16 | u64 | "e/b" | | C | u64 | u16 | "e/c" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | | Q | u32 | "t/q" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn h_b(_: &mut Ctx, _: VarHeader, r: u16) -> u64 { r as _ }
    fn h_c(_: &mut Ctx, _: VarHeader, r: u64) -> u16 { r as _ }
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    fn t_q(_: &mut Ctx, _: VarHeader, _: u32, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A | blocking | h_a | | B | blocking | h_b | | C | blocking | h_c | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | P | blocking | t_p | | Q | blocking | t_q | };
        topics_out: { list: TOUT; }; }
}
// OK: listed but not all served, other order
pub mod m1 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | | B | u16 | u64 | "e/b" | | C | u64 | u16 | "e/c" | | D | u8 | u8 | "e/d" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | | Q | u32 | "t/q" | | R | u64 | "t/r" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | | O2 | u8 | "t/o2" | }
    fn h_d(_: &mut Ctx, _: VarHeader, r: u8) -> u8 { r as _ }
    fn h_b(_: &mut Ctx, _: VarHeader, r: u16) -> u64 { r as _ }
    fn t_r(_: &mut Ctx, _: VarHeader, _: u64, _: &Sender<Tx>) {}
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | D | blocking | h_d | | B | blocking | h_b | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | R | blocking | t_r | | P | blocking | t_p | };
        topics_out: { list: TOUT; }; }
}
// OK: nothing served
pub mod m2 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- |  };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- |  };
        topics_out: { list: TOUT; }; }
}
// NEG: the only served endpoint is not listed
pub mod m3 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    endpoints! { list = XEPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | B | u16 | u64 | "e/b" | }
    fn h_b(_: &mut Ctx, _: VarHeader, r: u16) -> u64 { r as _ }
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | B | blocking | h_b | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | P | blocking | t_p | };
        topics_out: { list: TOUT; }; }
}
// NEG: the first served endpoint is not listed
pub mod m4 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | | B | u16 | u64 | "e/b" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    endpoints! { list = XEPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | C | u64 | u16 | "e/c" | }
    fn h_c(_: &mut Ctx, _: VarHeader, r: u64) -> u16 { r as _ }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn h_b(_: &mut Ctx, _: VarHeader, r: u16) -> u64 { r as _ }
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | C | blocking | h_c | | A | blocking | h_a | | B | blocking | h_b | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | P | blocking | t_p | };
        topics_out: { list: TOUT; }; }
}
// NEG: the middle served endpoint is not listed
pub mod m5 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | | B | u16 | u64 | "e/b" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    endpoints! { list = XEPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | C | u64 | u16 | "e/c" | }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn h_c(_: &mut Ctx, _: VarHeader, r: u64) -> u16 { r as _ }
    fn h_b(_: &mut Ctx, _: VarHeader, r: u16) -> u64 { r as _ }
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A | blocking | h_a | | C | blocking | h_c | | B | blocking | h_b | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | P | blocking | t_p | };
        topics_out: { list: TOUT; }; }
}
// NEG: the last served endpoint is not listed
pub mod m6 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | | B | u16 | u64 | "e/b" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    endpoints! { list = XEPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | C | u64 | u16 | "e/c" | }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn h_b(_: &mut Ctx, _: VarHeader, r: u16) -> u64 { r as _ }
    fn h_c(_: &mut Ctx, _: VarHeader, r: u64) -> u16 { r as _ }
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A | blocking | h_a | | B | blocking | h_b | | C | blocking | h_c | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | P | blocking | t_p | };
        topics_out: { list: TOUT; }; }
}
// NEG: a served endpoint differs from the listed one in the response type only
pub mod m7 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | | B | u16 | u64 | "e/b" | | C | u64 | u16 | "e/c" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    endpoints! { list = XEPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | B2 | u16 | u8 | "e/b" | }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn h_b2(_: &mut Ctx, _: VarHeader, r: u16) -> u8 { r as _ }
    fn h_c(_: &mut Ctx, _: VarHeader, r: u64) -> u16 { r as _ }
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A | blocking | h_a | | B2 | blocking | h_b2 | | C | blocking | h_c | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | P | blocking | t_p | };
        topics_out: { list: TOUT; }; }
}
// NEG: the first served endpoint differs from the listed one in the response type only
pub mod m8 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | | B | u16 | u64 | "e/b" | | C | u64 | u16 | "e/c" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    endpoints! { list = XEPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A2 | u16 | u8 | "e/a" | }
    fn h_a2(_: &mut Ctx, _: VarHeader, r: u16) -> u8 { r as _ }
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A2 | blocking | h_a2 | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | P | blocking | t_p | };
        topics_out: { list: TOUT; }; }
}
// NEG: the only served topic is not listed
pub mod m9 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    topics! { list = XTIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | Q | u32 | "t/q" | }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn t_q(_: &mut Ctx, _: VarHeader, _: u32, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A | blocking | h_a | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | Q | blocking | t_q | };
        topics_out: { list: TOUT; }; }
}
// NEG: the first served topic is not listed
pub mod m10 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | | Q | u32 | "t/q" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    topics! { list = XTIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | R | u64 | "t/r" | }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn t_r(_: &mut Ctx, _: VarHeader, _: u64, _: &Sender<Tx>) {}
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    fn t_q(_: &mut Ctx, _: VarHeader, _: u32, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A | blocking | h_a | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | R | blocking | t_r | | P | blocking | t_p | | Q | blocking | t_q | };
        topics_out: { list: TOUT; }; }
}
// NEG: the last served topic is not listed
pub mod m11 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | | Q | u32 | "t/q" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    topics! { list = XTIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | R | u64 | "t/r" | }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    fn t_q(_: &mut Ctx, _: VarHeader, _: u32, _: &Sender<Tx>) {}
    fn t_r(_: &mut Ctx, _: VarHeader, _: u64, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A | blocking | h_a | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | P | blocking | t_p | | Q | blocking | t_q | | R | blocking | t_r | };
        topics_out: { list: TOUT; }; }
}
// NEG: a served topic is listed as outgoing only
pub mod m12 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | | Q | u32 | "t/q" | }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn t_q(_: &mut Ctx, _: VarHeader, _: u32, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A | blocking | h_a | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | Q | blocking | t_q | };
        topics_out: { list: TOUT; }; }
}
// NEG: two listed endpoints share the request key
pub mod m13 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | | AA | u16 | u8 | "e/a" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A | blocking | h_a | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | P | blocking | t_p | };
        topics_out: { list: TOUT; }; }
}
// NEG: two listed incoming topics share the key
pub mod m14 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | | Q | u32 | "t/q" | | PP | u16 | "t/p" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A | blocking | h_a | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | P | blocking | t_p | };
        topics_out: { list: TOUT; }; }
}
// NEG: two listed outgoing topics share the key
pub mod m15 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | | O2 | u8 | "t/o2" | | OO | u8 | "t/o2" | }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A | blocking | h_a | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | P | blocking | t_p | };
        topics_out: { list: TOUT; }; }
}
// NEG: a request key equals an incoming topic key
pub mod m16 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | | X | u16 | u32 | "t/x" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | | TX | u16 | "t/x" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A | blocking | h_a | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | P | blocking | t_p | };
        topics_out: { list: TOUT; }; }
}
// NEG: a response key equals an outgoing topic key
pub mod m17 {
    use crate::*;
    endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path | | ---------- | --------- | ---------- | ---- | | A | u16 | u32 | "e/a" | | Y | u8 | u16 | "t/o" | }
    topics! { list = TIN; direction = TopicDirection::ToServer; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | P | u16 | "t/p" | }
    topics! { list = TOUT; direction = TopicDirection::ToClient; | TopicTy | MessageTy | Path | | ------- | --------- | ---- | | O | u16 | "t/o" | }
    fn h_a(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as _ }
    fn t_p(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
    define_dispatch! { app: App; spawn_fn: spawn_it; tx_impl: Tx; spawn_impl: Spawn; context: Ctx;
        endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | | A | blocking | h_a | };
        topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | | P | blocking | t_p | };
        topics_out: { list: TOUT; }; }
}
