//! Sample application: one endpoint and one topic of every handler flavour.
//! Only its macro-expanded text is used; it is never run.
#![allow(dead_code)]
use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection, header::VarHeader, server::{Sender, SpawnContext, WireTx}};
endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path  |
    | ---------- | --------- | ---------- | ----  |
    | EpB        | u16       | u32        | "e/b" |
    | EpA        | u16       | u64        | "e/a" |
    | EpS        | u64       | u16        | "e/s" |
}
topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path  |
    | ------- | --------- | ----  |
    | TpB     | u16       | "t/b" |
    | TpA     | u16       | "t/a" |
    | TpS     | u64       | "t/s" |
}
topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path  |
    | ------- | --------- | ----  |
    | TpO     | u16       | "t/o" |
}
pub struct Ctx;
pub struct SpawnCtx;
impl SpawnContext for Ctx { type SpawnCtxt = SpawnCtx; fn spawn_ctxt(&mut self) -> SpawnCtx { SpawnCtx } }
pub struct Spawn;
pub struct Fut;
pub struct TxErr;
#[derive(Clone)]
pub struct Tx;
impl postcard_rpc::server::AsWireTxErrorKind for TxErr { fn as_kind(&self) -> postcard_rpc::server::WireTxErrorKind { postcard_rpc::server::WireTxErrorKind::Other } }
impl WireTx for Tx {
    type Error = TxErr;
    async fn send<T: serde::Serialize + ?Sized>(&self, _: VarHeader, _: &T) -> Result<(), TxErr> { Ok(()) }
    async fn send_raw(&self, _: &[u8]) -> Result<(), TxErr> { Ok(()) }
    async fn send_log_str(&self, _: postcard_rpc::header::VarKeyKind, _: &str) -> Result<(), TxErr> { Ok(()) }
    async fn send_log_fmt<'a>(&self, _: postcard_rpc::header::VarKeyKind, _: core::fmt::Arguments<'a>) -> Result<(), TxErr> { Ok(()) }
}
pub fn spawn_it(_: &Spawn, _: Fut) -> Result<(), ()> { Ok(()) }
pub fn h_ep_b(_: &mut Ctx, _: VarHeader, r: u16) -> u32 { r as u32 }
pub async fn h_ep_a(_: &mut Ctx, _: VarHeader, r: u16) -> u64 { r as u64 }
pub fn h_ep_s(_: SpawnCtx, _: VarHeader, _: u64, _: Sender<Tx>) -> Fut { Fut }
pub fn h_tp_b(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
pub async fn h_tp_a(_: &mut Ctx, _: VarHeader, _: u16, _: &Sender<Tx>) {}
pub fn h_tp_s(_: SpawnCtx, _: VarHeader, _: u64, _: Sender<Tx>) -> Fut { Fut }
define_dispatch! {
    app: App;
    spawn_fn: spawn_it;
    tx_impl: Tx;
    spawn_impl: Spawn;
    context: Ctx;
    endpoints: {
        list: EPS;
        | EndpointTy | kind     | handler |
        | ---------- | ----     | ------- |
        | EpB        | blocking | h_ep_b  |
        | EpA        | async    | h_ep_a  |
        | EpS        | spawn    | h_ep_s  |
    };
    topics_in: {
        list: TIN;
        | TopicTy | kind     | handler |
        | ------- | ----     | ------- |
        | TpB     | blocking | h_tp_b  |
        | TpA     | async    | h_tp_a  |
        | TpS     | spawn    | h_tp_s  |
    };
    topics_out: {
        list: TOUT;
    };
}
/// Sample tables: every form the table macros accept.
pub mod tables {
    use postcard_rpc::{endpoint, endpoints, topic, topics, TopicDirection};
    use postcard_schema::Schema;
    use serde::{Deserialize, Serialize};
    #[derive(Serialize, Deserialize, Schema)]
    pub struct SA { pub a: u8 }
    #[derive(Serialize, Deserialize, Schema)]
    pub struct SB { pub a: SA, pub b: Option<SA> }
    #[derive(Serialize, Deserialize, Schema)]
    pub struct BR<'a> { pub s: &'a str }
    #[derive(Serialize, Deserialize, Schema)]
    pub struct BT<'a> { pub t: &'a str }
    endpoint!(OneEp, SA, SB);
    endpoint!(TwoEp, SB, u32, "two/ep");
    topic!(OneTp, SA);
    topic!(TwoTp, SB, "two/tp");
    endpoints! {
        list = EP_DEF;
        | EndpointTy | RequestTy | ResponseTy | Path  | Cfg |
        | ---------- | --------- | ---------- | ----  | --- |
        | DefA       | SA        | SB         | "d/a" | cfg(all()) |
        | DefB       | u8        | u32        | "d/b" | cfg(any()) |
        | DefC       | ()        | SA         | "d/c" | |
        | DefD       | SB        | [u8; 4]    | "d/d" | cfg(not(any())) |
    }
    endpoints! {
        list = EP_OMIT;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path  | Cfg |
        | ---------- | --------- | ---------- | ----  | --- |
        | OmA        | BR<'a>    | SB         | "o/a" | |
        | OmB        | u8        | BR<'b>     | "o/b" | cfg(all()) |
        | OmC        | BR<'a>    | BT<'b>     | "o/c" | |
        | OmD        | SA        | SA         | "o/d" | cfg(any()) |
    }
    endpoints! {
        list = EP_INCL;
        omit_std = false;
        | EndpointTy | RequestTy | ResponseTy | Path  |
        | ---------- | --------- | ---------- | ----  |
        | InA        | SA        | SB         | "i/a" |
    }
    endpoints! {
        list = EP_EMPTY;
        | EndpointTy | RequestTy | ResponseTy | Path  |
        | ---------- | --------- | ---------- | ----  |
    }
    endpoints! {
        list = EP_NONE;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path  |
        | ---------- | --------- | ---------- | ----  |
    }
    topics! {
        list = TP_IN;
        direction = TopicDirection::ToServer;
        | TopicTy | MessageTy | Path   | Cfg |
        | ------- | --------- | ----   | --- |
        | TiA     | SA        | "ti/a" | cfg(any()) |
        | TiB     | SB        | "ti/b" | |
        | TiC     | BR<'a>    | "ti/c" | cfg(all()) |
    }
    topics! {
        list = TP_OUT;
        direction = TopicDirection::ToClient;
        | TopicTy | MessageTy | Path   |
        | ------- | --------- | ----   |
        | ToA     | SA        | "to/a" |
        | ToB     | u8        | "to/b" |
    }
    topics! {
        list = TP_OUT_INCL;
        direction = TopicDirection::ToClient;
        omit_std = false;
        | TopicTy | MessageTy | Path   |
        | ------- | --------- | ----   |
        | TcA     | SB        | "tc/a" |
    }
    topics! {
        list = TP_OUT_OMIT;
        direction = TopicDirection::ToClient;
        omit_std = true;
        | TopicTy | MessageTy | Path   |
        | ------- | --------- | ----   |
        | TmA     | SB        | "tm/a" |
        | TmB     | SA        | "tm/b" |
    }
    topics! {
        list = TP_IN_NONE;
        direction = TopicDirection::ToServer;
        omit_std = true;
        | TopicTy | MessageTy | Path   |
        | ------- | --------- | ----   |
    }
}
