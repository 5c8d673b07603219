//! Scripted transports for the server side (the crate's public traits).
use postcard_rpc::header::*;
use postcard_rpc::server::*;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K { Closed, Other, Timeout }
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct TxE(pub K, pub u32);
impl AsWireTxErrorKind for TxE {
    fn as_kind(&self) -> WireTxErrorKind { match self.0 { K::Closed => WireTxErrorKind::ConnectionClosed, K::Other => WireTxErrorKind::Other, K::Timeout => WireTxErrorKind::Timeout } }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Sent { Msg(Vec<u8>, Vec<u8>), Raw(Vec<u8>), LogStr(VarKeyKind, String), LogFmt(VarKeyKind, String) }
#[derive(Default)]
pub struct TxLog { pub sent: Vec<Sent>, pub attempts: usize, pub errs: VecDeque<Option<K>>, pub errn: u32, pub stall: bool }
#[derive(Clone, Default)]
pub struct RecTx(pub Arc<Mutex<TxLog>>);
impl RecTx {
    fn go(&self, s: Sent) -> Result<(), TxE> {
        let mut g = self.0.lock().unwrap();
        g.attempts += 1;
        match g.errs.pop_front().flatten() {
            Some(k) => { g.errn += 1; Err(TxE(k, g.errn)) }
            None => { g.sent.push(s); Ok(()) }
        }
    }
    pub fn take(&self) -> Vec<Sent> { std::mem::take(&mut self.0.lock().unwrap().sent) }
    pub fn attempts(&self) -> usize { self.0.lock().unwrap().attempts }
    pub fn script(&self, e: Vec<Option<K>>) { self.0.lock().unwrap().errs = e.into(); }
}
impl WireTx for RecTx {
    type Error = TxE;
    async fn send<T: serde::Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T) -> Result<(), TxE> {
        self.go(Sent::Msg(crate::wire::o_enc(&hdr), postcard::to_stdvec(msg).unwrap()))
    }
    async fn send_raw(&self, buf: &[u8]) -> Result<(), TxE> { self.go(Sent::Raw(buf.to_vec())) }
    async fn send_log_str(&self, k: VarKeyKind, s: &str) -> Result<(), TxE> { self.go(Sent::LogStr(k, s.to_string())) }
    async fn send_log_fmt<'a>(&self, k: VarKeyKind, a: std::fmt::Arguments<'a>) -> Result<(), TxE> { self.go(Sent::LogFmt(k, format!("{a}"))) }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum R { Closed, Large, Other }
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct RxE(pub R, pub u32);
impl AsWireRxErrorKind for RxE {
    fn as_kind(&self) -> WireRxErrorKind { match self.0 { R::Closed => WireRxErrorKind::ConnectionClosed, R::Large => WireRxErrorKind::ReceivedMessageTooLarge, R::Other => WireRxErrorKind::Other } }
}
#[derive(Clone, Debug)]
pub enum In { Frame(Vec<u8>), Err(R), Pend }
pub struct ScrRx { pub q: VecDeque<In>, pub n: u32, pub calls: Arc<Mutex<usize>> }
impl WireRx for ScrRx {
    type Error = RxE;
    async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], RxE> {
        *self.calls.lock().unwrap() += 1;
        loop {
            match self.q.pop_front() {
                None => std::future::pending::<()>().await,
                Some(In::Pend) => { let mut p = false; std::future::poll_fn(|cx| if p { std::task::Poll::Ready(()) } else { p = true; cx.waker().wake_by_ref(); std::task::Poll::Pending }).await }
                Some(In::Err(r)) => { self.n += 1; return Err(RxE(r, self.n)); }
                Some(In::Frame(f)) => {
                    if f.len() > buf.len() { self.n += 1; return Err(RxE(R::Large, self.n)); }
                    let o = &mut buf[..f.len()];
                    o.copy_from_slice(&f);
                    return Ok(o);
                }
            }
        }
    }
}
