//! Stand-in for the `nusb` crate: the part of its API that postcard-rpc uses, with
//! transfers under script control (module `sim`) instead of a kernel.
use std::fmt;
#[derive(Debug)]
pub struct Error(pub &'static str);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0) } }
impl std::error::Error for Error {}

pub mod sim {
    use std::collections::VecDeque;
    use std::sync::{Arc, Mutex};
    use std::task::Waker;
    use crate::transfer::TransferError;
    #[derive(Clone, Debug, Default)]
    pub struct Alt { pub eps: Vec<(u8, u8, usize)> } // address, attributes (2 = bulk), max packet size
    #[derive(Default)]
    pub struct St {
        pub alts: Vec<Alt>,
        /// several devices, each a list of interfaces (class, settings); empty = one device with one vendor interface of `alts`
        pub devs: Vec<Vec<(u8, Vec<Alt>)>>,
        pub claimed: Vec<(usize, u8)>,
        // OUT
        pub out_log: Vec<Vec<u8>>, pub out_done: usize, pub out_pending: VecDeque<usize>,
        /// results of OUT transfers in order; missing = success
        pub out_results: VecDeque<Option<TransferError>>, pub out_block: bool, pub out_wakers: Vec<Waker>,
        // IN
        pub in_pending: usize, pub in_cancelled: usize, pub in_len: VecDeque<usize>,
        /// results of IN transfers, in order; empty = nothing arrives
        pub in_results: VecDeque<Result<Vec<u8>, TransferError>>, pub in_wakers: Vec<Waker>,
        pub halt_cleared: Vec<usize>, pub clear_fails: bool, pub max_in_flight: usize, pub misuse: Vec<String>,
        pub in_dropped: bool, pub out_dropped: bool,
    }
    pub type S = Arc<Mutex<St>>;
    thread_local! { pub static CUR: std::cell::RefCell<Option<S>> = const { std::cell::RefCell::new(None) }; }
    pub fn install(s: S) { CUR.with(|c| *c.borrow_mut() = Some(s)); }
    pub fn cur() -> S { CUR.with(|c| c.borrow().clone()).expect("no simulated device") }
    pub fn wake(s: &S) { let (a, b) = { let mut g = s.lock().unwrap(); (std::mem::take(&mut g.in_wakers), std::mem::take(&mut g.out_wakers)) }; for w in a.into_iter().chain(b) { w.wake(); } }
}
use sim::S;

#[derive(Clone)]
pub struct InterfaceInfo { class: u8, n: u8 }
impl InterfaceInfo { pub fn class(&self) -> u8 { self.class } pub fn interface_number(&self) -> u8 { self.n } pub fn subclass(&self) -> u8 { 0 } pub fn protocol(&self) -> u8 { 0 } pub fn interface_string(&self) -> Option<&str> { None } }
#[derive(Clone)]
pub struct DeviceInfo { s: S, idx: usize, ifs: Vec<InterfaceInfo> }
impl DeviceInfo {
    pub fn open(&self) -> Result<Device, Error> { Ok(Device(self.s.clone(), self.idx)) }
    pub fn interfaces(&self) -> impl Iterator<Item = &InterfaceInfo> { self.ifs.iter() }
    pub fn serial_number(&self) -> Option<&str> { Some("12345678") }
    pub fn vendor_id(&self) -> u16 { 0x16c0 }
    pub fn product_id(&self) -> u16 { 0x27DD }
    pub fn product_string(&self) -> Option<&str> { None }
    pub fn manufacturer_string(&self) -> Option<&str> { None }
    pub fn device_address(&self) -> u8 { self.idx as u8 }
}
pub fn list_devices() -> Result<impl Iterator<Item = DeviceInfo>, Error> {
    let s = sim::cur();
    let devs = devs(&s);
    Ok(devs.into_iter().enumerate().map(move |(idx, d)| DeviceInfo { s: s.clone(), idx, ifs: d.iter().enumerate().map(|(n, i)| InterfaceInfo { class: i.0, n: n as u8 }).collect() }))
}
fn devs(s: &S) -> Vec<Vec<(u8, Vec<sim::Alt>)>> { let g = s.lock().unwrap(); if g.devs.is_empty() { vec![vec![(0xFF, g.alts.clone())]] } else { g.devs.clone() } }
#[derive(Clone)]
pub struct Device(S, usize);
impl Device {
    pub fn claim_interface(&self, i: u8) -> Result<Interface, Error> {
        let d = devs(&self.0);
        self.0.lock().unwrap().claimed.push((self.1, i));
        match d[self.1].get(i as usize) { Some(x) => Ok(Interface(self.0.clone(), x.1.clone(), i)), None => Err(Error("no such interface")) }
    }
    pub fn detach_and_claim_interface(&self, i: u8) -> Result<Interface, Error> { self.claim_interface(i) }
}
#[derive(Clone)]
pub struct Interface(S, Vec<sim::Alt>, u8);
impl Interface {
    pub fn descriptors(&self) -> impl Iterator<Item = descriptors::InterfaceAltSetting> { self.1.clone().into_iter().map(descriptors::InterfaceAltSetting) }
    pub fn bulk_out_queue(&self, ep: u8) -> transfer::Queue<Vec<u8>> { assert!(ep < 0x80, "OUT queue on an IN endpoint"); self.bulk(ep); transfer::Queue::new(self.0.clone()) }
    pub fn bulk_in_queue(&self, ep: u8) -> transfer::Queue<transfer::RequestBuffer> { assert!(ep >= 0x80, "IN queue on an OUT endpoint"); self.bulk(ep); transfer::Queue::new(self.0.clone()) }
    pub fn interface_number(&self) -> u8 { self.2 }
    fn bulk(&self, ep: u8) { assert!(self.1.iter().any(|a| a.eps.iter().any(|e| e.0 == ep && e.1 & 3 == 2)), "bulk queue on {ep:#x}, which is no bulk endpoint"); }
}
pub mod descriptors {
    use crate::transfer::{Direction, EndpointType};
    pub struct InterfaceAltSetting(pub(crate) crate::sim::Alt);
    impl InterfaceAltSetting { pub fn endpoints(&self) -> impl Iterator<Item = Endpoint> + '_ { self.0.eps.iter().map(|e| Endpoint(*e)) } }
    pub struct Endpoint((u8, u8, usize));
    impl Endpoint {
        pub fn address(&self) -> u8 { self.0 .0 }
        pub fn direction(&self) -> Direction { if self.0 .0 & 0x80 != 0 { Direction::In } else { Direction::Out } }
        pub fn transfer_type(&self) -> EndpointType { match self.0 .1 & 3 { 0 => EndpointType::Control, 1 => EndpointType::Isochronous, 2 => EndpointType::Bulk, _ => EndpointType::Interrupt } }
        pub fn max_packet_size(&self) -> usize { self.0 .2 }
    }
}
pub mod transfer {
    use crate::sim::S;
    use crate::Error;
    use std::future::poll_fn;
    use std::marker::PhantomData;
    use std::task::{Context, Poll};
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Direction { Out, In }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum EndpointType { Control, Isochronous, Bulk, Interrupt }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum TransferError { Cancelled, Stall, Disconnected, Fault, Unknown }
    impl std::fmt::Display for TransferError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
    impl std::error::Error for TransferError {}
    pub struct Completion<T> { pub data: T, pub status: Result<(), TransferError> }
    impl<T> Completion<T> { pub fn into_result(self) -> Result<T, TransferError> { self.status.map(|()| self.data) } }
    pub struct ResponseBuffer { buf: Vec<u8>, len: usize }
    impl ResponseBuffer { pub fn actual_length(&self) -> usize { self.len } pub fn reuse(self) -> Vec<u8> { let mut v = self.buf; v.clear(); v } }
    pub struct RequestBuffer(usize);
    impl RequestBuffer { pub fn new(len: usize) -> Self { RequestBuffer(len) } pub fn reuse(_v: Vec<u8>, len: usize) -> Self { RequestBuffer(len) } }
    pub trait TransferRequest: Sized { type Response; fn submit(s: &S, d: Self); fn poll(s: &S, cx: &mut Context<'_>) -> Poll<Completion<Self::Response>>; fn pending(s: &S) -> usize; fn cancel(s: &S); const IN: bool; }
    impl TransferRequest for Vec<u8> {
        type Response = ResponseBuffer;
        const IN: bool = false;
        fn submit(s: &S, d: Self) { let mut g = s.lock().unwrap(); let i = g.out_log.len(); g.out_log.push(d); g.out_pending.push_back(i); }
        fn poll(s: &S, cx: &mut Context<'_>) -> Poll<Completion<ResponseBuffer>> {
            let mut g = s.lock().unwrap();
            if g.out_pending.is_empty() { drop(g); panic!("no transfer pending"); }
            if g.out_block { g.out_wakers.push(cx.waker().clone()); return Poll::Pending; }
            let i = g.out_pending.pop_front().unwrap();
            g.out_done += 1;
            let st = match g.out_results.pop_front() { Some(Some(e)) => Err(e), _ => Ok(()) };
            let buf = g.out_log[i].clone(); let len = buf.len();
            Poll::Ready(Completion { data: ResponseBuffer { buf, len }, status: st })
        }
        fn pending(s: &S) -> usize { s.lock().unwrap().out_pending.len() }
        fn cancel(_s: &S) {}
    }
    impl TransferRequest for RequestBuffer {
        type Response = Vec<u8>;
        const IN: bool = true;
        fn submit(s: &S, d: Self) { let mut g = s.lock().unwrap(); g.in_pending += 1; g.in_len.push_back(d.0); let p = g.in_pending; if p > g.max_in_flight { g.max_in_flight = p; } }
        fn poll(s: &S, cx: &mut Context<'_>) -> Poll<Completion<Vec<u8>>> {
            let mut g = s.lock().unwrap();
            if g.in_pending == 0 { drop(g); panic!("no transfer pending"); }
            if g.in_cancelled > 0 {
                g.in_cancelled -= 1; g.in_pending -= 1; g.in_len.pop_front();
                return Poll::Ready(Completion { data: vec![], status: Err(TransferError::Cancelled) });
            }
            match g.in_results.pop_front() {
                None => { g.in_wakers.push(cx.waker().clone()); Poll::Pending }
                Some(r) => {
                    g.in_pending -= 1; let n = g.in_len.pop_front().unwrap_or(0);
                    Poll::Ready(match r {
                        Ok(v) => { if v.len() > n { g.misuse.push(format!("a {}-byte transfer arrived in a {n}-byte request", v.len())); } Completion { data: v, status: Ok(()) } }
                        Err(e) => Completion { data: vec![], status: Err(e) },
                    })
                }
            }
        }
        fn pending(s: &S) -> usize { s.lock().unwrap().in_pending }
        fn cancel(s: &S) { let mut g = s.lock().unwrap(); g.in_cancelled = g.in_pending; }
    }
    pub struct Queue<R: TransferRequest> { s: S, p: PhantomData<R> }
    impl<R: TransferRequest> Queue<R> {
        pub(crate) fn new(s: S) -> Self { Queue { s, p: PhantomData } }
        pub fn submit(&mut self, d: R) { R::submit(&self.s, d) }
        pub async fn next_complete(&mut self) -> Completion<R::Response> { poll_fn(|cx| R::poll(&self.s, cx)).await }
        pub fn poll_next(&mut self, cx: &mut Context) -> Poll<Completion<R::Response>> { R::poll(&self.s, cx) }
        pub fn pending(&self) -> usize { R::pending(&self.s) }
        pub fn cancel_all(&mut self) { R::cancel(&self.s) }
        pub fn clear_halt(&mut self) -> Result<(), Error> {
            let n = R::pending(&self.s);
            let mut g = self.s.lock().unwrap();
            g.halt_cleared.push(n);
            if g.clear_fails { Err(Error("clear halt failed")) } else { Ok(()) }
        }
    }
    impl<R: TransferRequest> Drop for Queue<R> { fn drop(&mut self) { let mut g = self.s.lock().unwrap(); if R::IN { g.in_dropped = true } else { g.out_dropped = true } } }
}
