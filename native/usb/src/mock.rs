//! Mock USB driver (endpoints under script control), mutex and virtual time.
use embassy_usb_driver::*;
use std::collections::VecDeque;
use std::future::poll_fn;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

// ---- virtual time: 1 tick = 1 us
pub struct Time(Mutex<(u64, Vec<(u64, Waker)>)>);
impl embassy_time_driver::Driver for Time {
    fn now(&self) -> u64 { self.0.lock().unwrap().0 }
    fn schedule_wake(&self, at: u64, waker: &Waker) { self.0.lock().unwrap().1.push((at, waker.clone())); }
}
embassy_time_driver::time_driver_impl!(static TIME: Time = Time(Mutex::new((0, Vec::new()))));
pub fn now() -> u64 { TIME.0.lock().unwrap().0 }
/// jump to the earliest scheduled wake-up; false if there is none
pub fn advance() -> bool {
    let ws: Vec<Waker> = {
        let mut g = TIME.0.lock().unwrap();
        let Some(t) = g.1.iter().map(|x| x.0).min() else { return false };
        if t > g.0 { g.0 = t; }
        let n = g.0;
        let (due, rest): (Vec<_>, Vec<_>) = g.1.drain(..).partition(|x| x.0 <= n);
        g.1 = rest;
        due.into_iter().map(|x| x.1).collect()
    };
    for w in ws { w.wake(); }
    true
}
pub fn clear_timers() { TIME.0.lock().unwrap().1.clear(); }

pub struct NoMutex;
unsafe impl embassy_sync::blocking_mutex::raw::RawMutex for NoMutex {
    const INIT: Self = NoMutex;
    fn lock<R>(&self, f: impl FnOnce() -> R) -> R { f() }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum W { Ok, Yield, Err, ErrOver, Hang }
#[derive(Clone, PartialEq, Debug)]
pub enum R { Pkt(Vec<u8>), Yield, Disabled }
#[derive(Default)]
pub struct St {
    /// behaviour of successive writes; empty = Ok
    pub wscript: VecDeque<W>,
    /// every write attempted, and whether it succeeded
    pub wlog: Vec<(Vec<u8>, W)>,
    pub rscript: VecDeque<R>,
    /// a packet that does not fit the caller's buffer is lost (true) or stays at the endpoint (false)
    pub over_consumes: bool,
    pub overflows: u32,
}
pub type S = Arc<Mutex<St>>;
pub struct EpIn(S, EndpointInfo);
pub struct EpOut(S, EndpointInfo);
impl Endpoint for EpIn { fn info(&self) -> &EndpointInfo { &self.1 } async fn wait_enabled(&mut self) {} }
impl Endpoint for EpOut { fn info(&self) -> &EndpointInfo { &self.1 } async fn wait_enabled(&mut self) {} }
async fn yield_once() { let mut y = false; poll_fn(|cx| { if y { Poll::Ready(()) } else { y = true; cx.waker().wake_by_ref(); Poll::Pending } }).await }
impl EndpointIn for EpIn {
    async fn write(&mut self, buf: &[u8]) -> Result<(), EndpointError> {
        loop {
            let w = self.0.lock().unwrap().wscript.pop_front().unwrap_or(W::Ok);
            if w == W::Yield { yield_once().await; continue; }
            self.0.lock().unwrap().wlog.push((buf.to_vec(), w));
            return match w {
                W::Ok | W::Yield => Ok(()),
                W::Err => Err(EndpointError::Disabled),
                W::ErrOver => Err(EndpointError::BufferOverflow),
                W::Hang => std::future::pending().await,
            };
        }
    }
}
impl EndpointOut for EpOut {
    async fn read(&mut self, buf: &mut [u8]) -> Result<usize, EndpointError> {
        loop {
            let r = self.0.lock().unwrap().rscript.pop_front();
            match r {
                None => std::future::pending::<()>().await,
                Some(R::Yield) => yield_once().await,
                Some(R::Disabled) => return Err(EndpointError::Disabled),
                Some(R::Pkt(p)) => {
                    if p.len() > buf.len() {
                        let mut g = self.0.lock().unwrap();
                        g.overflows += 1;
                        if !g.over_consumes { g.rscript.push_front(R::Pkt(p)); }
                        return Err(EndpointError::BufferOverflow);
                    }
                    buf[..p.len()].copy_from_slice(&p);
                    return Ok(p.len());
                }
            }
        }
    }
}
pub struct Ctl;
impl ControlPipe for Ctl {
    fn max_packet_size(&self) -> usize { 64 }
    async fn setup(&mut self) -> [u8; 8] { std::future::pending().await }
    async fn data_out(&mut self, _: &mut [u8], _: bool, _: bool) -> Result<usize, EndpointError> { std::future::pending().await }
    async fn data_in(&mut self, _: &[u8], _: bool, _: bool) -> Result<(), EndpointError> { std::future::pending().await }
    async fn accept(&mut self) {}
    async fn reject(&mut self) {}
    async fn accept_set_address(&mut self, _: u8) {}
}
pub struct MBus;
impl Bus for MBus {
    async fn enable(&mut self) {}
    async fn disable(&mut self) {}
    async fn poll(&mut self) -> Event { std::future::pending().await }
    fn endpoint_set_enabled(&mut self, _: EndpointAddress, _: bool) {}
    fn endpoint_set_stalled(&mut self, _: EndpointAddress, _: bool) {}
    fn endpoint_is_stalled(&mut self, _: EndpointAddress) -> bool { false }
    async fn remote_wakeup(&mut self) -> Result<(), Unsupported> { Ok(()) }
}
pub struct Drv(pub S);
impl Driver<'static> for Drv {
    type EndpointOut = EpOut;
    type EndpointIn = EpIn;
    type ControlPipe = Ctl;
    type Bus = MBus;
    fn alloc_endpoint_out(&mut self, t: EndpointType, m: u16, i: u8) -> Result<EpOut, EndpointAllocError> {
        assert!(matches!(t, EndpointType::Bulk) && m == 64, "OUT endpoint of type {t:?} with packets of {m} bytes: messages are cut into bulk packets of 64");
        Ok(EpOut(self.0.clone(), EndpointInfo { addr: EndpointAddress::from(1u8), ep_type: t, max_packet_size: m, interval_ms: i }))
    }
    fn alloc_endpoint_in(&mut self, t: EndpointType, m: u16, i: u8) -> Result<EpIn, EndpointAllocError> {
        assert!(matches!(t, EndpointType::Bulk) && m == 64, "IN endpoint of type {t:?} with packets of {m} bytes: messages are cut into bulk packets of 64");
        Ok(EpIn(self.0.clone(), EndpointInfo { addr: EndpointAddress::from(0x81u8), ep_type: t, max_packet_size: m, interval_ms: i }))
    }
    fn start(self, _: u16) -> (MBus, Ctl) { (MBus, Ctl) }
}
pub fn new_state() -> S { Arc::new(Mutex::new(St::default())) }
