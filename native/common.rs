//! Shared by the native harnesses: deterministic generator, coverage and failure recording.
#![allow(dead_code)]
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn u8(&mut self) -> u8 { self.next() as u8 }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u8()).collect() }
    /// values concentrated on boundaries
    pub fn edge32(&mut self) -> u32 {
        match self.below(8) {
            0 => 0, 1 => 1, 2 => 0xff, 3 => 0x100, 4 => 0xffff, 5 => 0x1_0000, 6 => u32::MAX - self.below(3) as u32, _ => self.next() as u32,
        }
    }
}

pub struct Ctx { pub rng: Rng, pub deep: bool, pub cases: u64, pub fails: Vec<String>, pub covers: BTreeMap<String, u64>, pub bound: Vec<String> }
impl Ctx {
    pub fn cover(&mut self, k: &str) { *self.covers.entry(k.to_string()).or_insert(0) += 1; }
    pub fn fail(&mut self, d: String) { if self.fails.len() < 8 { self.fails.push(d.replace('\n', " ")); } }
    pub fn ok(&mut self, c: bool, d: impl FnOnce() -> String) -> bool { if !c { let s = d(); self.fail(s); } c }
    pub fn bound(&mut self, s: &str) { self.bound.push(s.to_string()); }
    /// run one case; a panic is a failure described by `d`
    pub fn case<R>(&mut self, d: impl Fn() -> String, f: impl FnOnce(&mut Ctx) -> R) -> Option<R> {
        self.cases += 1;
        let r = { let me: &mut Ctx = self; catch_unwind(AssertUnwindSafe(|| f(me))) };
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let s = d();
                self.fail(format!("panicked ({m}) on {s}"));
                None
            }
        }
    }
    pub fn stop(&self) -> bool { self.fails.len() >= 3 }
}

pub fn main_with(f: impl FnOnce(&str, &mut Ctx) -> bool) {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let deep = a.get(3).map(|s| s == "thorough").unwrap_or(false);
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx { rng: Rng(seed.wrapping_mul(0x1234_5678_9abc_def1)), deep, cases: 0, fails: vec![], covers: BTreeMap::new(), bound: vec![] };
    let known = f(&prop, &mut c);
    for (k, v) in &c.covers { println!("COVER {k} {v}"); }
    for b in &c.bound { println!("BOUND {b}"); }
    for x in &c.fails { println!("FAIL {x}"); }
    println!("CASES {}", c.cases);
    if !known { println!("UNKNOWN {prop}"); std::process::exit(3); }
    println!("DONE");
    // leave without joining anything a broken tree may have left running
    use std::io::Write; let _ = std::io::stdout().flush();
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
}

/// poll a future to completion with a flag waker, at most `max` polls; None if it stays pending with no wake-up
pub mod exec {
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
    use std::sync::Arc;
    use std::task::{Context, Poll, Wake, Waker};
    pub struct Flag(pub AtomicBool, pub AtomicU64);
    impl Wake for Flag {
        fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst); self.1.fetch_add(1, Ordering::SeqCst); }
    }
    pub fn flag() -> Arc<Flag> { Arc::new(Flag(AtomicBool::new(true), AtomicU64::new(0))) }
    pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>, fl: &Arc<Flag>) -> Poll<F::Output> {
        fl.0.store(false, Ordering::SeqCst);
        let w = Waker::from(fl.clone());
        let mut cx = Context::from_waker(&w);
        f.poll(&mut cx)
    }
    pub fn woken(fl: &Arc<Flag>) -> bool { fl.0.load(Ordering::SeqCst) }
    /// run while woken
    pub fn drive<F: Future + ?Sized>(mut f: Pin<&mut F>, max: usize) -> Option<F::Output> {
        let fl = flag();
        for _ in 0..max {
            if !woken(&fl) { return None; }
            if let Poll::Ready(v) = poll_once(f.as_mut(), &fl) { return Some(v); }
        }
        None
    }
    pub fn block<F: Future>(f: F) -> Option<F::Output> { let mut b = Box::pin(f); drive(b.as_mut(), 10_000) }
}
