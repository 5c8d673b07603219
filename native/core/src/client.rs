//! C13-C16: the host client on scripted transports, driven by a random single-threaded scheduler.
//! The oracle knows only the property texts and the wire format (crate::wire::o_enc).
use crate::common::{exec, Ctx, Rng};
use crate::wire::o_enc;
use postcard_rpc::header::*;
use postcard_rpc::host_client::*;
use postcard_rpc::standard_icd::{WireError, ERROR_KEY, ERROR_PATH};
use postcard_rpc::{endpoint, topic, Endpoint, Key, Key1, Key2, Key4, Topic};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};
use std::time::Duration;

endpoint!(Ea, u32, u64, "h/a");
endpoint!(Eb, u8, String, "h/b");
endpoint!(Ec, (), (), "h/c");
topic!(Ta, u32, "h/ta");
topic!(Tb, String, "h/tb");
topic!(Tc, u8, "h/tc");

#[derive(Debug)]
pub struct WErr;
impl std::fmt::Display for WErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "werr") } }
impl std::error::Error for WErr {}
#[derive(Default)]
pub struct Sh {
    pub sent: Vec<Vec<u8>>, pub tx_blocked: bool, pub tx_fail: bool, pub tx_w: Option<Waker>, pub tx_dropped: bool,
    pub rxq: VecDeque<Result<Vec<u8>, ()>>, pub rx_w: Option<Waker>, pub rx_dropped: bool,
    pub spawned: Vec<Pin<Box<dyn Future<Output = ()> + Send>>>,
}
type S = Arc<Mutex<Sh>>;
pub struct MTx(S);
pub struct MRx(S);
pub struct MSp(S);
impl Drop for MTx { fn drop(&mut self) { self.0.lock().unwrap().tx_dropped = true; } }
impl Drop for MRx { fn drop(&mut self) { self.0.lock().unwrap().rx_dropped = true; } }
impl WireTx for MTx {
    type Error = WErr;
    async fn send(&mut self, data: Vec<u8>) -> Result<(), WErr> {
        let mut d = Some(data);
        poll_fn(|cx| {
            let mut g = self.0.lock().unwrap();
            if g.tx_fail { return Poll::Ready(Err(WErr)); }
            if g.tx_blocked { g.tx_w = Some(cx.waker().clone()); return Poll::Pending; }
            g.sent.push(d.take().unwrap());
            Poll::Ready(Ok(()))
        }).await
    }
}
impl WireRx for MRx {
    type Error = WErr;
    async fn receive(&mut self) -> Result<Vec<u8>, WErr> {
        poll_fn(|cx| {
            let mut g = self.0.lock().unwrap();
            match g.rxq.pop_front() {
                Some(Ok(v)) => Poll::Ready(Ok(v)),
                Some(Err(())) => Poll::Ready(Err(WErr)),
                None => { g.rx_w = Some(cx.waker().clone()); Poll::Pending }
            }
        }).await
    }
}
impl WireSpawn for MSp {
    fn spawn(&mut self, fut: impl Future<Output = ()> + Send + 'static) { self.0.lock().unwrap().spawned.push(Box::pin(fut)); }
}

pub type Cl = HostClient<WireError>;
pub struct World { pub sh: S, tasks: Vec<Option<(Pin<Box<dyn Future<Output = ()>>>, Arc<exec::Flag>)>>, pub workers: Vec<usize>, pub livelock: bool }
pub struct Op<R> { pub id: usize, pub out: Rc<RefCell<Option<R>>> }
impl<R: Clone> Op<R> { pub fn get(&self) -> Option<R> { self.out.borrow().clone() } }
impl World {
    pub fn new(seq: VarSeqKind, depth: usize) -> (World, Cl) { Self::new_t(seq, depth, Duration::ZERO) }
    pub fn new_t(seq: VarSeqKind, depth: usize, tmo: Duration) -> (World, Cl) {
        let sh: S = Default::default();
        let cfg = HostClientConfig { seq_kind: seq, err_uri_path: ERROR_PATH, outgoing_depth: depth, subscriber_timeout_if_full: tmo };
        let c = Cl::new_with_wire_and_config(MTx(sh.clone()), MRx(sh.clone()), MSp(sh.clone()), &cfg);
        let mut w = World { sh, tasks: vec![], workers: vec![], livelock: false };
        w.adopt();
        (w, c)
    }
    fn adopt(&mut self) {
        let v: Vec<_> = std::mem::take(&mut self.sh.lock().unwrap().spawned);
        for f in v { self.workers.push(self.tasks.len()); self.tasks.push(Some((f, exec::flag()))); }
    }
    pub fn spawn<R: 'static>(&mut self, f: impl Future<Output = R> + 'static) -> Op<R> {
        let out = Rc::new(RefCell::new(None));
        let o2 = out.clone();
        self.tasks.push(Some((Box::pin(async move { let r = f.await; *o2.borrow_mut() = Some(r); }), exec::flag())));
        Op { id: self.tasks.len() - 1, out }
    }
    /// poll one task once (if it is woken)
    pub fn poll(&mut self, id: usize) {
        if let Some((f, fl)) = self.tasks[id].as_mut() {
            if exec::woken(fl) { if exec::poll_once(f.as_mut(), fl).is_ready() { self.tasks[id] = None; } }
        }
    }
    pub fn kill(&mut self, id: usize) { self.tasks[id] = None; }
    pub fn alive(&self, id: usize) -> bool { self.tasks[id].is_some() }
    pub fn workers_alive(&mut self) -> usize { self.adopt(); self.workers.iter().filter(|i| self.tasks[**i].is_some()).count() }
    /// run woken tasks in random order until nothing is woken
    pub fn settle(&mut self, r: &mut Rng) { self.steps(r, 200_000); }
    pub fn steps(&mut self, r: &mut Rng, max: usize) {
        self.adopt();
        for _ in 0..max {
            let w: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].as_ref().map(|t| exec::woken(&t.1)).unwrap_or(false)).collect();
            if w.is_empty() { return; }
            let i = w[r.below(w.len() as u64) as usize];
            self.poll(i);
            self.adopt();
        }
        if max > 1000 { self.livelock = true; }
    }
    pub fn deliver(&mut self, m: Result<Vec<u8>, ()>) {
        let w = { let mut g = self.sh.lock().unwrap(); g.rxq.push_back(m); g.rx_w.take() };
        if let Some(w) = w { w.wake(); }
    }
    pub fn unblock(&mut self) { let w = { let mut g = self.sh.lock().unwrap(); g.tx_blocked = false; g.tx_w.take() }; if let Some(w) = w { w.wake(); } }
    pub fn block(&mut self) { self.sh.lock().unwrap().tx_blocked = true; }
    pub fn fail_tx(&mut self) { let w = { let mut g = self.sh.lock().unwrap(); g.tx_fail = true; g.tx_w.take() }; if let Some(w) = w { w.wake(); } }
    pub fn take_sent(&mut self) -> Vec<Vec<u8>> { std::mem::take(&mut self.sh.lock().unwrap().sent) }
}

pub const KW: [VarKeyKind; 4] = [VarKeyKind::Key1, VarKeyKind::Key2, VarKeyKind::Key4, VarKeyKind::Key8];
pub const SW: [VarSeqKind; 3] = [VarSeqKind::Seq1, VarSeqKind::Seq2, VarSeqKind::Seq4];
pub fn key_at(k: Key, w: VarKeyKind) -> VarKey {
    match w { VarKeyKind::Key1 => VarKey::Key1(Key1::from_key8(k)), VarKeyKind::Key2 => VarKey::Key2(Key2::from_key8(k)), VarKeyKind::Key4 => VarKey::Key4(Key4::from_key8(k)), VarKeyKind::Key8 => VarKey::Key8(k) }
}
pub fn seq_at(n: u32, w: VarSeqKind) -> VarSeq {
    match w { VarSeqKind::Seq1 => VarSeq::Seq1(n as u8), VarSeqKind::Seq2 => VarSeq::Seq2(n as u16), VarSeqKind::Seq4 => VarSeq::Seq4(n) }
}
pub fn seq_mod(n: u32, w: VarSeqKind) -> u32 { match w { VarSeqKind::Seq1 => n as u8 as u32, VarSeqKind::Seq2 => n as u16 as u32, VarSeqKind::Seq4 => n } }
pub fn frame(k: VarKey, s: VarSeq, body: &[u8]) -> Vec<u8> { let mut v = o_enc(&VarHeader { key: k, seq_no: s }); v.extend_from_slice(body); v }

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Val(Vec<u8>), Wire(Vec<u8>), Decode, BadResp, Closed, Raw(Vec<u8>, Vec<u8>) }
fn conv<T: serde::Serialize>(r: Result<T, HostErr<WireError>>) -> Res {
    match r {
        Ok(v) => Res::Val(postcard::to_stdvec(&v).unwrap()),
        Err(HostErr::Wire(e)) => Res::Wire(postcard::to_stdvec(&e).unwrap()),
        Err(HostErr::Postcard(_)) => Res::Decode,
        Err(HostErr::BadResponse) => Res::BadResp,
        Err(HostErr::Closed) => Res::Closed,
    }
}
/// start request of endpoint e in 0..3 (3 = raw variant of endpoint 0); returns (op, request key, response key, body)
pub fn request(w: &mut World, c: &Cl, e: u64, r: &mut Rng) -> (Op<Res>, Key, Key, Vec<u8>) {
    let c = c.clone();
    match e {
        0 => { let a = r.edge32(); let b = postcard::to_stdvec(&a).unwrap(); (w.spawn(async move { conv(c.send_resp::<Ea>(&a).await) }), Ea::REQ_KEY, Ea::RESP_KEY, b) }
        1 => { let a = r.u8(); let b = postcard::to_stdvec(&a).unwrap(); (w.spawn(async move { conv(c.send_resp::<Eb>(&a).await) }), Eb::REQ_KEY, Eb::RESP_KEY, b) }
        _ => (w.spawn(async move { conv(c.send_resp::<Ec>(&()).await) }), Ec::REQ_KEY, Ec::RESP_KEY, vec![]),
    }
}
fn good_body(e: u64, r: &mut Rng) -> Vec<u8> {
    match e { 0 => postcard::to_stdvec(&r.next()).unwrap(), 1 => postcard::to_stdvec(&format!("s{}", r.below(1000))).unwrap(), _ => vec![] }
}
fn werr(r: &mut Rng) -> Vec<u8> {
    let e = match r.below(4) { 0 => WireError::DeserFailed, 1 => WireError::SerFailed, 2 => WireError::UnknownKey, _ => WireError::FrameTooLong(postcard_rpc::standard_icd::FrameTooLong { len: r.edge32(), max: r.edge32() }) };
    postcard::to_stdvec(&e).unwrap()
}
const BAD: [u8; 3] = [0xff, 0xff, 0xff];

struct Pend { op: Op<Res>, e: u64, seq: u32, resp: Key, want: Option<Res>, note: String }

pub fn sanity(c: &mut Ctx) {
    // the harness needs its own keys to be distinct at one byte
    let ks = [Ea::REQ_KEY, Ea::RESP_KEY, Eb::REQ_KEY, Eb::RESP_KEY, Ec::REQ_KEY, Ta::TOPIC_KEY, Tb::TOPIC_KEY, Tc::TOPIC_KEY, ERROR_KEY];
    for i in 0..ks.len() { for j in 0..i { if Key1::from_key8(ks[i]).to_bytes() == Key1::from_key8(ks[j]).to_bytes() { c.cover("harness keys collide at one byte"); } } }
}

/// random histories of concurrent requests; every request resolves with its own answer and nothing else
pub fn c13(c: &mut Ctx) {
    c.bound("histories of up to 40 events over up to 12 concurrent requests of 3 endpoints; any order of replies, error replies, undecodable bodies, strays, duplicates, dropped requests, cloned clients; random task order; queue depths 1..=4 with transport back-pressure");
    sanity(c);
    let n = if c.deep { 60000 } else { 24000 };
    for it in 0..n {
        if c.stop() { return; }
        let seed = c.rng.next();
        c.case(|| format!("history seed {seed:#x}"), |c| hist13(c, seed, it));
    }
    threads(c);
    for _ in 0..if c.deep { 20000 } else { 3000 } {
        if c.stop() { return; }
        let seed = c.rng.next();
        c.case(|| format!("raw requests, seed {seed:#x}"), |c| raw13(c, seed));
    }
}
/// requests made on several threads at once: every one has its own sequence number
fn threads(c: &mut Ctx) {
    const N: usize = 4000;
    c.case(|| "requests from four threads".into(), |c| {
        let (mut w, cl) = World::new(VarSeqKind::Seq4, 4 * N + 8);
        let go = Arc::new(std::sync::Barrier::new(4));
        let hs: Vec<_> = (0..4).map(|_| { let (cl, go) = (cl.clone(), go.clone()); std::thread::spawn(move || { go.wait(); for _ in 0..N { let fl = exec::flag(); let mut f = Box::pin(cl.send_resp::<Ec>(&())); let _ = exec::poll_once(f.as_mut(), &fl); } }) }).collect();
        for h in hs { let _ = h.join(); }
        let mut r = Rng(3);
        w.settle(&mut r);
        let mut seen = vec![0u32; 4 * N];
        let sent = w.take_sent();
        for m in &sent { if let Some((h, _)) = VarHeader::take_from_slice(m) { let q = match h.seq_no { VarSeq::Seq4(q) => q as usize, _ => 0 }; if q < seen.len() { seen[q] += 1; } } }
        let dup = seen.iter().position(|x| *x > 1);
        c.ok(dup.is_none(), || format!("{} requests made on four threads: sequence number {} was used {} times", 4 * N, dup.unwrap(), seen[dup.unwrap()]));
        c.ok(sent.len() == 4 * N && seen.iter().all(|x| *x == 1), || format!("{} requests made on four threads: {} frames sent", 4 * N, sent.len()));
        c.cover("requests from several threads");
    });
}
/// raw requests: the caller's key, sequence number and body, at the client's widths
fn raw13(c: &mut Ctx, seed: u64) {
    let mut r = Rng(seed);
    let sk = SW[r.below(3) as usize];
    let (mut w, cl) = World::new(sk, 4);
    let mut kk = VarKeyKind::Key8;
    for i in 0..1 + r.below(5) {
        let q = r.edge32();
        let n = r.below(40) as usize; let body = r.bytes(n);
        let wide = SW[r.below(3) as usize];
        let f = RpcFrame { header: VarHeader { key: VarKey::Key8(Ea::REQ_KEY), seq_no: seq_at(q, wide) }, body: body.clone() };
        let q = seq_mod(seq_mod(q, wide), sk);
        let c2 = cl.clone();
        let op = w.spawn(async move { c2.send_resp_raw(f, Ea::RESP_KEY).await.map(|f| (o_enc(&f.header), f.body)).map_err(|e| format!("{e:?}")) });
        w.settle(&mut r);
        let s = w.take_sent();
        let want = frame(key_at(Ea::REQ_KEY, kk), seq_at(q, sk), &body);
        if s != vec![want.clone()] { c.fail(format!("raw request {i} (sequence width {sk:?}, key width {kk:?}): sent {s:02x?}, expected {want:02x?}")); return; }
        // strays first: another sequence number, another key
        if r.bool() { w.deliver(Ok(frame(key_at(Ea::RESP_KEY, kk), seq_at(q ^ 1, sk), &[1]))); w.deliver(Ok(frame(key_at(Eb::RESP_KEY, kk), seq_at(q, sk), &[1]))); w.settle(&mut r); if op.get().is_some() { c.fail(format!("raw request {i}: resolved by a frame for another request")); return; } }
        kk = KW[r.below(4) as usize];
        let m = r.below(40) as usize; let rb = r.bytes(m);
        let fr = frame(key_at(Ea::RESP_KEY, kk), seq_at(q, sk), &rb);
        w.deliver(Ok(fr.clone()));
        w.settle(&mut r);
        match op.get() {
            Some(Ok((h, b))) => { let mut g = h; g.extend(&b); if g != fr { c.fail(format!("raw request {i}: returned {g:02x?}, the reply was {fr:02x?}")); return; } }
            o => { c.fail(format!("raw request {i}: {o:?} after its reply")); return; }
        }
        c.cover("raw request");
    }
}
fn hist13(c: &mut Ctx, seed: u64, _it: u64) {
    let mut r = Rng(seed);
    let sk = SW[r.below(3) as usize];
    let depth = 1 + r.below(4) as usize;
    let (mut w, cl) = World::new(sk, depth);
    let mut pend: Vec<Pend> = vec![];
    let mut next_seq = 0u32;
    let mut done: Vec<(u32, Key, u64)> = vec![];
    let mut want_sent: Vec<(Key, u32, Vec<u8>)> = vec![];
    let mut log: Vec<String> = vec![];
    let width = KW[r.below(4) as usize];
    let mut blocked = false;
    for _ in 0..(5 + r.below(36)) {
        let mut ev = r.below(10);
        if ev == 7 && pend.is_empty() { ev = 8; }
        match ev {
            0..=2 if pend.len() < 12 => {
                let e = r.below(3);
                let cc = if r.bool() { cl.clone() } else { cl.clone() };
                let (op, rq, rs, body) = request(&mut w, &cc, e, &mut r);
                // the sequence number is drawn when the request is first polled
                w.poll(op.id);
                let seq = next_seq; next_seq += 1;
                want_sent.push((rq, seq, body));
                log.push(format!("req e{e} seq{seq}"));
                pend.push(Pend { op, e, seq, resp: rs, want: None, note: String::new() });
                c.cover("request");
            }
            3 | 4 => { // proper reply to a pending request
                let open: Vec<usize> = (0..pend.len()).filter(|i| pend[*i].want.is_none()).collect();
                if open.is_empty() { continue; }
                let i = open[r.below(open.len() as u64) as usize];
                let p = &mut pend[i];
                let kind = r.below(4);
                let (k, body, want) = match kind {
                    0 => { let b = werr(&mut r); (ERROR_KEY, b.clone(), Res::Wire(b)) }
                    1 if p.e != 2 => (p.resp, BAD[..r.below(2) as usize].to_vec(), Res::Decode),
                    2 if r.bool() => (ERROR_KEY, BAD.to_vec(), Res::Decode),
                    _ => { let b = good_body(p.e, &mut r); (p.resp, b.clone(), Res::Val(b)) }
                };
                let want = if want == Res::Decode && k == p.resp && p.e == 1 && body.is_empty() { Res::Decode } else { want };
                log.push(format!("reply seq{} kind{kind} {:?}", p.seq, body));
                p.want = Some(want);
                p.note = format!("reply kind {kind}");
                done.push((p.seq, k, p.e));
                // any sequence width that still denotes the same number
                let sw = if r.below(4) == 0 { VarSeqKind::Seq4 } else { sk };
                w.deliver(Ok(frame(key_at(k, width), seq_at(seq_mod(p.seq, sk), sw), &body)));
                c.cover("reply");
            }
            5 | 6 => { // stray traffic that must not resolve anything
                let f = match r.below(6) {
                    0 => { let m = r.below(6) as usize; r.bytes(m).into_iter().map(|b| b | 0xf0).collect() } // undecodable version
                    1 => frame(key_at(Ea::RESP_KEY, width), seq_at(next_seq + 60 + r.below(50) as u32, sk), &good_body(0, &mut r)), // not sent yet
                    2 => frame(key_at(Ea::REQ_KEY, width), seq_at(r.below(1 + next_seq as u64) as u32, sk), &good_body(0, &mut r)), // request key
                    3 => frame(key_at(ERROR_KEY, width), seq_at(next_seq + 60 + r.below(50) as u32, sk), &werr(&mut r)),
                    4 => frame(key_at(Ta::TOPIC_KEY, width), seq_at(r.below(1 + next_seq as u64) as u32, sk), &[1]),
                    _ => { // duplicate of something answered, or another endpoint's key with a pending sequence number
                        if let Some((s, k, e)) = done.last().cloned() { frame(key_at(k, width), seq_at(s, sk), &good_body(e, &mut r)) }
                        else { vec![] }
                    }
                };
                log.push(format!("stray {:02x?}", f));
                w.deliver(Ok(f));
                c.cover("stray");
            }
            7 => { // drop a pending request
                let i = r.below(pend.len() as u64) as usize;
                let p = pend.remove(i);
                w.kill(p.op.id);
                // it may still be queued or already on the wire; either way its frame is allowed, not required
                log.push(format!("drop seq{}", p.seq));
                if let Some(x) = want_sent.iter().position(|x| x.1 == p.seq) {
                    // leave a tombstone: the frame may or may not appear
                    want_sent[x].0 = unsafe { Key::from_bytes([0; 8]) };
                }
                done.push((p.seq, p.resp, p.e));
                c.cover("drop");
            }
            8 => { if blocked { w.unblock(); } else { w.block(); } blocked = !blocked; log.push(format!("blocked {blocked}")); c.cover("back-pressure"); }
            _ => {}
        }
        match r.below(3) { 0 => w.settle(&mut r), 1 => { let k = r.below(6) as usize; w.steps(&mut r, k) } _ => {} }
    }
    w.unblock();
    w.settle(&mut r);
    if w.livelock { c.fail(format!("tasks never settle: {log:?}")); return; }
    for p in &pend {
        let got = p.op.get();
        if got != p.want { c.fail(format!("request seq {} (endpoint {}): got {:?}, expected {:?} ({}) after {:?}", p.seq, p.e, got, p.want, p.note, log)); return; }
        if got.is_some() { c.cover("resolved"); } else { c.cover("still pending"); }
    }
    // every request appeared on the wire exactly once, with its key and sequence number and body
    let sent = w.take_sent();
    let mut seen = vec![0usize; want_sent.len()];
    for s in &sent {
        let mut hit = false;
        for (i, (k, q, b)) in want_sent.iter().enumerate() {
            let tomb = k.to_bytes() == [0; 8];
            let q = seq_mod(*q, sk);
            let m = KW.iter().any(|kw| SW.iter().any(|sw| if tomb {
                [Ea::REQ_KEY, Eb::REQ_KEY, Ec::REQ_KEY].iter().any(|k| *s == frame(key_at(*k, *kw), seq_at(q, *sw), b))
            } else { *s == frame(key_at(*k, *kw), seq_at(q, *sw), b) }));
            if m { seen[i] += 1; hit = true; break; }
        }
        if !hit { c.fail(format!("unexpected frame {:02x?} (sequence width {:?}) after {:?}", s, sk, log)); return; }
    }
    for (i, (k, q, _)) in want_sent.iter().enumerate() {
        let tomb = k.to_bytes() == [0; 8];
        if seen[i] > 1 || (seen[i] == 0 && !tomb) { c.fail(format!("request seq {q} was sent {} times after {:?}", seen[i], log)); return; }
    }
    if w.workers_alive() != 2 || cl.is_closed() { c.fail(format!("client stopped by itself after {:?}", log)); }
}

/// key width adaptation and sequence width
pub fn c16(c: &mut Ctx) {
    c.bound("histories of up to 30 sequential requests and publishes with replies of changing key widths, wrap-around at 1- and 2-byte sequence numbers, overlapping requests with one reply width");
    let n = if c.deep { 40000 } else { 8000 };
    for _ in 0..n {
        if c.stop() { return; }
        let seed = c.rng.next();
        c.case(|| format!("history seed {seed:#x}"), |c| hist16(c, seed));
    }
    threads(c);
    // wrap-around
    for sk in SW {
        let top = match sk { VarSeqKind::Seq1 => 600u32, VarSeqKind::Seq2 => if c.deep { 66_000 } else { 66_000 }, VarSeqKind::Seq4 => 70_000 };
        c.case(|| format!("wrap-around at {sk:?}"), |c| {
            let (mut w, cl) = World::new(sk, 4);
            let mut r = Rng(7);
            for i in 0..top {
                let (op, _, rs, body) = request(&mut w, &cl, 2, &mut r);
                w.settle(&mut r);
                let s = w.take_sent();
                let kw = if i == 0 { VarKeyKind::Key8 } else { VarKeyKind::Key2 };
                let want = frame(key_at(Ec::REQ_KEY, kw), seq_at(i, sk), &body);
                if s.len() != 1 || s[0] != want { c.fail(format!("request number {i} with sequence width {sk:?}: sent {:02x?}, expected {:02x?}", s, want)); return; }
                w.deliver(Ok(frame(key_at(rs, VarKeyKind::Key2), seq_at(i, sk), &[])));
                w.settle(&mut r);
                if op.get() != Some(Res::Val(vec![])) { c.fail(format!("request number {i} with sequence width {sk:?}: {:?}", op.get())); return; }
                if i % 512 == 0 { w.tasks.truncate(2); }
            }
            c.cover("wrap-around");
        });
    }
}
fn hist16(c: &mut Ctx, seed: u64) {
    let mut r = Rng(seed);
    let sk = SW[r.below(3) as usize];
    let (mut w, cl) = World::new(sk, 1 + r.below(4) as usize);
    let mut cur = VarKeyKind::Key8;
    let mut n = 0u32;
    let mut log = vec![];
    for _ in 0..(2 + r.below(29)) {
        match r.below(4) {
            0 => { // publish
                let raw = r.below(3) == 0;
                let s = seq_at(r.edge32(), SW[r.below(3) as usize]);
                let v = r.edge32();
                let body = postcard::to_stdvec(&v).unwrap();
                let (cc, b2) = (cl.clone(), body.clone());
                let op = if raw { w.spawn(async move { cc.publish_raw(RpcFrame { header: VarHeader { key: VarKey::Key8(Ta::TOPIC_KEY), seq_no: s }, body: b2 }).await.is_ok() }) }
                         else { w.spawn(async move { cc.publish::<Ta>(s, &v).await.is_ok() }) };
                w.settle(&mut r);
                let sent = w.take_sent();
                let want = frame(key_at(Ta::TOPIC_KEY, cur), s, &body);
                log.push(format!("publish at {cur:?}"));
                if sent != vec![want.clone()] || op.get() != Some(true) { c.fail(format!("publish: sent {:02x?}, expected {:02x?} after {:?}", sent, want, log)); return; }
                c.cover("publish");
            }
            1 => { // overlapping requests, one reply width
                let kw = KW[r.below(4) as usize];
                let k = 2 + r.below(3);
                let mut ops = vec![];
                for _ in 0..k {
                    let e = r.below(3);
                    let (op, rq, rs, body) = request(&mut w, &cl, e, &mut r);
                    w.settle(&mut r);
                    let sent = w.take_sent();
                    let want = frame(key_at(rq, cur), seq_at(n, sk), &body);
                    if sent != vec![want.clone()] { c.fail(format!("request {n}: sent {:02x?}, expected {:02x?} (sequence width {sk:?}) after {:?}", sent, want, log)); return; }
                    ops.push((op, e, rs, n)); n += 1;
                }
                while !ops.is_empty() {
                    let i = r.below(ops.len() as u64) as usize;
                    let (op, e, rs, q) = ops.swap_remove(i);
                    let b = good_body(e, &mut r);
                    w.deliver(Ok(frame(key_at(rs, kw), seq_at(q, sk), &b)));
                    w.settle(&mut r);
                    if op.get() != Some(Res::Val(b)) { c.fail(format!("request {q}: {:?} after {:?}", op.get(), log)); return; }
                }
                log.push(format!("{k} overlapping, replies at {kw:?}"));
                cur = kw;
                c.cover("overlapping");
            }
            _ => {
                let e = r.below(3);
                let kw = KW[r.below(4) as usize];
                let (op, rq, rs, body) = request(&mut w, &cl, e, &mut r);
                w.settle(&mut r);
                let sent = w.take_sent();
                let want = frame(key_at(rq, cur), seq_at(n, sk), &body);
                if sent != vec![want.clone()] { c.fail(format!("request {n}: sent {:02x?}, expected {:02x?} (sequence width {sk:?}) after {:?}", sent, want, log)); return; }
                if r.below(4) == 0 { // unrelated traffic of another width must not matter
                    w.deliver(Ok(frame(key_at(Tb::TOPIC_KEY, KW[r.below(4) as usize]), seq_at(r.next() as u32, sk), &[])));
                }
                let (k, b, want) = match r.below(4) {
                    0 => { let b = werr(&mut r); (ERROR_KEY, b.clone(), Res::Wire(b)) }
                    _ => { let b = good_body(e, &mut r); (rs, b.clone(), Res::Val(b)) }
                };
                w.deliver(Ok(frame(key_at(k, kw), seq_at(n, sk), &b)));
                w.settle(&mut r);
                log.push(format!("request {n}, reply at {kw:?}"));
                if op.get() != Some(want.clone()) { c.fail(format!("request {n}: got {:?}, expected {:?} after {:?}", op.get(), want, log)); return; }
                n += 1; cur = kw;
                c.cover("request");
            }
        }
    }
}

// ---------------------------------------------------------------- C14
#[derive(Clone, Copy, Debug, PartialEq)]
enum How { Close, CloneClose, TxFail, RxFail, DropAll }
pub fn c14(c: &mut Ctx) {
    c.bound("closure by the user, by a clone, by a send or a receive failure at a random point of histories with up to 6 pending requests (also blocked on a full queue), publishes and subscriptions of every flavour; random task order");
    let n = if c.deep { 120000 } else { 60000 };
    for _ in 0..n {
        if c.stop() { return; }
        let seed = c.rng.next();
        c.case(|| format!("history seed {seed:#x}"), |c| hist14(c, seed));
        if seed % 60 == 0 { c.case(|| format!("many subscriptions, seed {seed:#x}"), |c| many14(c, seed)); }
    }
}
/// the end of the connection reaches every subscription, however many there are
fn many14(c: &mut Ctx, seed: u64) {
    let mut r = Rng(seed ^ 0x5a5a);
    let (mut w, cl) = World::new(SW[r.below(3) as usize], 2);
    let n = [1, 2, 3, 5, 9, 17, 40][r.below(7) as usize] as u64;
    let mut ops = vec![];
    for i in 0..n {
        let k = unsafe { Key::from_bytes([i as u8, 1, 2, 3, 4, 5, 6, 7]) };
        let cc = cl.clone();
        let multi = r.below(2) == 0;
        ops.push((multi, w.spawn(async move {
            if multi { let Ok(mut s) = cc.subscribe_multi_raw(k, 2).await else { return false }; drop(cc); matches!(s.recv().await, Err(MultiSubRxError::IoClosed)) }
            else { let Ok(mut s) = cc.subscribe_exclusive_raw(k, 2).await else { return false }; drop(cc); s.recv().await.is_none() }
        })));
    }
    w.settle(&mut r);
    let how = r.below(3);
    match how { 0 => cl.close(), 1 => w.deliver(Err(())), _ => { w.fail_tx(); let cc = cl.clone(); w.spawn(async move { let _ = cc.publish::<Ta>(VarSeq::Seq1(0), &5).await; }); } }
    w.settle(&mut r);
    let bad: Vec<usize> = ops.iter().enumerate().filter(|(_, o)| o.1.get() != Some(true)).map(|x| x.0).collect();
    c.ok(bad.is_empty(), || format!("{n} subscriptions (shared: {:?}), connection ended by {}: subscriptions {bad:?} were not told", ops.iter().map(|o| o.0).collect::<Vec<_>>(), ["close()", "a receive failure", "a send failure"][how as usize]));
    c.cover("many subscriptions ended");
}
type Rx1 = Rc<RefCell<Vec<Option<Vec<u8>>>>>;
fn drain_sub(w: &mut World, c: &Cl, kind: u64, depth: usize) -> (Op<bool>, Rx1) {
    // subscribe, then receive until the end is reported (None recorded)
    let log: Rx1 = Default::default();
    let (l, c) = (log.clone(), c.clone());
    let op = match kind {
        0 => w.spawn(async move {
            #[allow(deprecated)]
            let Ok(mut s) = c.subscribe::<Ta>(depth).await else { return false };
            drop(c);
            loop { let m = s.recv().await; let e = m.is_none(); l.borrow_mut().push(m.map(|v| postcard::to_stdvec(&v).unwrap())); if e { return true; } }
        }),
        1 => w.spawn(async move {
            let Ok(mut s) = c.subscribe_exclusive::<Tb>(depth).await else { return false };
            drop(c);
            loop { let m = s.recv().await; let e = m.is_none(); l.borrow_mut().push(m.map(|v| postcard::to_stdvec(&v).unwrap())); if e { return true; } }
        }),
        2 => w.spawn(async move {
            let Ok(mut s) = c.subscribe_multi::<Tc>(depth).await else { return false };
            drop(c);
            loop { match s.recv().await { Ok(v) => l.borrow_mut().push(Some(postcard::to_stdvec(&v).unwrap())), Err(MultiSubRxError::Lagged(_)) => {}, Err(_) => { l.borrow_mut().push(None); return true; } } }
        }),
        3 => w.spawn(async move {
            let Ok(mut s) = c.subscribe_exclusive_raw(Ta::TOPIC_KEY, depth).await else { return false };
            drop(c);
            loop { let m = s.recv().await; let e = m.is_none(); l.borrow_mut().push(m.map(|v| v.body)); if e { return true; } }
        }),
        4 => w.spawn(async move {
            #[allow(deprecated)]
            let Ok(mut s) = c.subscribe_raw(Tb::TOPIC_KEY, depth).await else { return false };
            drop(c);
            loop { let m = s.recv().await; let e = m.is_none(); l.borrow_mut().push(m.map(|v| v.body)); if e { return true; } }
        }),
        _ => w.spawn(async move {
            let Ok(mut s) = c.subscribe_multi_raw(Tc::TOPIC_KEY, depth).await else { return false };
            drop(c);
            loop { match s.recv().await { Ok(v) => l.borrow_mut().push(Some(v.body)), Err(MultiSubRxError::Lagged(_)) => {}, Err(_) => { l.borrow_mut().push(None); return true; } } }
        }),
    };
    (op, log)
}
fn hist14(c: &mut Ctx, seed: u64) {
    let mut r = Rng(seed);
    let sk = SW[r.below(3) as usize];
    let (mut w, cl) = World::new(sk, 1 + r.below(3) as usize);
    let how = match r.below(5) { 0 => How::Close, 1 => How::CloneClose, 2 => How::TxFail, 3 => How::RxFail, _ => How::DropAll };
    if r.below(3) == 0 { w.block(); }
    let mut reqs = vec![];
    let mut pubs = vec![];
    let mut subs = vec![];
    let mut log = vec![format!("{how:?}")];
    let nev = r.below(10);
    let mut used = [false; 6];
    for _ in 0..nev {
        match r.below(4) {
            0 | 1 if reqs.len() < 6 && how != How::DropAll => { let e = r.below(3); let (op, ..) = request(&mut w, &cl, e, &mut r); reqs.push(op); log.push(format!("req{e}")); }
            2 if how != How::DropAll => { let cc = cl.clone(); let s = seq_at(r.next() as u32, sk); pubs.push(w.spawn(async move { cc.publish::<Ta>(s, &5).await.is_ok() })); log.push("publish".into()); }
            3 => {
                let k = r.below(6);
                if used[k as usize] || used[((k + 3) % 6) as usize] { continue; }
                used[k as usize] = true;
                subs.push((k, drain_sub(&mut w, &cl, k, 1 + r.below(3) as usize))); log.push(format!("sub{k}"));
            }
            _ => {}
        }
        match r.below(3) { 0 => w.settle(&mut r), 1 => { let k = r.below(5) as usize; w.steps(&mut r, k) } _ => {} }
    }
    let waiter = if how != How::DropAll { let cc = cl.clone(); Some(w.spawn(async move { cc.wait_closed().await })) } else { None };
    let settled_before = r.bool();
    if settled_before { w.settle(&mut r); }
    let was_open = !cl.is_closed();
    if !was_open { c.fail(format!("client closed by itself: {log:?}")); return; }
    if settled_before { for o in &reqs { if o.get().is_some() { c.fail(format!("request resolved without a reply or closure: {:?} {log:?}", o.get())); return; } } }
    // closure
    let clw = match how {
        How::Close => { cl.close(); Some(cl) }
        How::CloneClose => { let k = cl.clone(); k.close(); drop(k); Some(cl) }
        How::RxFail => { w.deliver(Err(())); Some(cl) }
        How::TxFail => { // a failing send needs something to send
            w.fail_tx();
            let cc = cl.clone(); let op = w.spawn(async move { let _ = cc.publish::<Ta>(VarSeq::Seq1(0), &1).await; }); let _ = op; Some(cl)
        }
        How::DropAll => { w.settle(&mut r); drop(cl); None }
    };
    let by_user = matches!(how, How::Close | How::CloneClose);
    let nsent = w.sh.lock().unwrap().sent.len();
    let mut late = vec![];
    if by_user {
        let cl = clw.as_ref().unwrap();
        if !cl.is_closed() { c.fail(format!("not closed after close(): {log:?}")); return; }
        // a request started after close(), before the workers noticed
        let (op, ..) = request(&mut w, cl, r.below(3), &mut r);
        late.push(op);
        c.cover("request between close and worker shutdown");
    }
    w.settle(&mut r);
    if w.livelock { c.fail(format!("tasks never settle after closure: {log:?}")); return; }
    if w.workers_alive() != 0 { c.fail(format!("{} worker(s) still running after closure: {log:?}", w.workers_alive())); return; }
    { let g = w.sh.lock().unwrap(); if !g.tx_dropped || !g.rx_dropped { c.fail(format!("transport kept after closure: {log:?}")); return; } }
    if by_user && w.sh.lock().unwrap().sent.len() != nsent { c.fail(format!("frames sent after close(): {log:?}")); return; }
    for o in reqs.iter().chain(late.iter()) { if o.get() != Some(Res::Closed) { c.fail(format!("pending request after closure: {:?}, expected Closed: {log:?}", o.get())); return; } c.cover("pending request closed"); }
    for p in &pubs { if p.get().is_none() { c.fail(format!("publish hangs after closure: {log:?}")); return; } }
    for (k, (op, _)) in &subs { if op.get().is_none() { c.fail(format!("subscription flavour {k} does not end after closure: {log:?}")); return; } c.cover("subscription ended"); }
    if let Some(o) = &waiter { if o.get().is_none() { c.fail(format!("wait_closed does not complete: {log:?}")); return; } }
    // afterwards everything fails, permanently
    if let Some(cl) = clw {
        for round in 0..2 {
            w.unblock();
            if r.bool() { w.deliver(Ok(frame(VarKey::Key8(Ta::TOPIC_KEY), VarSeq::Seq1(0), &[1]))); }
            if !cl.is_closed() { c.fail(format!("closed state reverted: {log:?}")); return; }
            let (op, ..) = request(&mut w, &cl, r.below(3), &mut r);
            let cc = cl.clone();
            let pb = w.spawn(async move { cc.publish::<Ta>(VarSeq::Seq1(0), &1).await.is_err() });
            let ss: Vec<_> = (0..6).map(|k| drain_sub(&mut w, &cl, k, 2)).collect();
            let cc = cl.clone();
            let wc = w.spawn(async move { cc.wait_closed().await });
            w.settle(&mut r);
            if op.get() != Some(Res::Closed) { c.fail(format!("request on a closed client: {:?} round {round} {log:?}", op.get())); return; }
            if pb.get() != Some(true) { c.fail(format!("publish on a closed client: {:?} {log:?}", pb.get())); return; }
            for (k, (op, _)) in ss.iter().enumerate() { if op.get() != Some(false) { c.fail(format!("subscribing (flavour {k}) on a closed client: {:?} {log:?}", op.get())); return; } }
            if wc.get().is_none() { c.fail(format!("wait_closed on a closed client hangs: {log:?}")); return; }
            let kept = how == How::TxFail || how == How::RxFail || w.sh.lock().unwrap().sent.len() == nsent;
            if !kept { c.fail(format!("frames sent by a closed client: {log:?}")); return; }
        }
        c.cover("after closure");
    }
    c.cover(&format!("{how:?}"));
}

// ---------------------------------------------------------------- C15
/// one live subscriber in the oracle
struct SubO { kind: u64, topic: usize, depth: usize, q: VecDeque<Vec<u8>>, cmd: Rc<RefCell<Vec<Cmd>>>, cmdw: Rc<RefCell<Option<Waker>>>, got: Rc<RefCell<Vec<Got>>>, op: Op<u8>, ended: bool, multi_seen: Vec<Vec<u8>>, lost: u64, took: usize }
#[derive(Clone, Debug, PartialEq)]
enum Got { Msg(Vec<u8>), Lag(u64), End }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cmd { Recv, Drop }
async fn next_cmd(c: &Rc<RefCell<Vec<Cmd>>>, w: &Rc<RefCell<Option<Waker>>>) -> Cmd {
    poll_fn(|cx| { let mut q = c.borrow_mut(); if q.is_empty() { *w.borrow_mut() = Some(cx.waker().clone()); Poll::Pending } else { Poll::Ready(q.remove(0)) } }).await
}
fn tkey(t: usize) -> Key { [Ta::TOPIC_KEY, Tb::TOPIC_KEY, Tc::TOPIC_KEY][t] }
fn tbody(t: usize, r: &mut Rng, n: u64) -> Vec<u8> { match t { 0 => postcard::to_stdvec(&(n as u32)).unwrap(), 1 => postcard::to_stdvec(&format!("m{n}")).unwrap(), _ => vec![r.u8()] } }
fn typed_ok(t: usize, b: &[u8]) -> bool { match t { 0 => postcard::from_bytes::<u32>(b).is_ok(), 1 => postcard::from_bytes::<String>(b).is_ok(), _ => postcard::from_bytes::<u8>(b).is_ok() } }
macro_rules! subtask { ($w:expr, $cl:expr, $sub:expr, $conv:expr, $cmd:expr, $cw:expr, $got:expr, $res:expr) => {{
    let (cl, cmd, cw, got) = ($cl.clone(), $cmd.clone(), $cw.clone(), $got.clone());
    let res: Rc<RefCell<Option<u8>>> = $res.clone();
    $w.spawn(async move {
        let r = $sub(&cl).await;
        let mut s = match r { Ok(s) => { *res.borrow_mut() = Some(0); s } Err(e) => { *res.borrow_mut() = Some(e); return e; } };
        drop(cl);
        loop { match next_cmd(&cmd, &cw).await { Cmd::Drop => return 9, Cmd::Recv => { let g: Got = $conv(s.recv().await); got.borrow_mut().push(g); } } }
    })
}} }
fn ex<T>(r: Result<T, SubscribeError>) -> Result<T, u8> { r.map_err(|e| match e { SubscribeError::AlreadySubscribed => 1, SubscribeError::IoClosed => 2 }) }
fn io<T>(r: Result<T, IoClosed>) -> Result<T, u8> { r.map_err(|_| 2) }
fn o2g<T: serde::Serialize>(o: Option<T>) -> Got { match o { Some(v) => Got::Msg(postcard::to_stdvec(&v).unwrap()), None => Got::End } }
fn m2g<T: serde::Serialize>(o: Result<T, MultiSubRxError>) -> Got { match o { Ok(v) => Got::Msg(postcard::to_stdvec(&v).unwrap()), Err(MultiSubRxError::Lagged(n)) => Got::Lag(n), Err(_) => Got::End } }
fn o2r(o: Option<RpcFrame>) -> Got { match o { Some(v) => Got::Msg(v.body), None => Got::End } }
fn m2r(o: Result<RpcFrame, MultiSubRxError>) -> Got { match o { Ok(v) => Got::Msg(v.body), Err(MultiSubRxError::Lagged(n)) => Got::Lag(n), Err(_) => Got::End } }
/// kinds: 0 replacing, 1 exclusive, 2 shared; +3 = raw
#[allow(deprecated)]
fn sub15(w: &mut World, cl: &Cl, kind: u64, t: usize, d: usize) -> (SubO, Rc<RefCell<Option<u8>>>) {
    let cmd: Rc<RefCell<Vec<Cmd>>> = Default::default();
    let cw: Rc<RefCell<Option<Waker>>> = Default::default();
    let got: Rc<RefCell<Vec<Got>>> = Default::default();
    let res: Rc<RefCell<Option<u8>>> = Default::default();
    let k = tkey(t);
    let op = match (kind, t) {
        (0, 0) => subtask!(w, cl, |c: &Cl| { let c = c.clone(); async move { io(c.subscribe::<Ta>(d).await) } }, o2g, cmd, cw, got, res),
        (0, 1) => subtask!(w, cl, |c: &Cl| { let c = c.clone(); async move { io(c.subscribe::<Tb>(d).await) } }, o2g, cmd, cw, got, res),
        (0, _) => subtask!(w, cl, |c: &Cl| { let c = c.clone(); async move { io(c.subscribe::<Tc>(d).await) } }, o2g, cmd, cw, got, res),
        (1, 0) => subtask!(w, cl, |c: &Cl| { let c = c.clone(); async move { ex(c.subscribe_exclusive::<Ta>(d).await) } }, o2g, cmd, cw, got, res),
        (1, 1) => subtask!(w, cl, |c: &Cl| { let c = c.clone(); async move { ex(c.subscribe_exclusive::<Tb>(d).await) } }, o2g, cmd, cw, got, res),
        (1, _) => subtask!(w, cl, |c: &Cl| { let c = c.clone(); async move { ex(c.subscribe_exclusive::<Tc>(d).await) } }, o2g, cmd, cw, got, res),
        (2, 0) => subtask!(w, cl, |c: &Cl| { let c = c.clone(); async move { io(c.subscribe_multi::<Ta>(d).await) } }, m2g, cmd, cw, got, res),
        (2, 1) => subtask!(w, cl, |c: &Cl| { let c = c.clone(); async move { io(c.subscribe_multi::<Tb>(d).await) } }, m2g, cmd, cw, got, res),
        (2, _) => subtask!(w, cl, |c: &Cl| { let c = c.clone(); async move { io(c.subscribe_multi::<Tc>(d).await) } }, m2g, cmd, cw, got, res),
        (3, _) => subtask!(w, cl, |c: &Cl| { let c = c.clone(); async move { io(c.subscribe_raw(k, d).await) } }, o2r, cmd, cw, got, res),
        (4, _) => subtask!(w, cl, |c: &Cl| { let c = c.clone(); async move { ex(c.subscribe_exclusive_raw(k, d).await) } }, o2r, cmd, cw, got, res),
        _ => subtask!(w, cl, |c: &Cl| { let c = c.clone(); async move { io(c.subscribe_multi_raw(k, d).await) } }, m2r, cmd, cw, got, res),
    };
    (SubO { kind, topic: t, depth: d, q: VecDeque::new(), cmd, cmdw: cw, got, op, ended: false, multi_seen: vec![], lost: 0, took: 0 }, res)
}
pub fn c15(c: &mut Ctx) {
    c.bound("histories of up to 60 events over 3 topics, all six subscription flavours, queue depths 1..=5 (full queues drop at once) and queues of depth up to 5000 filled unread, subscribing, replacing, dropping, receiving, messages at all key widths with undecodable ones and unrelated requests in between");
    let n = if c.deep { 80000 } else { 50000 };
    for _ in 0..n {
        if c.stop() { return; }
        let seed = c.rng.next();
        c.case(|| format!("history seed {seed:#x}"), |c| hist15(c, seed));
    }
    for depth in [1usize, 2, 16, 17, 64, 65, 255, 256, 257, 1000, 1024, 1025, 5000] {
        for kind in 0..6 {
            if c.stop() { return; }
            c.case(|| format!("queue of depth {depth}, flavour {kind}"), |c| depth15(c, depth, kind));
        }
    }
    for i in 0..(if c.deep { 4000 } else { 600 }) {
        if c.stop() { return; }
        let seed = c.rng.next();
        c.case(|| format!("full queue with a timeout, seed {seed:#x}"), |c| timeout15(c, seed, i));
    }
}
fn raw(k: u64) -> bool { k >= 3 }
fn multi(k: u64) -> bool { k % 3 == 2 }
fn hist15(c: &mut Ctx, seed: u64) {
    let mut r = Rng(seed);
    let sk = SW[r.below(3) as usize];
    let (mut w, cl) = World::new(sk, 4);
    let mut subs: Vec<SubO> = vec![];
    let mut excl: [Option<usize>; 3] = [None; 3]; // live or dropped-but-not-replaced exclusive subscription per topic
    let mut reqs: Vec<(Op<Res>, u32, Key, u64)> = vec![];
    let (mut n, mut msgno) = (0u32, 0u64);
    let mut log: Vec<String> = vec![];
    for _ in 0..(5 + r.below(56)) {
        match r.below(10) {
            0 | 1 => {
                if subs.len() >= 12 { continue; }
                let (kind, t, d) = (r.below(6), r.below(3) as usize, 1 + r.below(5) as usize);
                let (s, res) = sub15(&mut w, &cl, kind, t, d);
                w.settle(&mut r);
                let i = subs.len();
                log.push(format!("#{i} subscribe kind {kind} topic {t} depth {d}"));
                let alive = excl[t].map(|j: usize| !subs[j].ended && w.alive(subs[j].op.id)).unwrap_or(false);
                let want = if kind % 3 == 1 && alive { 1 } else { 0 };
                if *res.borrow() != Some(want) { c.fail(format!("subscribing: {:?}, expected {want} after {log:?}", res.borrow())); return; }
                if want == 1 { c.cover("refused"); continue; }
                if !multi(kind) { if let Some(j) = excl[t] { if alive { subs[j].ended = true; c.cover("replaced"); } } excl[t] = Some(i); }
                subs.push(s);
                c.cover("subscribe");
            }
            2 => { // drop a subscriber
                if subs.is_empty() { continue; }
                let i = r.below(subs.len() as u64) as usize;
                if !w.alive(subs[i].op.id) { continue; }
                w.kill(subs[i].op.id);
                log.push(format!("#{i} dropped"));
                c.cover("drop");
            }
            3 | 4 | 5 | 6 => { // a message
                let t = r.below(3) as usize;
                let b = if r.below(6) == 0 { if t == 2 { vec![] } else { vec![0xff; 1 + r.below(2) as usize] } } else { msgno += 1; tbody(t, &mut r, msgno) };
                let kw = KW[r.below(4) as usize];
                w.deliver(Ok(frame(key_at(tkey(t), kw), seq_at(r.edge32(), SW[r.below(3) as usize]), &b)));
                w.settle(&mut r);
                log.push(format!("message topic {t} {b:02x?}"));
                for i in 0..subs.len() {
                    if subs[i].topic != t || subs[i].ended || !w.alive(subs[i].op.id) { continue; }
                    if multi(subs[i].kind) { subs[i].multi_seen.push(b.clone()); }
                    else if excl[t] == Some(i) { if subs[i].q.len() < subs[i].depth { subs[i].q.push_back(b.clone()); c.cover("queued"); } else { c.cover("queue full"); } }
                }
            }
            7 | 8 => { // receive
                if subs.is_empty() { continue; }
                let i = r.below(subs.len() as u64) as usize;
                if !w.alive(subs[i].op.id) || subs[i].got.borrow().last() == Some(&Got::End) { continue; }
                let s = &mut subs[i];
                // only when something is due, so that the oracle stays exact
                let due = if multi(s.kind) { s.took + (s.lost as usize) < s.multi_seen.len() && (raw(s.kind) || s.multi_seen[s.took + s.lost as usize..].iter().all(|b| typed_ok(s.topic, b))) } else {
                    if !raw(s.kind) { while s.q.front().map(|b| !typed_ok(s.topic, b)).unwrap_or(false) { if s.q.iter().any(|b| typed_ok(s.topic, b)) || s.ended { s.q.pop_front(); } else { break; } } }
                    s.q.iter().any(|b| raw(s.kind) || typed_ok(s.topic, b)) || s.ended
                };
                if !due { continue; }
                let before = s.got.borrow().len();
                s.cmd.borrow_mut().push(Cmd::Recv);
                if let Some(k) = s.cmdw.borrow_mut().take() { k.wake(); }
                w.settle(&mut r);
                let s = &mut subs[i];
                let g = s.got.borrow().get(before).cloned();
                log.push(format!("#{i} recv {g:?}"));
                if multi(s.kind) {
                    let retained = s.depth.next_power_of_two();
                    match g {
                        Some(Got::Msg(b)) => {
                            let ix = s.took + s.lost as usize;
                            if s.multi_seen.get(ix) != Some(&b) { c.fail(format!("shared subscriber #{i} got {b:02x?}, expected {:02x?} after {log:?}", s.multi_seen.get(ix))); return; }
                            s.took += 1;
                        }
                        Some(Got::Lag(k)) => {
                            // depth of the first subscriber of the topic decides; loss is only allowed beyond the smallest depth in play
                            let backlog = s.multi_seen.len() - s.took - s.lost as usize;
                            if (k as usize) > backlog || backlog <= 1 { c.fail(format!("shared subscriber #{i} lost {k} of {backlog} waiting messages after {log:?}")); return; }
                            let _ = retained;
                            s.lost += k; c.cover("lag");
                        }
                        x => { c.fail(format!("shared subscriber #{i}: {x:?} although messages are waiting, after {log:?}")); return; }
                    }
                } else {
                    let want = match s.q.pop_front() { Some(b) => Got::Msg(b), None => Got::End };
                    if g.as_ref() != Some(&want) { c.fail(format!("subscriber #{i} got {g:?}, expected {want:?} after {log:?}")); return; }
                    if want == Got::End { c.cover("ended"); }
                }
                c.cover("receive");
            }
            _ => { // requests in between are unaffected
                if reqs.len() < 4 && r.bool() {
                    let e = r.below(3);
                    let (op, _, rs, _) = request(&mut w, &cl, e, &mut r);
                    w.settle(&mut r);
                    reqs.push((op, n, rs, e)); n += 1;
                } else if !reqs.is_empty() {
                    let i = r.below(reqs.len() as u64) as usize;
                    let (op, q, rs, e) = reqs.swap_remove(i);
                    let b = good_body(e, &mut r);
                    w.deliver(Ok(frame(key_at(rs, KW[r.below(4) as usize]), seq_at(q, sk), &b)));
                    w.settle(&mut r);
                    if op.get() != Some(Res::Val(b)) { c.fail(format!("request {q}: {:?} after {log:?}", op.get())); return; }
                    c.cover("request in between");
                }
            }
        }
        if w.livelock { c.fail(format!("tasks never settle: {log:?}")); return; }
    }
    if w.workers_alive() != 2 || cl.is_closed() { c.fail(format!("client stopped by itself after {log:?}")); }
    // nothing was received that the oracle did not ask for
    for (i, s) in subs.iter().enumerate() { if !multi(s.kind) && s.ended && w.alive(s.op.id) { let _ = i; } }
}
/// a queue of the asked depth holds that many messages while nobody reads
fn depth15(c: &mut Ctx, depth: usize, kind: u64) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let got: Vec<Option<Vec<u8>>> = rt.block_on(async {
        let sh: S = Default::default();
        struct TSp;
        impl WireSpawn for TSp { fn spawn(&mut self, f: impl Future<Output = ()> + Send + 'static) { drop(tokio::spawn(f)); } }
        let cl = Cl::new_with_wire(MTx(sh.clone()), MRx(sh.clone()), TSp, VarSeqKind::Seq2, ERROR_PATH, 4);
        let feed = || async {
            for i in 0..depth { sh.lock().unwrap().rxq.push_back(Ok(frame(VarKey::Key8(Ta::TOPIC_KEY), VarSeq::Seq1(0), &postcard::to_stdvec(&(i as u32)).unwrap()))); }
            if let Some(w) = sh.lock().unwrap().rx_w.take() { w.wake(); }
            tokio::time::sleep(Duration::from_millis(10)).await;
            cl.close();
            tokio::time::sleep(Duration::from_millis(10)).await;
        };
        let mut got = vec![];
        macro_rules! run { ($s:expr, $v:ident => $b:expr) => {{ let mut s = $s; feed().await; loop { match s.recv().await { Some($v) => got.push(Some($b)), None => break } } }}; }
        macro_rules! runm { ($s:expr, $v:ident => $b:expr) => {{ let mut s = $s; feed().await; loop { match s.recv().await { Ok($v) => got.push(Some($b)), Err(MultiSubRxError::Lagged(_)) => got.push(None), Err(_) => break } } }}; }
        #[allow(deprecated)]
        match kind {
            0 => run!(cl.subscribe::<Ta>(depth).await.unwrap(), v => postcard::to_stdvec(&v).unwrap()),
            1 => run!(cl.subscribe_exclusive::<Ta>(depth).await.unwrap(), v => postcard::to_stdvec(&v).unwrap()),
            2 => runm!(cl.subscribe_multi::<Ta>(depth).await.unwrap(), v => postcard::to_stdvec(&v).unwrap()),
            3 => run!(cl.subscribe_exclusive_raw(Ta::TOPIC_KEY, depth).await.unwrap(), v => v.body),
            4 => run!(cl.subscribe_raw(Ta::TOPIC_KEY, depth).await.unwrap(), v => v.body),
            _ => runm!(cl.subscribe_multi_raw(Ta::TOPIC_KEY, depth).await.unwrap(), v => v.body),
        }
        got
    });
    let want: Vec<Option<Vec<u8>>> = (0..depth).map(|i| Some(postcard::to_stdvec(&(i as u32)).unwrap())).collect();
    if got != want { c.fail(format!("subscription flavour {kind} with a queue of depth {depth}: {depth} messages arrived unread, {} were delivered (or in another order)", got.len())); }
    c.cover("queue filled to its depth");
}
/// with a timeout configured, a full queue delays (not drops) a message until there is room
fn timeout15(c: &mut Ctx, seed: u64, _i: u64) {
    let mut r = Rng(seed);
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let depth = 1 + r.below(3) as usize;
    let total = depth as u64 + 1 + r.below(4);
    let t = [4u64, 4, 10, 100, 1000, 60_000][r.below(6) as usize];
    // the reader starts in the middle of the wait for message `depth + k`
    let k = r.below(total + 2).min(t / 4);
    let res = rt.block_on(async {
        let sh: S = Default::default();
        struct TSp;
        impl WireSpawn for TSp { fn spawn(&mut self, f: impl Future<Output = ()> + Send + 'static) { drop(tokio::spawn(f)); } }
        let cfg = HostClientConfig { seq_kind: VarSeqKind::Seq2, err_uri_path: ERROR_PATH, outgoing_depth: 4, subscriber_timeout_if_full: Duration::from_millis(t) };
        let cl = Cl::new_with_wire_and_config(MTx(sh.clone()), MRx(sh.clone()), TSp, &cfg);
        let mut s = cl.subscribe_exclusive::<Ta>(depth).await.unwrap();
        let mut other = cl.subscribe_exclusive::<Tb>(4).await.unwrap();
        for i in 0..total { sh.lock().unwrap().rxq.push_back(Ok(frame(VarKey::Key8(Ta::TOPIC_KEY), VarSeq::Seq1(0), &postcard::to_stdvec(&(i as u32)).unwrap()))); }
        sh.lock().unwrap().rxq.push_back(Ok(frame(VarKey::Key8(Tb::TOPIC_KEY), VarSeq::Seq1(0), &postcard::to_stdvec("x").unwrap())));
        if let Some(w) = sh.lock().unwrap().rx_w.take() { w.wake(); }
        tokio::time::sleep(Duration::from_millis(t * k + t / 2)).await;
        let mut got = vec![];
        loop { match tokio::time::timeout(Duration::from_millis(30), s.recv()).await { Ok(Some(v)) => got.push(v as u64), Ok(None) => { got.push(9999); break; } Err(_) => break } }
        let o = tokio::time::timeout(Duration::from_millis(500), other.recv()).await;
        (got, o.ok().flatten())
    });
    let gone = k.min(total - depth as u64);
    let want: Vec<u64> = (0..depth as u64).chain(depth as u64 + gone..total).collect();
    if res.0 != want { c.fail(format!("queue depth {depth}, timeout {t} ms, {total} messages, reader starts after {} ms: got {:?}, expected {want:?}", t * k + t / 2, res.0)); }
    if gone > 0 { c.cover("message dropped after the timeout"); } else { c.cover("message delayed by a full queue"); }
    if res.1.as_deref() != Some("x") { c.fail(format!("queue depth {depth}: another topic's message was lost behind a full queue ({:?})", res.1)); }
    c.cover("full queue with timeout");
}
