//! In-process channel transport: both halves, their stop signal, and the servers and clients built on them.
use crate::client::{key_at, seq_at};
use crate::common::{exec, Ctx, Rng};
use crate::wire::o_enc;
use postcard_rpc::header::*;
use postcard_rpc::host_client::test_channels::new_from_channels;
use postcard_rpc::host_client::HostErr;
use postcard_rpc::server::impls::test_channels::dispatch_impl::{new_server, new_server_stoppable, Settings, Stopper, WireTxImpl};
use postcard_rpc::server::impls::test_channels::{ChannelWireRx, ChannelWireTx};
use postcard_rpc::server::{AsWireRxErrorKind, AsWireTxErrorKind, Dispatch, Sender, ServerError, WireRx, WireRxErrorKind, WireTx, WireTxErrorKind};
use postcard_rpc::standard_icd::{LoggingTopic, WireError, PingEndpoint};
use postcard_rpc::{Endpoint, Topic};
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use tokio::sync::mpsc;

const KW: [VarKeyKind; 4] = [VarKeyKind::Key1, VarKeyKind::Key2, VarKeyKind::Key4, VarKeyKind::Key8];
const SW: [VarSeqKind; 3] = [VarSeqKind::Seq1, VarSeqKind::Seq2, VarSeqKind::Seq4];
fn now<F: Future>(f: F) -> Option<F::Output> { exec::block(f) }
fn hdr(r: &mut Rng) -> VarHeader {
    let mut k = [0u8; 8]; for b in k.iter_mut() { *b = r.u8(); }
    VarHeader { key: key_at(unsafe { postcard_rpc::Key::from_bytes(k) }, KW[r.below(4) as usize]), seq_no: seq_at(r.edge32(), SW[r.below(3) as usize]) }
}
fn size(r: &mut Rng) -> usize { match r.below(12) { 0 => 0, 1 => 1, 2 => 127, 3 => 128, 4 => 4095 + r.below(3) as usize, 5 => 16383 + r.below(3) as usize, _ => r.below(200) as usize } }
fn word(r: &mut Rng) -> String { let n = size(r); let a = ['a', 'é', '\u{0}', '{', '}', '\n', '𝄞', '%']; let one = r.below(3) == 0; (0..n).map(|_| if one { 'x' } else { a[r.below(8) as usize] }).collect() }

pub fn c21(c: &mut Ctx) {
    c.case(|| "many log lines".into(), logs);
    let n = if c.deep { 60_000 } else { 6_000 };
    for it in 0..n {
        let s = c.rng.next();
        c.case(|| format!("seed {s} sending"), |c| tx(c, s));
        c.case(|| format!("seed {s} receiving"), |c| rx(c, s));
        if it % 8 == 0 { c.case(|| format!("seed {s} server"), |c| server(c, s)); }
        if it % 16 == 0 { c.case(|| format!("seed {s} client"), |c| client(c, s)); }
        if c.stop() { break; }
    }
    c.bound("up to 24 operations per history on up to 3 clones of the sender; channel capacities 1 to 40; messages up to 16 KiB");
}

/// the log counter keeps counting over the whole range a run can reach
fn logs(c: &mut Ctx) {
    let (s, mut q) = mpsc::channel(4);
    let a = ChannelWireTx::new(s);
    let b = a.clone();
    for i in 0..66_500u32 {
        let t = if i % 3 == 0 { &b } else { &a };
        let r = if i % 2 == 0 { now(t.send_log_str(VarKeyKind::Key2, "x")) } else { now(t.send_log_fmt(VarKeyKind::Key2, format_args!("x"))) };
        let got = q.try_recv().ok();
        let mut want = o_enc(&VarHeader { key: key_at(LoggingTopic::TOPIC_KEY, VarKeyKind::Key2), seq_no: VarSeq::Seq4(i) }); want.extend([1, b'x']);
        if !c.ok(matches!(r, Some(Ok(()))) && got.as_ref() == Some(&want), || format!("log line number {i}: {got:02x?} sent, expected {want:02x?}")) { return; }
    }
    c.cover("many log lines");
}
/// what one operation has to put on the channel
enum Op { Send(VarHeader, Vec<u8>), Text(VarHeader, String), Raw(Vec<u8>), Str(VarKeyKind, String), Fmt(VarKeyKind, String, u32) }
fn want(o: &Op, ctr: u32) -> (Vec<u8>, bool) {
    let log = |k: &VarKeyKind, t: &str| { let mut v = o_enc(&VarHeader { key: key_at(LoggingTopic::TOPIC_KEY, *k), seq_no: VarSeq::Seq4(ctr) }); v.extend(postcard::to_stdvec(t).unwrap()); v };
    match o {
        Op::Send(h, b) => { let mut v = o_enc(h); v.extend(postcard::to_stdvec(b).unwrap()); (v, false) }
        Op::Text(h, b) => { let mut v = o_enc(h); v.extend(postcard::to_stdvec(b).unwrap()); (v, false) }
        Op::Raw(b) => (b.clone(), false),
        Op::Str(k, t) => (log(k, t), true),
        Op::Fmt(k, t, n) => (log(k, &format!("{t}-{n:04x}")), true),
    }
}
async fn act(t: &ChannelWireTx, o: &Op) -> Result<(), WireTxErrorKind> {
    match o {
        Op::Send(h, b) => t.send::<Vec<u8>>(h.clone(), b).await,
        Op::Text(h, b) => t.send::<str>(h.clone(), b.as_str()).await,
        Op::Raw(b) => t.send_raw(b).await,
        Op::Str(k, s) => t.send_log_str(*k, s).await,
        Op::Fmt(k, s, n) => t.send_log_fmt(*k, format_args!("{s}-{n:04x}")).await,
    }.map_err(|e| e.as_kind())
}
fn op(r: &mut Rng) -> Op {
    match r.below(5) { 0 => { let n = size(r); Op::Send(hdr(r), r.bytes(n)) } 1 => Op::Text(hdr(r), word(r)), 2 => { let n = size(r); Op::Raw(r.bytes(n)) } 3 => Op::Str(KW[r.below(4) as usize], word(r)), _ => Op::Fmt(KW[r.below(4) as usize], word(r), r.edge32()) }
}
fn tx(c: &mut Ctx, seed: u64) {
    let mut r = Rng(seed);
    let cap = 1 + r.below(40) as usize;
    let (s, mut q) = mpsc::channel(cap);
    let mut t0 = ChannelWireTx::new(s);
    let stopper = if r.bool() { let st = Stopper::new(); t0.set_stopper(st.clone()); Some(st) } else { None };
    let mut ts = vec![t0];
    for _ in 0..r.below(3) { let t = ts[0].clone(); ts.push(t); }
    let (mut ctr, mut queued, mut stopped, mut gone) = (0u32, std::collections::VecDeque::new(), false, false);
    for step in 0..1 + r.below(24) {
        let o = op(&mut r);
        let (w, is_log) = want(&o, ctr);
        let t = r.below(ts.len() as u64) as usize;
        let mut f = Box::pin(act(&ts[t], &o));
        let fl = exec::flag();
        let mut out = match exec::poll_once(f.as_mut(), &fl) { Poll::Ready(v) => Some(v), Poll::Pending => None };
        if is_log { ctr = ctr.wrapping_add(1); }
        let d = |x: &str, w: &[u8]| format!("sender with {} clones, channel of {cap}, operation {step} ({} bytes, log {is_log}): {x}", ts.len(), w.len());
        if out.is_none() {
            c.cover("send blocked");
            if !c.ok(!stopped && !gone && queued.len() == cap, || d("did not complete", &w)) { return; }
            match r.below(4) {
                0 if stopper.is_some() => { stopper.as_ref().unwrap().stop(); stopped = true; c.cover("stopped while blocked");
                    out = exec::drive(f.as_mut(), 50);
                    // only the stop signal can have ended it: the channel is still full
                    if !c.ok(matches!(out, Some(Err(WireTxErrorKind::ConnectionClosed))), || d(&format!("the stop signal was given while the send waited: {out:?}"), &w)) { return; }
                    continue; }
                1 => { drop(f); c.cover("send dropped"); continue; }
                2 => { q.close(); gone = true; c.cover("receiver gone while blocked"); out = exec::drive(f.as_mut(), 50);
                    if !c.ok(matches!(out, Some(Err(WireTxErrorKind::ConnectionClosed))), || d(&format!("the receiver went away while the send waited: {out:?}"), &w)) { return; }
                    continue; }
                _ => {
                    let g = q.try_recv().ok();
                    let e: Option<Vec<u8>> = queued.pop_front();
                    if !c.ok(g == e, || d("the receiver got another item than was sent", &w)) { return; }
                    if !c.ok(exec::woken(&fl), || d("room was made, the waiting send was not woken", &w)) { return; }
                    out = exec::drive(f.as_mut(), 50);
                }
            }
        }
        drop(f);
        match out {
            Some(Ok(())) => { c.cover(if is_log { "log frame" } else { "message" }); if !c.ok(!gone, || d("Ok although the receiver is gone", &w)) { return; } queued.push_back(w.clone()); }
            Some(Err(e)) => { if !c.ok(matches!(e, WireTxErrorKind::ConnectionClosed) && (stopped || gone), || d(&format!("{e:?} although nothing was closed (stopped {stopped}, receiver gone {gone})"), &w)) { return; } }
            None => { c.fail(d("did not complete", &w)); return; }
        }
        if r.below(4) == 0 { let g = q.try_recv().ok(); let e = queued.pop_front(); if !c.ok(g == e, || d(&format!("the receiver got {:?}, sent was {:?}", g.as_ref().map(|g| &g[..g.len().min(24)]), e.as_ref().map(|e| &e[..e.len().min(24)])), &w)) { return; } }
        if r.below(30) == 0 { if let Some(s) = &stopper { s.stop(); stopped = true; c.cover("stopped"); } }
        if r.below(30) == 0 { q.close(); gone = true; c.cover("receiver gone"); }
    }
    while let Some(e) = queued.pop_front() { let g = q.try_recv().ok(); if !c.ok(g.as_ref() == Some(&e), || format!("channel of {cap}: the receiver got {:?}, sent was {:?}", g.as_ref().map(|g| &g[..g.len().min(24)]), &e[..e.len().min(24)])) { return; } }
    c.ok(q.try_recv().is_err(), || "the channel holds an item nobody sent".into());
}

fn rx(c: &mut Ctx, seed: u64) {
    let mut r = Rng(seed ^ 0x5555);
    let cap = 1 + r.below(40) as usize;
    let (s, q) = mpsc::channel(cap);
    let mut s = Some(s);
    let mut w = ChannelWireRx::new(q);
    let stopper = if r.bool() { let st = Stopper::new(); w.set_stopper(st.clone()); Some(st) } else { None };
    let mut queued = std::collections::VecDeque::new();
    let mut stopped = false;
    for step in 0..1 + r.below(30) {
        if let Some(s) = &s { for _ in 0..r.below(4) { let n = size(&mut r); let m = r.bytes(n); if s.try_send(m.clone()).is_ok() { queued.push_back(m); } } }
        let front = queued.front().map(|m: &Vec<u8>| m.len()).unwrap_or(7);
        let bl = match r.below(6) { 0 => front, 1 => front.saturating_sub(1), 2 => 0, 3 => front + 1, _ => 20_000 };
        let mut buf = vec![0xa5u8; bl];
        let mut f = Box::pin(async { w.receive(&mut buf).await.map(|m| m.to_vec()).map_err(|e| e.as_kind()) });
        let fl = exec::flag();
        let mut out = match exec::poll_once(f.as_mut(), &fl) { Poll::Ready(v) => Some(v), Poll::Pending => None };
        let (open, st0, nq) = (s.is_some(), stopped, queued.len());
        let d = |x: &str| format!("receiver, operation {step}, buffer of {bl}, {nq} queued (first {front} bytes), sender open {open}, stop given {st0}: {x}");
        if out.is_none() {
            if !c.ok(queued.is_empty() && open && !stopped, || d("did not complete")) { return; }
            c.cover("receive waits");
            match r.below(4) {
                0 => { drop(f); c.cover("receive dropped"); continue; }
                1 if stopper.is_some() => { stopper.as_ref().unwrap().stop(); stopped = true; c.cover("stopped while waiting"); out = exec::drive(f.as_mut(), 50);
                    if !c.ok(matches!(out, Some(Err(WireRxErrorKind::ConnectionClosed))), || d(&format!("the stop signal was given while it waited: {out:?}"))) { return; } continue; }
                2 => { s = None; c.cover("sender gone while waiting"); out = exec::drive(f.as_mut(), 50);
                    if !c.ok(matches!(out, Some(Err(WireRxErrorKind::ConnectionClosed))), || d(&format!("the sender went away while it waited: {out:?}"))) { return; } continue; }
                _ => { let n = size(&mut r); let m = r.bytes(n); s.as_ref().unwrap().try_send(m.clone()).unwrap(); queued.push_back(m);
                    if !c.ok(exec::woken(&fl), || d("a message arrived, the waiting receive was not woken")) { return; }
                    out = exec::drive(f.as_mut(), 50); }
            }
        }
        drop(f);
        match out {
            Some(Ok(m)) => { c.cover("received"); let e = queued.pop_front(); if !c.ok(e.as_ref() == Some(&m), || d(&format!("returned {} bytes, the message has {:?}", m.len(), e.as_ref().map(|e| e.len())))) { return; } }
            Some(Err(WireRxErrorKind::ReceivedMessageTooLarge)) => { c.cover("too large"); let e = queued.pop_front(); if !c.ok(e.as_ref().map(|e| e.len() > bl).unwrap_or(false), || d("reported a message that is too large")) { return; } }
            Some(Err(WireRxErrorKind::ConnectionClosed)) => { if !c.ok(stopped || (s.is_none() && queued.is_empty()), || d("reported the connection closed")) { return; } c.cover("closed"); }
            Some(Err(e)) => { c.fail(d(&format!("{e:?}"))); return; }
            None => { c.fail(d("did not complete")); return; }
        }
        if r.below(20) == 0 { if let Some(s) = &stopper { s.stop(); stopped = true; } }
        if r.below(20) == 0 { s = None; }
    }
}

#[derive(Clone, Default)]
struct Rec(Arc<Mutex<Vec<(Vec<u8>, Vec<u8>)>>>);
impl Dispatch for Rec {
    type Tx = WireTxImpl;
    fn min_key_len(&self) -> VarKeyKind { VarKeyKind::Key8 }
    async fn handle(&mut self, tx: &Sender<Self::Tx>, h: &VarHeader, b: &[u8]) -> Result<(), postcard_rpc::server::impls::test_channels::ChannelWireTxError> {
        self.0.lock().unwrap().push((o_enc(h), b.to_vec()));
        let v: Vec<u8> = b.to_vec();
        tx.reply_keyed(h.seq_no, PingEndpoint::RESP_KEY, &v).await
    }
}
fn server(c: &mut Ctx, seed: u64) {
    let mut r = Rng(seed ^ 0x77);
    let kk = KW[r.below(4) as usize];
    let (ci, si) = mpsc::channel(64); // to the server
    let (so, mut co) = mpsc::channel(64);
    let buf = if r.below(10) == 0 { [65535usize, 65536, 70_000, 300_000][r.below(4) as usize] } else { [0usize, 8, 64, 2048][r.below(4) as usize] };
    let st = Settings { tx: ChannelWireTx::new(so), rx: ChannelWireRx::new(si), buf, kkind: kk };
    let rec = Rec::default();
    let (mut sv, stop) = if r.bool() { let (a, b) = new_server_stoppable(rec.clone(), st); (a, Some(b)) } else { (new_server(rec.clone(), st), None) };
    let snd = sv.sender();
    let mut sent = vec![];
    for _ in 0..r.below(6) { let h = hdr(&mut r); let n = if buf > 60_000 { (buf - 20 + r.below(40) as usize).saturating_sub(o_enc(&h).len()) } else { r.below(80) as usize }; let b = r.bytes(n); let mut m = o_enc(&h); m.extend(&b); ci.try_send(m.clone()).unwrap(); sent.push((h, b, m.len())); }
    let d = |x: String| format!("channel server (stoppable {}, buffer {buf}, key width {kk:?}, messages of {:?} bytes): {x}", stop.is_some(), sent.iter().map(|s| s.2).collect::<Vec<_>>());
    let mut run = Box::pin(async { matches!(sv.run().await, ServerError::RxFatal(_)) });
    let fl = exec::flag();
    for _ in 0..500 { if !exec::woken(&fl) { break; } if let Poll::Ready(v) = exec::poll_once(run.as_mut(), &fl) { c.fail(d(format!("ended by itself ({v})"))); return; } }
    let good: Vec<_> = sent.iter().filter(|s| s.2 <= buf).collect();
    let got = rec.0.lock().unwrap().clone();
    if !c.ok(got == good.iter().map(|s| (o_enc(&s.0), s.1.clone())).collect::<Vec<_>>(), || d(format!("dispatched {} messages, {} fit the buffer", got.len(), good.len()))) { return; }
    // every reply leaves at the configured key width
    let mut replies = vec![];
    while let Ok(m) = co.try_recv() { replies.push(m); }
    let exp: Vec<Vec<u8>> = good.iter().map(|s| { let mut v = o_enc(&VarHeader { key: key_at(PingEndpoint::RESP_KEY, kk), seq_no: s.0.seq_no }); v.extend(postcard::to_stdvec(&s.1).unwrap()); v }).collect();
    let eq = replies.iter().filter(|m| exp.contains(m)).count();
    if !c.ok(eq == exp.len(), || d(format!("{eq} of {} replies left as expected", exp.len()))) { return; }
    c.cover("server history");
    match &stop {
        Some(s) if r.bool() => { s.stop(); c.cover("server stopped"); let o = exec::drive(run.as_mut(), 200); c.ok(o == Some(true), || d(format!("stop(): run() {o:?}")));
            // a send may still find room, but at the latest when the channel is full it is ended by the stop signal
            for _ in 0..5000 {
                let o = now(snd.publish::<LoggingTopic>(VarSeq::Seq1(0), &String::new())).map(|x| x.map_err(|e| e.as_kind()));
                if matches!(o, Some(Ok(()))) { continue; }
                c.ok(matches!(o, Some(Err(WireTxErrorKind::ConnectionClosed))), || d(format!("stop(): a later send ended with {o:?}")));
                break;
            } }
        _ => { drop(ci); c.cover("client gone"); let o = exec::drive(run.as_mut(), 200); c.ok(o == Some(true), || d(format!("the client went away: run() {o:?}"))); }
    }
}

fn client(c: &mut Ctx, seed: u64) {
    let mut r = Rng(seed ^ 0x99);
    let sk = SW[r.below(3) as usize];
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    rt.block_on(async {
        let (ct, mut sr) = mpsc::channel(64);
        let (stx, cr) = mpsc::channel(64);
        let cl = new_from_channels(ct, cr, sk);
        let n = 1 + r.below(4);
        for i in 0..n {
            let v = r.edge32();
            let f = cl.send_resp::<PingEndpoint>(&v);
            let (err, delay) = (r.below(4) == 0, r.bool());
            let srv = async {
                let m = match sr.recv().await { Some(m) => m, None => return None };
                let (h, _b) = VarHeader::take_from_slice(&m)?;
                if delay { tokio::task::yield_now().await; }
                let out = if err { let mut o = o_enc(&VarHeader { key: key_at(postcard_rpc::standard_icd::ERROR_KEY, VarKeyKind::Key8), seq_no: h.seq_no }); o.extend(postcard::to_stdvec(&WireError::UnknownKey).unwrap()); o }
                    else { let mut o = o_enc(&VarHeader { key: key_at(PingEndpoint::RESP_KEY, VarKeyKind::Key8), seq_no: h.seq_no }); o.extend(postcard::to_stdvec(&v).unwrap()); o };
                stx.send(out).await.ok()?;
                Some(m)
            };
            let (res, m) = tokio::join!(f, srv);
            let mut e = o_enc(&VarHeader { key: key_at(PingEndpoint::REQ_KEY, VarKeyKind::Key8), seq_no: seq_at(i as u32, sk) }); e.extend(postcard::to_stdvec(&v).unwrap());
            let d = || format!("client over channels, request {i}, sequence width {sk:?}, value {v}, answered by an error {err}: ");
            if !c.ok(m.as_ref() == Some(&e), || d() + &format!("put {m:?} on the channel, expected {e:?}")) { return; }
            let ok = if err { matches!(res, Err(HostErr::Wire(WireError::UnknownKey))) } else { matches!(res, Ok(x) if x == v) };
            if !c.ok(ok, || d() + &format!("{res:?}")) { return; }
            c.cover("request over channels");
        }
        // the other side goes away, by one direction or the other
        let by_rx = r.bool();
        if by_rx { drop(stx); } else { drop(sr); let mut t = [0u8; 1]; t[0] = 1; let _ = cl.publish::<LoggingTopic>(VarSeq::Seq1(0), &"x".to_string()).await; }
        let mut closed = false;
        for _ in 0..50 { tokio::task::yield_now().await; if cl.is_closed() { closed = true; break; } }
        c.ok(closed, || format!("client over channels: the server's {} end is gone, the client is not closed", if by_rx { "sending" } else { "receiving" }));
        c.cover(if by_rx { "server sender gone" } else { "server receiver gone" });
    });
}
