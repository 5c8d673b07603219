use crate::common::{exec, Ctx, Rng};
use crate::mock::*;
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq};
use postcard_rpc::server::{WireRx, WireRxErrorKind, WireTx, WireTxErrorKind};
use postcard_rpc::standard_icd::LoggingTopic;
use postcard_rpc::{Key, Key1, Key2, Key4, Topic};
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;

pub type Tx = WireTxImpl<NoMutex, Drv>;
pub type Rx = WireRxImpl<Drv>;
pub fn setup(txlen: usize) -> (S, Tx, Rx) {
    clear_timers();
    let s = new_state();
    let st: &'static WireStorage<NoMutex, Drv> = Box::leak(Box::new(WireStorage::new()));
    let buf: &'static mut [u8] = Box::leak(vec![0xA5u8; txlen].into_boxed_slice());
    let (d, cf) = (Drv(s.clone()), Config::new(0x16c0, 0x27DD));
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    match N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) { // the three constructors; the first can be used once in a process
        7 => { let (b, tx, rx) = st.init_poststation(d, cf, buf); std::mem::forget(b); (s, tx, rx) }
        n if n % 3 == 0 => { let (b, tx, rx) = st.init(d, cf, buf); std::mem::forget(b); (s, tx, rx) }
        _ => { let (b, tx, rx) = st.init_without_build(d, cf, buf); std::mem::forget(b); (s, tx, rx) }
    }
}
/// poll to completion, advancing virtual time when nothing else can happen; None = stuck
pub fn drive<F: Future + ?Sized>(mut f: Pin<&mut F>) -> Option<F::Output> {
    let fl = exec::flag();
    for _ in 0..100_000 {
        if exec::woken(&fl) {
            if let Poll::Ready(v) = exec::poll_once(f.as_mut(), &fl) { return Some(v); }
        } else if !advance() { return None; }
    }
    None
}
fn hdr_bytes(h: &VarHeader) -> Vec<u8> {
    let (kb, k): (u8, Vec<u8>) = match h.key {
        VarKey::Key1(k) => (0, vec![k.to_bytes()]), VarKey::Key2(k) => (1, k.to_bytes().to_vec()),
        VarKey::Key4(k) => (2, k.to_bytes().to_vec()), VarKey::Key8(k) => (3, k.to_bytes().to_vec()),
    };
    let (sb, s): (u8, Vec<u8>) = match h.seq_no {
        VarSeq::Seq1(x) => (0, vec![x]), VarSeq::Seq2(x) => (1, x.to_le_bytes().to_vec()), VarSeq::Seq4(x) => (2, x.to_le_bytes().to_vec()),
    };
    let mut v = vec![(kb << 6) | (sb << 4)];
    v.extend(k); v.extend(s); v
}
fn rand_hdr(r: &mut Rng) -> VarHeader {
    let k = unsafe { Key::from_bytes(r.next().to_le_bytes()) };
    VarHeader {
        key: match r.below(4) { 0 => VarKey::Key1(Key1::from_key8(k)), 1 => VarKey::Key2(Key2::from_key8(k)), 2 => VarKey::Key4(Key4::from_key8(k)), _ => VarKey::Key8(k) },
        seq_no: match r.below(3) { 0 => VarSeq::Seq1(r.u8()), 1 => VarSeq::Seq2(r.next() as u16), _ => VarSeq::Seq4(r.next() as u32) },
    }
}
fn varint(mut n: usize) -> Vec<u8> { let mut v = vec![]; loop { if n < 128 { v.push(n as u8); return v; } v.push(n as u8 | 0x80); n >>= 7; } }
fn log_key(k: VarKeyKind) -> VarKey {
    let f = LoggingTopic::TOPIC_KEY;
    match k { VarKeyKind::Key1 => VarKey::Key1(Key1::from_key8(f)), VarKeyKind::Key2 => VarKey::Key2(Key2::from_key8(f)), VarKeyKind::Key4 => VarKey::Key4(Key4::from_key8(f)), VarKeyKind::Key8 => VarKey::Key8(f) }
}
const KINDS: [VarKeyKind; 4] = [VarKeyKind::Key1, VarKeyKind::Key2, VarKeyKind::Key4, VarKeyKind::Key8];

// ------------------------------------------------------------------ C09
/// expected packets of one message, given whether the previous one is unterminated
fn packets(msg: &[u8], open: bool) -> Vec<Vec<u8>> {
    let mut v = vec![];
    if msg.is_empty() { return v; }
    if open { v.push(vec![]); }
    let mut i = 0;
    while i < msg.len() { let e = (i + 64).min(msg.len()); v.push(msg[i..e].to_vec()); i = e; }
    if msg.len() % 64 == 0 { v.push(vec![]); }
    v
}
#[derive(Clone, Debug)]
enum Op { Send(VarHeader, Vec<u8>), Raw(Vec<u8>), Log(usize, String) }
fn rand_len(r: &mut Rng) -> usize {
    if r.below(30) == 0 { return match r.below(3) { 0 => 64 << r.below(9), 1 => 64 * r.below(100) as usize, _ => r.below(6000) as usize }; }
    match r.below(6) { 0 => r.below(4) as usize, 1 => 64 * r.below(5) as usize, 2 => (64 * (1 + r.below(4)) as usize) - 1 + r.below(3) as usize, 3 => r.below(20) as usize, _ => r.below(300) as usize }
}
pub fn c09(c: &mut Ctx) {
    c.bound("histories of up to 6 sends, messages up to 16 KiB (mostly up to 330 bytes), transmit buffers up to 9000 bytes, endpoint errors, hangs, yields and dropped sends at any packet; exhaustive message lengths 0..=260 with a fault at every packet");
    // exhaustive: every length, fault at each packet, then a second message
    for len in 0..=260usize {
        for fault_at in 0..=(len / 64 + 2) {
            for kind in [W::Err, W::Hang] {
                if c.stop() { return; }
                let a: Vec<u8> = (0..len).map(|i| (i * 7 + 1) as u8).collect();
                let b = vec![0xEEu8; 10];
                history(c, 0, &[(Op::Raw(a), fault_at, Some(kind)), (Op::Raw(b.clone()), 99, None), (Op::Raw(b), 99, None)], false);
            }
        }
    }
    let n = if c.deep { 200_000 } else { 25_000 };
    for _ in 0..n {
        if c.stop() { return; }
        let tl = if c.rng.below(8) == 0 { c.rng.below(9000) as usize } else if c.rng.below(3) == 0 { c.rng.below(40) as usize } else { c.rng.below(330) as usize };
        let k = 1 + c.rng.below(6);
        let mut ops = vec![];
        for _ in 0..k {
            let l = rand_len(&mut c.rng);
            let op = match c.rng.below(4) {
                0 => Op::Raw(c.rng.bytes(l)),
                1 => { let s: String = (0..l).map(|i| (b'a' + (i % 26) as u8) as char).collect(); Op::Log(c.rng.below(4) as usize, s) }
                _ => { let h = rand_hdr(&mut c.rng); let l = if c.rng.bool() { l } else { (l / 64 * 64).saturating_sub(hdr_bytes(&h).len() + 1 + (l > 128) as usize) }; Op::Send(h, c.rng.bytes(l)) }
            };
            let f = match c.rng.below(5) { 0 => Some(W::Err), 1 => Some(W::Hang), 2 => Some(W::ErrOver), _ => None };
            ops.push((op, c.rng.below(5) as usize, f));
        }
        let y = c.rng.bool();
        history(c, tl, &ops, y);
    }
    two_senders(c);
}
fn history(c: &mut Ctx, txlen: usize, ops: &[(Op, usize, Option<W>)], yields: bool) {
    let d = || format!("v{VER} tx_buf={txlen} history={:?}", ops.iter().map(|(o, a, f)| match o { Op::Send(h, b) => format!("send({h:?}, {} byte body, fault {f:?}@{a})", b.len()), Op::Raw(b) => format!("send_raw({} bytes, fault {f:?}@{a})", b.len()), Op::Log(k, s) => format!("send_log_str(kind {k}, {} bytes, fault {f:?}@{a})", s.len()) }).collect::<Vec<_>>());
    let drop_seed = c.rng.next();
    c.case(d, |c| {
        let (s, tx, _rx) = setup(txlen);
        let mut r = Rng(drop_seed);
        let mut open = false;     // an unterminated message is on the wire
        let mut logseq = 0u16;
        for (op, at, f) in ops {
            {
                let mut g = s.lock().unwrap();
                g.wlog.clear(); g.wscript.clear();
                if let Some(f) = f {
                    for _ in 0..*at { if yields && r.bool() { g.wscript.push_back(W::Yield); } g.wscript.push_back(W::Ok); }
                    g.wscript.push_back(*f);
                } else if yields { for _ in 0..4 { g.wscript.push_back(if r.bool() { W::Yield } else { W::Ok }); } }
            }
            // the oracle's idea of the message
            let (msg, fits): (Vec<u8>, bool) = match op {
                Op::Raw(b) => (b.clone(), true),
                Op::Send(h, b) => { let mut m = hdr_bytes(h); m.extend(varint(b.len())); m.extend(b); let ok = m.len() <= txlen; (m, ok) }
                Op::Log(k, t) => {
                    let h = VarHeader { key: log_key(KINDS[*k]), seq_no: VarSeq::Seq2(logseq) };
                    logseq = logseq.wrapping_add(1);
                    let mut m = hdr_bytes(&h); m.extend(varint(t.len())); m.extend(t.as_bytes()); let ok = m.len() <= txlen; (m, ok)
                }
            };
            let want = if fits { packets(&msg, open) } else { vec![] };
            // maybe drop the future part-way
            let mut fut: Pin<Box<dyn Future<Output = Result<(), WireTxErrorKind>> + '_>> = match op {
                Op::Raw(b) => Box::pin(tx.send_raw(b)),
                Op::Send(h, b) => Box::pin(tx.send(*h, b)),
                Op::Log(k, t) => Box::pin(tx.send_log_str(KINDS[*k], t)),
            };
            let res;
            if yields && r.below(4) == 0 {
                let fl = exec::flag();
                let mut got = None;
                for _ in 0..1 + r.below(4) { if !exec::woken(&fl) { break; } if let Poll::Ready(v) = exec::poll_once(fut.as_mut(), &fl) { got = Some(v); break; } }
                res = got;
                drop(fut);
                clear_timers();
            } else {
                let t0 = now();
                let x = drive(fut.as_mut());
                let t1 = now();
                drop(fut);
                c.ok(x.is_some(), || format!("v{VER}: send never finished; packets written: {:?}", s.lock().unwrap().wlog.len()));
                if x.is_none() { return; }
                if f != &Some(W::Hang) { c.ok(t1 == t0, || format!("v{VER}: virtual time passed during a send whose endpoint always answered")); }
                res = x;
            }
            let log = s.lock().unwrap().wlog.clone();
            let sent: Vec<Vec<u8>> = log.iter().map(|x| x.0.clone()).collect();
            let bad = log.iter().position(|x| x.1 != W::Ok);
            // what was written is a prefix of the expected packets, complete unless something stopped it
            let pre = sent.len() <= want.len() && sent[..] == want[..sent.len()];
            let lens = |v: &Vec<Vec<u8>>| v.iter().map(|p| p.len()).collect::<Vec<_>>();
            if !c.ok(pre, || format!("v{VER}: {}-byte message (fits {fits}, previous unterminated {open}) written as packets {:?}, expected {:?}", msg.len(), lens(&sent), lens(&want))) { return; }
            match bad {
                Some(i) => {
                    c.ok(i + 1 == sent.len(), || format!("v{VER}: kept writing after a failed packet: {:?}", lens(&sent)));
                    if let Some(res) = &res {
                        let exp_timeout = log[i].1 == W::Hang;
                        c.ok(match res { Err(WireTxErrorKind::Timeout) => exp_timeout, Err(WireTxErrorKind::ConnectionClosed) => !exp_timeout, _ => false }, || format!("v{VER}: endpoint {:?} at packet {i} reported as {res:?}", log[i].1));
                    }
                    c.cover(if log[i].1 == W::Hang { "fault:hang" } else { "fault:error" });
                }
                None => match &res {
                    Some(Ok(())) => { c.ok(sent.len() == want.len() && fits, || format!("v{VER}: Ok returned for a {}-byte message (fits {fits}) after packets {:?}, expected {:?}", msg.len(), lens(&sent), lens(&want))); c.cover("sent"); if msg.len() % 64 == 0 && !msg.is_empty() { c.cover("multiple of packet size"); } }
                    Some(Err(e)) => { c.ok(!fits && sent.is_empty(), || format!("v{VER}: error {e:?} with packets {:?} for a {}-byte message, buffer {txlen}", lens(&sent), msg.len())); c.cover("refused: does not fit"); }
                    None => c.cover("dropped part-way"),
                },
            }
            let data_attempted = sent.len() > open as usize;
            let complete = bad.is_none() && sent.len() == want.len();
            if !sent.is_empty() {
                let closed_old = open && matches!(log.first(), Some((_, W::Ok)));
                // a write that was started but not finished (error, hang, drop) may or may not be on the wire
                let maybe_started = matches!(res, None) && bad.is_none() && !complete;
                if open && !closed_old { open = true; }
                else { open = (data_attempted || (maybe_started && data_attempted)) && !complete; }
                if data_attempted && !complete { c.cover("left unterminated"); }
                if closed_old && !data_attempted { // terminator went out, nothing of the new message known to
                    open = true; // the implementation may terminate again: resynchronise on what it does
                    let _ = maybe_started;
                    return;
                }
            } else if matches!(res, None) && !want.is_empty() {
                // dropped before its first packet was accepted: the implementation may or may not close it; stop here
                return;
            }
            if matches!(res, None) && !complete && !data_attempted { return; }
        }
    });
}
/// two tasks sending at once never interleave their packets
fn two_senders(c: &mut Ctx) {
    for i in 0..(if c.deep { 4000 } else { 400 }) {
        if c.stop() { return; }
        let (la, lb, sc) = (1 + rand_len(&mut c.rng), 1 + rand_len(&mut c.rng), c.rng.next());
        c.case(|| format!("v{VER} two concurrent sends of {la} and {lb} bytes, schedule {i}"), |c| {
            let (s, tx, _rx) = setup(16);
            let tx2 = tx.clone();
            let mut r = Rng(sc);
            for _ in 0..40 { let w = if r.bool() { W::Yield } else { W::Ok }; s.lock().unwrap().wscript.push_back(w); }
            let (a, b) = (vec![1u8; la], vec![2u8; lb]);
            let (mut fa, mut fb) = (Box::pin(tx.send_raw(&a)), Box::pin(tx2.send_raw(&b)));
            let (wa, wb) = (exec::flag(), exec::flag());
            let (mut da, mut db) = (false, false);
            for _ in 0..2000 {
                if da && db { break; }
                if r.bool() { if !da && exec::woken(&wa) { if let Poll::Ready(v) = exec::poll_once(fa.as_mut(), &wa) { da = true; c.ok(v.is_ok(), || format!("v{VER}: concurrent send failed")); } } }
                else if !db && exec::woken(&wb) { if let Poll::Ready(v) = exec::poll_once(fb.as_mut(), &wb) { db = true; c.ok(v.is_ok(), || format!("v{VER}: concurrent send failed")); } }
            }
            c.ok(da && db, || format!("v{VER}: a concurrent send never finished"));
            let sent: Vec<Vec<u8>> = s.lock().unwrap().wlog.iter().map(|x| x.0.clone()).collect();
            let (mut ab, mut ba) = (packets(&a, false), packets(&b, false));
            ab.extend(packets(&b, false)); ba.extend(packets(&a, false));
            c.ok(sent == ab || sent == ba, || format!("v{VER}: packets of two messages interleaved"));
            c.cover("two senders");
        });
    }
}

// ------------------------------------------------------------------ C10
#[derive(Clone, Debug, PartialEq)]
enum Exp { Msg(Vec<u8>), TooLarge, Closed }
/// results of successive receive() calls, from the packets alone
fn expect(pk: &[R], cap: usize) -> Vec<Exp> {
    let (mut out, mut cur) = (vec![], vec![]);
    for p in pk {
        match p {
            R::Yield => {}
            R::Disabled => { out.push(Exp::Closed); cur.clear(); }
            R::Pkt(p) => {
                cur.extend(p);
                if p.len() < 64 {
                    out.push(if cur.len() <= cap { Exp::Msg(std::mem::take(&mut cur)) } else { cur.clear(); Exp::TooLarge });
                }
            }
        }
    }
    out
}
pub fn c10(c: &mut Ctx) {
    c.bound("receive buffers 0..=300 (now and then up to 6000) bytes, up to 8 messages of up to 400 (6400) bytes per history, disconnects anywhere, both driver behaviours for packets that do not fit the offered buffer; exhaustive buffer sizes 0..=200 against single messages of 0..=200 bytes");
    for cap in 0..=200usize {
        for len in 0..=200usize {
            if c.stop() { return; }
            if cap > 70 && len > 70 && (cap as i64 - len as i64).abs() > 3 && cap % 64 > 1 && len % 64 > 1 { continue; }
            let m: Vec<u8> = (0..len).map(|i| (i * 13 + 5) as u8).collect();
            let mut pk: Vec<R> = vec![];
            let mut i = 0;
            while i < len { let e = (i + 64).min(len); pk.push(R::Pkt(m[i..e].to_vec())); i = e; }
            if len % 64 == 0 { pk.push(R::Pkt(vec![])); }
            pk.push(R::Pkt(vec![0xCC]));
            for cons in [false, true] { rx_case(c, cap, pk.clone(), cons); }
        }
    }
    let n = if c.deep { 300_000 } else { 40_000 };
    for _ in 0..n {
        if c.stop() { return; }
        let big = c.rng.below(25) == 0;
        let cap = if big { c.rng.below(6000) as usize } else { match c.rng.below(4) { 0 => 64 * c.rng.below(5) as usize, 1 => c.rng.below(70) as usize, _ => c.rng.below(300) as usize } };
        let mut pk = vec![];
        for _ in 0..1 + c.rng.below(8) {
            let full = match c.rng.below(4) { 0 => 0, 1 => 1, _ if big => c.rng.below(100), _ => c.rng.below(6) };
            for _ in 0..full { pk.push(R::Pkt(c.rng.bytes(64))); if c.rng.below(6) == 0 { pk.push(R::Yield); } if c.rng.below(if big { 300 } else { 30 }) == 0 { pk.push(R::Disabled); } }
            let l = match c.rng.below(4) { 0 => 0, 1 => 63, _ => c.rng.below(64) as usize };
            pk.push(R::Pkt(c.rng.bytes(l)));
            if c.rng.below(12) == 0 { pk.push(R::Disabled); }
        }
        let cons = c.rng.bool();
        rx_case(c, cap, pk, cons);
    }
}
fn rx_case(c: &mut Ctx, cap: usize, pk: Vec<R>, cons: bool) {
    let shape: Vec<String> = pk.iter().map(|p| match p { R::Pkt(p) => p.len().to_string(), R::Yield => "-".into(), R::Disabled => "disabled".into() }).collect();
    let d = || format!("v{VER} receive buffer {cap}, packets of lengths [{}], driver {} packets that do not fit", shape.join(" "), if cons { "loses" } else { "keeps" });
    c.case(d, |c| {
        let (s, _tx, mut rx) = setup(0);
        { let mut g = s.lock().unwrap(); g.rscript = pk.iter().cloned().collect(); g.over_consumes = cons; }
        let want = expect(&pk, cap);
        let mut mem = vec![0x5Au8; cap + 32];
        let mut got: Vec<Exp> = vec![];
        for _ in 0..want.len() + 8 {
            let buf = &mut mem[16..16 + cap];
            let base = buf.as_ptr() as usize;
            let mut f = Box::pin(rx.receive(buf));
            let r = exec::drive(f.as_mut(), 10_000).map(|r| match r {
                Ok(m) => (Exp::Msg(m.to_vec()), m.as_ptr() as usize == base || m.is_empty()),
                Err(WireRxErrorKind::ReceivedMessageTooLarge) => (Exp::TooLarge, true),
                Err(WireRxErrorKind::ConnectionClosed) => (Exp::Closed, true),
                Err(_) => (Exp::Closed, false),
            });
            drop(f);
            let Some((e, okp)) = r else { break };
            c.ok(okp, || format!("{}: unexpected result {e:?}", d()));
            got.push(e);
        }
        c.ok(mem[..16].iter().chain(&mem[16 + cap..]).all(|b| *b == 0x5A), || format!("{}: memory outside the buffer changed", d()));
        let sh = |v: &[Exp]| v.iter().map(|e| match e { Exp::Msg(m) => format!("message of {}", m.len()), o => format!("{o:?}") }).collect::<Vec<_>>();
        c.ok(got == want, || format!("{}: receive() gave {:?}, expected {:?}{}", d(), sh(&got), sh(&want), if sh(&got) == sh(&want) { " (contents differ)" } else { "" }));
        for e in &want { c.cover(match e { Exp::Msg(_) => "message", Exp::TooLarge => "oversized", Exp::Closed => "disconnect" }); }
    });
}

// ------------------------------------------------------------------ C12
/// a Display that writes the given pieces one after the other
struct Pieces<'a>(&'a [String]);
impl std::fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { for p in self.0 { f.write_str(p)?; } Ok(()) }
}
pub fn c12(c: &mut Ctx) {
    c.bound("transmit buffers 0..=600 bytes and 16600, texts up to buffer+80 bytes in up to 6 pieces, ASCII and multi-byte characters, all key widths; exhaustive text lengths 0..=160 against buffers 0..=160; buffers and texts around 2 MiB; sequence counter across wrap-around");
    for txlen in 0..=160usize {
        for len in 0..=160usize {
            if c.stop() { return; }
            if (len as i64 - txlen as i64).abs() > 24 && len % 16 != 0 { continue; }
            let t: String = (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            log_case(c, txlen, 0, &[t], (txlen + len) % 4, 0);
        }
    }
    for txlen in [130usize, 131, 134, 135, 136, 137, 139, 140, 141, 142, 260, 261, 262, 263, 264, 267, 268, 300, 520] {
        for len in (100..txlen + 40).step_by(1) {
            if c.stop() { return; }
            let t: String = (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            log_case(c, txlen, 0, &[t], len % 4, 0);
        }
    }
    for txlen in [16380usize, 16390, 16391, 16392, 16393, 16394, 16395, 16396, 16400, 16600] {
        for len in [16370usize, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 16390, 16500] {
            if c.stop() { return; }
            log_case(c, txlen, 0, &["x".repeat(len)], len % 4, 0);
        }
    }
    let n = if c.deep { 300_000 } else { 40_000 };
    let al = ["a", "z", " ", "é", "ß", "€", "日", "🦀", "𝄞", "\u{0}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10ffff}"];
    for _ in 0..n {
        if c.stop() { return; }
        let txlen = match c.rng.below(4) { 0 => c.rng.below(24) as usize, 1 => 120 + c.rng.below(40) as usize, 2 => 250 + c.rng.below(30) as usize, _ if c.rng.below(20) == 0 => c.rng.below(20_000) as usize, _ => c.rng.below(600) as usize };
        let total = match c.rng.below(3) { 0 => c.rng.below(txlen as u64 + 60), 1 => (txlen as u64).saturating_sub(16) + c.rng.below(24), _ => c.rng.below(20) } as usize;
        let np = 1 + c.rng.below(6) as usize;
        let uni = c.rng.bool();
        let mut ps: Vec<String> = vec![String::new(); np];
        let mut n = 0;
        let mut at = 0;
        while n < total {
            let ch = if uni { al[c.rng.below(al.len() as u64) as usize] } else { ["q", "r", "s"][n % 3] };
            ps[at].push_str(ch); n += ch.len();
            if c.rng.below((total / np + 1) as u64) == 0 && at + 1 < np { at += 1; }
        }
        let k = c.rng.below(4) as usize;
        let warm = c.rng.below(3) as usize;
        let f = (c.rng.0 & 1) | if c.rng.below(6) == 0 { 2 } else { 0 };
        log_case(c, txlen, warm, &ps, k, f);
    }
    for (txlen, len) in [(2_097_150usize, 2_097_000usize), (2_097_162, 2_097_152), (2_097_170, 2_097_151), (2_097_180, 2_097_160), (2_097_200, 2_097_300)] {
        if c.stop() { return; }
        log_case(c, txlen, 0, &["x".repeat(len)], len % 4, 0);
    }
    seq_wrap(c);
}
struct Unprintable;
impl std::fmt::Display for Unprintable { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Err(std::fmt::Error) } }
fn log_case(c: &mut Ctx, txlen: usize, warm: usize, ps: &[String], k: usize, dirty: u64) {
    let text: String = ps.concat();
    let d = || format!("v{VER} send_log_fmt, tx_buf={txlen}, key width #{k}, pieces of {:?} bytes, text {:?}{}", ps.iter().map(|p| p.len()).collect::<Vec<_>>(), text.chars().take(60).collect::<String>(), if dirty & 2 != 0 { ", formatting then fails" } else { "" });
    c.case(d, |c| {
        let (s, tx, _rx) = setup(txlen);
        for i in 0..warm { // earlier messages move the counter and leave old bytes in the buffer
            let t = "ÿ".repeat(if dirty & 1 == 1 { txlen } else { i });
            let r = exec::block(tx.send_log_fmt(KINDS[k], format_args!("{}", t)));
            c.ok(r.is_some(), || format!("{}: earlier message never finished", d()));
        }
        s.lock().unwrap().wlog.clear();
        let p = Pieces(ps);
        let bad = dirty & 2 != 0; // the formatting itself fails, after writing the text
        let r = if bad { c.cover("formatting fails"); exec::block(tx.send_log_fmt(KINDS[k], format_args!("{}{}", p, Unprintable))) } else { exec::block(tx.send_log_fmt(KINDS[k], format_args!("{}", p))) };
        let log: Vec<Vec<u8>> = s.lock().unwrap().wlog.iter().map(|x| x.0.clone()).collect();
        let h = hdr_bytes(&VarHeader { key: log_key(KINDS[k]), seq_no: VarSeq::Seq2(warm as u16) });
        let Some(r) = r else { c.fail(format!("{}: never finished", d())); return };
        if r.is_err() {
            c.ok(log.is_empty(), || format!("{}: error {r:?} but {} packets sent", d(), log.len()));
            c.ok(txlen < h.len() + 1, || format!("{}: refused ({r:?}) though the buffer has {} bytes after the header", d(), txlen - h.len()));
            c.cover("refused");
            return;
        }
        let frame: Vec<u8> = log.concat();
        c.ok(log == packets(&frame, false), || format!("{}: not one well-terminated message", d()));
        c.ok(frame.len() <= txlen, || format!("{}: frame of {} bytes exceeds the buffer", d(), frame.len()));
        if !c.ok(frame.starts_with(&h), || format!("{}: header {:02x?}, expected {:02x?}", d(), &frame[..h.len().min(frame.len())], h)) { return; }
        // independent varint decoding (padding allowed), then exactly that many bytes of UTF-8
        let b = &frame[h.len()..];
        let (mut n, mut i) = (0u64, 0);
        loop {
            if !c.ok(i < b.len() && i < 10, || format!("{}: unterminated length field {:02x?}", d(), &b[..b.len().min(8)])) { return; }
            n |= ((b[i] & 0x7f) as u64) << (7 * i); i += 1;
            if b[i - 1] < 0x80 { break; }
        }
        if !c.ok(b.len() - i == n as usize, || format!("{}: length field {n}, {} bytes follow", d(), b.len() - i)) { return; }
        let got = match std::str::from_utf8(&b[i..]) { Ok(s) => s, Err(_) => { c.fail(format!("{}: body is not UTF-8: {:02x?}", d(), &b[b.len() - 8.min(b.len() - i)..])); return; } };
        c.ok(postcard::from_bytes::<String>(b).ok().as_deref() == Some(got), || format!("{}: postcard does not decode the body to the same string", d()));
        let room = txlen - h.len();
        let cap = room - varint(room).len().min(room);   // a length field always fits in this many bytes
        if bad && text.len() > cap.saturating_sub(6) { // too close to the end to tell from truncation
            let lcp = got.bytes().zip(text.bytes()).take_while(|(a, b)| a == b).count();
            c.ok(got.as_bytes()[lcp..].iter().all(|b| *b == b'.'), || format!("{}: (formatting failed) body is not a prefix of the text followed by dots", d()));
        } else if text.len() <= cap { c.ok(got == text, || format!("{}: room for {cap} bytes but the body is {got:?}", d())); c.cover("complete text"); }
        else if got == text { c.cover("complete text"); }
        else {
            let keep = got.trim_end_matches('.');
            // what is left of the text, then dots
let lcp = got.bytes().zip(text.bytes()).take_while(|(a, b)| a == b).count();
            let pre = got.as_bytes()[lcp..].iter().all(|b| *b == b'.');
            c.ok(pre, || format!("{}: body {:?}... is not a prefix of the text followed by dots", d(), keep.chars().rev().take(12).collect::<String>()));
            c.ok(got.len() + 3 >= cap.min(text.len()), || format!("{}: only {} of {cap} possible bytes used", d(), got.len()));
            if cap >= 3 { c.ok(got.ends_with("..."), || format!("{}: truncated without the ellipsis: {:?}", d(), got.chars().rev().take(5).collect::<String>())); }
            c.cover("truncated");
        }
    });
}
fn seq_wrap(c: &mut Ctx) {
    c.case(|| format!("v{VER} log sequence number across 131080 messages"), |c| {
        let (s, tx, _rx) = setup(32);
        for i in 0..131_080u32 {
            s.lock().unwrap().wlog.clear();
            let r = if (i ^ (i >> 16)) & 1 == 0 { exec::block(tx.send_log_str(VarKeyKind::Key1, "x")) } else { exec::block(tx.send_log_fmt(VarKeyKind::Key1, format_args!("x"))) };
            clear_timers();
            let f: Vec<u8> = s.lock().unwrap().wlog.iter().flat_map(|x| x.0.clone()).collect();
            let h = hdr_bytes(&VarHeader { key: log_key(VarKeyKind::Key1), seq_no: VarSeq::Seq2(i as u16) });
            if !c.ok(matches!(r, Some(Ok(()))) && f.starts_with(&h), || format!("v{VER}: log message {i} sent as {f:02x?}, header should be {h:02x?}")) { return; }
        }
        c.cover("counter wrap-around");
    });
}
