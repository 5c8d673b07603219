//! C20: the real raw_nusb.rs against a scripted stand-in for the nusb crate.
#[path = "../../common.rs"]
mod common;
use common::{Ctx, Rng};
use nusb::sim::{self, Alt, S, St};
use nusb::transfer::TransferError as TE;
use postcard_rpc::header::*;
use postcard_rpc::host_client::*;
use postcard_rpc::standard_icd::{WireError, ERROR_PATH};
use postcard_rpc::{topic, Key, Key1, Key2, Key4, Topic};
use std::sync::{Arc, Mutex};
use std::time::Duration;
topic!(Ts, Vec<u8>, "nusb/t");

fn enc(h: &VarHeader) -> Vec<u8> {
    let (kb, k): (u8, Vec<u8>) = match h.key { VarKey::Key1(k) => (0, vec![k.to_bytes()]), VarKey::Key2(k) => (1, k.to_bytes().to_vec()), VarKey::Key4(k) => (2, k.to_bytes().to_vec()), VarKey::Key8(k) => (3, k.to_bytes().to_vec()) };
    let (sb, s): (u8, Vec<u8>) = match h.seq_no { VarSeq::Seq1(x) => (0, vec![x]), VarSeq::Seq2(x) => (1, x.to_le_bytes().to_vec()), VarSeq::Seq4(x) => (2, x.to_le_bytes().to_vec()) };
    let mut v = vec![(kb << 6) | (sb << 4)]; v.extend(k); v.extend(s); v
}
fn hdr(r: &mut Rng, k: Key) -> VarHeader {
    VarHeader { key: match r.below(4) { 0 => VarKey::Key1(Key1::from_key8(k)), 1 => VarKey::Key2(Key2::from_key8(k)), 2 => VarKey::Key4(Key4::from_key8(k)), _ => VarKey::Key8(k) },
        seq_no: match r.below(3) { 0 => VarSeq::Seq1(r.u8()), 1 => VarSeq::Seq2(r.next() as u16), _ => VarSeq::Seq4(r.next() as u32) } }
}
fn device(alts: Vec<Alt>) -> S { let s = Arc::new(Mutex::new(St { alts, ..Default::default() })); sim::install(s.clone()); s }
async fn settle() { for _ in 0..60 { tokio::task::yield_now().await; } }
fn client() -> Result<HostClient<WireError>, String> { HostClient::<WireError>::try_new_raw_nusb(|_| true, ERROR_PATH, 4, VarSeqKind::Seq2) }

fn c20(c: &mut Ctx) {
    c.bound("scripted stand-in for the nusb crate; packet sizes 1..=1024, frames of up to 1200 (now and then 131072) bytes out and 1024 in, up to 40 transfer results per history");
    let n = if c.deep { 8000 } else { 900 };
    for i in 0..n {
        if c.stop() { return; }
        let seed = c.rng.next();
        c.case(|| format!("nusb history {i} (seed {seed:#x})"), |c| {
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
            let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(30), async { if i % 8 == 7 { pick(c, seed).await } else if i % 2 == 0 { tx(c, seed).await } else { rx(c, seed).await } }).await });
            if r.is_err() { c.fail(format!("nusb history {i} (seed {seed:#x}): stuck")); }
        });
    }
}
/// which device and interface a client is made on
async fn pick(c: &mut Ctx, seed: u64) {
    let mut r = Rng(seed);
    let good = vec![Alt { eps: vec![(0x81u8, 2u8, 64), (0x01, 2, 64)] }];
    let devs: Vec<Vec<(u8, Vec<Alt>)>> = (0..1 + r.below(4)).map(|_| { let many = r.below(3) == 0; let n = r.below(if many { 250 } else { 5 }); (0..n).map(|_| {
        let mut a = good.clone();
        if r.below(8) == 0 { a[0].eps.remove(r.below(2) as usize); }
        (if many && r.below(40) > 0 { 0x03 } else { [0xFFu8, 0xFF, 0x02, 0x0A, 0xFE, 0x00, 0xEF][r.below(7) as usize] }, a)
    }).collect() }).collect();
    let accept: Vec<bool> = (0..devs.len()).map(|_| r.below(3) > 0).collect();
    let by_if = r.bool();
    let classes: Vec<u8> = if by_if { (0..1 + r.below(3)).map(|_| [0xFFu8, 0x02, 0x0A, 0xFE, 0x00][r.below(5) as usize]).collect() } else { vec![0xFF] };
    let s = device(vec![]);
    s.lock().unwrap().devs = devs.clone();
    let a2 = accept.clone(); let c2 = classes.clone();
    let made = if by_if { HostClient::<WireError>::try_new_raw_nusb_with_interface(move |d| a2[d.device_address() as usize], move |i| c2.contains(&i.class()), ERROR_PATH, 4, VarSeqKind::Seq2) }
        else { HostClient::<WireError>::try_new_raw_nusb(move |d| a2[d.device_address() as usize], ERROR_PATH, 4, VarSeqKind::Seq2) };
    settle().await;
    let dev = accept.iter().position(|x| *x);
    let ifc = dev.and_then(|d| devs[d].iter().position(|i| classes.contains(&i.0)).map(|i| (d, i)));
    let ok = ifc.map(|(d, i)| devs[d][i].1[0].eps.len() == 2).unwrap_or(false);
    let d = format!("nusb choice (seed {seed:#x}): devices with interface classes {:?}, accepted {accept:?}, interface classes sought {classes:02x?}", devs.iter().map(|d| d.iter().map(|i| format!("{:02x}/{}", i.0, i.1[0].eps.len())).collect::<Vec<_>>()).collect::<Vec<_>>());
    c.ok(made.is_ok() == ok, || format!("{d}: client {}", if ok { "refused" } else { "made" }));
    let g = s.lock().unwrap();
    let want = ifc.map(|(d, i)| (d, i as u8));
    c.ok(g.claimed.iter().all(|x| Some(*x) == want) && (!ok || !g.claimed.is_empty()), || format!("{d}: interfaces claimed (device, interface) {:?}, expected {want:?}", g.claimed));
    drop(g);
    c.cover(if ok { "device and interface chosen" } else if dev.is_none() { "no device" } else if ifc.is_none() { "no interface" } else { "unusable interface" });
    if let Ok(cl) = made { cl.close(); }
}
async fn tx(c: &mut Ctx, seed: u64) {
    let mut r = Rng(seed);
    let mps = [8usize, 64, 64, 512, 1024, 1, 7][r.below(7) as usize];
    let mut eps = vec![(0x81u8, 2u8, mps), (0x02, 2, mps)];
    if r.bool() { eps.push((0x83, 3, 16)); eps.push((0x03, 3, 5)); } // interrupt endpoints do not count
    if r.bool() { eps.reverse(); }
    let mut alts = vec![Alt { eps }];
    // further settings, whose bulk OUT endpoints take larger packets: the smallest size counts
    for k in 0..r.below(3) { let e = vec![(0x91 + k as u8, 2u8, mps), (0x12 + k as u8, 2, mps * (1 << r.below(4)))]; let at = r.below(alts.len() as u64 + 1) as usize; alts.insert(at, Alt { eps: e }); }
    if r.below(8) == 0 { // a device without a bulk endpoint in each direction is refused
        let d = r.below(3);
        for a in alts.iter_mut() { a.eps.retain(|e| e.1 != 2 || (d == 0 && e.0 >= 0x80) || (d == 1 && e.0 < 0x80)); }
        device(alts.clone());
        c.ok(client().is_err(), || format!("nusb tx (seed {seed:#x}): client created on a device with endpoints {alts:?}"));
        c.cover("device refused");
        return;
    }
    if alts.len() > 1 { c.cover("several settings"); }
    let s = device(alts);
    let cl = match client() { Ok(c) => c, Err(e) => { c.fail(format!("nusb tx (seed {seed:#x}): client not created: {e}")); return; } };
    settle().await;
    let hlen = 1 + 8 + 4;
    let fail_at = if r.below(4) == 0 { Some(r.below(6) as usize) } else { None };
    if let Some(k) = fail_at { let mut g = s.lock().unwrap(); for _ in 0..k { g.out_results.push_back(None); } g.out_results.push_back(Some([TE::Stall, TE::Disconnected, TE::Fault, TE::Unknown, TE::Cancelled][r.below(5) as usize])); }
    let mut want: Vec<Vec<u8>> = vec![];
    for k in 0..1 + r.below(6) {
        let target = match if r.below(60) == 0 { 9 } else { r.below(3) } { 9 => [65536usize, 131072, 65537, 66048][r.below(4) as usize], 0 => mps * (1 + r.below(4) as usize), 1 => r.below(1200) as usize, _ => r.below(80) as usize };
        // body of a byte vector: varint length + bytes
        let mut n = target.saturating_sub(hlen + 1); if n >= 128 { n -= 1; } if n >= 16384 { n -= 1; }
        let b = r.bytes(n);
        let q = VarSeq::Seq4(r.next() as u32);
        let mut f = enc(&VarHeader { key: VarKey::Key8(Ts::TOPIC_KEY), seq_no: q }); f.extend(postcard::to_stdvec(&b).unwrap());
        let zlp = f.len() % mps == 0;
        let ok = cl.publish::<Ts>(q, &b).await.is_ok();
        settle().await;
        let failed = fail_at.map(|x| x < s.lock().unwrap().out_done).unwrap_or(false);
        if !ok { if !failed { c.fail(format!("nusb tx (seed {seed:#x}): publish {k} failed on a healthy link")); } break; }
        want.push(f.clone()); if zlp { want.push(vec![]); }
        c.cover(if zlp { "frame with empty transfer" } else { "frame without empty transfer" });
        if failed { break; }
    }
    settle().await;
    let g = s.lock().unwrap();
    let lens = |v: &[Vec<u8>]| v.iter().map(|x| x.len()).collect::<Vec<_>>();
    let good = if fail_at.map(|x| x < g.out_done).unwrap_or(false) { g.out_log.len() <= want.len() && g.out_log[..] == want[..g.out_log.len()] } else { g.out_log == want };
    c.ok(good, || format!("nusb tx (seed {seed:#x}): packet size {mps}: transfers of lengths {:?} queued, expected {:?}{}", lens(&g.out_log), lens(&want), if lens(&g.out_log) == lens(&want) { " (contents differ)" } else { "" }));
    if let Some(k) = fail_at { if k < g.out_done { drop(g); settle().await; c.ok(cl.is_closed(), || format!("nusb tx (seed {seed:#x}): failed transfer did not close the client")); c.cover("failed transfer"); return; } }
    drop(g);
    c.ok(!cl.is_closed(), || format!("nusb tx (seed {seed:#x}): client closed on a healthy link"));
    cl.close();
}
async fn rx(c: &mut Ctx, seed: u64) {
    let mut r = Rng(seed);
    let s = device(vec![Alt { eps: vec![(0x81, 2, 64), (0x01, 2, 64)] }]);
    let cl = match client() { Ok(c) => c, Err(e) => { c.fail(format!("nusb rx (seed {seed:#x}): client not created: {e}")); return; } };
    let mut sub = match cl.subscribe_raw(Ts::TOPIC_KEY, 100).await { Ok(x) => x, Err(_) => { c.fail(format!("nusb rx (seed {seed:#x}): subscribe failed")); return; } };
    // script
    let (mut want, mut script) = (vec![], vec![]);
    let mut run = 0usize;
    let mut dead = false;
    let mut recoveries = 0usize;
    let burst = r.below(3) == 0;
    let clear_fails = r.below(6) == 0; // a stall that cannot be cleared ends the link
    s.lock().unwrap().clear_fails = clear_fails;
    for _ in 0..1 + r.below(40) {
        if r.below(if burst { 2 } else { 6 }) == 0 {
            let e = if r.below(12) == 0 { [TE::Cancelled, TE::Disconnected, TE::Fault][r.below(3) as usize] } else { [TE::Stall, TE::Unknown][r.below(2) as usize] };
            let k = if burst && matches!(e, TE::Stall | TE::Unknown) { 1 + r.below(12) as usize } else { 1 };
            for _ in 0..k {
                script.push(Err(e)); run += 1;
                if !matches!(e, TE::Stall | TE::Unknown) || run > 10 { dead = true; break; }
                recoveries += 1;
                if clear_fails { dead = true; c.cover("stall not cleared"); break; }
            }
            c.cover(&format!("error {e:?}"));
        } else {
            let h = hdr(&mut r, Ts::TOPIC_KEY);
            let room = 1024 - enc(&h).len();
            let n = match r.below(3) { 0 => 0, 1 => r.below(60), _ => r.below(room as u64 + 1) } as usize;
            let b = r.bytes(n);
            let mut f = enc(&h); f.extend(&b);
            script.push(Ok(f)); want.push((h, b)); run = 0;
        }
        if dead { break; }
    }
    if dead { // anything after the end must not be delivered
        let h = hdr(&mut r, Ts::TOPIC_KEY); script.push(Ok(enc(&h)));
    }
    let d = format!("nusb rx (seed {seed:#x}), clearing stalls fails {clear_fails}, transfer results {:?}", script.iter().map(|x| match x { Ok(v) => v.len().to_string(), Err(e) => format!("{e:?}") }).collect::<Vec<_>>());
    let mut it = script.into_iter().peekable();
    while it.peek().is_some() {
        for _ in 0..1 + r.below(5) { if let Some(x) = it.next() { s.lock().unwrap().in_results.push_back(x); } }
        sim::wake(&s);
        settle().await;
    }
    for (k, (h, b)) in want.iter().enumerate() {
        match tokio::time::timeout(Duration::from_secs(1), sub.recv()).await {
            Ok(Some(f)) => if !c.ok(enc(&f.header) == enc(h) && f.body == *b, || format!("{d}: frame {k} arrived changed or out of order")) { return; },
            x => { c.fail(format!("{d}: frame {k} never delivered ({})", if x.is_ok() { "closed" } else { "pending" })); return; }
        }
        c.cover("delivered");
    }
    let end = tokio::time::timeout(Duration::from_secs(1), sub.recv()).await;
    if dead {
        c.ok(matches!(end, Ok(None)) && cl.is_closed(), || format!("{d}: fatal error, but {}", match end { Ok(Some(_)) => "a later frame was delivered", Ok(None) => "the client is not closed", Err(_) => "the link is still up" }));
        c.cover("link ended");
    } else {
        c.ok(end.is_err() && !cl.is_closed(), || format!("{d}: {}", if matches!(end, Ok(Some(_))) { "a frame too many" } else { "the link ended without a fatal error" }));
        c.cover("link alive");
    }
    let g = s.lock().unwrap();
    c.ok(g.halt_cleared.len() == recoveries && g.halt_cleared.iter().all(|n| *n == 0), || format!("{d}: {recoveries} recoverable errors, stall cleared {} times with {:?} transfers in flight", g.halt_cleared.len(), g.halt_cleared));
    c.ok(g.misuse.is_empty(), || format!("{d}: {:?}", g.misuse));
    drop(g);
    cl.close();
}
fn main() { common::main_with(|p, c| { if p != "C20" { return false; } c20(c); true }); }
