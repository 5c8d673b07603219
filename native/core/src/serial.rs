//! C19: the serial transport over a pseudo-terminal, observed through the public client API.
//! The harness is the device: it writes bytes with chosen splits and reads what the client writes.
use crate::common::{Ctx, Rng};
use crate::wire::o_enc;
use postcard_rpc::header::*;
use postcard_rpc::host_client::*;
use postcard_rpc::standard_icd::{WireError, ERROR_PATH};
use postcard_rpc::{endpoint, topic, Key, Key1, Key2, Key4, Topic};
use std::time::Duration;
use tokio::io::unix::AsyncFd;

endpoint!(Es, u32, u32, "ser/e");
topic!(Ts, Vec<u8>, "ser/t");

struct Fd(i32);
impl Drop for Fd { fn drop(&mut self) { unsafe { libc::close(self.0); } } }
impl std::os::fd::AsRawFd for Fd { fn as_raw_fd(&self) -> i32 { self.0 } }
fn open_pty() -> Option<(Fd, String)> {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC | libc::O_NONBLOCK);
        if m < 0 { return None; }
        let m = Fd(m);
        if libc::grantpt(m.0) != 0 || libc::unlockpt(m.0) != 0 { return None; }
        let mut n = [0i8 as libc::c_char; 128];
        if libc::ptsname_r(m.0, n.as_mut_ptr(), 128) != 0 { return None; }
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(m.0, &mut t); libc::cfmakeraw(&mut t); libc::tcsetattr(m.0, libc::TCSANOW, &t);
        Some((m, std::ffi::CStr::from_ptr(n.as_ptr()).to_string_lossy().into_owned()))
    }
}
/// independent COBS
fn enc(d: &[u8]) -> Vec<u8> {
    let mut o = vec![]; let mut blk = vec![];
    let mut full = false;
    for &b in d {
        full = false;
        if b == 0 { o.push(blk.len() as u8 + 1); o.append(&mut blk); }
        else { blk.push(b); if blk.len() == 254 { o.push(255); o.append(&mut blk); full = true; } }
    }
    if !full { o.push(blk.len() as u8 + 1); o.append(&mut blk); }
    o
}
fn dec(e: &[u8]) -> Option<Vec<u8>> {
    let (mut o, mut i) = (vec![], 0);
    while i < e.len() {
        let n = e[i] as usize; if n == 0 || i + n > e.len() { return None; }
        if e[i + 1..i + n].contains(&0) { return None; }
        o.extend(&e[i + 1..i + n]); i += n;
        if n < 255 && i < e.len() { o.push(0); }
    }
    Some(o)
}
fn key(w: u64, k: Key) -> VarKey { match w { 0 => VarKey::Key1(Key1::from_key8(k)), 1 => VarKey::Key2(Key2::from_key8(k)), 2 => VarKey::Key4(Key4::from_key8(k)), _ => VarKey::Key8(k) } }
fn seq(r: &mut Rng) -> VarSeq { match r.below(3) { 0 => VarSeq::Seq1(r.u8()), 1 => VarSeq::Seq2(r.next() as u16), _ => VarSeq::Seq4(r.next() as u32) } }

pub fn c19(c: &mut Ctx) {
    c.bound("bytes through a Linux pseudo-terminal; histories of up to 25 frames of up to 1 kB with random write splits (the kernel may join them), damaged frames in between; one disconnect per history");
    if open_pty().is_none() { c.cover("no pseudo-terminal available"); return; }
    let n = if c.deep { 400 } else { 80 };
    for i in 0..n {
        if c.stop() { return; }
        let seed = c.rng.next();
        c.case(|| format!("serial history {i} (seed {seed:#x})"), |c| {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(60), one(c, seed, i)).await });
            if r.is_err() { c.fail(format!("serial history {i} (seed {seed:#x}): did not finish within 60 s")); }
            rt.shutdown_background();
        });
    }
}
/// a stream of decodable and damaged frames -> (bytes, frames that must arrive)
fn stream(r: &mut Rng, mode: u64) -> (Vec<u8>, Vec<(VarHeader, Vec<u8>)>) {
    let (mut bytes, mut want) = (vec![], vec![]);
    for _ in 0..5 + r.below(20) {
        if mode != 0 && r.below(4) == 0 {
            // a damaged frame that ends in its own terminator
            match r.below(3) {
                0 => bytes.extend([9, 1, 2, 0]),                                     // block longer than the frame
                1 => bytes.extend([0]),                                              // empty
                _ => { let n = 1030 + r.below(800) as usize; bytes.extend(std::iter::repeat(7u8).take(n)); bytes.push(0); } // over-long
            }
            continue;
        }
        let h = VarHeader { key: key(r.below(4), Ts::TOPIC_KEY), seq_no: seq(r) };
        let n = match r.below(5) { 0 => 0, 1 => r.below(6), 2 => 250 + r.below(10), 3 => r.below(1000), _ => r.below(40) } as usize;
        let z = r.bool();
        let b: Vec<u8> = (0..n).map(|_| if z && r.below(3) == 0 { 0 } else { r.u8() }).collect();
        let mut f = o_enc(&h); f.extend(&b);
        bytes.extend(enc(&f)); bytes.push(0);
        want.push((h, b));
    }
    (bytes, want)
}
async fn write_split(fd: &AsyncFd<Fd>, bytes: &[u8], r: &mut Rng, fine: bool) {
    let mut i = 0;
    while i < bytes.len() {
        let n = if fine { 1 + r.below(40) } else { 1 + r.below(3000) } as usize;
        let e = (i + n).min(bytes.len());
        while i < e {
            let k = unsafe { libc::write(fd.get_ref().0, bytes[i..e].as_ptr() as *const _, e - i) };
            if k > 0 { i += k as usize; } else { tokio::time::sleep(Duration::from_millis(1)).await; }
        }
        if fine && r.below(2) == 0 { for _ in 0..30 { tokio::task::yield_now().await; } }
        if r.below(8) == 0 { tokio::time::sleep(Duration::from_millis(1)).await; }
    }
}
async fn one(c: &mut Ctx, seed: u64, i: u64) {
    let mut r = Rng(seed);
    let Some((m, path)) = open_pty() else { return };
    let fd = AsyncFd::new(m).unwrap();
    let cl = match HostClient::<WireError>::try_new_serial_cobs(&path, ERROR_PATH, 4, 115_200, VarSeqKind::Seq2) { Ok(c) => c, Err(e) => { c.cover(&format!("cannot open pty as serial port {e}").replace(' ', "_")); return; } };
    let d = format!("serial history {i} (seed {seed:#x})");
    // ---- device to client
    let mut sub = match cl.subscribe_raw(Ts::TOPIC_KEY, 200).await { Ok(s) => s, Err(_) => { c.fail(format!("{d}: subscribe failed")); return; } };
    let mode = r.below(3);
    let fine = r.bool();
    let (bytes, want) = stream(&mut r, mode);
    write_split(&fd, &bytes, &mut r, fine).await;
    for (k, (h, b)) in want.iter().enumerate() {
        match tokio::time::timeout(Duration::from_secs(5), sub.recv()).await {
            Ok(Some(f)) => {
                let same = o_enc(&f.header) == o_enc(h) && f.body == *b;
                if !c.ok(same, || format!("{d}: frame {k} ({h:?}, {} byte body) arrived as {:?} with {} bytes", b.len(), f.header, f.body.len())) { return; }
            }
            x => { c.fail(format!("{d}: frame {k} ({h:?}, {} byte body) never arrived ({})", b.len(), if x.is_ok() { "subscription ended" } else { "timeout" })); return; }
        }
        c.cover(match h.key { VarKey::Key1(_) => "received, key 1", VarKey::Key2(_) => "received, key 2", VarKey::Key4(_) => "received, key 4", VarKey::Key8(_) => "received, key 8" });
    }
    if mode != 0 { c.cover("with damaged frames"); }
    c.ok(tokio::time::timeout(Duration::from_millis(20), sub.recv()).await.is_err(), || format!("{d}: a frame too many (or the subscription ended)"));
    // ---- client to device
    let (mut exp, mut got) = (vec![], vec![]);
    // the client follows the key width it saw last in a reply; it has seen none, so full keys
    for k in 0..1 + r.below(10) {
        if k == 0 && i % 4 == 1 { c.cover("published, larger than the port's buffer"); }
        let n = if k == 0 && i % 4 == 1 { 20_000 + r.below(40_000) } else { match r.below(4) { 0 => 0, 1 => 252 + r.below(6), 2 => r.below(2000), _ => r.below(40) } } as usize;
        let z = r.bool();
        let b: Vec<u8> = (0..n).map(|_| if z && r.bool() { 0 } else { r.u8() }).collect();
        let s = VarSeq::Seq4(r.next() as u32);
        let mut body = postcard::to_stdvec(&b).unwrap();
        let p = cl.publish::<Ts>(s, &b);
        tokio::pin!(p);
        // drain while publishing, so that a full tty buffer cannot block both sides
        loop {
            tokio::select! { biased;
                x = &mut p => { c.ok(x.is_ok(), || format!("{d}: publish failed")); break; }
                _ = tokio::time::sleep(Duration::from_millis(1)) => { read_some(&fd, &mut got); }
            }
        }
        let mut f = o_enc(&VarHeader { key: VarKey::Key8(Ts::TOPIC_KEY), seq_no: s });
        f.append(&mut body);
        exp.push(f);
    }
    for _ in 0..5000 { if got.iter().filter(|b| **b == 0).count() >= exp.len() { break; } tokio::time::sleep(Duration::from_millis(1)).await; read_some(&fd, &mut got); }
    let frames: Vec<&[u8]> = got.split(|b| *b == 0).collect();
    c.ok(got.last() == Some(&0), || format!("{d}: the last frame written has no terminator"));
    let dd: Vec<Option<Vec<u8>>> = frames[..frames.len() - 1].iter().map(|f| dec(f)).collect();
    c.ok(dd == exp.iter().cloned().map(Some).collect::<Vec<_>>(), || format!("{d}: {} frames published, the bytes written decode to {} frames of lengths {:?}", exp.len(), dd.len(), dd.iter().map(|x| x.as_ref().map(|v| v.len())).collect::<Vec<_>>()));
    c.cover("published");
    // ---- the device goes away with a request pending
    if i % 3 == 0 {
        let cl2 = cl.clone();
        let h = tokio::spawn(async move { cl2.send_resp::<Es>(&5).await });
        tokio::time::sleep(Duration::from_millis(5)).await;
        drop(fd);
        let x = tokio::time::timeout(Duration::from_secs(4), h).await;
        c.ok(matches!(&x, Ok(Ok(Err(_)))), || format!("{d}: device disconnected; the pending request is still pending after 4 s"));
        c.ok(cl.is_closed(), || format!("{d}: device disconnected but the client is not closed"));
        c.cover("disconnect");
    }
    cl.close();
}
fn read_some(fd: &AsyncFd<Fd>, got: &mut Vec<u8>) {
    let mut b = [0u8; 4096];
    loop { let n = unsafe { libc::read(fd.get_ref().0, b.as_mut_ptr() as *mut _, b.len()) }; if n <= 0 { break; } got.extend(&b[..n as usize]); }
}
