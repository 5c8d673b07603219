//! Full-domain symbolic harnesses (no loop depends on the input) on the compiled wire code.
//! Used when the deductive layer cannot decide a changed tree, and in the thorough tier.
#![cfg(kani)]
use postcard_rpc::header::*;
use postcard_rpc::*;
fn k8(b: [u8; 8]) -> Key { unsafe { Key::from_bytes(b) } }
/// key of width w whose bytes are the first w of b (only uses the documented xor placement)
fn vkey(w: u8, b: [u8; 8]) -> VarKey {
    match w {
        1 => VarKey::Key1(Key1::from_key8(k8([b[0], 0, 0, 0, 0, 0, 0, 0]))),
        2 => VarKey::Key2(Key2::from_key8(k8([b[0], 0, 0, 0, b[1], 0, 0, 0]))),
        4 => VarKey::Key4(Key4::from_key8(k8([b[0], 0, b[1], 0, b[2], 0, b[3], 0]))),
        _ => VarKey::Key8(k8(b)),
    }
}
fn kb(k: &VarKey) -> ([u8; 8], usize) {
    let mut o = [0u8; 8];
    match k {
        VarKey::Key1(k) => { o[0] = k.to_bytes(); (o, 1) }
        VarKey::Key2(k) => { let b = k.to_bytes(); o[0] = b[0]; o[1] = b[1]; (o, 2) }
        VarKey::Key4(k) => { let b = k.to_bytes(); o[0] = b[0]; o[1] = b[1]; o[2] = b[2]; o[3] = b[3]; (o, 4) }
        VarKey::Key8(k) => (k.to_bytes(), 8),
    }
}
fn compact(b: [u8; 8], n: usize, w: usize) -> ([u8; 8], usize) {
    let mut o = [0u8; 8];
    if w >= n { return (b, n); }
    match (n, w) {
        (8, 4) => { o[0] = b[0] ^ b[1]; o[1] = b[2] ^ b[3]; o[2] = b[4] ^ b[5]; o[3] = b[6] ^ b[7]; }
        (8, 2) => { o[0] = b[0] ^ b[1] ^ b[2] ^ b[3]; o[1] = b[4] ^ b[5] ^ b[6] ^ b[7]; }
        (8, 1) => { o[0] = b[0] ^ b[1] ^ b[2] ^ b[3] ^ b[4] ^ b[5] ^ b[6] ^ b[7]; }
        (4, 2) => { o[0] = b[0] ^ b[1]; o[1] = b[2] ^ b[3]; }
        (4, 1) => { o[0] = b[0] ^ b[1] ^ b[2] ^ b[3]; }
        _ => { o[0] = b[0] ^ b[1]; }
    }
    (o, w)
}
fn width() -> u8 { let w: u8 = kani::any(); kani::assume(w == 1 || w == 2 || w == 4 || w == 8); w }
fn any_key() -> VarKey { vkey(width(), kani::any()) }
fn kk(w: u8) -> VarKeyKind { match w { 1 => VarKeyKind::Key1, 2 => VarKeyKind::Key2, 4 => VarKeyKind::Key4, _ => VarKeyKind::Key8 } }
fn any_seq() -> VarSeq { match kani::any::<u8>() { 0 => VarSeq::Seq1(kani::any()), 1 => VarSeq::Seq2(kani::any()), _ => VarSeq::Seq4(kani::any()) } }
fn sv(s: &VarSeq) -> (u32, usize) { match s { VarSeq::Seq1(v) => (*v as u32, 1), VarSeq::Seq2(v) => (*v as u32, 2), VarSeq::Seq4(v) => (*v, 4) } }
/// documented encoding, byte i
fn enc(h: &VarHeader, i: usize) -> u8 {
    let (k, n) = kb(&h.key); let (s, m) = sv(&h.seq_no);
    if i == 0 {
        (match n { 1 => 0u8, 2 => 0x40, 4 => 0x80, _ => 0xC0 }) | (match m { 1 => 0u8, 2 => 0x10, _ => 0x20 })
    } else if i <= n { k[i - 1] } else { (s >> (8 * (i - n - 1))) as u8 }
}
fn len(h: &VarHeader) -> usize { 1 + kb(&h.key).1 + sv(&h.seq_no).1 }

#[kani::proof]
#[kani::unwind(20)]
fn c01() {
    let h = VarHeader { key: any_key(), seq_no: any_seq() };
    let l = len(&h);
    let before: [u8; 16] = kani::any();
    let mut buf = before;
    let n: usize = kani::any();
    kani::assume(n <= 16);
    let i: usize = kani::any();
    kani::assume(i < n);
    let ok = match h.write_to_slice(&mut buf[..n]) {
        None => { assert!(n < l); false }
        Some((u, r)) => { assert!(n >= l && u.len() == l && r.len() == n - l); true }
    };
    if ok {
        if i < l { assert!(buf[i] == enc(&h, i)); } else { assert!(buf[i] == before[i]); }
        let (g, rest) = VarHeader::take_from_slice(&buf[..n]).unwrap();
        assert!(kb(&g.key) == kb(&h.key) && sv(&g.seq_no) == sv(&h.seq_no) && rest.len() == n - l);
    }
    kani::cover!(ok && n > l);
    kani::cover!(!ok);
}
#[kani::proof]
#[kani::unwind(20)]
fn c01v() {
    let h = VarHeader { key: any_key(), seq_no: any_seq() };
    let v = h.write_to_vec();
    assert!(v.len() == len(&h));
    let i: usize = kani::any();
    kani::assume(i < v.len());
    assert!(v[i] == enc(&h, i));
}
#[kani::proof]
#[kani::unwind(20)]
fn c02() {
    // 13 bytes is the longest header; the decision reads no more, so 14 covers "bytes left over"
    let b: [u8; 14] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 14);
    let r = VarHeader::take_from_slice(&b[..n]);
    let d = b[0];
    let kn = 1usize << (d >> 6); let sn = 1usize << ((d >> 4) & 3);
    let good = n >= 1 && d & 0x0f == 0 && (d >> 4) & 3 != 3 && n >= 1 + kn + sn;
    match r {
        None => assert!(!good),
        Some((h, rest)) => {
            assert!(good);
            assert!(len(&h) == 1 + kn + sn && rest.len() == n - (1 + kn + sn));
            let i: usize = kani::any();
            kani::assume(i < len(&h));
            assert!(enc(&h, i) == b[i]);
            if rest.len() > 0 { assert!(rest[0] == b[1 + kn + sn]); }
        }
    }
    kani::cover!(good);
    kani::cover!(!good && n > 0);
}
#[kani::proof]
#[kani::unwind(12)]
fn c03() {
    let a = any_key(); let b = any_key();
    let (ab, an) = kb(&a); let (bb, bn) = kb(&b);
    let m = if an < bn { an } else { bn };
    let e = compact(ab, an, m).0 == compact(bb, bn, m).0;
    assert!((a == b) == e);
    assert!((b == a) == e);
    let w = width();
    let mut s = a;
    s.shrink_to(kk(w));
    assert!(kb(&s) == compact(ab, an, w as usize));
    assert!(s.kind() == kk(kb(&s).1 as u8));
    assert!(s == a && a == s);
    let t1 = Key1::try_from_varkey(&a).unwrap();
    assert!(t1.to_bytes() == compact(ab, an, 1).0[0]);
    match Key2::try_from_varkey(&a) { None => assert!(an < 2), Some(k) => assert!(an >= 2 && kb(&VarKey::Key2(k)) == compact(ab, an, 2)) }
    match Key4::try_from_varkey(&a) { None => assert!(an < 4), Some(k) => assert!(an >= 4 && kb(&VarKey::Key4(k)) == compact(ab, an, 4)) }
    match Key::try_from(&a) { Err(_) => assert!(an < 8), Ok(k) => assert!(an == 8 && k.to_bytes() == ab) }
    kani::cover!(e && an != bn);
    kani::cover!(!e && an != bn);
}
#[kani::proof]
fn c04() {
    let a = any_seq(); let b = any_seq();
    let e = sv(&a).0 == sv(&b).0;
    assert!((a == b) == e && (b == a) == e);
    let (k, w) = match kani::any::<u8>() { 0 => (VarSeqKind::Seq1, 1usize), 1 => (VarSeqKind::Seq2, 2), _ => (VarSeqKind::Seq4, 4) };
    let mut s = a;
    s.resize(k);
    let mask = match w { 1 => 0xffu32, 2 => 0xffff, _ => u32::MAX };
    assert!(sv(&s) == (sv(&a).0 & mask, w));
    let (x, y, z): (u8, u16, u32) = (a.into(), a.into(), a.into());
    assert!(x == sv(&a).0 as u8 && y == sv(&a).0 as u16 && z == sv(&a).0);
    kani::cover!(e && sv(&a).1 != sv(&b).1);
}
