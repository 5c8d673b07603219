//! C01..C04: bounded stand-in / counterexample search on the compiled crate.
use crate::common::Ctx;
use postcard_rpc::header::*;
use postcard_rpc::*;

pub fn key8(b: [u8; 8]) -> Key { unsafe { Key::from_bytes(b) } }
pub fn o_compact(b: &[u8], w: usize) -> Vec<u8> {
    if w >= b.len() { return b.to_vec(); }
    let g = b.len() / w;
    b.chunks(g).map(|c| c.iter().fold(0, |a, x| a ^ x)).collect()
}
/// any key of a given width: built from an 8-byte value with the required compaction
pub fn vkey(w: usize, b: &[u8; 8]) -> VarKey {
    // placing the wanted bytes so that the documented xor gives them exactly
    let mut k = [0u8; 8];
    match w {
        1 => { k[0] = b[0]; VarKey::Key1(Key1::from_key8(key8(k))) }
        2 => { k[0] = b[0]; k[4] = b[1]; VarKey::Key2(Key2::from_key8(key8(k))) }
        4 => { k[0] = b[0]; k[2] = b[1]; k[4] = b[2]; k[6] = b[3]; VarKey::Key4(Key4::from_key8(key8(k))) }
        _ => VarKey::Key8(key8(*b)),
    }
}
pub fn kb(k: &VarKey) -> Vec<u8> {
    match k { VarKey::Key1(k) => vec![k.to_bytes()], VarKey::Key2(k) => k.to_bytes().to_vec(), VarKey::Key4(k) => k.to_bytes().to_vec(), VarKey::Key8(k) => k.to_bytes().to_vec() }
}
pub fn vseq(w: usize, v: u32) -> VarSeq { match w { 1 => VarSeq::Seq1(v as u8), 2 => VarSeq::Seq2(v as u16), _ => VarSeq::Seq4(v) } }
pub fn sb(s: &VarSeq) -> Vec<u8> { match s { VarSeq::Seq1(v) => vec![*v], VarSeq::Seq2(v) => v.to_le_bytes().to_vec(), VarSeq::Seq4(v) => v.to_le_bytes().to_vec() } }
pub fn sv(s: &VarSeq) -> u32 { match s { VarSeq::Seq1(v) => *v as u32, VarSeq::Seq2(v) => *v as u32, VarSeq::Seq4(v) => *v } }
pub fn o_enc(h: &VarHeader) -> Vec<u8> {
    let k = kb(&h.key); let s = sb(&h.seq_no);
    let kn = match k.len() { 1 => 0u8, 2 => 1, 4 => 2, _ => 3 };
    let sn = match s.len() { 1 => 0u8, 2 => 1, _ => 2 };
    let mut o = vec![kn << 6 | sn << 4];
    o.extend(k); o.extend(s); o
}
pub fn o_dec(b: &[u8]) -> Option<(Vec<u8>, Vec<u8>, usize)> {
    let d = *b.first()?;
    if d & 0xf != 0 || (d >> 4) & 3 == 3 { return None; }
    let kn = 1usize << (d >> 6); let sn = 1usize << ((d >> 4) & 3);
    if b.len() < 1 + kn + sn { return None; }
    Some((b[1..1 + kn].to_vec(), b[1 + kn..1 + kn + sn].to_vec(), 1 + kn + sn))
}
pub fn any_header(c: &mut Ctx) -> VarHeader {
    let kw = [1, 2, 4, 8][c.rng.below(4) as usize]; let sw = [1, 2, 4][c.rng.below(3) as usize];
    let b: [u8; 8] = c.rng.bytes(8).try_into().unwrap(); let s = c.rng.edge32();
    VarHeader { key: vkey(kw, &b), seq_no: vseq(sw, s) }
}
fn same(a: &VarHeader, b: &VarHeader) -> bool { kb(&a.key) == kb(&b.key) && sb(&a.seq_no) == sb(&b.seq_no) }

fn huge(c: &mut Ctx) -> usize { let a = [128usize, 256, 1024, 4096, 32768, 65536, 131072][c.rng.below(7) as usize]; a - 20 + c.rng.below(40) as usize + (c.rng.below(2) * c.rng.below(8000)) as usize }
pub fn c01(c: &mut Ctx) {
    let n = if c.deep { 4_000_000 } else { 500_000 };
    c.bound("random headers of all 12 width combinations, destination slices of length 0..=24, trailing bytes 0..=8 (now and then both up to 140000)");
    for _ in 0..n {
        if c.stop() { break; }
        let h = any_header(c);
        let big = c.rng.below(4000) == 0; // now and then far larger than any header
        let extra = if big { huge(c) } else { c.rng.below(9) as usize }; let tail = c.rng.bytes(extra);
        let blen = if big { huge(c) } else { c.rng.below(25) as usize }; let fill = c.rng.bytes(blen);
        c.case(|| format!("header {h:?} buffer {blen}"), |c| {
            let e = o_enc(&h);
            let v = h.write_to_vec();
            c.ok(v == e, || format!("write_to_vec({h:?}) = {v:02x?}, documented form {e:02x?}"));
            let mut b = fill.clone();
            let r = h.write_to_slice(&mut b).map(|(x, y)| (x.to_vec(), y.to_vec()));
            if blen >= e.len() {
                c.cover("slice-fits");
                c.ok(r == Some((e.clone(), fill[e.len()..].to_vec())), || format!("write_to_slice({h:?}) into {blen} bytes = {r:02x?}, expected header {e:02x?} and the rest untouched"));
                c.ok(b[..e.len()] == e[..] && b[e.len()..] == fill[e.len()..], || format!("write_to_slice({h:?}): buffer {b:02x?}"));
            } else {
                c.cover("slice-short");
                c.ok(r.is_none(), || format!("write_to_slice({h:?}) into only {blen} bytes returned {r:02x?}"));
            }
            let mut m = v.clone(); m.extend(&tail);
            match VarHeader::take_from_slice(&m) {
                Some((g, rest)) => { c.ok(same(&g, &h) && rest == &tail[..], || format!("{h:?} + {tail:02x?} decoded as {g:?} + {rest:02x?}")); }
                None => c.fail(format!("{h:?} + {tail:02x?} did not decode")),
            }
        });
    }
}
pub fn c02(c: &mut Ctx) {
    c.bound("every discriminant byte with every total length 0..=16 (body bytes pseudo-random), plus random inputs up to 40 bytes and some of up to 140000");
    let reps = if c.deep { 2000 } else { 400 };
    let mut one = |c: &mut Ctx, b: Vec<u8>| {
        c.case(|| format!("bytes {b:02x?}"), |c| {
            let o = o_dec(&b);
            c.cover(if o.is_some() { "accepted" } else { "rejected" });
            let r = VarHeader::take_from_slice(&b).map(|(h, rest)| (kb(&h.key), sb(&h.seq_no), b.len() - rest.len(), rest.to_vec()));
            let e = o.map(|(k, s, n)| (k, s, n, b[n..].to_vec()));
            c.ok(r == e, || format!("take_from_slice({b:02x?}) = {r:02x?}, documented {e:02x?}"));
        });
    };
    for _ in 0..reps { for d in 0..=255u8 { for l in 0..=16usize {
        if c.stop() { return; }
        let mut b = c.rng.bytes(l); if l > 0 { b[0] = d; }
        one(c, b);
    } } }
    for _ in 0..reps { let l = huge(c); let b = c.rng.bytes(l); one(c, b); }
    for _ in 0..reps * 500 { let l = c.rng.below(41) as usize; let b = c.rng.bytes(l); one(c, b); }
}
const KK: [(VarKeyKind, usize); 4] = [(VarKeyKind::Key1, 1), (VarKeyKind::Key2, 2), (VarKeyKind::Key4, 4), (VarKeyKind::Key8, 8)];
struct Ep; impl Endpoint for Ep { type Request = u8; type Response = u16; const PATH: &'static str = "v/ep";
    const REQ_KEY: Key = Key::for_path::<u8>("v/ep"); const RESP_KEY: Key = Key::for_path::<u16>("v/ep"); }
struct Tp; impl Topic for Tp { type Message = u32; const PATH: &'static str = "v/tp"; const TOPIC_KEY: Key = Key::for_path::<u32>("v/tp"); }
pub fn c03(c: &mut Ctx) {
    let n = if c.deep { 1_000_000 } else { 150_000 };
    c.bound("random 8-byte keys, all width pairs; near-miss keys differing in one bit or cancelling in pairs");
    // compile-time constants of endpoints and topics
    for (k8, k4, k2, k1) in [(Ep::REQ_KEY, Ep::REQ_KEY4, Ep::REQ_KEY2, Ep::REQ_KEY1), (Ep::RESP_KEY, Ep::RESP_KEY4, Ep::RESP_KEY2, Ep::RESP_KEY1), (Tp::TOPIC_KEY, Tp::TOPIC_KEY4, Tp::TOPIC_KEY2, Tp::TOPIC_KEY1)] {
        c.cases += 1;
        let b = k8.to_bytes();
        c.ok(k4.to_bytes().to_vec() == o_compact(&b, 4) && k2.to_bytes().to_vec() == o_compact(&b, 2) && vec![k1.to_bytes()] == o_compact(&b, 1), || format!("per-message short key constants of {b:02x?}: {k4:?} {k2:?} {k1:?}"));
    }
    for _ in 0..n {
        if c.stop() { break; }
        let b: [u8; 8] = c.rng.bytes(8).try_into().unwrap();
        let mut b2 = b;
        match c.rng.below(4) { 0 => b2 = c.rng.bytes(8).try_into().unwrap(), 1 => { let i = c.rng.below(8) as usize; b2[i] ^= 1 << c.rng.below(8); }
            2 => { let i = c.rng.below(8) as usize; let j = c.rng.below(8) as usize; let x = c.rng.u8(); b2[i] ^= x; b2[j] ^= x; } _ => {} }
        c.case(|| format!("keys {b:02x?} {b2:02x?}"), |c| {
            let k8 = VarKey::Key8(key8(b));
            for (wk, w) in KK {
                let mut k = k8; k.shrink_to(wk);
                c.ok(kb(&k) == o_compact(&b, w) && k.kind() == wk, || format!("{b:02x?} shortened to {w} bytes is {k:?}"));
                c.ok(k == k8 && k8 == k, || format!("{b:02x?} shortened to {w} bytes does not compare equal to itself"));
                for (wk2, w2) in KK {
                    let mut j = k; j.shrink_to(wk2);
                    c.ok(kb(&j) == o_compact(&b, w.min(w2)) && j.kind() == if w2 <= w { wk2 } else { wk }, || format!("{b:02x?} shortened to {w} then {w2} is {j:?}"));
                    let mut m = VarKey::Key8(key8(b2)); m.shrink_to(wk2);
                    let mm = w.min(w2);
                    let e = o_compact(&b, mm) == o_compact(&b2, mm);
                    c.cover(if e { "equal" } else { "different" });
                    c.ok((k == m) == e && (m == k) == e, || format!("{k:?} == {m:?} is {} / {}, expected {e}", k == m, m == k));
                }
                let t1 = Key1::try_from_varkey(&k).map(|x| vec![x.to_bytes()]);
                let t2 = Key2::try_from_varkey(&k).map(|x| x.to_bytes().to_vec());
                let t4 = Key4::try_from_varkey(&k).map(|x| x.to_bytes().to_vec());
                let o = |n: usize| if w >= n { Some(o_compact(&b, n)) } else { None };
                c.ok(t1 == o(1) && t2 == o(2) && t4 == o(4), || format!("conversions of {k:?}: {t1:02x?} {t2:02x?} {t4:02x?}"));
                let u1 = Key1::try_from(&k).ok().map(|x| vec![x.to_bytes()]);
                let u2 = Key2::try_from(&k).ok().map(|x| x.to_bytes().to_vec());
                let u4 = Key4::try_from(&k).ok().map(|x| x.to_bytes().to_vec());
                let u8_ = Key::try_from(&k).ok().map(|x| x.to_bytes().to_vec());
                c.ok(u1 == o(1) && u2 == o(2) && u4 == o(4) && u8_ == o(8), || format!("fallible conversions of {k:?}: {u1:02x?} {u2:02x?} {u4:02x?} {u8_:02x?}"));
            }
            let (f4, f2, f1): (Key4, Key2, Key1) = (key8(b).into(), key8(b).into(), key8(b).into());
            let (g2, g1): (Key2, Key1) = (f4.into(), f4.into());
            let h1: Key1 = f2.into();
            c.ok(f4.to_bytes().to_vec() == o_compact(&b, 4) && f2.to_bytes().to_vec() == o_compact(&b, 2) && vec![f1.to_bytes()] == o_compact(&b, 1) && g2 == f2 && g1 == f1 && h1 == f1,
                || format!("From conversions of {b:02x?}: {f4:?} {f2:?} {f1:?} {g2:?} {g1:?} {h1:?}"));
        });
    }
}
const SK: [(VarSeqKind, usize); 3] = [(VarSeqKind::Seq1, 1), (VarSeqKind::Seq2, 2), (VarSeqKind::Seq4, 4)];
pub fn c04(c: &mut Ctx) {
    let n = if c.deep { 3_000_000 } else { 500_000 };
    c.bound("boundary-biased random numbers, all width pairs");
    for _ in 0..n {
        if c.stop() { break; }
        let (v, u) = (c.rng.edge32(), c.rng.edge32());
        c.case(|| format!("numbers {v:#x} {u:#x}"), |c| {
            for (_, w) in SK {
                let s = vseq(w, v);
                for (k2, w2) in SK {
                    let mut r = s; r.resize(k2);
                    let e = if w2 == 4 { sv(&s) as u64 } else { sv(&s) as u64 & ((1u64 << (8 * w2)) - 1) };
                    c.ok(sb(&r).len() == w2 && sv(&r) as u64 == e, || format!("{s:?} resized to {w2} bytes is {r:?}"));
                    let t = vseq(w2, u);
                    let q = sv(&s) == sv(&t);
                    c.cover(if q { "equal" } else { "different" });
                    c.ok((s == t) == q && (t == s) == q, || format!("{s:?} == {t:?} gives {}", s == t));
                }
                let (a, b, d): (u8, u16, u32) = (s.into(), s.into(), s.into());
                c.ok(a == sv(&s) as u8 && b == sv(&s) as u16 && d == sv(&s), || format!("{s:?} converts to {a:#x} {b:#x} {d:#x}"));
            }
            let (x, y, z): (VarSeq, VarSeq, VarSeq) = ((v as u8).into(), (v as u16).into(), v.into());
            c.ok(matches!(x, VarSeq::Seq1(q) if q == v as u8) && matches!(y, VarSeq::Seq2(q) if q == v as u16) && matches!(z, VarSeq::Seq4(q) if q == v), || format!("{v:#x} as sequence numbers: {x:?} {y:?} {z:?}"));
        });
    }
}
