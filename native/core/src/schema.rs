//! C11 (accumulator), C17 (type lists), C18 (schema report).
use crate::common::{Ctx, Rng};
use postcard_rpc::uniques::*;
use postcard_schema::schema::*;
use postcard_schema::schema::owned::OwnedNamedType;
use postcard_schema::{key::Key, Schema};
use std::collections::HashSet;

type NT = &'static NamedType;
fn lk<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }
fn lks<T>(t: Vec<T>) -> &'static [T] { Box::leak(t.into_boxed_slice()) }
fn prim(r: &mut Rng) -> NT {
    match r.below(20) {
        0 => bool::SCHEMA, 1 => u8::SCHEMA, 2 => i8::SCHEMA, 3 => u16::SCHEMA, 4 => i16::SCHEMA, 5 => u32::SCHEMA, 6 => i32::SCHEMA, 7 => u64::SCHEMA, 8 => i64::SCHEMA,
        9 => u128::SCHEMA, 10 => i128::SCHEMA, 11 => f32::SCHEMA, 12 => f64::SCHEMA, 13 => char::SCHEMA, 14 => String::SCHEMA, 15 => <()>::SCHEMA,
        16 => lk(NamedType { name: "usize", ty: &DataModelType::Usize }), 17 => lk(NamedType { name: "isize", ty: &DataModelType::Isize }),
        18 => lk(NamedType { name: "bytes", ty: &DataModelType::ByteArray }), _ => lk(NamedType { name: "Schema", ty: &DataModelType::Schema }),
    }
}
const NAMES: [&str; 6] = ["A", "B", "AB", "BA", "", "C"];
fn nm(r: &mut Rng) -> &'static str { if r.below(5) == 0 { long(r) } else { NAMES[r.below(6) as usize] } }
/// long names that differ in one place
fn long(r: &mut Rng) -> &'static str {
    static L: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let v = L.get_or_init(|| { let mut v = vec![]; for n in [8usize, 16, 33, 64, 65, 129, 256, 300] { for p in [0, n / 2, n - 2, n - 1] { let mut b = vec![b'a'; n]; v.push(String::from_utf8(b.clone()).unwrap()); b[p] = b'b'; v.push(String::from_utf8(b).unwrap()); } } v });
    &v[(r.below(8) * 8 + r.below(8)) as usize]
}
/// a copy of `t` that differs from it in one place, at any depth
fn near(t: NT, r: &mut Rng) -> NT {
    let many = |ts: &'static [NT], r: &mut Rng| -> &'static [NT] { let mut v = ts.to_vec(); if v.is_empty() || r.below(4) == 0 { if r.bool() || v.is_empty() { v.push(prim(r)) } else { v.pop(); } } else { let i = r.below(v.len() as u64) as usize; v[i] = near(v[i], r); } lks(v) };
    let vals = |ts: &'static [&'static NamedValue], r: &mut Rng| -> &'static [&'static NamedValue] { let mut v = ts.to_vec(); if v.is_empty() || r.below(4) == 0 { if r.bool() || v.is_empty() { v.push(lk(NamedValue { name: nm(r), ty: prim(r) })) } else { v.pop(); } } else { let i = r.below(v.len() as u64) as usize; v[i] = if r.bool() { lk(NamedValue { name: nm(r), ty: v[i].ty }) } else { lk(NamedValue { name: v[i].name, ty: near(v[i].ty, r) }) }; } lks(v) };
    if r.below(4) == 0 { return lk(NamedType { name: nm(r), ty: t.ty }); }
    let ty: DataModelType = match t.ty {
        DataModelType::Option(a) => DataModelType::Option(near(a, r)), DataModelType::NewtypeStruct(a) => DataModelType::NewtypeStruct(near(a, r)), DataModelType::Seq(a) => DataModelType::Seq(near(a, r)),
        DataModelType::Tuple(v) => DataModelType::Tuple(many(v, r)), DataModelType::TupleStruct(v) => if r.below(6) == 0 { DataModelType::Tuple(v) } else { DataModelType::TupleStruct(many(v, r)) },
        DataModelType::Map { key, val } => if r.bool() { DataModelType::Map { key: near(key, r), val } } else { DataModelType::Map { key, val: near(val, r) } },
        DataModelType::Struct(v) => DataModelType::Struct(vals(v, r)),
        DataModelType::Enum(v) => {
            let mut v = v.to_vec();
            if v.is_empty() || r.below(4) == 0 { if r.bool() || v.is_empty() { v.push(lk(NamedVariant { name: nm(r), ty: &DataModelVariant::UnitVariant })) } else { v.pop(); } }
            else {
                let i = r.below(v.len() as u64) as usize;
                let o: &'static NamedVariant = v[i];
                v[i] = if r.below(3) == 0 { lk(NamedVariant { name: nm(r), ty: o.ty }) } else { lk(NamedVariant { name: o.name, ty: match o.ty {
                    DataModelVariant::UnitVariant => lk(DataModelVariant::TupleVariant(&[])), DataModelVariant::NewtypeVariant(a) => lk(DataModelVariant::NewtypeVariant(near(a, r))),
                    DataModelVariant::TupleVariant(a) => lk(DataModelVariant::TupleVariant(many(a, r))), DataModelVariant::StructVariant(a) => lk(DataModelVariant::StructVariant(vals(a, r))) } }) };
            }
            DataModelType::Enum(lks(v))
        }
        _ => return prim(r),
    };
    lk(NamedType { name: t.name, ty: lk(ty) })
}
/// a random type; `pool` lets equal (and nearly equal) types recur
fn gen(r: &mut Rng, depth: u64, pool: &mut Vec<NT>) -> NT {
    if !pool.is_empty() && r.below(4) == 0 { let t = pool[r.below(pool.len() as u64) as usize]; return if r.below(3) == 0 { let t = near(t, r); if pool.len() < 40 { pool.push(t); } t } else { t }; }
    if depth == 0 || r.below(5) == 0 { return if r.below(4) == 0 { lk(NamedType { name: nm(r), ty: &DataModelType::UnitStruct }) } else { prim(r) }; }
    let d = depth - 1;
    let ty: DataModelType = match r.below(9) {
        0 => DataModelType::Option(gen(r, d, pool)),
        1 => DataModelType::NewtypeStruct(gen(r, d, pool)),
        2 => DataModelType::Seq(gen(r, d, pool)),
        3 => DataModelType::Tuple(many(r, d, pool)),
        4 => DataModelType::TupleStruct(many(r, d, pool)),
        5 => DataModelType::Map { key: gen(r, d, pool), val: gen(r, d, pool) },
        6 => DataModelType::Struct(vals(r, d, pool)),
        _ => {
            let n = r.below(4);
            let vs: Vec<&'static NamedVariant> = (0..n).map(|_| {
                let v = match r.below(4) { 0 => DataModelVariant::UnitVariant, 1 => DataModelVariant::NewtypeVariant(gen(r, d, pool)), 2 => DataModelVariant::TupleVariant(many(r, d, pool)), _ => DataModelVariant::StructVariant(vals(r, d, pool)) };
                lk(NamedVariant { name: nm(r), ty: lk(v) })
            }).collect();
            DataModelType::Enum(lks(vs))
        }
    };
    let t: NT = lk(NamedType { name: nm(r), ty: lk(ty) });
    pool.push(t);
    t
}
fn many(r: &mut Rng, d: u64, pool: &mut Vec<NT>) -> &'static [NT] { let n = r.below(4); lks((0..n).map(|_| gen(r, d, pool)).collect()) }
fn vals(r: &mut Rng, d: u64, pool: &mut Vec<NT>) -> &'static [&'static NamedValue] { let n = r.below(4); lks((0..n).map(|_| -> &'static NamedValue { lk(NamedValue { name: nm(r), ty: gen(r, d, pool) }) }).collect()) }

fn o_prim(t: &DataModelType) -> bool {
    use DataModelType::*;
    !matches!(t, UnitStruct | Option(_) | NewtypeStruct(_) | Seq(_) | Tuple(_) | TupleStruct(_) | Map { .. } | Struct(_) | Enum(_))
}
fn children(t: &DataModelType) -> Vec<NT> {
    use DataModelType::*;
    match t {
        Option(n) | NewtypeStruct(n) | Seq(n) => vec![n],
        Tuple(ns) | TupleStruct(ns) => ns.to_vec(),
        Map { key, val } => vec![key, val],
        Struct(vs) => vs.iter().map(|v| v.ty).collect(),
        Enum(vs) => vs.iter().flat_map(|v| match v.ty {
            DataModelVariant::UnitVariant => vec![], DataModelVariant::NewtypeVariant(n) => vec![*n], DataModelVariant::TupleVariant(ns) => ns.to_vec(),
            DataModelVariant::StructVariant(vs) => vs.iter().map(|v| v.ty).collect(),
        }).collect(),
        _ => vec![],
    }
}
/// all distinct non-primitive types reachable from t, t included
pub fn reach(t: NT, out: &mut Vec<NT>) {
    for k in children(t.ty) { reach(k, out); }
    if !o_prim(t.ty) && !out.iter().any(|o| **o == *t) { out.push(t); }
}
fn size(t: NT) -> usize { children(t.ty).into_iter().map(size).sum::<usize>() + 1 }
pub fn check_list(c: &mut Ctx, what: &str, got: &[NT], want: &[NT]) -> bool {
    for (i, g) in got.iter().enumerate() {
        if got[..i].iter().any(|x| **x == **g) { c.fail(format!("{what}: {g:?} is listed twice")); return false; }
        if !want.iter().any(|x| **x == **g) { c.fail(format!("{what}: {g:?} is listed but not reachable")); return false; }
    }
    for w in want { if !got.iter().any(|x| **x == **w) { c.fail(format!("{what}: {w:?} is reachable but not listed")); return false; } }
    true
}
macro_rules! at { ($n:expr, $k:ident => $e:expr, $($v:literal)*) => { match $n { $($v => { const $k: usize = $v; Some($e) })* _ => None } } }
macro_rules! with_n { ($n:expr, $k:ident => $e:expr) => { at!($n, $k => $e, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24) } }

mod real {
    use postcard_schema::Schema;
    use serde::{Deserialize, Serialize};
    #[derive(Serialize, Deserialize, Schema)] pub struct Leaf { pub a: u8 }
    #[derive(Serialize, Deserialize, Schema)] pub struct Mid { pub l: Option<Leaf>, pub m: Vec<Leaf> }
    #[derive(Serialize, Deserialize, Schema)] pub enum En { U, N(Mid), T(u8, Leaf), S { x: (Leaf, u16), y: Deep } }
    #[derive(Serialize, Deserialize, Schema)] pub struct Deep(pub Inner);
    #[derive(Serialize, Deserialize, Schema)] pub struct Inner(pub u8, pub Only);
    #[derive(Serialize, Deserialize, Schema)] pub struct Only;
    #[derive(Serialize, Deserialize, Schema)] pub enum N2 { A(En), B(Result<Deep, Only>) }
}
/// a struct with many fields, whose types recur
fn wide(r: &mut Rng) -> NT {
    let n = 20 + r.below(160);
    let kinds = 1 + r.below(n);
    let f: Vec<&'static NamedValue> = (0..n).map(|_| -> &'static NamedValue {
        let i = r.below(kinds);
        let ty: NT = lk(NamedType { name: lk(format!("W{i}")).as_str(), ty: if i % 3 == 0 { &DataModelType::UnitStruct } else { &DataModelType::NewtypeStruct(u8::SCHEMA) } });
        lk(NamedValue { name: "f", ty })
    }).collect();
    lk(NamedType { name: "Wide", ty: lk(DataModelType::Struct(lks(f))) })
}
pub fn c17(c: &mut Ctx) {
    c.bound("random schema trees of depth 0..=5 and up to 64 upper-bound types with recurring and nearly equal sub-types, exact-size arrays up to 24; structs of up to 180 fields; lists of lists up to 24 (now and then up to 720) entries; a family of derived types through the macros");
    let n = if c.deep { 600_000 } else { 120_000 };
    for it in 0..n {
        if c.stop() { return; }
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let mut pool = vec![];
        let d = r.below(6);
        let t = if it % 400 == 3 { wide(&mut r) } else { gen(&mut r, d, &mut pool) };
        if size(t) > 600 { continue; }
        c.case(|| format!("{t:?}"), |c| {
            let mut want = vec![];
            reach(t, &mut want);
            let up = unique_types_nty_upper(t);
            if up < want.len() { c.fail(format!("upper bound {up} below {} distinct types of {t:?}", want.len())); return; }
            if up > 512 { return; }
            let (arr, used) = if up > 64 { let (a, u) = type_chewer_nty::<512>(t); (a.to_vec(), u) } else { let (a, u) = type_chewer_nty::<64>(t); (a.to_vec(), u) };
            if up > 64 { c.cover("many types"); }
            if arr[..used].iter().any(|x| x.is_none()) || arr[used..].iter().any(|x| x.is_some()) { c.fail(format!("count {used} does not match the list for {t:?}")); return; }
            let got: Vec<NT> = arr[..used].iter().map(|x| x.unwrap()).collect();
            if !check_list(c, &format!("types of {t:?}"), &got, &want) { return; }
            if let Some((v, u)) = with_n!(up, K => { let (a, u) = type_chewer_nty::<K>(t); (a.to_vec(), u) }) {
                let v: Vec<NT> = v[..u].iter().map(|x| x.unwrap()).collect();
                if !check_list(c, &format!("exactly sized types of {t:?}"), &v, &want) { return; }
                let opts: Vec<Option<NT>> = { let mut o: Vec<Option<NT>> = v.iter().map(|x| Some(*x)).collect(); o.resize(up, None); o };
                if let Some(cr) = with_n!(u, K => cruncher::<K>(&opts).to_vec()) { if cr.len() != v.len() || cr.iter().zip(&v).any(|(a, b)| !std::ptr::eq(*a, *b)) { c.fail(format!("compaction changes the list of {t:?}")); return; } }
                c.cover("exact");
            }
            c.cover(match want.len() { 0 => "trivial", 1 => "one type", 2..=5 => "2-5 types", _ => ">5 types" });
        });
    }
    // merging
    for _ in 0..n / 10 {
        if c.stop() { return; }
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let mut pool = vec![];
        let k = r.below(5);
        let lists: Vec<Vec<NT>> = (0..k).map(|_| { if seed % 60 == 0 { return children(wide(&mut r).ty); } let m = r.below(6); (0..m).map(|_| gen(&mut r, 2, &mut pool)).collect() }).collect();
        let refs: Vec<&[NT]> = lists.iter().map(|l| l.as_slice()).collect();
        c.case(|| format!("{lists:?}"), |c| {
            let tl = total_len(&refs);
            if tl != lists.iter().map(|l| l.len()).sum::<usize>() { c.fail(format!("total length {tl} of {lists:?}")); return; }
            let mut want: Vec<NT> = vec![];
            for t in lists.iter().flatten() { if !o_prim(t.ty) && !want.iter().any(|w| **w == **t) { want.push(t); } }
            if let Some((v, u)) = if tl > 60 { if tl > 1024 { None } else { c.cover("long merge"); let (a, u) = merge_nty_lists::<1024>(&refs); Some((a.to_vec(), u)) } } else { with_n!(tl, K => { let (a, u) = merge_nty_lists::<K>(&refs); (a.to_vec(), u) }) } {
                if u > v.len() || v[..u].iter().any(|x| x.is_none()) || v[u..].iter().any(|x| x.is_some()) { c.fail(format!("count {u} does not match the merged list of {lists:?}")); return; }
                let v: Vec<NT> = v[..u].iter().map(|x| x.unwrap()).collect();
                if !check_list(c, &format!("merge of {lists:?}"), &v, &want) { return; }
                c.cover("merge");
            }
            let nums: Vec<Vec<u32>> = lists.iter().map(|l| l.iter().map(|_| r.next() as u32).collect()).collect();
            let nr: Vec<&[u32]> = nums.iter().map(|l| l.as_slice()).collect();
            if let Some(v) = with_n!(tl, K => combine_with_copy::<u32, K>(&nr, 0).to_vec()) { if v != nums.concat() { c.fail(format!("combining {nums:?} gives {v:?}")); return; } c.cover("combine"); }
        });
    }
    #[cfg(feature = "consts")]
    c17_real(c);
}
#[cfg(feature = "consts")]
fn c17_real(c: &mut Ctx) {
    macro_rules! real { ($($t:ty),*) => { $( {
        let got: &[NT] = postcard_rpc::unique_types!($t);
        let mut want = vec![]; reach(<$t as Schema>::SCHEMA, &mut want);
        c.cases += 1;
        if check_list(c, concat!("unique_types!(", stringify!($t), ")"), got, &want) { c.cover("derived type"); }
    } )* } }
    real!(u8, (), String, Option<u8>, Vec<u16>, (u8, (u8, u16)), [u8; 4], real::Leaf, real::Mid, real::En, real::Deep, real::Inner, real::Only, real::N2, Result<real::En, real::Only>, Option<Option<real::N2>>, Vec<(real::En, real::Mid)>, Result<(), ()>);
    // device descriptions
    {
        mod m1 { use super::*; use super::real::*; type VOnly = Vec<Only>; use postcard_rpc::{endpoints, topics};
            endpoints! { list = EPS; omit_std = true; | EndpointTy | RequestTy | ResponseTy | Path | | -- | -- | -- | -- | | X1 | En | Leaf | "x/1" | | X2 | u8 | Deep | "x/2" | | X3 | () | () | "x/3" | }
            topics! { list = TIN; direction = TopicDirection::ToServer; omit_std = true; | TopicTy | MessageTy | Path | | -- | -- | -- | | Y1 | N2 | "y/1" | | Y2 | u8 | "y/2" | }
            topics! { list = TOUT; direction = TopicDirection::ToClient; omit_std = true; | TopicTy | MessageTy | Path | | -- | -- | -- | | Z1 | VOnly | "z/1" | }
            endpoints! { list = EPS2; | EndpointTy | RequestTy | ResponseTy | Path | | -- | -- | -- | -- | | X4 | Mid | Leaf | "x/1" | }
        }
        let all = |v: &[NT]| { let mut w = vec![]; for t in v { reach(t, &mut w); } w };
        check_list(c, "endpoint list types", m1::EPS.types, &all(&[real::En::SCHEMA, real::Leaf::SCHEMA, u8::SCHEMA, real::Deep::SCHEMA, <()>::SCHEMA]));
        check_list(c, "topic list types", m1::TIN.types, &all(&[real::N2::SCHEMA]));
        check_list(c, "topic list types", m1::TOUT.types, &all(&[<Vec<real::Only>>::SCHEMA]));
        let mut std = m1::EPS2.types.to_vec();
        std.retain(|t| !all(&[real::Mid::SCHEMA, real::Leaf::SCHEMA]).iter().any(|x| **x == **t));
        use postcard_rpc::standard_icd::*;
        let mut sw = all(&[<PingEndpoint as postcard_rpc::Endpoint>::Request::SCHEMA, <GetAllSchemasEndpoint as postcard_rpc::Endpoint>::Response::SCHEMA, <GetAllSchemasEndpoint as postcard_rpc::Endpoint>::Request::SCHEMA]);
        sw.retain(|t| !all(&[real::Mid::SCHEMA, real::Leaf::SCHEMA]).iter().any(|x| **x == **t));
        check_list(c, "endpoint list types with the standard endpoints", &std, &sw);
        c.cover("device description");
    }
}

// ---------------------------------------------------------------- C11
use postcard_rpc::accumulator::raw::{CobsAccumulator, FeedResult};
#[derive(Debug, PartialEq, Clone)]
enum Ev { Ok(Vec<u8>), Bad, Over }
fn run_acc<const N: usize>(chunks: &[Vec<u8>]) -> Result<Vec<Ev>, String> {
    let mut a = CobsAccumulator::<N>::new();
    let mut out = vec![];
    for ch in chunks {
        let mut w: &[u8] = ch;
        let mut stuck = 0;
        loop {
            let before = w.len();
            // what must come back: everything after the first terminator
            let after = w.iter().position(|b| *b == 0).map(|p| &w[p + 1..]);
            let nw = match a.feed(w) {
                FeedResult::Consumed => { if after.is_some() { return Err(format!("terminator in {w:02x?} swallowed")); } break; }
                FeedResult::OverFull(x) => { out.push(Ev::Over); if !w.ends_with(x) { return Err("remainder is not the input's tail".into()); } if let Some(a) = after { if x.len() < a.len() { return Err(format!("overfull on {w:02x?} hands back only {x:02x?}")); } } x }
                FeedResult::DeserError(x) => { out.push(Ev::Bad); if Some(x) != after { return Err(format!("remainder {x:02x?} of {w:02x?}")); } x }
                FeedResult::Success { data, remaining } => { out.push(Ev::Ok(data.to_vec())); if Some(remaining) != after { return Err(format!("remainder {remaining:02x?} of {w:02x?}")); } remaining }
            };
            if nw.len() == before { stuck += 1; if stuck > 2 { return Err("no progress".into()); } } else { stuck = 0; }
            w = nw;
            if w.is_empty() { break; }
        }
    }
    Ok(out)
}
fn o_cobs(f: &[u8]) -> Option<Vec<u8>> { // f without its terminator
    let (mut i, mut o) = (0, vec![]);
    while i < f.len() {
        let n = f[i] as usize;
        if n == 0 { return None; }
        if i + n > f.len() { return None; }
        o.extend_from_slice(&f[i + 1..i + n]);
        i += n;
        if n != 255 && i < f.len() { o.push(0); }
    }
    Some(o)
}
pub fn c11(c: &mut Ctx) {
    c.bound("streams of up to 8 frames of 0..=300 bytes (valid, corrupted, empty, over-long), buffers of 1, 2, 3, 5, 8, 16, 64, 300 bytes, random chunkings down to single bytes");
    let n = if c.deep { 1_000_000 } else { 200_000 };
    for _ in 0..n {
        if c.stop() { return; }
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let sizes = [1usize, 2, 3, 5, 8, 16, 64, 300];
        let cap = sizes[r.below(8) as usize];
        let mut stream = vec![];
        let mut frames: Vec<Vec<u8>> = vec![];
        for _ in 0..r.below(8) {
            let len = match r.below(8) { 0 => 0, 1 => cap.saturating_sub(2), 2 => cap.saturating_sub(1), 3 => cap, 4 => cap + 1 + r.below(cap as u64 * 2) as usize, _ => r.below(cap as u64 + 1) as usize };
            let data: Vec<u8> = (0..len).map(|_| if r.below(4) == 0 { 0 } else { r.u8() }).collect();
            let mut e = match r.below(6) { 0 => vec![], 1 => data.iter().map(|b| (*b).max(1)).collect(), _ => cobs::encode_vec(&data) };
            if r.below(8) == 0 && !e.is_empty() { let i = r.below(e.len() as u64) as usize; e[i] = e[i].wrapping_add(1).max(1); }
            stream.extend_from_slice(&e); stream.push(0);
            frames.push(e);
        }
        let tail = r.below(3) as usize; for _ in 0..tail { stream.push(1 + r.below(255) as u8); }
        let mut chunks = vec![];
        let mode = r.below(3);
        let mut i = 0;
        while i < stream.len() { let m = match mode { 0 => 1, 1 => 1 + r.below(7) as usize, _ => 1 + r.below(stream.len() as u64) as usize }; let e = (i + m).min(stream.len()); chunks.push(stream[i..e].to_vec()); if r.below(10) == 0 { chunks.push(vec![]); } i = e; }
        c.case(|| format!("buffer {cap}, chunks {chunks:02x?}"), |c| {
            let got = match cap { 1 => run_acc::<1>(&chunks), 2 => run_acc::<2>(&chunks), 3 => run_acc::<3>(&chunks), 5 => run_acc::<5>(&chunks), 8 => run_acc::<8>(&chunks), 16 => run_acc::<16>(&chunks), 64 => run_acc::<64>(&chunks), _ => run_acc::<300>(&chunks) };
            let got = match got { Ok(g) => g, Err(e) => { c.fail(format!("{e}: buffer {cap}, chunks {chunks:02x?}")); return; } };
            // match the events against the frames
            let mut k = 0;
            for f in &frames {
                if f.len() + 1 <= cap {
                    let want = match o_cobs(f) { Some(d) => Ev::Ok(d), None => Ev::Bad };
                    if got.get(k) != Some(&want) { c.fail(format!("frame {f:02x?}: {:?}, expected {want:?}; buffer {cap}, chunks {chunks:02x?}", got.get(k))); return; }
                    k += 1; c.cover(if want == Ev::Bad { "undecodable" } else { "decoded" });
                } else {
                    // reported as overfull at least once; at most one more event closes its tail
                    let mut over = 0;
                    while got.get(k) == Some(&Ev::Over) { over += 1; k += 1; }
                    if over == 0 { c.fail(format!("over-long frame {f:02x?} gave {:?}; buffer {cap}, chunks {chunks:02x?}", got.get(k))); return; }
                    c.cover("over-long");
                    // its tail, if any was cut off by a chunk boundary, ends in exactly one event for its terminator, unless the terminator was part of the overfull chunk
                    // (the tail is a prefix-cut of this frame: its bytes come from f only)
                    let own = |e: &Ev| match e { Ev::Ok(d) => (0..f.len()).any(|s| o_cobs(&f[s..]).as_ref() == Some(d)) || d.is_empty(), Ev::Bad => true, Ev::Over => false };
                    let rest = frames.len() - 1 - frames.iter().position(|x| std::ptr::eq(x, f)).unwrap();
                    // decide by counting the remaining events against the remaining frames
                    let fits_rest: usize = frames[frames.len() - rest..].iter().filter(|g| g.len() + 1 <= cap).count();
                    let any_over_rest = frames[frames.len() - rest..].iter().any(|g| g.len() + 1 > cap);
                    if !any_over_rest {
                        let tail_events = got[k..].iter().filter(|e| **e != Ev::Over).count();
                        if tail_events == fits_rest + 1 { if !own(&got[k]) { c.fail(format!("bytes outside the over-long frame were used: {:?}; buffer {cap}, chunks {chunks:02x?}", got[k])); return; } k += 1; c.cover("tail of an over-long frame"); }
                        else if tail_events != fits_rest { c.fail(format!("{tail_events} events for {fits_rest} frames after an over-long one; buffer {cap}, chunks {chunks:02x?}")); return; }
                    } else { return; }
                }
            }
            if got[k..].iter().any(|e| *e != Ev::Over) { c.fail(format!("extra events {:?}; buffer {cap}, chunks {chunks:02x?}", &got[k..])); }
        });
    }
}

// ---------------------------------------------------------------- C18
use postcard_rpc::host_client::*;
use postcard_rpc::standard_icd::*;
use postcard_rpc::{header::*, Endpoint, Topic, TopicDirection};
fn named(r: &mut Rng, pool: &mut Vec<NT>) -> NT { let d = 1 + r.below(3); gen(r, d, pool) }
fn ow(t: NT) -> OwnedNamedType { OwnedNamedType::from(t) }
pub fn c18(c: &mut Ctx) {
    c.bound("device descriptions of up to 6 types, 5 endpoints and 4 topics per direction; complete streams, lost, duplicated or foreign messages, wrong totals; streams delivered before or around the final reply (paused clock)");
    // the primitives are always known
    let base = SchemaReport::default();
    c.case(|| "default report".into(), |c| {
        for t in [bool::SCHEMA, u8::SCHEMA, i8::SCHEMA, u16::SCHEMA, i16::SCHEMA, u32::SCHEMA, i32::SCHEMA, u64::SCHEMA, i64::SCHEMA, u128::SCHEMA, i128::SCHEMA, f32::SCHEMA, f64::SCHEMA, char::SCHEMA, String::SCHEMA, <()>::SCHEMA] {
            if !base.types.contains(&ow(t)) { c.fail(format!("primitive {t:?} unknown to an empty report")); }
        }
        if !base.endpoints.is_empty() || !base.topics_in.is_empty() || !base.topics_out.is_empty() { c.fail("empty report is not empty".into()); }
    });
    let n = if c.deep { 30_000 } else { 6000 };
    for _ in 0..n {
        if c.stop() { return; }
        let seed = c.rng.next();
        c.case(|| format!("description seed {seed:#x}"), |c| hist18(c, seed, &base));
    }
}
/// same entries; keys do not cover type names, so any known type with the entry's key is a right answer
fn same(got: &SchemaReport, want: &SchemaReport) -> bool {
    let tp = |g: &TopicReport, w: &TopicReport| g.path == w.path && g.key == w.key && got.types.contains(&g.ty) && Key::for_owned_schema_path(&g.path, &g.ty) == g.key;
    let ep = |g: &EndpointReport, w: &EndpointReport| g.path == w.path && g.req_key == w.req_key && g.resp_key == w.resp_key && got.types.contains(&g.req_ty) && got.types.contains(&g.resp_ty)
        && Key::for_owned_schema_path(&g.path, &g.req_ty) == g.req_key && Key::for_owned_schema_path(&g.path, &g.resp_ty) == g.resp_key;
    got.types == want.types && got.endpoints.len() == want.endpoints.len() && got.topics_in.len() == want.topics_in.len() && got.topics_out.len() == want.topics_out.len()
        && got.endpoints.iter().zip(&want.endpoints).all(|(g, w)| ep(g, w)) && got.topics_in.iter().zip(&want.topics_in).all(|(g, w)| tp(g, w)) && got.topics_out.iter().zip(&want.topics_out).all(|(g, w)| tp(g, w))
}
fn hist18(c: &mut Ctx, seed: u64, base: &SchemaReport) {
    let mut r = Rng(seed);
    let mut pool = vec![];
    let mut types: Vec<NT> = vec![];
    for _ in 0..r.below(7) { let t = named(&mut r, &mut pool); if size(t) < 40 { types.push(t); } }
    let pick = |r: &mut Rng, types: &Vec<NT>| -> NT { if types.is_empty() || r.below(4) == 0 { [u8::SCHEMA, String::SCHEMA, <()>::SCHEMA, u64::SCHEMA][r.below(4) as usize] } else { types[r.below(types.len() as u64) as usize] } };
    let key = |p: &str, t: NT| Key::for_owned_schema_path(p, &ow(t));
    let mut eps = vec![]; let mut tin = vec![]; let mut tout = vec![];
    for i in 0..r.below(6) { eps.push((format!("e/{i}"), pick(&mut r, &types), pick(&mut r, &types))); }
    for i in 0..r.below(5) { tin.push((format!("t/{i}"), pick(&mut r, &types))); }
    for i in 0..r.below(5) { tout.push((format!("t/{i}"), pick(&mut r, &types))); }
    // expected report
    let mut want = base.clone();
    for t in &types { want.types.insert(ow(t)); }
    for (p, a, b) in &eps { want.endpoints.push(EndpointReport { path: p.clone(), req_key: key(p, a), req_ty: ow(a), resp_key: key(p, b), resp_ty: ow(b) }); }
    for (p, a) in &tin { want.topics_in.push(TopicReport { path: p.clone(), key: key(p, a), ty: ow(a) }); }
    for (p, a) in &tout { want.topics_out.push(TopicReport { path: p.clone(), key: key(p, a), ty: ow(a) }); }
    // direct API
    {
        let mut rep = SchemaReport::default();
        for t in &types { rep.add_type(ow(t)); }
        let mut ok = true;
        for (p, a, b) in &eps { ok &= rep.add_endpoint(p.clone(), key(p, a), key(p, b)).is_ok(); }
        for (p, a) in &tin { ok &= rep.add_topic_in(p.clone(), key(p, a)).is_ok(); }
        for (p, a) in &tout { ok &= rep.add_topic_out(p.clone(), key(p, a)).is_ok(); }
        if !ok || !same(&rep, &want) { c.fail(format!("report built entry by entry differs (all accepted: {ok}) for types {types:?} endpoints {eps:?} in {tin:?} out {tout:?}")); return; }
        let before = rep.clone();
        let bad = unsafe { Key::from_bytes(r.next().to_le_bytes()) };
        let e1 = rep.add_topic_in("q".into(), bad).is_err() && rep.add_topic_out("q".into(), bad).is_err() && rep.add_endpoint("q".into(), bad, key("q", u8::SCHEMA)).is_err() && rep.add_endpoint("q".into(), key("q", u8::SCHEMA), bad).is_err();
        if !e1 || rep != before { c.fail("an entry whose key names no known type was accepted".into()); return; }
        // a path that differs must not match
        if rep.add_topic_in("other".into(), key("q", u8::SCHEMA)).is_ok() { c.fail("a key for another path was accepted".into()); return; }
        c.cover("direct");
    }
    // the streamed protocol
    let mut msgs: Vec<(u8, Vec<u8>)> = vec![];
    for t in &types { msgs.push((0, postcard::to_stdvec(&OwnedSchemaData::Type(ow(t))).unwrap())); }
    for (p, a, b) in &eps { msgs.push((1, postcard::to_stdvec(&OwnedSchemaData::Endpoint { path: p.clone(), request_key: key(p, a), response_key: key(p, b) }).unwrap())); }
    for (p, a) in &tin { msgs.push((2, postcard::to_stdvec(&OwnedSchemaData::Topic { path: p.clone(), key: key(p, a), direction: TopicDirection::ToServer }).unwrap())); }
    for (p, a) in &tout { msgs.push((3, postcard::to_stdvec(&OwnedSchemaData::Topic { path: p.clone(), key: key(p, a), direction: TopicDirection::ToClient }).unwrap())); }
    let mut tot = SchemaTotals { types_sent: types.len() as u32, endpoints_sent: eps.len() as u32, topics_in_sent: tin.len() as u32, topics_out_sent: tout.len() as u32, errors: 0 };
    let mut expect_ok = true;
    let fault = r.below(8);
    match fault {
        0 if !msgs.is_empty() => { // a lost message
            let i = r.below(msgs.len() as u64) as usize;
            let (_k, _) = msgs.remove(i);
            expect_ok = false;
            c.cover(if _k == 0 { "lost type" } else { "lost entry" });
        }
        1 => { tot.errors = [1, 2, 255, 256, 65536, 1 << 24, u32::MAX][r.below(7) as usize]; expect_ok = false; c.cover("errors reported"); }
        2 => { let k = [1u32, 1, 256, 65536, 1 << 31][r.below(5) as usize]; match r.below(4) { 0 => tot.endpoints_sent += k, 1 => tot.topics_in_sent += k, 2 => tot.types_sent += k, _ => tot.topics_out_sent += k } expect_ok = false; c.cover("wrong total"); }
        3 => { msgs.push((1, postcard::to_stdvec(&OwnedSchemaData::Endpoint { path: "zz".into(), request_key: unsafe { Key::from_bytes(r.next().to_le_bytes()) }, response_key: key("zz", u8::SCHEMA) }).unwrap())); tot.endpoints_sent += 1; expect_ok = false; c.cover("unknown key"); }
        4 => { for i in (1..msgs.len()).rev() { let j = r.below(i as u64 + 1) as usize; msgs.swap(i, j); } // order of arrival is irrelevant up to list order
            c.cover("shuffled"); }
        _ => c.cover("complete"),
    }
    let kw = crate::client::KW[r.below(4) as usize];
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let total_msgs = msgs.len();
    let res = rt.block_on(async {
        let (otx, mut orx) = tokio::sync::mpsc::channel::<Vec<u8>>(64);
        let (itx, irx) = tokio::sync::mpsc::channel::<Vec<u8>>(256);
        let cl = test_channels::new_from_channels(otx, irx, VarSeqKind::Seq2);
        let dev = tokio::spawn(async move {
            let f = orx.recv().await.unwrap();
            let (h, _) = VarHeader::take_from_slice(&f).unwrap();
            let mut s = 0u16;
            for (_, b) in msgs { itx.send(crate::client::frame(crate::client::key_at(GetAllSchemaDataTopic::TOPIC_KEY, kw), VarSeq::Seq2(s), &b)).await.unwrap(); s += 1; tokio::task::yield_now().await; }
            itx.send(crate::client::frame(crate::client::key_at(GetAllSchemasEndpoint::RESP_KEY, kw), h.seq_no, &postcard::to_stdvec(&tot).unwrap())).await.unwrap();
            // keep the link open
            (itx, orx.recv().await)
        });
        let r = tokio::time::timeout(std::time::Duration::from_secs(60), cl.get_schema_report()).await;
        dev.abort();
        r
    });
    match res {
        Err(_) => c.fail(format!("get_schema_report hangs ({total_msgs} messages)")),
        Ok(Ok(rep)) => {
            if !expect_ok { c.fail(format!("an inconsistent stream (fault {fault}) was accepted: types {} endpoints {} in {} out {}", types.len(), eps.len(), tin.len(), tout.len())); return; }
            let srt = |x: &SchemaReport| { let mut x = x.clone(); x.endpoints.sort_by(|a, b| a.path.cmp(&b.path)); x.topics_in.sort_by(|a, b| a.path.cmp(&b.path)); x.topics_out.sort_by(|a, b| a.path.cmp(&b.path)); x };
            if (fault != 4 && !same(&rep, &want)) || !same(&srt(&rep), &srt(&want)) { c.fail(format!("the report differs from the description: types {types:?} endpoints {eps:?} in {tin:?} out {tout:?}")); return; }
            let _: &HashSet<_> = &rep.types;
        }
        Ok(Err(e)) => if expect_ok { c.fail(format!("a consistent stream was refused: {:?} types {types:?} endpoints {eps:?} in {tin:?} out {tout:?}", std::mem::discriminant(&e))); } else { c.cover("refused"); },
    }
}
