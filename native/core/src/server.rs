//! C05..C08 on the compiled server code.
use crate::common::{exec, Ctx};
use crate::mock::*;
use crate::wire::{any_header, kb, o_compact, o_dec, o_enc, sb};
use postcard_rpc::header::*;
use postcard_rpc::server::*;
use postcard_rpc::standard_icd::*;
use postcard_rpc::*;
use std::sync::{Arc, Mutex};

fn kk(w: usize) -> VarKeyKind { match w { 1 => VarKeyKind::Key1, 2 => VarKeyKind::Key2, 4 => VarKeyKind::Key4, _ => VarKeyKind::Key8 } }
fn kw(k: VarKeyKind) -> usize { match k { VarKeyKind::Key1 => 1, VarKeyKind::Key2 => 2, VarKeyKind::Key4 => 4, VarKeyKind::Key8 => 8 } }
fn key(b: [u8; 8]) -> Key { unsafe { Key::from_bytes(b) } }

// ------------------------------------------------------------------ C05
fn o_min(keys: &[[u8; 8]]) -> Option<usize> {
    [1usize, 2, 4, 8].into_iter().find(|w| {
        let mut v: Vec<Vec<u8>> = keys.iter().map(|k| o_compact(k, *w)).collect();
        v.sort();
        v.windows(2).all(|p| p[0] != p[1])
    })
}
pub fn c05(c: &mut Ctx) {
    c.bound("random key sets of 0..=12 keys split over 0..=4 lists (possibly empty), collisions planted at each width and at first/last positions; about fifty sample applications expanded through the real macros");
    let n = if c.deep { 2_000_000 } else { 300_000 };
    for _ in 0..n {
        if c.stop() { break; }
        let m = c.rng.below(13) as usize;
        let mut keys: Vec<[u8; 8]> = (0..m).map(|i| { let mut b = [0u8; 8]; if c.rng.below(4) == 0 { b = c.rng.bytes(8).try_into().unwrap(); } b[0] = i as u8; b }).collect();
        if m >= 2 {
            for _ in 0..1 + c.rng.below(3) {
                let i = c.rng.below(m as u64) as usize; let mut j = c.rng.below(m as u64) as usize; if i == j { j = (i + 1) % m; }
                let x = if c.rng.below(2) == 0 { 1 << c.rng.below(8) } else { 1 + (c.rng.u8() >> 1) };
                match c.rng.below(8) {
                    0 => { keys[j] = keys[i]; keys[j][0] ^= x; keys[j][7] ^= x; }                      // collides at 1
                    1 => { let p = c.rng.below(8) as usize; keys[j] = keys[i]; keys[j][p] ^= x; keys[j][(p + 3) % 8] ^= x; } // narrower widths collide
                    2 => { let p = c.rng.below(4) as usize; keys[j] = keys[i]; keys[j][2 * p] ^= x; keys[j][2 * p + 1] ^= x; }
                    3 if c.rng.below(3) == 0 => keys[j] = keys[i],                                     // at 8
                    4 | 5 => { let p = c.rng.below(8) as usize; keys[j] = keys[i]; keys[j][p] ^= x; }  // one byte differs
                    6 => { let (p, q) = (c.rng.below(8) as usize, c.rng.below(8) as usize); keys[j] = keys[i]; keys[j][p] ^= x; if p != q { keys[j][q] ^= x; } }
                    _ => {}
                }
            }
        }
        let nl = c.rng.below(5) as usize;
        let mut lists: Vec<Vec<Key>> = vec![vec![]; nl.max(if m > 0 { 1 } else { 0 })];
        let mut cur = 0;
        for k in &keys { let l = lists.len() - 1; lists[cur].push(key(*k)); if c.rng.below(3) == 0 && cur < l { cur += 1; } }
        let e = o_min(&keys);
        c.cover(&format!("needs-{e:?}"));
        let refs: Vec<&[Key]> = lists.iter().map(|l| &l[..]).collect();
        c.cases += 1;
        let r = std::panic::catch_unwind(|| min_key_needed(&refs)).ok();
        c.ok(r == e, || format!("min_key_needed({lists:02x?}) = {r:?}, smallest collision-free width is {e:?} (None: duplicates, must be rejected)"));
    }
    #[cfg(feature = "consts")]
    apps::c05(c);
}

// sample applications, expanded by the crate's own macros; paths chosen so that particular key pairs collide
#[cfg(feature = "consts")]
pub mod apps {
    use super::*;
    pub fn needed(eps: &[(&str, Key, Key)], tin: &[(&str, Key)], tout: &[(&str, Key)]) -> usize {
        let i: Vec<[u8; 8]> = eps.iter().map(|e| e.1.to_bytes()).chain(tin.iter().map(|t| t.1.to_bytes())).collect();
        let o: Vec<[u8; 8]> = eps.iter().map(|e| e.2.to_bytes()).chain(tout.iter().map(|t| t.1.to_bytes())).chain([ERROR_KEY.to_bytes()]).collect();
        o_min(&i).unwrap().max(o_min(&o).unwrap())
    }
    pub fn nsp<T>(_: &NoSpawn, _: T) -> Result<(), ()> { Ok(()) }
    #[derive(Clone)] pub struct NoSpawn;
    impl WireSpawn for NoSpawn { type Error = (); type Info = (); fn info(&self) -> &() { &() } }
    macro_rules! app {
        ($m:ident, [$($en:ident $ep:literal $eq:tt $er:tt),*], [$($tn:ident $tp:literal $tm:tt),*], [$($on:ident $op:literal $om:tt),*]) => {
            pub mod $m {
                use super::*;
                endpoints! { list = EPS; | EndpointTy | RequestTy | ResponseTy | Path |
                    | ---------- | --------- | ---------- | ---- |
                    $( | $en | $eq | $er | $ep | )* }
                topics! { list = TIN; direction = postcard_rpc::TopicDirection::ToServer; | TopicTy | MessageTy | Path |
                    | ------- | --------- | ---- |
                    $( | $tn | $tm | $tp | )* }
                topics! { list = TOUT; direction = postcard_rpc::TopicDirection::ToClient; | TopicTy | MessageTy | Path |
                    | ------- | --------- | ---- |
                    $( | $on | $om | $op | )* }
                pub struct Cx;
                define_dispatch! {
                    app: App; spawn_fn: nsp; tx_impl: RecTx; spawn_impl: NoSpawn; context: Cx;
                    endpoints: { list: EPS; | EndpointTy | kind | handler | | ---------- | ---- | ------- | };
                    topics_in: { list: TIN; | TopicTy | kind | handler | | ------- | ---- | ------- | };
                    topics_out: { list: TOUT; };
                }
                pub fn report() -> (&'static str, VarKeyKind, VarKeyKind, usize) {
                    let a = App::new(Cx, NoSpawn);
                    let d = a.device_map;
                    (stringify!($m), a.min_key_len(), d.min_key_len, needed(d.endpoints, d.topics_in, d.topics_out))
                }
            }
        };
    }
    include!("apps_gen.rs");
    pub fn c05(c: &mut Ctx) {
        for (n, a, b, e) in reports() {
            c.cases += 1;
            c.cover(&format!("app-needs-{e}"));
            c.ok(kw(a) == e && kw(b) == e, || format!("application {n}: dispatcher key width {a:?}, reported {b:?}; smallest width at which all inbound keys and all outbound keys (responses, topics, errors) stay distinct is {e}"));
        }
    }
}

// ------------------------------------------------------------------ C06
type Seen = Arc<Mutex<Vec<(Vec<u8>, Vec<u8>)>>>;
struct RecD { seen: Seen, ret: std::collections::VecDeque<Option<K>>, n: u32 }
impl Dispatch for RecD {
    type Tx = RecTx;
    fn min_key_len(&self) -> VarKeyKind { VarKeyKind::Key8 }
    async fn handle(&mut self, _tx: &Sender<RecTx>, hdr: &VarHeader, body: &[u8]) -> Result<(), TxE> {
        self.seen.lock().unwrap().push((o_enc(hdr), body.to_vec()));
        self.n += 1;
        match self.ret.pop_front().flatten() { Some(k) => Err(TxE(k, self.n)), None => Ok(()) }
    }
}
fn any_frame(c: &mut Ctx) -> Vec<u8> {
    match c.rng.below(6) {
        0 => { let n = c.rng.below(20) as usize; c.rng.bytes(n) }
        1 => { let h = any_header(c); let mut e = o_enc(&h); let n = c.rng.below(e.len() as u64) as usize; e.truncate(n); e }
        2 => { let h = any_header(c); let mut e = o_enc(&h); e[0] |= 1 + (c.rng.u8() & 0xe); e.extend(c.rng.bytes(3)); e }
        _ => { let h = any_header(c); let mut e = o_enc(&h); let n = c.rng.below(8) as usize; e.extend(c.rng.bytes(n)); e }
    }
}
pub fn c06(c: &mut Ctx) {
    c.bound("random receive histories of 0..=12 events (and some of up to 800 with many recoverable errors; well-formed, truncated, bad-version, oversize frames, receive errors, pending polls) with random handler failures, receive buffers of 0..=32 bytes");
    let n = if c.deep { 1_000_000 } else { 150_000 };
    for it in 0..n {
        if c.stop() { break; }
        let long = it % 3000 == 7; // many recoverable errors in one run
        let m = if long { 300 + c.rng.below(500) as usize } else { c.rng.below(13) as usize };
        let few = c.rng.below(3);
        let script: Vec<In> = (0..m).map(|_| match if long { [0, 1, 3, 9, few, few, few][c.rng.below(7) as usize] } else { c.rng.below(14) } { 0 => In::Err(R::Large), 1 => In::Err(R::Other), 2 if !long && c.rng.below(3) == 0 => In::Err(R::Closed), 3 => In::Pend, _ => In::Frame(any_frame(c)) }).collect();
        let rets: Vec<Option<K>> = (0..m).map(|_| match if long { c.rng.below(2) * 11 } else { c.rng.below(12) } { 0 => Some(K::Other), 1 if c.rng.below(2) == 0 => Some(K::Timeout), 2 if c.rng.below(2) == 0 => Some(K::Closed), _ => None }).collect();
        let bl = if c.rng.bool() { 32 } else { c.rng.below(33) as usize };
        // oracle
        let (mut want, mut end, mut rxn, mut used) = (vec![], None, 0u32, 0usize);
        let mut ri = rets.iter();
        for e in &script {
            used += 1;
            match e {
                In::Pend => {}
                In::Err(r) => { rxn += 1; if *r == R::Closed { end = Some((false, rxn)); break; } }
                In::Frame(f) if f.len() > bl => rxn += 1,
                In::Frame(f) => if let Some((_, _, k)) = o_dec(f) {
                    want.push((f[..k].to_vec(), f[k..].to_vec()));
                    match ri.next().copied().flatten() { Some(K::Closed) | Some(K::Timeout) => { end = Some((true, want.len() as u32)); break; } _ => {} }
                }
            }
        }
        let _ = used;
        c.cover(match end { None => "keeps-running", Some((true, _)) => "stops-on-send-failure", Some((false, _)) => "stops-on-closed" });
        c.case(|| format!("buffer {bl}, events {script:02x?}, handler results {rets:?}"), |c| {
            let seen: Seen = Default::default();
            let rx = ScrRx { q: script.clone().into(), n: 0, calls: Default::default() };
            let d = RecD { seen: seen.clone(), ret: rets.clone().into(), n: 0 };
            let mut s = Server::new(RecTx::default(), rx, vec![0u8; bl], d, VarKeyKind::Key8);
            let got = { let mut f = Box::pin(s.run()); exec::drive(f.as_mut(), 4000).map(|e| match e { ServerError::TxFatal(e) => (true, e.1), ServerError::RxFatal(e) => (false, e.1) }) };
            let seen = seen.lock().unwrap().clone();
            c.ok(seen == want, || format!("buffer {bl}, events {script:02x?}, handler results {rets:?}: handled {seen:02x?}, expected {want:02x?}"));
            c.ok(got == end, || format!("buffer {bl}, events {script:02x?}, handler results {rets:?}: loop ended with {got:?} (send side?, error number), expected {end:?}"));
        });
    }
}

// ------------------------------------------------------------------ C07
pub mod full {
    use super::*;
    use postcard_schema::Schema;
    use serde::{Deserialize, Serialize};
    use std::future::Future;
    use std::pin::Pin;
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Req { pub a: u16, pub s: String }
    #[derive(Serialize, Deserialize, Schema, Debug, Clone, PartialEq)]
    pub struct Resp { pub b: u16, pub t: String }
    endpoints! { list = EPS;
        | EndpointTy | RequestTy | ResponseTy | Path        |
        | ---------- | --------- | ---------- | ----        |
        | BlkEp      | Req       | Resp       | "v/blk"     |
        | AsyEp      | Req       | Resp       | "v/asy"     |
        | SpwEp      | Req       | Resp       | "v/spw"     |
        | SameEp     | u8        | u8         | "v/same"    |
        | UnlEp      | u8        | u8         | "v/unlisted"|
    }
    topics! { list = TIN; direction = postcard_rpc::TopicDirection::ToServer;
        | TopicTy | MessageTy | Path      |
        | ------- | --------- | ----      |
        | BlkTp   | Req       | "v/tblk"  |
        | AsyTp   | Req       | "v/tasy"  |
        | SpwTp   | Req       | "v/tspw"  |
    }
    topics! { list = TOUT; direction = postcard_rpc::TopicDirection::ToClient;
        | TopicTy | MessageTy | Path      |
        | ------- | --------- | ----      |
        | OutTp   | Resp      | "v/tout"  |
    }
    pub type Log = Arc<Mutex<Vec<(&'static str, Vec<u8>, Vec<u8>)>>>;
    pub struct Cx { pub log: Log, pub n: u32 }
    pub struct SCx { pub log: Log, pub n: u32 }
    impl SpawnContext for Cx { type SpawnCtxt = SCx; fn spawn_ctxt(&mut self) -> SCx { self.n += 1; SCx { log: self.log.clone(), n: self.n } } }
    #[derive(Clone)]
    pub struct Sp { pub q: Arc<Mutex<Vec<Pin<Box<dyn Future<Output = ()>>>>>>, pub fail: Arc<Mutex<bool>> }
    impl WireSpawn for Sp { type Error = u8; type Info = (); fn info(&self) -> &() { &() } }
    pub fn sp<F: Future<Output = ()> + 'static>(s: &Sp, f: F) -> Result<(), u8> { if *s.fail.lock().unwrap() { Err(9) } else { s.q.lock().unwrap().push(Box::pin(f)); Ok(()) } }
    pub fn mk(r: &Req, x: u16) -> Resp { Resp { b: r.a.wrapping_add(x), t: format!("{}!", r.s) } }
    fn rec<T: Serialize>(l: &Log, n: &'static str, h: &VarHeader, b: &T) { l.lock().unwrap().push((n, o_enc(h), postcard::to_stdvec(b).unwrap())); }
    fn blk(c: &mut Cx, h: VarHeader, r: Req) -> Resp { rec(&c.log, "blk", &h, &r); mk(&r, 1) }
    async fn asy(c: &mut Cx, h: VarHeader, r: Req) -> Resp { rec(&c.log, "asy", &h, &r); mk(&r, 2) }
    async fn spw(c: SCx, h: VarHeader, r: Req, s: Sender<RecTx>) { rec(&c.log, "spw", &h, &r); let _ = s.reply::<SpwEp>(h.seq_no, &mk(&r, 3)).await; }
    fn same(c: &mut Cx, h: VarHeader, r: u8) -> u8 { rec(&c.log, "same", &h, &r); r.wrapping_add(7) }
    fn tblk(c: &mut Cx, h: VarHeader, r: Req, _s: &Sender<RecTx>) { rec(&c.log, "tblk", &h, &r); }
    async fn tasy(c: &mut Cx, h: VarHeader, r: Req, _s: &Sender<RecTx>) { rec(&c.log, "tasy", &h, &r); }
    async fn tspw(c: SCx, h: VarHeader, r: Req, _s: Sender<RecTx>) { rec(&c.log, "tspw", &h, &r); }
    define_dispatch! {
        app: App; spawn_fn: sp; tx_impl: RecTx; spawn_impl: Sp; context: Cx;
        endpoints: { list: EPS;
            | EndpointTy | kind     | handler |
            | ---------- | ----     | ------- |
            | BlkEp      | blocking | blk     |
            | AsyEp      | async    | asy     |
            | SpwEp      | spawn    | spw     |
            | SameEp     | blocking | same    |
        };
        topics_in: { list: TIN;
            | TopicTy | kind     | handler |
            | ------- | ----     | ------- |
            | BlkTp   | blocking | tblk    |
            | AsyTp   | async    | tasy    |
            | SpwTp   | spawn    | tspw    |
        };
        topics_out: { list: TOUT; };
    }
    pub const NEEDED: usize = sizer::NEEDED_SZ;
    /// expected observable effect of one request
    #[derive(Debug, Clone, PartialEq, Default)]
    pub struct Eff { pub handler: Option<(&'static str, Vec<u8>)>, pub spawned: bool, pub sent: Vec<(Vec<u8>, Vec<u8>)>, pub schemas: bool }
    pub fn hdr_of(k: Key, w: usize, seq: VarSeq) -> Vec<u8> { let mut key = VarKey::Key8(k); key.shrink_to(kk(w)); o_enc(&VarHeader { key, seq_no: seq }) }
    pub fn oracle(n: usize, sw: usize, h: &VarHeader, body: &[u8], spfail: bool) -> Eff {
        let kbs = kb(&h.key);
        let mut e = Eff::default();
        let err = |x: WireError| (hdr_of(ERROR_KEY, sw, h.seq_no), postcard::to_stdvec(&x).unwrap());
        if kbs.len() < n { e.sent.push(err(WireError::KeyTooSmall)); return e; }
        let q = o_compact(&kbs, n);
        let is = |k: Key| o_compact(&k.to_bytes(), n) == q;
        let ser = |r: &Req| postcard::to_stdvec(r).unwrap();
        if is(PingEndpoint::REQ_KEY) {
            match postcard::from_bytes::<u32>(body) { Ok(v) => e.sent.push((hdr_of(PingEndpoint::RESP_KEY, sw, h.seq_no), postcard::to_stdvec(&v).unwrap())), Err(_) => e.sent.push(err(WireError::DeserFailed)) }
        } else if is(GetAllSchemasEndpoint::REQ_KEY) { e.schemas = true;
        } else if is(BlkEp::REQ_KEY) || is(AsyEp::REQ_KEY) || is(SpwEp::REQ_KEY) {
            let (nm, x, rk) = if is(BlkEp::REQ_KEY) { ("blk", 1, BlkEp::RESP_KEY) } else if is(AsyEp::REQ_KEY) { ("asy", 2, AsyEp::RESP_KEY) } else { ("spw", 3, SpwEp::RESP_KEY) };
            match postcard::from_bytes::<Req>(body) {
                Err(_) => e.sent.push(err(WireError::DeserFailed)),
                Ok(_) if nm == "spw" && spfail => e.sent.push(err(WireError::FailedToSpawn)),
                Ok(r) => { e.handler = Some((nm, ser(&r))); e.spawned = nm == "spw"; e.sent.push((hdr_of(rk, sw, h.seq_no), postcard::to_stdvec(&mk(&r, x)).unwrap())); }
            }
        } else if is(SameEp::REQ_KEY) {
            match postcard::from_bytes::<u8>(body) { Err(_) => e.sent.push(err(WireError::DeserFailed)), Ok(r) => { e.handler = Some(("same", vec![r])); e.sent.push((hdr_of(SameEp::RESP_KEY, sw, h.seq_no), vec![r.wrapping_add(7)])); } }
        } else if is(BlkTp::TOPIC_KEY) || is(AsyTp::TOPIC_KEY) || is(SpwTp::TOPIC_KEY) {
            let nm = if is(BlkTp::TOPIC_KEY) { "tblk" } else if is(AsyTp::TOPIC_KEY) { "tasy" } else { "tspw" };
            if let Ok(r) = postcard::from_bytes::<Req>(body) { if !(nm == "tspw" && spfail) { e.handler = Some((nm, ser(&r))); e.spawned = nm == "tspw"; } }
        } else { e.sent.push(err(WireError::UnknownKey)); }
        e
    }
    pub fn one<const N: usize>(c: &mut Ctx, h: VarHeader, body: Vec<u8>, sw: usize, spfail: bool, txe: Option<K>) where impls::App<N>: Dispatch<Tx = RecTx> {
        let desc = || format!("dispatcher width {N}, reply width {sw}, header {h:?}, body {body:02x?}, spawn fails {spfail}, first send fails {txe:?}");
        c.case(desc, |c| {
            let log: Log = Default::default();
            let spn = Sp { q: Default::default(), fail: Arc::new(Mutex::new(spfail)) };
            let mut a = impls::App::<N>::new(Cx { log: log.clone(), n: 0 }, spn.clone());
            c.ok(kw(a.min_key_len()) == N, || format!("dispatcher of width {N} reports {:?}", a.min_key_len()));
            let tx = RecTx::default();
            tx.script(vec![txe]);
            let s = Sender::new(tx.clone(), kk(sw));
            let r = exec::block(a.handle(&s, &h, &body));
            let e = oracle(N, sw, &h, &body, spfail);
            let Some(r) = r else { c.fail(format!("{}: handling never finished", desc())); return; };
            let tasks: Vec<_> = std::mem::take(&mut *spn.q.lock().unwrap());
            c.ok(tasks.len() == e.spawned as usize, || format!("{}: {} tasks spawned, expected {}", desc(), tasks.len(), e.spawned as usize));
            let inline = tx.take();
            for t in tasks { exec::block(t); }
            let later = tx.take();
            let lg = log.lock().unwrap().clone();
            let want: Vec<_> = e.handler.iter().map(|(n, b)| (*n, o_enc(&h), b.clone())).collect();
            c.ok(lg == want, || format!("{}: handlers run {lg:02x?}, expected {want:02x?}", desc()));
            if e.schemas { c.cover("schemas"); return; }
            let m = |v: &[(Vec<u8>, Vec<u8>)]| v.iter().map(|(a, b)| Sent::Msg(a.clone(), b.clone())).collect::<Vec<_>>();
            c.cover(match (&e.handler, e.sent.len()) { (Some(_), 0) => "topic", (Some(_), _) => "answered", (None, 0) => "dropped-topic", _ => "error-or-ping" });
            if e.spawned {
                c.ok(inline.is_empty() && r.is_ok(), || format!("{}: inline messages {inline:02x?} although the work was spawned", desc()));
                if txe.is_none() { c.ok(later == m(&e.sent), || format!("{}: spawned task sent {later:02x?}, expected {:02x?}", desc(), e.sent)); }
            } else if txe.is_none() || e.sent.is_empty() {
                c.ok(inline == m(&e.sent) && r.is_ok(), || format!("{}: sent {inline:02x?} result {r:?}, expected {:02x?}", desc(), e.sent));
            } else if e.handler.is_some() {
                // a response that could not be sent is answered by an error under the same sequence number
                let w = (hdr_of(ERROR_KEY, sw, h.seq_no), postcard::to_stdvec(&WireError::SerFailed).unwrap());
                c.ok(inline == m(&[w]) && r.is_ok(), || format!("{}: sent {inline:02x?} result {r:?}, expected the SerFailed error", desc()));
            } else {
                c.ok(inline.is_empty() && r.map_err(|x| x.0) == Err(txe.unwrap()), || format!("{}: sent {inline:02x?} result {r:?}, expected the transport failure to be returned", desc()));
            }
        });
    }
    pub fn keys() -> Vec<Key> { vec![PingEndpoint::REQ_KEY, GetAllSchemasEndpoint::REQ_KEY, BlkEp::REQ_KEY, AsyEp::REQ_KEY, SpwEp::REQ_KEY, SameEp::REQ_KEY, UnlEp::REQ_KEY, BlkTp::TOPIC_KEY, AsyTp::TOPIC_KEY, SpwTp::TOPIC_KEY, OutTp::TOPIC_KEY, ERROR_KEY, BlkEp::RESP_KEY] }
}
pub fn c07(c: &mut Ctx) {
    c.bound("one sample application with every handler flavour; all 4 dispatcher widths x 4 reply widths x 4 key widths, known/unknown keys, valid/invalid bodies, one transport failure, spawn failure");
    let n = if c.deep { 2_000_000 } else { 200_000 };
    c.ok(full::NEEDED == 1, || format!("sample application key width {} (all its keys differ at 1 byte)", full::NEEDED));
    let ks = full::keys();
    for _ in 0..n {
        if c.stop() { break; }
        let k = if c.rng.below(8) == 0 { key(c.rng.bytes(8).try_into().unwrap()) } else { ks[c.rng.below(ks.len() as u64) as usize] };
        let mut vk = VarKey::Key8(k);
        let w = [1, 2, 4, 8][c.rng.below(4) as usize];
        vk.shrink_to(kk(w));
        let seq = any_header(c).seq_no;
        let h = VarHeader { key: vk, seq_no: seq };
        let body = match c.rng.below(4) {
            0 => { let n = c.rng.below(6) as usize; c.rng.bytes(n) }
            1 => postcard::to_stdvec(&c.rng.edge32()).unwrap(),
            _ => { let n = c.rng.below(4) as usize; let s: String = (0..n).map(|_| (b'a' + c.rng.below(26) as u8) as char).collect(); postcard::to_stdvec(&full::Req { a: c.rng.next() as u16, s }).unwrap() }
        };
        let sw = [1, 2, 4, 8][c.rng.below(4) as usize];
        let spf = c.rng.below(4) == 0;
        let txe = match c.rng.below(6) { 0 => Some(K::Other), 1 => Some(K::Closed), _ => None };
        match c.rng.below(4) { 0 => full::one::<1>(c, h, body, sw, spf, txe), 1 => full::one::<2>(c, h, body, sw, spf, txe), 2 => full::one::<4>(c, h, body, sw, spf, txe), _ => full::one::<8>(c, h, body, sw, spf, txe) }
    }
}

// ------------------------------------------------------------------ C08
fn s_hdr(k: Key, w: usize, seq: VarSeq) -> Vec<u8> { full::hdr_of(k, w, seq) }
// the i-th of many distinct types, and a path: often empty, repeated or odd
fn many(i: usize) -> &'static postcard_schema::schema::NamedType {
    use postcard_schema::schema::{DataModelType, NamedType};
    static M: std::sync::OnceLock<Vec<NamedType>> = std::sync::OnceLock::new();
    &M.get_or_init(|| (0..400).map(|i| NamedType { name: Box::leak(format!("T{i}").into_boxed_str()), ty: &DataModelType::UnitStruct }).collect())[i]
}
fn path(c: &mut Ctx, l: &str, i: usize) -> &'static str {
    static P: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
    let p = &P.get_or_init(|| (0..400).map(|i| (format!("e{i}"), format!("i{i}"), format!("o{i}"))).collect::<Vec<_>>())[i];
    match c.rng.below(9) { 0 => "", 1 => "a", 2 => "x/y", 3 => { static L: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new(); &L.get_or_init(|| [127, 128, 255, 256, 300, 1500].iter().map(|n| "p/".repeat(n / 2) + &"q".repeat(n % 2)).collect())[c.rng.below(6) as usize] } _ => match l { "e" => &p.0, "i" => &p.1, _ => &p.2 } }
}
pub fn c08(c: &mut Ctx) {
    use postcard_schema::{schema::NamedType, Schema};
    c.bound("random messages through every sending method at all widths; device descriptions of 0..=5 (now and then up to 400) types, endpoints and topics, paths empty, repeated or up to 1500 bytes long, with arbitrary transport failures");
    static TYS: &[&NamedType] = &[u8::SCHEMA, <Option<u16>>::SCHEMA, <[u8; 4]>::SCHEMA, full::Req::SCHEMA, WireError::SCHEMA];
    let n = if c.deep { 300_000 } else { 40_000 };
    for _ in 0..n {
        if c.stop() { break; }
        let w = [1, 2, 4, 8][c.rng.below(4) as usize];
        let seq = any_header(c).seq_no;
        let v = full::Resp { b: c.rng.next() as u16, t: "x".repeat(c.rng.below(5) as usize) };
        let k8 = key(c.rng.bytes(8).try_into().unwrap());
        c.case(|| format!("sender width {w} seq {seq:?} value {v:?} key {k8:?}"), |c| {
            let tx = RecTx::default();
            let s = Sender::new(tx.clone(), kk(w));
            let vb = postcard::to_stdvec(&v).unwrap();
            let mut want = vec![];
            exec::block(s.reply::<full::BlkEp>(seq, &v)).unwrap().unwrap(); want.push(Sent::Msg(s_hdr(full::BlkEp::RESP_KEY, w, seq), vb.clone()));
            exec::block(s.reply_keyed(seq, k8, &v)).unwrap().unwrap(); want.push(Sent::Msg(s_hdr(k8, w, seq), vb.clone()));
            exec::block(s.publish::<full::OutTp>(seq, &v)).unwrap().unwrap(); want.push(Sent::Msg(s_hdr(full::OutTp::TOPIC_KEY, w, seq), vb.clone()));
            exec::block(s.error(seq, WireError::UnknownKey)).unwrap().unwrap(); want.push(Sent::Msg(s_hdr(ERROR_KEY, w, seq), postcard::to_stdvec(&WireError::UnknownKey).unwrap()));
            exec::block(s.log_str("hey")).unwrap().unwrap(); want.push(Sent::LogStr(kk(w), "hey".into()));
            exec::block(s.log_fmt(format_args!("{}-{}", 1, "q"))).unwrap().unwrap(); want.push(Sent::LogFmt(kk(w), "1-q".into()));
            let s2 = s.clone();
            exec::block(s2.publish::<full::OutTp>(seq, &v)).unwrap().unwrap(); want.push(Sent::Msg(s_hdr(full::OutTp::TOPIC_KEY, w, seq), vb));
            let got = tx.take();
            c.ok(got == want, || format!("sender of width {w}, seq {seq:?}: sent {got:02x?}, expected {want:02x?}"));
        });
        // schema streaming
        let mut cnt = || { if c.rng.below(if c.deep { 400 } else { 150 }) == 0 { c.rng.below(400) as usize } else { c.rng.below(6) as usize } };
        let (nt, ne, ni, no) = (cnt(), cnt(), cnt(), cnt());
        let tys: Vec<&'static NamedType> = (0..nt).map(|i| if i < TYS.len() { TYS[i] } else { many(i) }).collect();
        let eps: Vec<(&'static str, Key, Key)> = (0..ne).map(|i| (path(c, "e", i), key(c.rng.bytes(8).try_into().unwrap()), key(c.rng.bytes(8).try_into().unwrap()))).collect();
        let tin: Vec<(&'static str, Key)> = (0..ni).map(|i| (path(c, "i", i), key(c.rng.bytes(8).try_into().unwrap()))).collect();
        let tout: Vec<(&'static str, Key)> = (0..no).map(|i| (path(c, "o", i), key(c.rng.bytes(8).try_into().unwrap()))).collect();
        let total = nt + ne + ni + no;
        let rate = [5, 5, 5, 2, 1][c.rng.below(5) as usize]; // 1: everything fails
        let errs: Vec<Option<K>> = (0..total).map(|_| if c.rng.below(rate) == 0 { Some(K::Other) } else { None }).collect();
        let map = DeviceMap { types: Box::leak(Box::new(tys.clone())), endpoints: Box::leak(eps.clone().into_boxed_slice()), topics_in: Box::leak(tin.clone().into_boxed_slice()), topics_out: Box::leak(tout.clone().into_boxed_slice()), min_key_len: VarKeyKind::Key8 };
        let hd = any_header(c);
        c.case(|| format!("schemas {nt} {ne} {ni} {no}"), |c| {
            let tx = RecTx::default();
            tx.script(errs.clone());
            let s = Sender::new(tx.clone(), kk(w));
            let r = exec::block(s.send_all_schemas(&hd, &map));
            c.ok(matches!(r, Some(Ok(()))), || format!("streaming the device description ended with {r:?}"));
            // every item exactly once (failed sends counted), any order among kinds is accepted; totals last
            let mut items: Vec<OwnedSchemaData> = vec![];
            for t in &tys { items.push(OwnedSchemaData::Type((*t).into())); }
            for e in &eps { items.push(OwnedSchemaData::Endpoint { path: e.0.into(), request_key: e.1, response_key: e.2 }); }
            for t in &tout { items.push(OwnedSchemaData::Topic { path: t.0.into(), key: t.1, direction: TopicDirection::ToClient }); }
            for t in &tin { items.push(OwnedSchemaData::Topic { path: t.0.into(), key: t.1, direction: TopicDirection::ToServer }); }
            let got = tx.take();
            let nerr = errs.iter().filter(|e| e.is_some()).count();
            c.cover(if nerr > 0 { "with-failures" } else { "all-sent" });
            let want_tot = SchemaTotals { types_sent: nt as u32, endpoints_sent: ne as u32, topics_in_sent: ni as u32, topics_out_sent: no as u32, errors: nerr as u32 };
            let Some((last, data)) = got.split_last() else { c.fail("no totals sent".into()); return; };
            c.ok(*last == Sent::Msg(s_hdr(GetAllSchemasEndpoint::RESP_KEY, w, hd.seq_no), postcard::to_stdvec(&want_tot).unwrap()), || format!("final message {last:02x?}, expected totals {want_tot:?} under {:?}", hd.seq_no));
            c.ok(tx.attempts() == total + 1 && data.len() == total - nerr, || format!("{} sends attempted for {total} items", tx.attempts()));
            let mut left: Vec<Option<&OwnedSchemaData>> = items.iter().map(Some).collect();
            let nums: Vec<u16> = errs.iter().enumerate().filter(|(_, e)| e.is_none()).map(|(i, _)| i as u16).collect();
            for (d, num) in data.iter().zip(nums) {
                let Sent::Msg(h, b) = d else { c.fail(format!("unexpected {d:?}")); continue };
                let Ok(x) = postcard::from_bytes::<OwnedSchemaData>(b) else { c.fail(format!("undecodable item {b:02x?}")); continue };
                let (hk, _, _) = o_dec(h).unwrap();
                c.ok(hk == o_compact(&GetAllSchemaDataTopic::TOPIC_KEY.to_bytes(), w), || format!("item sent under key {hk:02x?}"));
                c.ok(*h == s_hdr(GetAllSchemaDataTopic::TOPIC_KEY, w, VarSeq::Seq2(num)), || format!("item number {num} sent under header {h:02x?}"));
                match left.iter_mut().find(|l| **l == Some(&x)) { Some(l) => *l = None, None => c.fail(format!("item {x:?} sent twice or not in the description")) }
            }
            let miss = left.iter().flatten().count();
            c.ok(miss == nerr, || format!("{miss} items never sent, {nerr} sends failed"));
        });
    }
}
