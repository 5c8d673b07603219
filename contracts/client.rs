// =====================================================================
// Host client unit: contracts for HostClient, its workers and subscriptions
// =====================================================================
use std::sync::Arc;
use core::marker::PhantomData;
struct Cancelled;
struct PostcardError;
struct Duration { d: u64 }
impl Duration { uninterp spec fn zero(&self) -> bool; #[verifier::external_body] fn is_zero(&self) -> (r: bool) ensures r == self.zero() { unimplemented!() } }
trait DeserializeOwned {}
trait Serialize {}
trait Schema {}
trait Topic { type Message; spec fn topic_key() -> Key; fn TOPIC_KEY() -> (r: Key) ensures r == Self::topic_key(); }
trait Endpoint { type Request; type Response; spec fn req_key() -> Key; spec fn resp_key() -> Key; fn REQ_KEY() -> (r: Key) ensures r == Self::req_key(); fn RESP_KEY() -> (r: Key) ensures r == Self::resp_key(); }
/// postcard: encoding and decoding are functions of the value and the bytes
uninterp spec fn encoded<T>(t: T) -> Seq<u8>;
uninterp spec fn decoded<T>(b: Seq<u8>) -> Option<T>;
#[verifier::external_body] fn vx_encode<T>(t: &T) -> (r: Vec<u8>) ensures r@ == encoded(*t) { unimplemented!() }
#[verifier::external_body] fn vx_decode<T>(b: &Vec<u8>) -> (r: Result<T, PostcardError>) ensures r matches Ok(v) ==> decoded::<T>(b@) == Some(v), r is Err ==> decoded::<T>(b@) is None { unimplemented!() }
#[verifier::external_body] fn vx_to_vec(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { b.to_vec() }
trait VxMapErr<T, F> { fn vx_map_err(self, f: F) -> Result<T, F>; }
impl<T, E, F> VxMapErr<T, F> for Result<T, SendErr<E>> { fn vx_map_err(self, f: F) -> (r: Result<T, F>) ensures self matches Ok(v) ==> r == Ok::<T, F>(v), self is Err ==> r == Err::<T, F>(f) { match self { Ok(v) => Ok(v), Err(_) => Err(f) } } }

uninterp spec fn path_key<T>(p: &str) -> Key;
impl Key { #[verifier::external_body] fn for_path<T>(p: &str) -> (r: Key) ensures r == path_key::<T>(p) { unimplemented!() } }
/// derived: structural
impl PartialEqSpecImpl for VarKeyKind { closed spec fn obeys_eq_spec() -> bool { true } closed spec fn eq_spec(&self, o: &VarKeyKind) -> bool { *self == *o } }
impl PartialEq for VarKeyKind { #[verifier::external_body] fn eq(&self, o: &VarKeyKind) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for Key { closed spec fn obeys_eq_spec() -> bool { true } closed spec fn eq_spec(&self, o: &Key) -> bool { *self == *o } }
impl PartialEq for Key { #[verifier::external_body] fn eq(&self, o: &Key) -> (r: bool) { unimplemented!() } }
// ----- what a task did, as seen by its environment -----
ghost struct FrameV { h: VarHeader, b: Seq<u8> }
ghost struct SubsV { ex: Seq<(Key, MpscSender<RpcFrame>)>, bc: Seq<(Key, BcSender<RpcFrame>)>, stopped: bool }
ghost enum Ex { Sent, Full, Closed }
/// what happened to one received frame
ghost struct Round { sl: Seq<Duration>, b: Seq<u8>, s: SubsV, a: SubsV, bc: Seq<(int, FrameV, bool)>, ex: Seq<(int, FrameV, Ex)>, wk: Seq<FrameV> }
tracked struct CLog {
    /// key width last read, key width last stored
    ghost kk: Option<VarKeyKind>, ghost wrote: Option<VarKeyKind>,
    /// registered waiters; those registered when a frame was queued for sending; the frames queued
    ghost enq: Seq<VarHeader>, ghost ready: Seq<VarHeader>, ghost sent: Seq<FrameV>,
    /// replies picked up: waiter, header, body
    ghost got: Seq<(VarHeader, VarHeader, Seq<u8>)>,
    /// sequence numbers drawn
    ghost seqs: Seq<u32>,
    /// the client was seen or made closed; a duplicate registration was refused; a fault inside the wait map
    ghost gone: bool, ghost dup: bool, ghost odd: bool,
    /// the lists as they were when locked; senders seen open
    ghost locked: Option<SubsV>, ghost open: Set<int>,
    /// frames received by the input worker
    ghost hist: Seq<Round>, ghost cur: Option<Round>,
    /// frames taken from a channel, bytes handed to the wire
    ghost rd: Seq<FrameV>, ghost wired: Seq<Seq<u8>>, ghost lag: Option<u64>,
    /// races against the stop signal around the current point
    ghost cov: int,
    /// the transport reported an error
    ghost txerr: bool, ghost rxerr: bool,
    /// workers started
    ghost spout: Seq<(int, Stopper)>, ghost spin: Seq<(HostContext, SubsRef, Stopper)>,
}
spec fn sv(s: Subscriptions) -> SubsV { SubsV { ex: s.exclusive_list@, bc: s.broadcast_list@, stopped: s.stopped } }
spec fn fv(f: RpcFrame) -> FrameV { FrameV { h: f.header, b: f.body@ } }

// ----- dependencies (stand-ins; only their names and the listed contracts are used) -----
fn vx_pick() -> (r: u8) { vx_any() }
#[verifier::external_body] fn vx_any() -> (r: u8) { unimplemented!() }
/// a future dropped before it completed
#[verifier::external_body] fn vx_drop<T>(r: Result<T, Cancelled>) ensures r is Err { unimplemented!() }
/// what follows is raced against the stop signal
#[verifier::external_body] fn vx_race(Tracked(lg): Tracked<&mut CLog>) ensures *final(lg) == (CLog { cov: old(lg).cov + 1, ..*old(lg) }) { unimplemented!() }
#[verifier::external_body] fn vx_raced(Tracked(lg): Tracked<&mut CLog>) ensures *final(lg) == (CLog { cov: old(lg).cov - 1, ..*old(lg) }) { unimplemented!() }
fn vx_pinned<T>(t: T) -> (r: T) ensures r == t { t }
struct RwLock<T> { t: T }
impl RwLock<VarKeyKind> {
    uninterp spec fn init(&self) -> VarKeyKind;
    #[verifier::external_body] fn new(k: VarKeyKind) -> (r: Self) ensures r.init() == k { unimplemented!() }
    #[verifier::external_body] fn vx_read(&self, Tracked(lg): Tracked<&mut CLog>) -> (r: VarKeyKind) ensures *final(lg) == (CLog { kk: Some(r), ..*old(lg) }) { unimplemented!() }
    #[verifier::external_body] fn vx_write(&self, k: VarKeyKind, Tracked(lg): Tracked<&mut CLog>) ensures *final(lg) == (CLog { wrote: Some(k), ..*old(lg) }) { unimplemented!() }
}
enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
struct AtomicU32 { v: u32 }
impl AtomicU32 {
    uninterp spec fn init(&self) -> u32;
    #[verifier::external_body] fn new(k: u32) -> (r: Self) ensures r.init() == k { unimplemented!() }
    #[verifier::external_body] fn load(&self, o: Ordering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn store(&self, k: u32, o: Ordering) { unimplemented!() }
    #[verifier::external_body] fn fetch_add(&self, k: u32, o: Ordering, Tracked(lg): Tracked<&mut CLog>) -> (r: u32) requires k == 1 ensures *final(lg) == (CLog { seqs: old(lg).seqs.push(r), ..*old(lg) }) { unimplemented!() }
}
enum WaitError { Closed, AlreadyConsumed, NeverAdded, Duplicate }
enum WakeOutcome<V> { Woke, NoMatch(V), Closed(V) }
/// headers are matched by the crate's own comparison
spec fn heq(a: VarHeader, b: VarHeader) -> bool { keq(a.key, b.key) && sval(a.seq_no) == sval(b.seq_no) }
struct WaitMap<K, V> { k: K, v: V }
struct Wait { h: VarHeader }
impl WaitMap<VarHeader, (VarHeader, Vec<u8>)> {
    #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn wait(&self, h: VarHeader, Tracked(lg): Tracked<&mut CLog>) -> (r: Wait) ensures r.h == h, *final(lg) == *old(lg) { unimplemented!() }
    /// every value in the map carries the header it was woken with
    #[verifier::external_body] fn wake(&self, k: &VarHeader, v: (VarHeader, Vec<u8>), Tracked(lg): Tracked<&mut CLog>) -> (r: WakeOutcome<(VarHeader, Vec<u8>)>)
        requires v.0 == *k
        ensures *final(lg) == (CLog { cur: woke(old(lg).cur, FrameV { h: v.0, b: v.1@ }), gone: old(lg).gone || r is Closed, ..*old(lg) }) { unimplemented!() }
}
spec fn woke(c: Option<Round>, f: FrameV) -> Option<Round> { match c { Some(r) => Some(Round { wk: r.wk.push(f), ..r }), None => None } }
spec fn registered(q: Seq<VarHeader>, h: VarHeader) -> bool { q.len() >= 1 && q[0] == h || q.len() >= 2 && q[1] == h }
impl Wait {
    #[verifier::external_body] fn enqueue(&mut self, Tracked(lg): Tracked<&mut CLog>) -> (r: Result<Result<(), WaitError>, Cancelled>)
        ensures final(self).h == old(self).h,
            r is Err ==> *final(lg) == *old(lg), r matches Ok(Ok(_)) ==> *final(lg) == (CLog { enq: old(lg).enq.push(old(self).h), ..*old(lg) }),
            r matches Ok(Err(e)) ==> *final(lg) == (CLog { dup: old(lg).dup || e is Duplicate, gone: old(lg).gone || e is Closed, odd: old(lg).odd || e is AlreadyConsumed || e is NeverAdded, ..*old(lg) }) { unimplemented!() }
    #[verifier::external_body] fn vx_wait(&mut self, Tracked(lg): Tracked<&mut CLog>) -> (r: Result<Result<(VarHeader, Vec<u8>), WaitError>, Cancelled>)
        requires old(lg).cov > 0, registered(old(lg).enq, old(self).h)
        ensures final(self).h == old(self).h, r is Err ==> *final(lg) == *old(lg),
            r matches Ok(Ok(v)) ==> heq(old(self).h, v.0) && *final(lg) == (CLog { got: old(lg).got.push((old(self).h, v.0, v.1@)), ..*old(lg) }),
            r matches Ok(Err(_)) ==> *final(lg) == (CLog { gone: true, ..*old(lg) }) { unimplemented!() }
}
struct QClosed;
struct WaitQueue { x: u8 }
impl WaitQueue {
    #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn wait(&self, Tracked(lg): Tracked<&mut CLog>) -> (r: Result<Result<(), QClosed>, Cancelled>) ensures r is Ok ==> *final(lg) == (CLog { gone: true, ..*old(lg) }), r is Err ==> *final(lg) == *old(lg) { unimplemented!() }
    #[verifier::external_body] fn close(&self, Tracked(lg): Tracked<&mut CLog>) ensures *final(lg) == (CLog { gone: true, ..*old(lg) }) { unimplemented!() }
    #[verifier::external_body] fn is_closed(&self, Tracked(lg): Tracked<&mut CLog>) -> (r: bool) ensures *final(lg) == (CLog { gone: old(lg).gone || r, ..*old(lg) }), old(lg).gone ==> r { unimplemented!() }
}
struct SendErr<T>(T);
enum TrySendError<T> { Full(T), Closed(T) }
enum RecvError { Closed, Lagged(u64) }
struct MpscSender<T> { t: T }
struct MpscReceiver<T> { t: T }
struct BcSender<T> { t: T }
struct BcReceiver<T> { t: T }
/// asked(): the depth the queue was created with
impl<T> MpscReceiver<T> { uninterp spec fn id(&self) -> int; uninterp spec fn asked(&self) -> usize; }
impl<T> BcReceiver<T> { uninterp spec fn id(&self) -> int; uninterp spec fn asked(&self) -> usize; }
#[verifier::external_body] fn mpsc_channel<T>(n: usize) -> (r: (MpscSender<T>, MpscReceiver<T>)) ensures r.0.id() == r.1.id(), r.1.asked() == n { unimplemented!() }
#[verifier::external_body] fn broadcast_channel<T>(n: usize) -> (r: (BcSender<T>, BcReceiver<T>)) ensures r.0.id() == r.1.id(), r.1.asked() == n { unimplemented!() }
impl<T> MpscSender<T> { pub uninterp spec fn id(&self) -> int; }
impl<T> BcSender<T> { uninterp spec fn id(&self) -> int; }
spec fn exd(c: Option<Round>, id: int, f: FrameV, o: Ex) -> Option<Round> { match c { Some(r) => Some(Round { ex: r.ex.push((id, f, o)), ..r }), None => None } }
spec fn bcd(c: Option<Round>, id: int, f: FrameV, ok: bool) -> Option<Round> { match c { Some(r) => Some(Round { bc: r.bc.push((id, f, ok)), ..r }), None => None } }
impl MpscSender<RpcFrame> {
    #[verifier::external_body] fn is_closed(&self, Tracked(lg): Tracked<&mut CLog>) -> (r: bool) ensures *final(lg) == (CLog { open: if r { old(lg).open } else { old(lg).open.insert(self.id()) }, ..*old(lg) }) { unimplemented!() }
    #[verifier::external_body] fn try_send(&self, f: RpcFrame, Tracked(lg): Tracked<&mut CLog>) -> (r: Result<(), TrySendError<RpcFrame>>)
        ensures r matches Err(TrySendError::Full(g)) ==> fv(g) == fv(f), *final(lg) == (CLog { cur: exd(old(lg).cur, self.id(), fv(f), match r { Ok(_) => Ex::Sent, Err(TrySendError::Full(_)) => Ex::Full, Err(TrySendError::Closed(_)) => Ex::Closed }), ..*old(lg) }) { unimplemented!() }
    /// waits for room; refused only when the receiver is gone; nothing is sent when dropped before
    #[verifier::external_body] fn send(&self, f: RpcFrame, Tracked(lg): Tracked<&mut CLog>) -> (r: Result<Result<(), SendErr<RpcFrame>>, Cancelled>)
        ensures r is Err ==> *final(lg) == *old(lg),
            r matches Ok(Ok(_)) ==> *final(lg) == (CLog { sent: old(lg).sent.push(fv(f)), ready: old(lg).enq, cur: exd(old(lg).cur, self.id(), fv(f), Ex::Sent), ..*old(lg) }),
            r matches Ok(Err(_)) ==> *final(lg) == (CLog { gone: old(lg).gone || old(lg).cur is None, cur: exd(old(lg).cur, self.id(), fv(f), Ex::Closed), ..*old(lg) }) { unimplemented!() }
}
impl BcSender<RpcFrame> {
    #[verifier::external_body] fn vx_subscribe(&self) -> (r: BcReceiver<RpcFrame>) ensures r.id() == self.id() { unimplemented!() }
    #[verifier::external_body] fn send(&self, f: RpcFrame, Tracked(lg): Tracked<&mut CLog>) -> (r: Result<usize, SendErr<RpcFrame>>) ensures *final(lg) == (CLog { cur: bcd(old(lg).cur, self.id(), fv(f), r is Ok), ..*old(lg) }) { unimplemented!() }
}
impl MpscReceiver<RpcFrame> {
    #[verifier::external_body] fn recv(&mut self, Tracked(lg): Tracked<&mut CLog>) -> (r: Result<Option<RpcFrame>, Cancelled>)
        ensures r is Err ==> *final(lg) == *old(lg), r matches Ok(Some(f)) ==> *final(lg) == (CLog { rd: old(lg).rd.push(fv(f)), ..*old(lg) }), r matches Ok(None) ==> *final(lg) == (CLog { gone: true, ..*old(lg) }) { unimplemented!() }
}
impl BcReceiver<RpcFrame> {
    #[verifier::external_body] fn recv(&mut self, Tracked(lg): Tracked<&mut CLog>) -> (r: Result<Result<RpcFrame, RecvError>, Cancelled>)
        ensures r is Err ==> *final(lg) == *old(lg), r matches Ok(Ok(f)) ==> *final(lg) == (CLog { rd: old(lg).rd.push(fv(f)), ..*old(lg) }), r matches Ok(Err(RecvError::Closed)) ==> *final(lg) == (CLog { gone: true, ..*old(lg) }),
            r matches Ok(Err(RecvError::Lagged(n))) ==> *final(lg) == (CLog { lag: Some(n), ..*old(lg) }) { unimplemented!() }
}
#[verifier::external_body] fn vx_sleep(d: Duration, Tracked(lg): Tracked<&mut CLog>) -> (r: Result<(), Cancelled>) ensures r is Err ==> *final(lg) == *old(lg), r is Ok ==> *final(lg) == (CLog { cur: match old(lg).cur { Some(c) => Some(Round { sl: c.sl.push(d), ..c }), None => None }, ..*old(lg) }) { unimplemented!() }
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Duration {}
struct SubsRef { i: u64 }
#[verifier::external_body] fn vx_subs() -> (r: SubsRef) { unimplemented!() }
impl Clone for SubsRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Stopper { fn clone(&self) -> (r: Self) ensures r == *self { Stopper { inner: self.inner.clone() } } }
impl<T> Clone for MpscSender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.id() == self.id() { unimplemented!() } }
#[verifier::external_body] fn vx_zero() -> (r: Duration) ensures r.zero() { unimplemented!() }
trait WireSpawn {
    /// starts the task; it runs with its own log
    fn vx_spawn_out<W: WireTx>(&mut self, wire: W, rec: MpscReceiver<RpcFrame>, stop: Stopper, Tracked(lg): Tracked<&mut CLog>) ensures *final(lg) == (CLog { spout: old(lg).spout.push((rec.id(), stop)), ..*old(lg) });
    fn vx_spawn_in<W: WireRx>(&mut self, wire: W, ctx: Arc<HostContext>, subs: SubsRef, stop: Stopper, Tracked(lg): Tracked<&mut CLog>) ensures *final(lg) == (CLog { spin: old(lg).spin.push((*ctx, subs, stop)), ..*old(lg) });
}
/// taking the lock: the lists are whatever other tasks left
#[verifier::external_body] fn vx_lock(subs: &mut Subscriptions, Tracked(lg): Tracked<&mut CLog>) -> (r: Result<(), Cancelled>)
    ensures r is Err ==> *final(lg) == *old(lg), r is Ok ==> *final(lg) == (CLog { locked: Some(sv(*final(subs))), cur: match old(lg).cur { Some(c) => Some(Round { s: sv(*final(subs)), ..c }), None => None }, ..*old(lg) }) { unimplemented!() }
trait WireTx { type Error; fn send(&mut self, data: Vec<u8>, Tracked(lg): Tracked<&mut CLog>) -> (r: Result<Result<(), Self::Error>, Cancelled>) requires old(lg).cov > 0, !old(lg).txerr ensures *final(lg) == (CLog { wired: old(lg).wired.push(data@), txerr: r matches Ok(Err(_)), ..*old(lg) }); }
spec fn no_subs() -> SubsV { SubsV { ex: Seq::empty(), bc: Seq::empty(), stopped: false } }
trait WireRx { type Error; fn receive(&mut self, subs: &Subscriptions, Tracked(lg): Tracked<&mut CLog>) -> (r: Result<Result<Vec<u8>, Self::Error>, Cancelled>)
    requires old(lg).cov > 0, !old(lg).rxerr
    ensures r is Err ==> *final(lg) == *old(lg), r matches Ok(Err(_)) ==> *final(lg) == (CLog { rxerr: true, ..*old(lg) }),
        r matches Ok(Ok(v)) ==> *final(lg) == (CLog { hist: match old(lg).cur { Some(c) => old(lg).hist.push(Round { a: sv(*subs), ..c }), None => old(lg).hist }, cur: Some(Round { sl: Seq::empty(), b: v@, s: no_subs(), a: no_subs(), bc: Seq::empty(), ex: Seq::empty(), wk: Seq::empty() }), ..*old(lg) }); }
trait Debug {}
impl<T> FromSpecImpl<PostcardError> for HostErr<T> { closed spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(e: PostcardError) -> HostErr<T> { HostErr::Postcard(e) } }
impl<T> FromSpecImpl<WaitError> for HostErr<T> { closed spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(e: WaitError) -> HostErr<T> { HostErr::Closed } }

/// the conversion made by `?`
trait VxInto<F> { fn vx_into(self) -> F; }
impl<T> VxInto<HostErr<T>> for HostErr<T> { fn vx_into(self) -> (r: HostErr<T>) ensures r == self { self } }
impl<T> VxInto<HostErr<T>> for PostcardError { fn vx_into(self) -> (r: HostErr<T>) ensures r == HostErr::<T>::Postcard(self) { HostErr::from(self) } }
impl<T> VxInto<HostErr<T>> for WaitError { fn vx_into(self) -> (r: HostErr<T>) ensures r == HostErr::<T>::Closed { HostErr::from(self) } }
impl VxInto<IoClosed> for IoClosed { fn vx_into(self) -> (r: IoClosed) ensures r == self { self } }
impl VxInto<SubscribeError> for SubscribeError { fn vx_into(self) -> (r: SubscribeError) ensures r == self { self } }
// ----- specification: requests -----
/// `o` is `k` at key width `kk`
spec fn shrunk(k: VarKey, kk: VarKeyKind, o: VarKey) -> bool { kbytes(o) == compact(kbytes(k), kwidth(kk)) && kbytes(o).len() == min2(kbytes(k).len(), kwidth(kk)) }
/// `o` is `s` at sequence width `k`, wrapped
spec fn resized(s: VarSeq, k: VarSeqKind, o: VarSeq) -> bool { sbytes(o).len() == swidth(k) && sval(o) == (match k { VarSeqKind::Seq1 => sval(s) as u8 as u32, VarSeqKind::Seq2 => sval(s) as u16 as u32, VarSeqKind::Seq4 => sval(s) }) }
/// `w` waits for key `k` with the sequence number of the request
spec fn waits(w: VarHeader, k: Key, kk: VarKeyKind, seq: VarSeq) -> bool { shrunk(VarKey::Key8(k), kk, w.key) && w.seq_no == seq }
spec fn req_frame(f: FrameV, rq: FrameV, kk: VarKeyKind, sk: VarSeqKind) -> bool { shrunk(rq.h.key, kk, f.h.key) && resized(rq.h.seq_no, sk, f.h.seq_no) && f.b == rq.b }
/// at most one frame is sent, and only after both waiters are registered
spec fn req_sent(l: CLog, rq: FrameV, resp: Key, err: Key, sk: VarSeqKind) -> bool {
    &&& l.sent.len() <= 1
    &&& l.sent.len() == 1 ==> l.kk is Some && req_frame(l.sent[0], rq, l.kk->0, sk)
        && l.ready.len() == 2 && { let n = l.sent[0].h.seq_no; let k = l.kk->0; waits(l.ready[0], resp, k, n) && waits(l.ready[1], err, k, n) || waits(l.ready[1], resp, k, n) && waits(l.ready[0], err, k, n) }
}
/// the width of the reply is remembered
spec fn adapted(l: CLog, hd: VarHeader) -> bool { match l.wrote { Some(k) => kwidth(k) == kbytes(hd.key).len(), None => l.kk is Some && kwidth(l.kk->0) == kbytes(hd.key).len() } }
spec fn replied(l: CLog, k: Key, hd: VarHeader, body: Seq<u8>) -> bool {
    &&& l.sent.len() == 1 && l.got.len() == 1 && l.got[0].1 == hd && l.got[0].2 == body && l.kk is Some
    &&& waits(l.got[0].0, k, l.kk->0, l.sent[0].h.seq_no) && heq(l.got[0].0, hd)
    &&& adapted(l, hd)
}
spec fn raw_post<W>(l: CLog, rq: FrameV, resp: Key, err: Key, sk: VarSeqKind, r: Result<Result<RpcFrame, HostErr<W>>, Cancelled>) -> bool {
    &&& req_sent(l, rq, resp, err, sk)
    &&& match r {
        Ok(Ok(f)) => replied(l, resp, f.header, f.body@),
        Ok(Err(HostErr::Wire(e))) => l.got.len() == 1 && replied(l, err, l.got[0].1, l.got[0].2) && decoded::<W>(l.got[0].2) == Some(e),
        Ok(Err(HostErr::Postcard(_))) => l.got.len() == 1 && replied(l, err, l.got[0].1, l.got[0].2) && decoded::<W>(l.got[0].2) is None,
        Ok(Err(HostErr::Closed)) => l.gone && l.got.len() == 0,
        Ok(Err(HostErr::BadResponse)) => l.dup && l.sent.len() == 0,
        Err(_) => l.got.len() == 0,
    }
}
spec fn resp_post<W, E: Endpoint>(l: CLog, t: E::Request, err: Key, sk: VarSeqKind, r: Result<Result<E::Response, HostErr<W>>, Cancelled>) -> bool {
    &&& l.seqs.len() == 1
    &&& req_sent(l, FrameV { h: VarHeader { key: VarKey::Key8(E::req_key()), seq_no: VarSeq::Seq4(l.seqs[0]) }, b: encoded(t) }, E::resp_key(), err, sk)
    &&& match r {
        Ok(Ok(v)) => l.got.len() == 1 && replied(l, E::resp_key(), l.got[0].1, l.got[0].2) && decoded::<E::Response>(l.got[0].2) == Some(v),
        Ok(Err(HostErr::Wire(e))) => l.got.len() == 1 && replied(l, err, l.got[0].1, l.got[0].2) && decoded::<W>(l.got[0].2) == Some(e),
        Ok(Err(HostErr::Postcard(_))) => l.got.len() == 1 && (replied(l, E::resp_key(), l.got[0].1, l.got[0].2) && decoded::<E::Response>(l.got[0].2) is None || replied(l, err, l.got[0].1, l.got[0].2) && decoded::<W>(l.got[0].2) is None),
        Ok(Err(HostErr::Closed)) => l.gone && l.got.len() == 0,
        Ok(Err(HostErr::BadResponse)) => l.dup && l.sent.len() == 0,
        Err(_) => l.got.len() == 0,
    }
}
spec fn fresh(l: CLog) -> bool { l.sent.len() == 0 && l.got.len() == 0 && l.seqs.len() == 0 && l.enq.len() == 0 && l.kk is None && l.wrote is None && !l.gone && !l.dup && !l.odd && l.rd.len() == 0 && l.wired.len() == 0 && l.cur is None && l.hist.len() == 0 && l.locked is None && l.open == Set::<int>::empty() && l.lag is None && l.cov == 0 && !l.txerr && !l.rxerr && l.spout.len() == 0 && l.spin.len() == 0 }
/// the sequence number of a reply is the request's, at the client's width
proof fn thm_c13_own_reply<W>(l: CLog, rq: FrameV, resp: Key, err: Key, sk: VarSeqKind, r: Result<Result<RpcFrame, HostErr<W>>, Cancelled>)
    requires raw_post(l, rq, resp, err, sk, r)
    ensures r matches Ok(Ok(f)) ==> sval(f.header.seq_no) == sval(l.sent[0].h.seq_no) && keq(l.got[0].0.key, f.header.key), r matches Ok(Err(HostErr::Wire(_))) ==> sval(l.got[0].1.seq_no) == sval(l.sent[0].h.seq_no)
{}
/// requests less than one wrap apart have different sequence numbers on the wire
proof fn thm_c13_distinct(a: u32, b: u32, sk: VarSeqKind, x: VarSeq, y: VarSeq)
    requires resized(VarSeq::Seq4(a), sk, x), resized(VarSeq::Seq4(b), sk, y), a < b, sk is Seq1 ==> b - a < 0x100, sk is Seq2 ==> b - a < 0x1_0000
    ensures sval(x) != sval(y)
{
    assert(a < b && b - a < 0x100 ==> a as u8 != b as u8) by (bit_vector);
    assert(a < b && b - a < 0x1_0000 ==> a as u16 != b as u16) by (bit_vector);
}

// ----- specification: subscriptions -----
spec fn fst<T>(l: Seq<(Key, T)>, k: VarKey, i: int) -> int decreases l.len() - i { if i >= l.len() { i } else if keq(VarKey::Key8(l[i].0), k) { i } else { fst(l, k, i + 1) } }
spec fn fstk<T>(l: Seq<(Key, T)>, k: Key, i: int) -> int decreases l.len() - i { if i >= l.len() { i } else if l[i].0 == k { i } else { fstk(l, k, i + 1) } }
/// the list without the entries for `k` from position i on
spec fn wo<T>(l: Seq<(Key, T)>, k: VarKey, i: int) -> Seq<(Key, T)> decreases l.len() - i { if i < 0 || i >= l.len() { l } else if keq(VarKey::Key8(l[i].0), k) { wo(l.remove(i), k, i) } else { wo(l, k, i + 1) } }
/// one received frame: each list's first subscriber for its key is offered it once; nobody else is; requests see it only if no subscriber does
spec fn routed(r: Round, a: SubsV, f: FrameV, to: Duration) -> bool {
    let h = f.h; let bi = fst(r.s.bc, h.key, 0); let ei = fst(r.s.ex, h.key, 0);
    &&& if bi < r.s.bc.len() { r.bc.len() == 1 && r.bc[0].0 == r.s.bc[bi].1.id() && r.bc[0].1 == f } else { r.bc.len() == 0 }
    &&& if ei < r.s.ex.len() { r.ex.len() >= 1 && (forall|i: int| 0 <= i < r.ex.len() ==> (#[trigger] r.ex[i]).0 == r.s.ex[ei].1.id() && r.ex[i].1 == f && (i < r.ex.len() - 1 ==> r.ex[i].2 is Full)) } else { r.ex.len() == 0 }
    &&& if bi < r.s.bc.len() || ei < r.s.ex.len() { r.wk.len() == 0 } else { r.wk.len() == 1 && r.wk[0] == f }
    &&& r.ex.len() > 0 && r.ex.last().2 is Full ==> to.zero() || r.sl.len() == 1 && r.sl[0] == to
    &&& a.stopped == r.s.stopped
    &&& a.bc =~= (if r.bc.len() > 0 && !r.bc[0].2 { wo(r.s.bc, h.key, 0) } else { r.s.bc })
    &&& a.ex =~= (if r.ex.len() > 0 && r.ex.last().2 is Closed { wo(r.s.ex, h.key, 0) } else { r.s.ex })
}
/// what was handed on
spec fn handed(r: Round) -> FrameV { if r.bc.len() > 0 { r.bc[0].1 } else if r.ex.len() > 0 { r.ex[0].1 } else { r.wk[0] } }
spec fn good(r: Round, a: SubsV, to: Duration) -> bool {
    if dec_ok(r.b) { let f = handed(r); r.b =~= enc(f.h) + f.b && routed(r, a, f, to) } else { r.bc.len() == 0 && r.ex.len() == 0 && r.wk.len() == 0 }
}
spec fn hist_ok(l: CLog, to: Duration) -> bool { forall|i: int| 0 <= i < l.hist.len() ==> good(#[trigger] l.hist[i], l.hist[i].a, to) }
spec fn cur_ok(l: CLog, a: SubsV, to: Duration) -> bool { l.cur is Some ==> good(l.cur->0, a, to) }
spec fn is_mine<T>(k: Key, l: Seq<(Key, T)>, i: int) -> bool { 0 <= i < l.len() && l[i].0 == k }
/// a shared subscription: joins the topic's channel, or opens one; nothing else changes
spec fn same(a: SubsV, b: SubsV) -> bool { a.ex =~= b.ex && a.bc =~= b.bc && a.stopped == b.stopped }
spec fn multi_post(l: CLog, a: SubsV, key: Key, id: Option<int>) -> bool {
    match id {
        Some(id) => l.locked is Some && { let s = l.locked->0; let i = fstk(s.bc, key, 0);
            !s.stopped && a.stopped == s.stopped && a.ex =~= s.ex && if i < s.bc.len() { a.bc =~= s.bc && s.bc[i].1.id() == id } else { a.bc.len() == s.bc.len() + 1 && a.bc.drop_last() =~= s.bc && a.bc.last().0 == key && a.bc.last().1.id() == id } },
        None => l.gone || l.locked is Some && l.locked->0.stopped && same(a, l.locked->0),
    }
}
/// a subscription with one receiver: takes over the topic's entry, or adds one; nothing else changes
spec fn took(s: SubsV, a: SubsV, key: Key, id: int) -> bool {
    let i = fstk(s.ex, key, 0);
    !s.stopped && a.stopped == s.stopped && a.bc =~= s.bc && if i < s.ex.len() { a.ex.len() == s.ex.len() && (forall|q: int| 0 <= q < s.ex.len() && q != i ==> #[trigger] a.ex[q] == s.ex[q]) && a.ex[i].0 == key && a.ex[i].1.id() == id } else { a.ex.len() == s.ex.len() + 1 && a.ex.drop_last() =~= s.ex && a.ex.last().0 == key && a.ex.last().1.id() == id }
}
spec fn single_post(l: CLog, a: SubsV, key: Key, id: Option<int>) -> bool {
    match id { Some(id) => l.locked is Some && took(l.locked->0, a, key, id), None => l.gone || l.locked is Some && l.locked->0.stopped && same(a, l.locked->0) }
}
spec fn excl_post(l: CLog, a: SubsV, key: Key, r: Result<int, SubscribeError>) -> bool {
    match r {
        Ok(id) => l.locked is Some && took(l.locked->0, a, key, id) && { let s = l.locked->0; let i = fstk(s.ex, key, 0); i < s.ex.len() ==> !l.open.contains(s.ex[i].1.id()) },
        Err(SubscribeError::IoClosed) => l.gone || l.locked is Some && l.locked->0.stopped && same(a, l.locked->0),
        Err(SubscribeError::AlreadySubscribed) => l.locked is Some && same(a, l.locked->0) && { let s = l.locked->0; let i = fstk(s.ex, key, 0); i < s.ex.len() && l.open.contains(s.ex[i].1.id()) },
    }
}
/// decoded messages: undecodable frames are skipped, the first decodable one is returned
spec fn next_msg<M>(old: CLog, l: CLog, m: Option<M>) -> bool {
    &&& old.rd.len() <= l.rd.len() && l.rd.take(old.rd.len() as int) =~= old.rd
    &&& match m {
        Some(v) => l.rd.len() > old.rd.len() && decoded::<M>(l.rd.last().b) == Some(v) && forall|i: int| old.rd.len() <= i < l.rd.len() - 1 ==> decoded::<M>((#[trigger] l.rd[i]).b) is None,
        None => forall|i: int| old.rd.len() <= i < l.rd.len() ==> decoded::<M>((#[trigger] l.rd[i]).b) is None,
    }
}
spec fn wires(s: Seq<FrameV>) -> Seq<Seq<u8>> { s.map_values(|f: FrameV| enc(f.h) + f.b) }

// ----- contracts on the code -----
//@ fn Stopper::wait_stopped ret r
    ensures r is Ok ==> *final(lg) == (CLog { gone: true, ..*old(lg) }), r is Err ==> *final(lg) == *old(lg)
//@ fn Stopper::is_stopped ret r
    ensures *final(lg) == (CLog { gone: old(lg).gone || r, ..*old(lg) }), old(lg).gone ==> r
//@ fn Stopper::stop
    ensures *final(lg) == (CLog { gone: true, ..*old(lg) })
//@ fn HostClient::close
    ensures *final(lg) == (CLog { gone: true, ..*old(lg) })
//@ fn HostClient::is_closed ret r
    ensures *final(lg) == (CLog { gone: old(lg).gone || r, ..*old(lg) }), old(lg).gone ==> r
//@ fn HostClient::wait_closed ret r
    ensures r is Ok ==> *final(lg) == (CLog { gone: true, ..*old(lg) }), r is Err ==> *final(lg) == *old(lg)
//@ fn RpcFrame::to_bytes ret r
    ensures r@ == enc(self.header) + self.body@
//@ fn HostClient::new_manual_priv ret r
    ensures r.0.ctx.kkind.init() is Key8, r.0.ctx.seq.init() == 0, r.0.seq_kind == config.seq_kind, r.1.incoming == r.0.ctx, r.0.out.id() == r.1.outgoing.id(), r.0.ctx.subscription_timeout == config.subscriber_timeout_if_full, r.0.err_key == path_key::<WireErr>(config.err_uri_path)
//@ text
spec fn wired_up<W>(c: HostClient<W>, l: CLog) -> bool {
    c.ctx.kkind.init() is Key8 && c.ctx.seq.init() == 0 && l.spout.len() == 1 && l.spin.len() == 1 && l.spout[0] == (c.out.id(), c.stopper) && l.spin[0] == (*c.ctx, c.subscriptions, c.stopper)
}
//@ fn HostClient::new_with_wire_and_config ret r
    requires fresh(*old(lg))
    ensures wired_up(r, *final(lg)), r.seq_kind == config.seq_kind, r.ctx.subscription_timeout == config.subscriber_timeout_if_full, r.err_key == path_key::<WireErr>(config.err_uri_path)
//@ text
pub closed spec fn same_client<W>(c: HostClient<W>, r: HostClient<W>) -> bool { r.ctx == c.ctx && r.out.id() == c.out.id() && r.err_key == c.err_key && r.subscriptions == c.subscriptions && r.stopper == c.stopper && r.seq_kind == c.seq_kind }
//@ fn HostClient::new_with_wire ret r
    requires fresh(*old(lg))
    ensures wired_up(r, *final(lg)), r.seq_kind == seq_kind, r.ctx.subscription_timeout.zero(), r.err_key == path_key::<WireErr>(err_uri_path)
//@ fn <HostClient as Clone>::clone ret r
    ensures same_client(*self, r)
//@ fn HostClient::send_resp ret r
    requires fresh(*old(lg))
    ensures resp_post::<WireErr, E>(*final(lg), *t, self.err_key, self.seq_kind, r)
//@ fn HostClient::send_resp_raw ret r
    requires old(lg).sent.len() == 0, old(lg).got.len() == 0, old(lg).enq.len() == 0, old(lg).kk is None, old(lg).wrote is None, !old(lg).gone, !old(lg).dup, old(lg).cov == 0, old(lg).cur is None
    ensures raw_post::<WireErr>(*final(lg), fv(rqst), resp_key, self.err_key, self.seq_kind, r), final(lg).seqs == old(lg).seqs
//@ fn HostClient::publish ret r
    requires fresh(*old(lg))
    ensures pub_post(*final(lg), FrameV { h: VarHeader { key: VarKey::Key8(T::topic_key()), seq_no }, b: encoded(*msg) }, r)
//@ fn HostClient::publish_raw ret r
    requires fresh(*old(lg))
    ensures pub_post(*final(lg), fv(frame), r)
//@ text
spec fn pub_post(l: CLog, f: FrameV, r: Result<Result<(), IoClosed>, Cancelled>) -> bool {
    &&& l.sent.len() <= 1 && l.got.len() == 0
    &&& l.sent.len() == 1 ==> l.kk is Some && shrunk(f.h.key, l.kk->0, l.sent[0].h.key) && l.sent[0].h.seq_no == f.h.seq_no && l.sent[0].b == f.b
    &&& match r { Ok(Ok(_)) => l.sent.len() == 1, Ok(Err(_)) => l.gone && l.sent.len() == 0, Err(_) => l.sent.len() == 0 }
}
//@ fn HostContext::process_did_wake ret r
    ensures *final(lg) == (CLog { cur: woke(old(lg).cur, fv(frame)), gone: old(lg).gone || r is Err, ..*old(lg) })
//@ fn HostContext::process ret r
    ensures *final(lg) == (CLog { cur: woke(old(lg).cur, fv(frame)), gone: old(lg).gone || r is Err, ..*old(lg) })
//@ fn out_worker ret r
    requires fresh(*old(lg))
    ensures final(lg).wired =~= wires(final(lg).rd), r is Ok ==> final(lg).gone
//@ fn out_worker_inner ret r
    requires old(lg).cov > 0, !old(lg).txerr, old(lg).wired =~= wires(old(lg).rd)
    ensures final(lg).wired =~= wires(final(lg).rd), r is Ok ==> final(lg).txerr || final(lg).gone
//@ attr
    #[verifier::exec_allows_no_decreases_clause]
//@ loop 0
    invariant lg.cov > 0, !lg.txerr, lg.wired =~= wires(lg.rd)
//@ hint loop 0 start
    let ghost rd0 = lg.rd; let ghost w0 = lg.wired;
    proof { assert forall|f: FrameV| #[trigger] wires(rd0.push(f)) =~= wires(rd0).push(enc(f.h) + f.b) by {} }
//@ fn in_worker ret r
    requires fresh(*old(lg))
    ensures hist_ok(*final(lg), host_ctx.subscription_timeout), r is Ok ==> final(lg).gone && final(subs).stopped && final(subs).exclusive_list@.len() == 0 && final(subs).broadcast_list@.len() == 0
//@ fn in_worker_inner ret r
    requires old(lg).cov > 0, fresh(CLog { cov: 0, ..*old(lg) })
    ensures hist_ok(*final(lg), host_ctx.subscription_timeout), r is Ok ==> cur_ok(*final(lg), sv(*final(subs)), host_ctx.subscription_timeout) && (final(lg).rxerr || final(lg).gone)
//@ attr
    #[verifier::exec_allows_no_decreases_clause]
//@ loop 0
    invariant lg.cov > 0, !lg.rxerr, hist_ok(*lg, host_ctx.subscription_timeout), cur_ok(*lg, sv(*subs), host_ctx.subscription_timeout)
//@ loop 1
    invariant __f0 <= subs_guard.broadcast_list@.len(), fst(subs_guard.broadcast_list@, key, 0) == fst(subs_guard.broadcast_list@, key, __f0 as int)
    ensures __f0 == fst(subs_guard.broadcast_list@, key, 0), __f0 < subs_guard.broadcast_list@.len() ==> keq(VarKey::Key8(subs_guard.broadcast_list@[__f0 as int].0), key)
    decreases subs_guard.broadcast_list@.len() - __f0
//@ loop 2
    invariant __f1 <= subs_guard.exclusive_list@.len(), fst(subs_guard.exclusive_list@, key, 0) == fst(subs_guard.exclusive_list@, key, __f1 as int)
    ensures __f1 == fst(subs_guard.exclusive_list@, key, 0), __f1 < subs_guard.exclusive_list@.len() ==> keq(VarKey::Key8(subs_guard.exclusive_list@[__f1 as int].0), key)
    decreases subs_guard.exclusive_list@.len() - __f1
//@ hint loop 3 before
    let ghost ex0 = subs_guard.exclusive_list@; let ghost bc0 = subs_guard.broadcast_list@; let ghost st0 = subs_guard.stopped;
//@ loop 3
    invariant __r2 <= subs_guard.exclusive_list@.len(), wo(subs_guard.exclusive_list@, key, __r2 as int) == wo(ex0, key, 0), subs_guard.broadcast_list@ == bc0, subs_guard.stopped == st0
    decreases subs_guard.exclusive_list@.len() - __r2
//@ hint loop 4 before
    let ghost ex0 = subs_guard.exclusive_list@; let ghost bc0 = subs_guard.broadcast_list@; let ghost st0 = subs_guard.stopped;
//@ loop 4
    invariant __r3 <= subs_guard.broadcast_list@.len(), wo(subs_guard.broadcast_list@, key, __r3 as int) == wo(bc0, key, 0), subs_guard.exclusive_list@ == ex0, subs_guard.stopped == st0
    decreases subs_guard.broadcast_list@.len() - __r3
//@ fn Subscription::recv ret r
    ensures next_msg::<M>(*old(lg), *final(lg), match r { Ok(Some(m)) => Some(m), _ => None }), r matches Ok(None) ==> final(lg).gone
//@ attr
    #[verifier::exec_allows_no_decreases_clause]
//@ loop 0
    invariant next_msg::<M>(*old(lg), *lg, None)
//@ fn MultiSubscription::recv ret r
    ensures next_msg::<M>(*old(lg), *final(lg), match r { Ok(Ok(m)) => Some(m), _ => None }), r matches Ok(Err(MultiSubRxError::IoClosed)) ==> final(lg).gone, r matches Ok(Err(MultiSubRxError::Lagged(n))) ==> final(lg).lag == Some(n), !(r matches Ok(Err(MultiSubRxError::Lagged(_)))) ==> final(lg).lag == old(lg).lag
//@ attr
    #[verifier::exec_allows_no_decreases_clause]
//@ loop 0
    invariant next_msg::<M>(*old(lg), *lg, None), lg.lag == old(lg).lag
//@ fn RawSubscription::recv ret r
    ensures r matches Ok(Some(f)) ==> final(lg).rd == old(lg).rd.push(fv(f)), !(r matches Ok(Some(_))) ==> final(lg).rd == old(lg).rd, r matches Ok(None) ==> final(lg).gone
//@ fn RawMultiSubscription::recv ret r
    ensures r matches Ok(Ok(f)) ==> final(lg).rd == old(lg).rd.push(fv(f)), !(r matches Ok(Ok(_))) ==> final(lg).rd == old(lg).rd, r matches Ok(Err(MultiSubRxError::IoClosed)) ==> final(lg).gone, r matches Ok(Err(MultiSubRxError::Lagged(n))) ==> final(lg).lag == Some(n), !(r matches Ok(Err(MultiSubRxError::Lagged(_)))) ==> final(lg).lag == old(lg).lag
//@ fn HostClient::subscribe_multi ret r
    requires fresh(*old(lg))
    ensures r matches Ok(x) ==> multi_post(*final(lg), sv(*final(subs)), T::topic_key(), match x { Ok(m) => Some(m.rx.id()), Err(_) => None }), r is Err && final(lg).locked is None ==> final(lg).gone == old(lg).gone, r matches Ok(Ok(m)) ==> final(lg).locked is Some && (fstk(final(lg).locked->0.bc, T::topic_key(), 0) < final(lg).locked->0.bc.len() || m.rx.asked() == depth)
//@ fn HostClient::subscribe_multi_inner ret r
    requires fresh(CLog { cov: 0, ..*old(lg) })
    ensures r is Err ==> *final(lg) == *old(lg), r matches Ok(x) ==> multi_post(*final(lg), sv(*final(subs)), T::topic_key(), match x { Ok(m) => Some(m.rx.id()), Err(_) => None }), r is Err && final(lg).locked is None ==> final(lg).gone == old(lg).gone, r matches Ok(Ok(m)) ==> final(lg).locked is Some && (fstk(final(lg).locked->0.bc, T::topic_key(), 0) < final(lg).locked->0.bc.len() || m.rx.asked() == depth)
//@ loop 0
    invariant __f0 <= guard.broadcast_list@.len(), fstk(guard.broadcast_list@, T::topic_key(), 0) == fstk(guard.broadcast_list@, T::topic_key(), __f0 as int)
    ensures __f0 == fstk(guard.broadcast_list@, T::topic_key(), 0), __f0 < guard.broadcast_list@.len() ==> guard.broadcast_list@[__f0 as int].0 == T::topic_key()
    decreases guard.broadcast_list@.len() - __f0
//@ fn HostClient::subscribe_multi_raw ret r
    requires fresh(*old(lg))
    ensures r matches Ok(x) ==> multi_post(*final(lg), sv(*final(subs)), key, match x { Ok(m) => Some(m.rx.id()), Err(_) => None }), r is Err && final(lg).locked is None ==> final(lg).gone == old(lg).gone, r matches Ok(Ok(m)) ==> final(lg).locked is Some && (fstk(final(lg).locked->0.bc, key, 0) < final(lg).locked->0.bc.len() || m.rx.asked() == depth)
//@ fn HostClient::subscribe_multi_inner_raw ret r
    requires fresh(CLog { cov: 0, ..*old(lg) })
    ensures r is Err ==> *final(lg) == *old(lg), r matches Ok(x) ==> multi_post(*final(lg), sv(*final(subs)), key, match x { Ok(m) => Some(m.rx.id()), Err(_) => None }), r is Err && final(lg).locked is None ==> final(lg).gone == old(lg).gone, r matches Ok(Ok(m)) ==> final(lg).locked is Some && (fstk(final(lg).locked->0.bc, key, 0) < final(lg).locked->0.bc.len() || m.rx.asked() == depth)
//@ loop 0
    invariant __f0 <= guard.broadcast_list@.len(), fstk(guard.broadcast_list@, key, 0) == fstk(guard.broadcast_list@, key, __f0 as int)
    ensures __f0 == fstk(guard.broadcast_list@, key, 0), __f0 < guard.broadcast_list@.len() ==> guard.broadcast_list@[__f0 as int].0 == key
    decreases guard.broadcast_list@.len() - __f0
//@ fn HostClient::subscribe ret r
    requires fresh(*old(lg))
    ensures r matches Ok(x) ==> single_post(*final(lg), sv(*final(subs)), T::topic_key(), match x { Ok(m) => Some(m.rx.id()), Err(_) => None }), r is Err && final(lg).locked is None ==> final(lg).gone == old(lg).gone, r matches Ok(Ok(m)) ==> m.rx.asked() == depth
//@ fn HostClient::subscribe_inner ret r
    requires fresh(CLog { cov: 0, ..*old(lg) })
    ensures r is Err ==> *final(lg) == *old(lg), r matches Ok(x) ==> single_post(*final(lg), sv(*final(subs)), T::topic_key(), match x { Ok(m) => Some(m.rx.id()), Err(_) => None }), r is Err && final(lg).locked is None ==> final(lg).gone == old(lg).gone, r matches Ok(Ok(m)) ==> m.rx.asked() == depth
//@ loop 0
    invariant __f0 <= guard.exclusive_list@.len(), fstk(guard.exclusive_list@, T::topic_key(), 0) == fstk(guard.exclusive_list@, T::topic_key(), __f0 as int)
    ensures __f0 == fstk(guard.exclusive_list@, T::topic_key(), 0), __f0 < guard.exclusive_list@.len() ==> guard.exclusive_list@[__f0 as int].0 == T::topic_key()
    decreases guard.exclusive_list@.len() - __f0
//@ fn HostClient::subscribe_raw ret r
    requires fresh(*old(lg))
    ensures r matches Ok(x) ==> single_post(*final(lg), sv(*final(subs)), key, match x { Ok(m) => Some(m.rx.id()), Err(_) => None }), r is Err && final(lg).locked is None ==> final(lg).gone == old(lg).gone, r matches Ok(Ok(m)) ==> m.rx.asked() == depth
//@ fn HostClient::subscribe_inner_raw ret r
    requires fresh(CLog { cov: 0, ..*old(lg) })
    ensures r is Err ==> *final(lg) == *old(lg), r matches Ok(x) ==> single_post(*final(lg), sv(*final(subs)), key, match x { Ok(m) => Some(m.rx.id()), Err(_) => None }), r is Err && final(lg).locked is None ==> final(lg).gone == old(lg).gone, r matches Ok(Ok(m)) ==> m.rx.asked() == depth
//@ loop 0
    invariant __f0 <= guard.exclusive_list@.len(), fstk(guard.exclusive_list@, key, 0) == fstk(guard.exclusive_list@, key, __f0 as int)
    ensures __f0 == fstk(guard.exclusive_list@, key, 0), __f0 < guard.exclusive_list@.len() ==> guard.exclusive_list@[__f0 as int].0 == key
    decreases guard.exclusive_list@.len() - __f0
//@ fn HostClient::subscribe_exclusive ret r
    requires fresh(*old(lg))
    ensures r matches Ok(x) ==> excl_post(*final(lg), sv(*final(subs)), T::topic_key(), match x { Ok(m) => Ok(m.rx.id()), Err(e) => Err(e) }), r is Err && final(lg).locked is None ==> final(lg).gone == old(lg).gone, r matches Ok(Ok(m)) ==> m.rx.asked() == depth
//@ fn HostClient::subscribe_inner_exclusive ret r
    requires fresh(CLog { cov: 0, ..*old(lg) })
    ensures r is Err ==> *final(lg) == *old(lg), r matches Ok(x) ==> excl_post(*final(lg), sv(*final(subs)), T::topic_key(), match x { Ok(m) => Ok(m.rx.id()), Err(e) => Err(e) }), r is Err && final(lg).locked is None ==> final(lg).gone == old(lg).gone, r matches Ok(Ok(m)) ==> m.rx.asked() == depth
//@ loop 0
    invariant __f0 <= guard.exclusive_list@.len(), fstk(guard.exclusive_list@, T::topic_key(), 0) == fstk(guard.exclusive_list@, T::topic_key(), __f0 as int)
    ensures __f0 == fstk(guard.exclusive_list@, T::topic_key(), 0), __f0 < guard.exclusive_list@.len() ==> guard.exclusive_list@[__f0 as int].0 == T::topic_key()
    decreases guard.exclusive_list@.len() - __f0
//@ fn HostClient::subscribe_exclusive_raw ret r
    requires fresh(*old(lg))
    ensures r matches Ok(x) ==> excl_post(*final(lg), sv(*final(subs)), key, match x { Ok(m) => Ok(m.rx.id()), Err(e) => Err(e) }), r is Err && final(lg).locked is None ==> final(lg).gone == old(lg).gone, r matches Ok(Ok(m)) ==> m.rx.asked() == depth
//@ fn HostClient::subscribe_inner_exclusive_raw ret r
    requires fresh(CLog { cov: 0, ..*old(lg) })
    ensures r is Err ==> *final(lg) == *old(lg), r matches Ok(x) ==> excl_post(*final(lg), sv(*final(subs)), key, match x { Ok(m) => Ok(m.rx.id()), Err(e) => Err(e) }), r is Err && final(lg).locked is None ==> final(lg).gone == old(lg).gone, r matches Ok(Ok(m)) ==> m.rx.asked() == depth
//@ loop 0
    invariant __f0 <= guard.exclusive_list@.len(), fstk(guard.exclusive_list@, key, 0) == fstk(guard.exclusive_list@, key, __f0 as int)
    ensures __f0 == fstk(guard.exclusive_list@, key, 0), __f0 < guard.exclusive_list@.len() ==> guard.exclusive_list@[__f0 as int].0 == key
    decreases guard.exclusive_list@.len() - __f0
