// =====================================================================
// Channel unit: the in-process transport (server and client halves)
// =====================================================================
use std::sync::Arc;
use core::fmt::Arguments;
use vstd::string::*;
struct Cancelled;
trait Schema {}
trait Serialize {}
impl Schema for String {}
impl Serialize for String {}

// ----- what a task did, as seen by its environment -----
tracked struct ChLog {
    /// items put on and taken from channels: (channel, bytes)
    ghost sent: Seq<(int, Seq<u8>)>, ghost rd: Seq<(int, Seq<u8>)>,
    /// channels whose other end was seen gone; stop signals seen given
    ghost gone: Seq<int>, ghost stops: Seq<int>,
    /// counter values drawn: (counter, value, increment)
    ghost ctrs: Seq<(int, u32, u32)>,
    /// the stop signal the task watches at this point, and the one it watched at its last channel operation
    ghost watch: Option<int>, ghost under: Option<int>,
    /// clients made: channels, width, error path
    ghost made: Seq<(int, int, VarSeqKind, Seq<char>)>,
}
// ----- dependencies (stand-ins; only their names and the listed contracts are used) -----
fn vx_pick() -> (r: u8) { vx_any() }
#[verifier::external_body] fn vx_any() -> (r: u8) { unimplemented!() }
/// a future dropped before it completed
#[verifier::external_body] fn vx_drop<T>(r: Result<T, Cancelled>) ensures r is Err { unimplemented!() }
#[verifier::external_body] fn vx_race(Tracked(lg): Tracked<&mut ChLog>) ensures *final(lg) == *old(lg) { unimplemented!() }
#[verifier::external_body] fn vx_raced(Tracked(lg): Tracked<&mut ChLog>) ensures *final(lg) == (ChLog { watch: None, ..*old(lg) }) { unimplemented!() }
/// never completes
#[verifier::external_body] fn pending<T>() -> (r: Result<T, Cancelled>) ensures r is Err { unimplemented!() }
struct QClosed;
struct WaitQueue { x: u8 }
impl WaitQueue {
    uninterp spec fn id(&self) -> int;
    #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn wait(&self, Tracked(lg): Tracked<&mut ChLog>) -> (r: Result<Result<(), QClosed>, Cancelled>)
        ensures r is Ok ==> *final(lg) == (ChLog { stops: old(lg).stops.push(self.id()), ..*old(lg) }), r is Err ==> *final(lg) == (ChLog { watch: Some(self.id()), ..*old(lg) }) { unimplemented!() }
    #[verifier::external_body] fn close(&self) { unimplemented!() }
    #[verifier::external_body] fn is_closed(&self) -> (r: bool) { unimplemented!() }
}
impl Clone for Stopper { fn clone(&self) -> (r: Self) ensures r == *self { Stopper { inner: self.inner.clone() } } }
struct SendErr<T>(T);
struct MpscSender<T> { t: T }
struct MpscReceiver<T> { t: T }
impl<T> MpscSender<T> { uninterp spec fn id(&self) -> int; }
impl<T> MpscReceiver<T> { uninterp spec fn id(&self) -> int; }
impl MpscSender<Vec<u8>> {
    /// waits for room; refused only when the receiver is gone; nothing is sent when dropped before
    #[verifier::external_body] fn send(&self, v: Vec<u8>, Tracked(lg): Tracked<&mut ChLog>) -> (r: Result<Result<(), SendErr<Vec<u8>>>, Cancelled>)
        ensures r is Err ==> *final(lg) == *old(lg),
            r matches Ok(Ok(_)) ==> *final(lg) == (ChLog { sent: old(lg).sent.push((self.id(), v@)), under: old(lg).watch, ..*old(lg) }),
            r matches Ok(Err(_)) ==> *final(lg) == (ChLog { gone: old(lg).gone.push(self.id()), under: old(lg).watch, ..*old(lg) }) { unimplemented!() }
}
impl MpscReceiver<Vec<u8>> {
    #[verifier::external_body] fn recv(&mut self, Tracked(lg): Tracked<&mut ChLog>) -> (r: Result<Option<Vec<u8>>, Cancelled>)
        ensures final(self).id() == old(self).id(), r is Err ==> *final(lg) == *old(lg),
            r matches Ok(Some(v)) ==> *final(lg) == (ChLog { rd: old(lg).rd.push((old(self).id(), v@)), under: old(lg).watch, ..*old(lg) }),
            r matches Ok(None) ==> *final(lg) == (ChLog { gone: old(lg).gone.push(old(self).id()), under: old(lg).watch, ..*old(lg) }) { unimplemented!() }
}
enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
struct AtomicU32 { v: u32 }
impl AtomicU32 {
    uninterp spec fn init(&self) -> u32;
    uninterp spec fn id(&self) -> int;
    #[verifier::external_body] fn new(k: u32) -> (r: Self) ensures r.init() == k { unimplemented!() }
    #[verifier::external_body] fn load(&self, o: Ordering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn store(&self, k: u32, o: Ordering) { unimplemented!() }
    #[verifier::external_body] fn fetch_add(&self, k: u32, o: Ordering, Tracked(lg): Tracked<&mut ChLog>) -> (r: u32) ensures *final(lg) == (ChLog { ctrs: old(lg).ctrs.push((self.id(), r, k)), ..*old(lg) }) { unimplemented!() }
}
/// postcard, Display and the standard library's owned text: functions of the value
uninterp spec fn ser<T: ?Sized>(t: &T) -> Seq<u8>;
/// the encoding of a text
uninterp spec fn text(t: Seq<char>) -> Seq<u8>;
#[verifier::external_body] fn vx_encode<T: ?Sized>(t: &T) -> (r: Vec<u8>) ensures r@ == ser(t) { unimplemented!() }
#[verifier::external_body] broadcast proof fn ax_text(s: String) ensures #[trigger] ser::<String>(&s) == text(s@) {}
uninterp spec fn shown(a: Arguments) -> Seq<char>;
#[verifier::external_body] fn vx_format(a: Arguments) -> (r: String) ensures r@ == shown(a) { unimplemented!() }
#[verifier::external_body] fn vx_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] fn vx_to_vec(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { b.to_vec() }
struct LoggingTopic;
uninterp spec fn log_key() -> Key;
impl Topic for LoggingTopic { type Message = String; const PATH: &'static str = ""; spec fn topic_key() -> Key { log_key() } #[verifier::external_body] fn TOPIC_KEY() -> (r: Key) { unimplemented!() } }
trait VxMapErr<T, F> { fn vx_map_err(self, f: F) -> Result<T, F>; }
impl<T, E, F> VxMapErr<T, F> for Result<T, SendErr<E>> { fn vx_map_err(self, f: F) -> (r: Result<T, F>) ensures self matches Ok(v) ==> r == Ok::<T, F>(v), self is Err ==> r == Err::<T, F>(f) { match self { Ok(v) => Ok(v), Err(_) => Err(f) } } }
/// slice.get_mut(..n)
#[verifier::external_body] fn vx_get_mut<'a>(b: &'a mut [u8], n: usize) -> (r: Option<&'a mut [u8]>)
    ensures r is Some <==> n <= old(b)@.len(), r is None ==> final(b)@ == old(b)@,
        r matches Some(o) ==> o@ == old(b)@.take(n as int) && final(o)@.len() == n && final(b)@ == final(o)@ + old(b)@.skip(n as int) { b.get_mut(..n) }
/// marker stand-ins: this unit calls the transport's methods directly
trait WireTx {} trait WireRx {} trait VxBuf {} trait Dispatch { type Tx; }
impl WireTx for ChannelWireTx {} impl WireRx for ChannelWireRx {} impl VxBuf for Vec<u8> {}
#[verifier::external_body] fn vx_zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { vec![0; n] }
struct WireError;
struct HostClient<E> { e: E }
#[verifier::external_body] fn vx_error_path() -> (r: &'static str) ensures r@ == error_path() { unimplemented!() }
uninterp spec fn error_path() -> Seq<char>;
impl HostClient<WireError> {
    #[verifier::external_body] fn new_with_wire(tx: ChannelTx, rx: ChannelRx, sp: TokSpawn, k: VarSeqKind, p: &str, n: usize, Tracked(lg): Tracked<&mut ChLog>) -> (r: Self)
        requires n > 0 ensures *final(lg) == (ChLog { made: old(lg).made.push((tx.tx.id(), rx.rx.id(), k, p@)), ..*old(lg) }) { unimplemented!() }
}
// ----- specification -----
spec fn sid(s: Option<Stopper>) -> Option<int> { match s { Some(s) => Some(s.inner.id()), None => None } }
/// everything else in the log is as before
spec fn ch_same(a: ChLog, b: ChLog) -> bool { b.made == a.made }
/// nothing was put on or taken from a channel
spec fn idle(a: ChLog, b: ChLog) -> bool { b.sent == a.sent && b.rd == a.rd && b.gone == a.gone && b.stops == a.stops && ch_same(a, b) }
/// the other end of channel `id` is gone, or the stop signal was given
spec fn closed(a: ChLog, b: ChLog, id: int, s: Option<int>) -> bool {
    ch_same(a, b) && b.sent == a.sent && b.rd == a.rd && ((b.gone =~= a.gone.push(id) && b.stops == a.stops) || (s is Some && b.stops =~= a.stops.push(s->Some_0) && b.gone == a.gone))
}
/// one item was put on channel `id`, and nothing else; or none, and the result says so
spec fn put(a: ChLog, b: ChLog, id: int, m: Seq<u8>, s: Option<int>, r: Result<Result<(), ChannelWireTxError>, Cancelled>) -> bool {
    match r {
        Ok(Ok(_)) => b.sent.len() == a.sent.len() + 1 && b.sent.take(a.sent.len() as int) =~= a.sent && b.sent.last().0 == id && b.sent.last().1 =~= m && b.rd == a.rd && b.gone == a.gone && b.stops == a.stops && ch_same(a, b) && (s is Some ==> b.under == s),
        Ok(Err(_)) => closed(a, b, id, s),
        Err(_) => idle(a, b),
    }
}
spec fn log_disc(kk: VarKeyKind) -> u8 { match kk { VarKeyKind::Key1 => 0x20, VarKeyKind::Key2 => 0x60, VarKeyKind::Key4 => 0xa0, VarKeyKind::Key8 => 0xe0 } }
spec fn log_frame(kk: VarKeyKind, ctr: u32, body: Seq<u8>) -> Seq<u8> { seq![log_disc(kk)] + (if kk is Key8 { log_key().0@ } else { compact(log_key().0@, kwidth(kk)) }) + le4(ctr) + body }
proof fn log_discs() ensures 0x00u8 | 0x20u8 == 0x20u8, 0x40u8 | 0x20u8 == 0x60u8, 0x80u8 | 0x20u8 == 0xa0u8, 0xc0u8 | 0x20u8 == 0xe0u8
{ assert(0x00u8 | 0x20u8 == 0x20u8) by (bit_vector); assert(0x40u8 | 0x20u8 == 0x60u8) by (bit_vector); assert(0x80u8 | 0x20u8 == 0xa0u8) by (bit_vector); assert(0xc0u8 | 0x20u8 == 0xe0u8) by (bit_vector); }

//@ fn Stopper::wait_stopped ret r
    ensures r is Ok ==> *final(lg) == (ChLog { stops: old(lg).stops.push(self.inner.id()), ..*old(lg) }), r is Err ==> *final(lg) == (ChLog { watch: Some(self.inner.id()), ..*old(lg) })
//@ fn Stopper::is_stopped ret r
//@ fn Stopper::stop
//@ fn Stopper::new ret r
//@ fn ChannelWireTx::new ret r
    ensures r.tx == tx, r.stopper is None, r.log_ctr.init() == 0
//@ fn ChannelWireTx::set_stopper
    ensures final(self).stopper == Some(stopper), final(self).tx == old(self).tx, final(self).log_ctr == old(self).log_ctr
//@ fn ChannelWireTx::inner_send ret r
    requires old(lg).watch is None
    ensures r is Ok ==> final(lg).watch is None, final(lg).ctrs == old(lg).ctrs, put(*old(lg), *final(lg), self.tx.id(), msg@, sid(self.stopper), r)
//@ fn <ChannelWireTx as WireTx>::send ret r
    requires old(lg).watch is None
    ensures r is Ok ==> final(lg).watch is None, final(lg).ctrs == old(lg).ctrs, put(*old(lg), *final(lg), self.tx.id(), enc(hdr) + ser(msg), sid(self.stopper), r)
//@ fn <ChannelWireTx as WireTx>::send_raw ret r
    requires old(lg).watch is None
    ensures r is Ok ==> final(lg).watch is None, final(lg).ctrs == old(lg).ctrs, put(*old(lg), *final(lg), self.tx.id(), buf@, sid(self.stopper), r)
//@ fn <ChannelWireTx as WireTx>::send_log_str ret r
    requires old(lg).watch is None
    ensures r is Ok ==> final(lg).watch is None, drew(old(lg).ctrs, final(lg).ctrs, self.log_ctr.id()),
        put(*old(lg), *final(lg), self.tx.id(), log_frame(kkind, final(lg).ctrs.last().1, text(s@)), sid(self.stopper), r)
//@ hint start
    proof { log_discs(); broadcast use ax_text; }
//@ fn <ChannelWireTx as WireTx>::send_log_fmt ret r
    requires old(lg).watch is None
    ensures r is Ok ==> final(lg).watch is None, drew(old(lg).ctrs, final(lg).ctrs, self.log_ctr.id()),
        put(*old(lg), *final(lg), self.tx.id(), log_frame(kkind, final(lg).ctrs.last().1, text(shown(a))), sid(self.stopper), r)
//@ hint start
    proof { log_discs(); broadcast use ax_text; }
//@ fn <ChannelWireTxError as AsWireTxErrorKind>::as_kind ret r
    ensures r is ConnectionClosed
//@ fn ChannelWireRx::new ret r
    ensures r.rx == rx, r.stopper is None
//@ fn ChannelWireRx::set_stopper
    ensures final(self).stopper == Some(stopper), final(self).rx == old(self).rx
//@ fn <ChannelWireRx as WireRx>::receive ret r
    requires old(lg).watch is None
    ensures r is Ok ==> final(lg).watch is None, final(lg).ctrs == old(lg).ctrs, final(self).stopper == old(self).stopper, final(self).rx.id() == old(self).rx.id(),
        match r {
            Ok(Ok(o)) => took(*old(lg), *final(lg), old(self).rx.id(), sid(old(self).stopper)) && o@ == final(lg).rd.last().1 && o@.len() <= old(buf)@.len(),
            Ok(Err(ChannelWireRxError::MessageTooLarge)) => took(*old(lg), *final(lg), old(self).rx.id(), sid(old(self).stopper)) && final(lg).rd.last().1.len() > old(buf)@.len(),
            Ok(Err(ChannelWireRxError::ChannelClosed)) => closed(*old(lg), *final(lg), old(self).rx.id(), sid(old(self).stopper)),
            Err(_) => idle(*old(lg), *final(lg)),
        }
//@ fn <ChannelWireRxError as AsWireRxErrorKind>::as_kind ret r
    ensures self is ChannelClosed ==> r is ConnectionClosed, self is MessageTooLarge ==> r is ReceivedMessageTooLarge
//@ fn <ChannelRx as WireRx>::receive ret r
    requires old(lg).watch is None
    ensures r is Ok ==> final(lg).watch is None, final(lg).ctrs == old(lg).ctrs, final(self).rx.id() == old(self).rx.id(),
        match r {
            Ok(Ok(v)) => took(*old(lg), *final(lg), old(self).rx.id(), None) && v@ == final(lg).rd.last().1,
            Ok(Err(_)) => closed(*old(lg), *final(lg), old(self).rx.id(), None),
            Err(_) => idle(*old(lg), *final(lg)),
        }
//@ fn <ChannelTx as WireTx>::send ret r
    requires old(lg).watch is None
    ensures r is Ok ==> final(lg).watch is None, final(lg).ctrs == old(lg).ctrs, final(self).tx.id() == old(self).tx.id(),
        match r {
            Ok(Ok(_)) => final(lg).sent =~= old(lg).sent.push((old(self).tx.id(), data@)) && final(lg).rd == old(lg).rd && final(lg).gone == old(lg).gone && final(lg).stops == old(lg).stops,
            Ok(Err(_)) => closed(*old(lg), *final(lg), old(self).tx.id(), None),
            Err(_) => idle(*old(lg), *final(lg)),
        }
//@ fn new_from_channels
    ensures idle(*old(lg), ChLog { made: old(lg).made, ..*final(lg) }), final(lg).made =~= old(lg).made.push((tx.id(), rx.id(), seq_kind, error_path()))
//@ fn new_server ret r
    ensures r.tx.tx == settings.tx, r.rx == settings.rx, r.tx.kkind == settings.kkind, r.buf@.len() == settings.buf, r.dis == dispatch
//@ fn new_server_stoppable ret r
    ensures r.0.tx.tx.tx == settings.tx.tx, r.0.tx.tx.log_ctr == settings.tx.log_ctr, r.0.rx.rx == settings.rx.rx, r.0.tx.kkind == settings.kkind, r.0.buf@.len() == settings.buf, r.0.dis == dispatch,
        r.0.tx.tx.stopper == Some(r.1), r.0.rx.stopper == Some(r.1)
//@ fn Server::new ret r
    ensures r.tx.kkind == kkind, r.tx.tx == tx, r.rx == rx, r.buf == buf, r.dis == dis
//@ text
spec fn drew(a: Seq<(int, u32, u32)>, b: Seq<(int, u32, u32)>, id: int) -> bool { b.len() == a.len() + 1 && b.take(a.len() as int) =~= a && b.last().0 == id && b.last().2 == 1 }
/// exactly one item was taken from channel `id`
spec fn took(a: ChLog, b: ChLog, id: int, s: Option<int>) -> bool {
    &&& b.rd.len() == a.rd.len() + 1 && b.rd.take(a.rd.len() as int) =~= a.rd && b.rd.last().0 == id
    &&& b.sent == a.sent && b.gone == a.gone && b.stops == a.stops && ch_same(a, b) && (s is Some ==> b.under == s)
}
