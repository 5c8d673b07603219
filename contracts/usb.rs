// =====================================================================
// USB unit: contracts for server/impls/embassy_usb_v0_{3,4}.rs
// =====================================================================

// ----- cancellation: an async function may stop for good at any await (timeout, dropped future) -----
struct Cancelled;

// ----- dependencies (stand-ins; only their names and the listed contracts are used) -----
trait Serialize {}
trait Schema {}
trait RawMutex {}
struct Mutex<M, T> { m: M, t: T }
struct Timer;
impl Timer { #[verifier::external_body] fn after_millis(ms: u64) -> Timer { unimplemented!() } }
enum Either<A, B> { First(A), Second(B) }
/// embassy_futures::select of a future (already run up to completion or to the await it stops at) against the timer:
/// a completed future wins; one that stops is overtaken by the timer, unless the caller is dropped too
#[verifier::external_body]
fn vx_select<R>(fut: Result<R, Cancelled>, t: Timer) -> (r: Result<Either<R, ()>, Cancelled>)
    ensures fut matches Ok(v) ==> r == Ok::<Either<R, ()>, Cancelled>(Either::First(v)),
            fut is Err ==> (r is Err || r == Ok::<Either<R, ()>, Cancelled>(Either::Second(())))
{ unimplemented!() }
enum EndpointError { BufferOverflow, Disabled }
trait VxMapErr<T, F> { fn vx_map_err(self, f: F) -> Result<T, F>; }
struct PostcardError;
impl<T, F> VxMapErr<T, F> for Result<T, PostcardError> {
    fn vx_map_err(self, f: F) -> (r: Result<T, F>) ensures self matches Ok(v) ==> r == Ok::<T, F>(v), self is Err ==> r == Err::<T, F>(f)
    { match self { Ok(v) => Ok(v), Err(_) => Err(f) } }
}

// ----- ghost: packets handed to the IN endpoint -----
ghost enum Out { Sent, Failed, Stuck }
/// `seen`: whether the packet reaches the receiver (certain when the write succeeded, unknown otherwise)
ghost struct Pk { data: Seq<u8>, out: Out, seen: bool }
spec fn grown(a: Seq<Pk>, b: Seq<Pk>, data: Seq<u8>, o: Out) -> bool {
    b.len() == a.len() + 1 && b.drop_last() == a && b.last().data == data && b.last().out == o && (o is Sent ==> b.last().seen)
}
trait EndpointIn {
    spec fn wlog(&self) -> Seq<Pk>;
    fn write(&mut self, buf: &[u8]) -> (r: Result<Result<(), EndpointError>, Cancelled>)
        ensures grown(old(self).wlog(), final(self).wlog(), buf@, match r { Ok(Ok(_)) => Out::Sent, Ok(Err(_)) => Out::Failed, Err(_) => Out::Stuck });
}
// ----- ghost: packets taken from the OUT endpoint -----
ghost enum Rd { Got(Seq<u8>), Lost, Off, Stuck }
trait EndpointOut {
    spec fn rlog(&self) -> Seq<Rd>;
    /// packets are at most 64 bytes; one that does not fit the given buffer is lost
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<Result<usize, EndpointError>, Cancelled>)
        ensures final(self).rlog().len() == old(self).rlog().len() + 1, final(self).rlog().drop_last() == old(self).rlog(), final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(Ok(n)) => n <= 64 && n <= old(buf)@.len() && (final(self).rlog().last() matches Rd::Got(d) && d == final(buf)@.take(n as int)) && final(buf)@.skip(n as int) == old(buf)@.skip(n as int),
                Ok(Err(EndpointError::BufferOverflow)) => old(buf)@.len() < 64 && final(self).rlog().last() == Rd::Lost,
                Ok(Err(EndpointError::Disabled)) => final(self).rlog().last() == Rd::Off,
                Err(_) => final(self).rlog().last() == Rd::Stuck,
            };
}
trait Driver<'a> { type EndpointIn: EndpointIn; type EndpointOut: EndpointOut; }

// ----- specification: the packets of one message -----
spec fn pkt(m: Seq<u8>, i: int) -> Seq<u8> { m.subrange(64 * i, if 64 * (i + 1) <= m.len() { 64 * (i + 1) } else { m.len() as int }) }
spec fn npkt(m: Seq<u8>) -> int { m.len() as int / 64 + 1 }
/// the i-th packet of a send that first has to close an unfinished message (if `pend`)
spec fn want(m: Seq<u8>, pend: bool, i: int) -> Seq<u8> { if pend && i == 0 { Seq::empty() } else { pkt(m, if pend { i - 1 } else { i }) } }
spec fn all_of(m: Seq<u8>, pend: bool) -> int { npkt(m) + (if pend { 1int } else { 0 }) }
/// `b` is `a` followed by the first `n` packets of a send, all delivered (except maybe the last)
spec fn follows(a: Seq<Pk>, b: Seq<Pk>, m: Seq<u8>, pend: bool) -> bool {
    a.len() <= b.len() <= a.len() + all_of(m, pend) && b.take(a.len() as int) == a
        && (forall|i: int| #![trigger b[i]] a.len() <= i < b.len() ==> b[i].data == want(m, pend, i - a.len()))
        && (forall|i: int| #![trigger b[i]] a.len() <= i < b.len() - 1 ==> b[i].out is Sent)
        && (forall|i: int| #![trigger b[i]] a.len() <= i < b.len() && b[i].out is Sent ==> b[i].seen)
}
spec fn sent(a: Seq<Pk>, b: Seq<Pk>, m: Seq<u8>, pend: bool, r: Result<Result<(), WireTxErrorKind>, Cancelled>) -> bool {
    follows(a, b, m, pend) && match r {
        Ok(Ok(_)) => b.len() == a.len() + all_of(m, pend) && b.last().out is Sent,
        Ok(Err(WireTxErrorKind::ConnectionClosed)) => b.len() > a.len() && b.last().out is Failed,
        Ok(Err(WireTxErrorKind::Timeout)) => b.len() > a.len() && b.last().out is Stuck,
        Ok(Err(_)) => false,
        Err(_) => b.len() > a.len() && b.last().out is Stuck,
    }
}
// ----- what a receiver makes of the packets -----
ghost struct Rx { msgs: Seq<Seq<u8>>, part: Seq<u8> }
spec fn rx(l: Seq<Pk>) -> Rx decreases l.len() {
    if l.len() == 0 { Rx { msgs: Seq::empty(), part: Seq::empty() } }
    else {
        let p = rx(l.drop_last()); let k = l.last();
        if !k.seen { p } else if k.data.len() == 64 { Rx { msgs: p.msgs, part: p.part + k.data } } else { Rx { msgs: p.msgs.push(p.part + k.data), part: Seq::empty() } }
    }
}
/// lock invariant of EUsbWireTxInner: a message is only left open on the wire if that is remembered
spec fn closed_or_noted(l: Seq<Pk>, pend: bool) -> bool { !pend ==> rx(l).part.len() == 0 }
spec fn tx_inv<D: Driver<'static>>(i: EUsbWireTxInner<D>) -> bool { closed_or_noted(i.ep_in.wlog(), i.pending_frame) && tmo_ok(i) && i.tx_buf@.len() <= 0x40_0000 }
spec fn rest_same<D: Driver<'static>>(a: EUsbWireTxInner<D>, b: EUsbWireTxInner<D>) -> bool { a.tx_buf@.len() == b.tx_buf@.len() && same_tmo(a, b) }
/// one locked transmission of `m`
spec fn tx_once<D: Driver<'static>>(a: EUsbWireTxInner<D>, b: EUsbWireTxInner<D>, m: Seq<u8>, r: Result<Result<(), WireTxErrorKind>, Cancelled>) -> bool {
    if m.len() == 0 { b.ep_in.wlog() == a.ep_in.wlog() && b.pending_frame == a.pending_frame && r == Ok::<Result<(), WireTxErrorKind>, Cancelled>(Ok(())) }
    else { sent(a.ep_in.wlog(), b.ep_in.wlog(), m, a.pending_frame, r) }
}
/// nothing was put on the wire and an error is returned
spec fn refused<D: Driver<'static>>(a: EUsbWireTxInner<D>, b: EUsbWireTxInner<D>, r: Result<Result<(), WireTxErrorKind>, Cancelled>) -> bool {
    b.ep_in.wlog() == a.ep_in.wlog() && b.pending_frame == a.pending_frame && r == Ok::<Result<(), WireTxErrorKind>, Cancelled>(Err(WireTxErrorKind::Other))
}
uninterp spec fn ser<T: ?Sized>(t: &T) -> Seq<u8>;
uninterp spec fn ser_ok<T: ?Sized>(t: &T) -> bool;
/// postcard::to_slice
#[verifier::external_body]
fn vx_to_slice<'a, 'b, T: ?Sized>(t: &'b T, buf: &'a mut [u8]) -> (r: Result<&'a mut [u8], PostcardError>)
    ensures r matches Ok(p) ==> ser(t).len() <= old(buf)@.len() && p@ == ser(t) && final(buf)@ == final(p)@ + old(buf)@.skip(ser(t).len() as int) && final(p)@.len() == p@.len(),
            r is Err ==> final(buf)@.len() == old(buf)@.len(),
            (ser_ok(t) && ser(t).len() <= old(buf)@.len()) ==> r is Ok
{ unimplemented!() }
#[verifier::external_body]
fn vx_chunks<'a>(s: &'a [u8], n: usize) -> (r: Vec<&'a [u8]>)
    requires n > 0
    ensures r@.len() == (s@.len() + n - 1) / (n as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == s@.subrange(n * i, if n * (i + 1) <= s@.len() { n * (i + 1) } else { s@.len() as int })
{ unimplemented!() }

proof fn mask64(n: usize) ensures (n & 63usize) == n % 64, (n & 63usize) as int == n as int % 64 { assert((n & 63) == n % 64) by (bit_vector); }
proof fn grow_follows(a: Seq<Pk>, b: Seq<Pk>, c: Seq<Pk>, m: Seq<u8>, pend: bool, d: Seq<u8>, o: Out)
    requires follows(a, b, m, pend), b.len() > a.len() ==> b.last().out is Sent, grown(b, c, d, o), b.len() < a.len() + all_of(m, pend), d == want(m, pend, b.len() - a.len())
    ensures follows(a, c, m, pend), c.last().out == o, c.len() == b.len() + 1
{
    assert(forall|i: int| 0 <= i < b.len() ==> c[i] == c.drop_last()[i]);
    assert(c.take(a.len() as int) =~= b.take(a.len() as int));
    assert(c[c.len() - 1] == c.last());
}
/// the receiver's view of a send, packet by packet
proof fn rx_progress(a: Seq<Pk>, b: Seq<Pk>, m: Seq<u8>, pend: bool)
    requires follows(a, b, m, pend), closed_or_noted(a, pend), b.len() > a.len() + (if pend { 1int } else { 0 }), b.last().out is Sent
    ensures
        ({ let k = b.len() - a.len() - (if pend { 1int } else { 0 });
           let base = if pend { rx(a).msgs.push(rx(a).part) } else { rx(a).msgs };
           if k < npkt(m) { rx(b).msgs == base && rx(b).part == m.take(64 * k) } else { rx(b).msgs == base.push(m) && rx(b).part.len() == 0 } })
    decreases b.len()
{
    let p0 = if pend { 1int } else { 0 };
    let c = b.drop_last();
    let k = b.len() - a.len() - p0;
    assert(b[b.len() - 1] == b.last());
    assert(b.last().data == pkt(m, k - 1));
    assert(c.take(a.len() as int) =~= a);
    assert(forall|i: int| 0 <= i < c.len() ==> c[i] == b[i]);
    assert(follows(a, c, m, pend));
    if k == 1 {
        if pend {
            assert(c.len() == a.len() + 1);
            assert(c.drop_last() =~= a);
            assert(b[a.len() as int] == c.last());
            assert(c.last().data =~= Seq::<u8>::empty());
            assert(rx(c).msgs == rx(a).msgs.push(rx(a).part + Seq::<u8>::empty()));
            assert(rx(a).part + Seq::<u8>::empty() =~= rx(a).part);
        } else { assert(c =~= a); }
        assert(rx(c).part =~= m.take(0));
    } else {
        assert(b[c.len() - 1] == c.last());
        rx_progress(a, c, m, pend);
    }
    assert(rx(c).part == m.take(64 * (k - 1)));
    if k < npkt(m) { assert(m.take(64 * (k - 1)) + pkt(m, k - 1) =~= m.take(64 * k)); }
    else { assert(m.take(64 * (k - 1)) + pkt(m, k - 1) =~= m); }
}
/// C09: a send that succeeds is received as exactly its bytes, whatever was left open before it
proof fn thm_c09_received_exactly(a: Seq<Pk>, b: Seq<Pk>, m: Seq<u8>, pend: bool)
    requires sent(a, b, m, pend, Ok(Ok(()))), closed_or_noted(a, pend), m.len() > 0
    ensures rx(b).msgs == (if pend { rx(a).msgs.push(rx(a).part) } else { rx(a).msgs }).push(m), rx(b).part.len() == 0
{ rx_progress(a, b, m, pend); }
/// C09: a send that does not succeed never merges with what came before: the receiver is left with what it had, the closing
/// of the unfinished message, and then a prefix of this one (or all of it)
proof fn thm_c09_never_joined(a: Seq<Pk>, b: Seq<Pk>, m: Seq<u8>, pend: bool, r: Result<Result<(), WireTxErrorKind>, Cancelled>)
    requires sent(a, b, m, pend, r), closed_or_noted(a, pend), m.len() > 0
    ensures ({ let base = if pend { rx(a).msgs.push(rx(a).part) } else { rx(a).msgs };
               rx(b) == rx(a) || (rx(b).msgs == base && exists|n: int| 0 <= n <= m.len() && rx(b).part == m.take(n)) || (rx(b).msgs == base.push(m) && rx(b).part.len() == 0) })
{
    let p0 = if pend { 1int } else { 0 };
    let n = b.len() - a.len();
    if n == 0 { assert(b =~= a); }
    else {
        assert(b[b.len() - 1] == b.last());
        // whether or not the last packet was seen, the receiver is where a delivered or missing one puts it
        let c = b.drop_last();
        assert(c.take(a.len() as int) =~= a);
        assert(forall|i: int| 0 <= i < c.len() ==> c[i] == b[i]);
        assert(follows(a, c, m, pend));
        if c.len() > a.len() { assert(b[c.len() - 1] == c.last()); }
        let bs = b.update(b.len() - 1, Pk { data: b.last().data, out: Out::Sent, seen: true });
        assert(bs.drop_last() =~= c);
        assert(bs.take(a.len() as int) =~= a);
        assert(follows(a, bs, m, pend));
        if b.last().seen { assert(rx(b) == rx(bs)); } else { assert(rx(b) == rx(c)); }
        if n > p0 { rx_progress(a, bs, m, pend); } else { assert(c =~= a); assert(rx(bs).part.len() == 0); assert(rx(a).part + Seq::<u8>::empty() =~= rx(a).part); assert(rx(bs).part =~= m.take(0)); }
        if c.len() > a.len() + p0 { rx_progress(a, c, m, pend); }
        else if c.len() > a.len() { assert(c.drop_last() =~= a); assert(c.last().data =~= Seq::<u8>::empty()); assert(rx(a).part + Seq::<u8>::empty() =~= rx(a).part); assert(rx(c).part =~= m.take(0)); }
        else { assert(c =~= a); if !pend { } }
        let k = n - p0;
        if k >= 0 && k < npkt(m) { assert(0 <= 64 * k <= m.len()); }
        if k >= 1 { assert(0 <= 64 * (k - 1) <= m.len()); }
    }
}

proof fn steps(a: Seq<Pk>, b: Seq<Pk>, m: Seq<u8>, pend: bool)
    requires follows(a, b, m, pend), b.len() > a.len() ==> b.last().out is Sent, b.len() < a.len() + all_of(m, pend)
    ensures forall|c: Seq<Pk>, d: Seq<u8>, o: Out| #[trigger] grown(b, c, d, o) && d =~= want(m, pend, b.len() - a.len()) ==> follows(a, c, m, pend) && c.last().out == o && c.len() == b.len() + 1
{
    assert forall|c: Seq<Pk>, d: Seq<u8>, o: Out| #[trigger] grown(b, c, d, o) && d =~= want(m, pend, b.len() - a.len()) implies follows(a, c, m, pend) && c.last().out == o && c.len() == b.len() + 1
        by { grow_follows(a, b, c, m, pend, d, o); }
}
//@ fn send_all::send_fut ret r
    requires closed_or_noted(old(ep_in).wlog(), *old(pending_frame)), out@.len() > 0
    ensures sent(old(ep_in).wlog(), final(ep_in).wlog(), out@, *old(pending_frame), r), closed_or_noted(final(ep_in).wlog(), *final(pending_frame)),
            !(r matches Ok(Err(WireTxErrorKind::Timeout)))
//@ hint start
    let ghost a = ep_in.wlog(); let ghost pend = *pending_frame;
    proof { mask64(out@.len() as usize); assert(out.len() == out@.len()); assert(a.take(a.len() as int) =~= a); assert(follows(a, a, out@, pend)); }
    proof { steps(a, a, out@, pend); }
//@ loop 0
    invariant
        __i0 <= __s0@.len(), __s0@.len() == (out@.len() + 63) / 64, *pending_frame, out@.len() > 0,
        forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i])@ == pkt(out@, i),
        a == old(ep_in).wlog(), pend == *old(pending_frame), follows(a, ep_in.wlog(), out@, pend), closed_or_noted(a, pend), ((out@.len() as usize) & 63) == out@.len() % 64,
        ep_in.wlog().len() == a.len() + (if pend { 1int } else { 0 }) + __i0, ep_in.wlog().len() > a.len() ==> ep_in.wlog().last().out is Sent,
    decreases __s0@.len() - __i0
//@ hint loop 0 start
    let ghost b = ep_in.wlog();
    proof { assert(__s0@[__i0 as int]@ == pkt(out@, __i0 as int)); assert(want(out@, pend, b.len() - a.len()) == pkt(out@, __i0 as int)); steps(a, b, out@, pend); }
//@ hint loop 0 after
    let ghost b = ep_in.wlog();
    proof { if b.len() < a.len() + all_of(out@, pend) { assert(pkt(out@, (out@.len() / 64) as int) =~= Seq::<u8>::empty()); steps(a, b, out@, pend); } }
//@ hint before /Ok\(\(\)\)\s*$/
    proof { rx_progress(a, ep_in.wlog(), out@, pend); }
//@ fn <EUsbWireTx as WireTx>::send ret r
    requires tx_inv(*old(vx_locked))
    ensures tx_inv(*final(vx_locked)), rest_same(*old(vx_locked), *final(vx_locked)), final(vx_locked).log_seq == old(vx_locked).log_seq,
        ({ let m = enc(hdr) + ser(msg);
           &&& m.len() > old(vx_locked).tx_buf@.len() ==> refused(*old(vx_locked), *final(vx_locked), r)
           &&& m.len() <= old(vx_locked).tx_buf@.len() && ser_ok(msg) ==> tx_once(*old(vx_locked), *final(vx_locked), m, r)
           &&& m.len() <= old(vx_locked).tx_buf@.len() && !ser_ok(msg) ==> refused(*old(vx_locked), *final(vx_locked), r) || tx_once(*old(vx_locked), *final(vx_locked), m, r) })
//@ hint before /if let Some\(used\)/
    proof { assert(tx_buf@.take(used_ttl as int) =~= enc(hdr) + ser(msg)); }
//@ fn <EUsbWireTx as WireTx>::send_raw ret r
    requires tx_inv(*old(vx_locked)), buf@.len() <= 0x40_0000
    ensures tx_inv(*final(vx_locked)), rest_same(*old(vx_locked), *final(vx_locked)), final(vx_locked).log_seq == old(vx_locked).log_seq, tx_once(*old(vx_locked), *final(vx_locked), buf@, r)
//@ text
// ----- reception -----
spec fn cat(l: Seq<Rd>, i: int) -> Seq<u8> decreases l.len() {
    if l.len() <= i || l.len() == 0 { Seq::empty() } else { cat(l.drop_last(), i) + (match l.last() { Rd::Got(d) => d, _ => Seq::empty() }) }
}
spec fn full(l: Seq<Rd>, i: int) -> bool { forall|j: int| #![trigger l[j]] i <= j < l.len() ==> (l[j] matches Rd::Got(d) && d.len() == 64) }
spec fn received(a: Seq<Rd>, b: Seq<Rd>, room: int, r: Result<Result<&mut [u8], WireRxErrorKind>, Cancelled>) -> bool {
    b.len() > a.len() && b.take(a.len() as int) == a && full(b.drop_last(), a.len() as int) && match r {
        Ok(Ok(f)) => (b.last() matches Rd::Got(d) && d.len() < 64) && f@ == cat(b, a.len() as int),
        Ok(Err(WireRxErrorKind::ReceivedMessageTooLarge)) => (b.last() matches Rd::Got(d) && d.len() < 64) && cat(b, a.len() as int).len() > room,
        Ok(Err(WireRxErrorKind::ConnectionClosed)) => b.last() == Rd::Off,
        Ok(Err(_)) => false,
        Err(_) => b.last() == Rd::Stuck,
    }
}
proof fn read_step(a: Seq<Rd>, l: Seq<Rd>)
    requires l.len() >= a.len(), l.take(a.len() as int) == a, full(l, a.len() as int)
    ensures forall|c: Seq<Rd>| #![trigger c.drop_last()] c.len() == l.len() + 1 && c.drop_last() == l ==> c.take(a.len() as int) == a && ((c.last() matches Rd::Got(d) && d.len() == 64) ==> full(c, a.len() as int))
        && cat(c, a.len() as int) == cat(l, a.len() as int) + (match c.last() { Rd::Got(d) => d, _ => Seq::<u8>::empty() })
{
    assert forall|c: Seq<Rd>| #![trigger c.drop_last()] c.len() == l.len() + 1 && c.drop_last() == l implies c.take(a.len() as int) == a && ((c.last() matches Rd::Got(d) && d.len() == 64) ==> full(c, a.len() as int))
        && cat(c, a.len() as int) == cat(l, a.len() as int) + (match c.last() { Rd::Got(d) => d, _ => Seq::<u8>::empty() }) by {
        assert(forall|j: int| 0 <= j < l.len() ==> c[j] == c.drop_last()[j]);
        assert(c.take(a.len() as int) =~= l.take(a.len() as int));
        assert(c[c.len() - 1] == c.last());
    }
}
/// the messages a stream of packets stands for, and the unfinished rest
spec fn msgs(l: Seq<Rd>) -> Rx decreases l.len() {
    if l.len() == 0 { Rx { msgs: Seq::empty(), part: Seq::empty() } }
    else { let p = msgs(l.drop_last()); match l.last() {
        Rd::Got(d) => if d.len() == 64 { Rx { msgs: p.msgs, part: p.part + d } } else { Rx { msgs: p.msgs.push(p.part + d), part: Seq::empty() } },
        _ => p } }
}
proof fn msgs_full(a: Seq<Rd>, b: Seq<Rd>)
    requires b.len() >= a.len(), b.take(a.len() as int) == a, full(b, a.len() as int)
    ensures msgs(b).msgs == msgs(a).msgs, msgs(b).part == msgs(a).part + cat(b, a.len() as int)
    decreases b.len()
{
    if b.len() == a.len() { assert(b =~= a); assert(msgs(a).part + Seq::<u8>::empty() =~= msgs(a).part); }
    else {
        let c = b.drop_last();
        assert(c.take(a.len() as int) =~= a); assert(forall|j: int| 0 <= j < c.len() ==> c[j] == b[j]); assert(b[b.len() - 1] == b.last());
        msgs_full(a, c);
        assert(msgs(a).part + cat(c, a.len() as int) + b.last()->Got_0 =~= msgs(a).part + cat(b, a.len() as int));
    }
}
/// C10: starting between messages, every receive takes exactly the packets of the next message: it returns that message, or reports it
/// as too large when it does not fit, and stands between messages again
proof fn thm_c10_one_message_per_receive(a: Seq<Rd>, b: Seq<Rd>, room: int, r: Result<Result<&mut [u8], WireRxErrorKind>, Cancelled>)
    requires received(a, b, room, r), msgs(a).part.len() == 0
    ensures
        r matches Ok(Ok(f)) ==> msgs(b).msgs == msgs(a).msgs.push(f@) && msgs(b).part.len() == 0,
        r == Ok::<Result<&mut [u8], WireRxErrorKind>, Cancelled>(Err(WireRxErrorKind::ReceivedMessageTooLarge)) ==> exists|m: Seq<u8>| m.len() > room && msgs(b).msgs == msgs(a).msgs.push(m) && msgs(b).part.len() == 0,
{
    let c = b.drop_last();
    assert(c.take(a.len() as int) =~= a);
    msgs_full(a, c);
    let m = cat(b, a.len() as int);
    if let Rd::Got(d) = b.last() {
        if d.len() < 64 { assert(msgs(c).part + d =~= m); assert(msgs(b).msgs == msgs(a).msgs.push(m)); }
    }
}
//@ fn <EUsbWireRx as WireRx>::receive ret r
    ensures received(old(self).ep_out.rlog(), final(self).ep_out.rlog(), old(buf)@.len() as int, r)
//@ attr
    #[verifier::exec_allows_no_decreases_clause]
//@ hint start
    let ghost a = self.ep_out.rlog(); let ghost room = buf@.len();
    proof { assert(a.take(a.len() as int) =~= a); assert(cat(a, a.len() as int) =~= Seq::empty()); }
//@ hint loop 0 before
    let ghost fin = final(window)@;
    proof { assert(fin =~= cat(a, a.len() as int) + final(window)@); }
//@ loop 0
    invariant_except_break
        fin == cat(self.ep_out.rlog(), a.len() as int) + final(window)@, cat(self.ep_out.rlog(), a.len() as int).len() + window@.len() == room,
    invariant
        a == old(self).ep_out.rlog(), room == old(buf)@.len(), buflen == room, after_borrow(buf)@ == fin, pkt@.len() == 64, fin.len() == room,
        self.ep_out.rlog().len() >= a.len(), self.ep_out.rlog().take(a.len() as int) == a, full(self.ep_out.rlog(), a.len() as int),
    ensures
        window@.len() == 0 ==> cat(self.ep_out.rlog(), a.len() as int) == fin,
        window@.len() > 0 ==> cat(self.ep_out.rlog(), a.len() as int).len() > room,
//@ hint loop 0 start
    proof { read_step(a, self.ep_out.rlog()); }
//@ hint after /window = later/
    proof { let ct = cat(self.ep_out.rlog(), a.len() as int); assert(fin =~= ct + final(window)@); assert((ct + final(window)@).take(ct.len() as int) =~= ct); }
//@ loop 1
    invariant
        a == old(self).ep_out.rlog(), room == old(buf)@.len(), after_borrow(buf)@ == fin, pkt@.len() == 64, fin.len() == room,
        self.ep_out.rlog().len() >= a.len(), self.ep_out.rlog().take(a.len() as int) == a, full(self.ep_out.rlog(), a.len() as int),
        cat(self.ep_out.rlog(), a.len() as int).len() >= room,
        exact_fit ==> cat(self.ep_out.rlog(), a.len() as int) == fin,
        !exact_fit ==> cat(self.ep_out.rlog(), a.len() as int).len() > room,
//@ hint loop 1 start
    proof { read_step(a, self.ep_out.rlog()); }
