// =====================================================================
// Serial unit: contracts for host_client/serial.rs, over those of the accumulator
// =====================================================================
use vstd::std_specs::convert::FromSpecImpl;
use std::collections::VecDeque;

struct Cancelled;
// ----- dependencies: tokio serial port halves, cobs encoder -----
struct IoError;
#[verifier::external_body] fn vx_eof() -> IoError { unimplemented!() }
struct ReadHalf { x: u8 }
struct WriteHalf { x: u8 }
impl ReadHalf {
    /// every byte read from the port so far
    uninterp spec fn got(&self) -> Seq<u8>;
    uninterp spec fn gone(&self) -> bool;
    /// a read of nothing into a non-empty buffer means that the port has gone away
    #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: Result<Result<usize, IoError>, Cancelled>)
        ensures final(buf)@.len() == old(buf)@.len(),
            match r { Ok(Ok(n)) => n <= old(buf)@.len() && final(self).got() == old(self).got() + final(buf)@.take(n as int) && (n == 0 && old(buf)@.len() > 0 ==> final(self).gone()),
                      Ok(Err(_)) => final(self).got() == old(self).got() && final(self).gone(), Err(_) => final(self).got() == old(self).got() }
    { unimplemented!() }
}
impl WriteHalf {
    /// every byte written to the port so far
    uninterp spec fn put(&self) -> Seq<u8>;
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: Result<Result<(), IoError>, Cancelled>)
        ensures r matches Ok(Ok(_)) ==> final(self).put() == old(self).put() + buf@,
            exists|k: int| 0 <= k <= buf@.len() && #[trigger] (old(self).put() + buf@.take(k)) == final(self).put()
    { unimplemented!() }
}
impl WriteHalf {
    /// a plain write may take only part of what it is given
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: Result<Result<usize, IoError>, Cancelled>)
        ensures match r { Ok(Ok(n)) => n <= buf@.len() && final(self).put() == old(self).put() + buf@.take(n as int), _ => final(self).put() == old(self).put() }
    { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: Result<Result<(), IoError>, Cancelled>) ensures final(self).put() == old(self).put() { unimplemented!() }
}
// ----- dependencies of the constructor: opening a port, splitting it into halves, the client behind it -----
#[verifier::external_body] fn vx_format() -> String { unimplemented!() }
struct SerialErr;
struct SerialStream { x: u8 }
struct SerialBuilder { x: u8 }
struct DeserializeOwned;
struct VarSeqKind { x: u8 }
struct SerialSpawn;
impl SerialBuilder { #[verifier::external_body] fn open_native_async(self) -> (r: Result<SerialStream, SerialErr>) { unimplemented!() } }
#[verifier::external_body] fn vx_serial_new(path: &str, baud: u32) -> (r: SerialBuilder) { unimplemented!() }
/// a port that was just opened has neither been read from nor written to
#[verifier::external_body] fn vx_split(s: SerialStream) -> (r: (ReadHalf, WriteHalf)) ensures r.0.got().len() == 0, r.1.put().len() == 0 { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(W)] struct HostClient<W> { x: core::marker::PhantomData<W> }
impl<W> HostClient<W> {
    uninterp spec fn kind(&self) -> VarSeqKind;
    uninterp spec fn errpath(&self) -> Seq<char>;
    uninterp spec fn depth(&self) -> usize;
    /// the client is handed halves that are in the state the contracts of `send` and `receive` start from
    #[verifier::external_body] fn new_with_wire(tx: SerialWireTx, rx: SerialWireRx, sp: SerialSpawn, kind: VarSeqKind, err: &str, depth: usize) -> (r: Self)
        requires rx_ok(rx, Seq::empty()), tx.tx.put().len() == 0
        ensures r.kind() == kind, r.errpath() == err@, r.depth() == depth
    { unimplemented!() }
}
uninterp spec fn cobs_enc(d: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] fn encode_vec(d: &[u8]) -> (r: Vec<u8>) ensures r@ == cobs_enc(d@) { unimplemented!() }
/// COBS: the encoding has no zero byte, and decoding it with its terminator gives the data back
#[verifier::external_body] proof fn axiom_cobs(d: Seq<u8>) ensures cobs_enc(d).len() > 0, no_zero(cobs_enc(d)), cobs_dec(cobs_enc(d).push(0u8)) == Some(d) {}
impl From<IoError> for SerialWireTxError { fn from(e: IoError) -> (r: SerialWireTxError) { SerialWireTxError::Transfer(e) } }
impl From<IoError> for SerialWireRxError { fn from(e: IoError) -> (r: SerialWireRxError) { SerialWireRxError::Transfer(e) } }
fn vx_as_mut(b: &mut [u8; 1024]) -> (r: &mut [u8]) ensures r@ == old(b)@, final(b)@ == final(r)@ { b }
fn vx_to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { let mut v = Vec::new(); v.extend_from_slice(s); proof { assert(v@ =~= s@); } v }

// ----- specification: the frames in a byte stream -----
/// bytes after the last terminator
spec fn tail(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 || s.last() == 0 { Seq::empty() } else { tail(s.drop_last()).push(s.last()) } }
/// the zero-terminated pieces of a stream
spec fn segs(s: Seq<u8>) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last() == 0 { segs(s.drop_last()).push(tail(s.drop_last()).push(0u8)) } else { segs(s.drop_last()) }
}
/// shortest message: header, key and sequence number of one byte each
spec fn is_frame(d: Option<Seq<u8>>) -> bool { d is Some && d->0.len() >= 3 }
/// `out` is what has to be delivered for these pieces: every piece that fits and decodes to a frame, once, in order; a piece
/// that does not fit the accumulator gives at most one (damaged) frame
spec fn delivers(cap: int, g: Seq<Seq<u8>>, out: Seq<Seq<u8>>) -> bool decreases g.len() {
    if g.len() == 0 { out.len() == 0 }
    else {
        let h = g.drop_last(); let d = cobs_dec(g.last());
        if g.last().len() <= cap { if is_frame(d) { out.len() > 0 && out.last() == d->0 && delivers(cap, h, out.drop_last()) } else { delivers(cap, h, out) } }
        else { delivers(cap, h, out) || (out.len() > 0 && delivers(cap, h, out.drop_last())) }
    }
}
spec fn inv(cap: usize, s: Seq<u8>, out: Seq<Seq<u8>>, a: Seq<u8>) -> bool { delivers(cap as int, segs(s), out) && in_sync(cap, tail(s), a) }
spec fn deep(p: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(p.len(), |i: int| p[i]@) }
/// what the receiver has handed out (`done`) and still holds is exactly what the bytes read so far deliver
spec fn rx_ok(x: SerialWireRx, done: Seq<Seq<u8>>) -> bool { x.acc.wf() && inv(1024, x.rx.got(), done + deep(x.pending@), x.acc.acc()) }

// ----- lemmas -----
proof fn app(s: Seq<u8>, c: Seq<u8>) requires no_zero(c) ensures tail(s + c) == tail(s) + c, segs(s + c) == segs(s) decreases c.len()
{
    if c.len() == 0 { assert(s + c =~= s); assert(tail(s) + c =~= tail(s)); }
    else { let d = c.drop_last(); assert(no_zero(d)); app(s, d); assert((s + c).drop_last() =~= s + d); assert((s + c).last() == c.last()); assert(tail(s) + c =~= (tail(s) + d).push(c.last())); }
}
proof fn app0(s: Seq<u8>, c: Seq<u8>) requires c.len() > 0, zero_at(c, c.len() - 1) ensures tail(s + c) == Seq::<u8>::empty(), segs(s + c) == segs(s).push(tail(s) + c)
{
    let d = c.drop_last(); assert(no_zero(d)); app(s, d); assert((s + c).drop_last() =~= s + d); assert(tail(s) + c =~= (tail(s) + d).push(0u8));
}
spec fn rest<'a, 'b>(r: FeedResult<'a, 'b>) -> Seq<u8> { match r { FeedResult::Consumed => Seq::empty(), FeedResult::OverFull(x) => x@, FeedResult::DeserError(x) => x@, FeedResult::Success { data, remaining } => remaining@ } }
proof fn fed(cap: usize, s: Seq<u8>, out: Seq<Seq<u8>>, a0: Seq<u8>, a1: Seq<u8>, w: Seq<u8>, r: FeedResult)
    requires inv(cap, s, out, a0), feed_post(cap, a0, a1, w, r), w.len() > 0, cap > 0
    ensures ({ let x = rest(r); let k = w.len() - x.len();
        0 <= k && x == w.skip(k) && (k == 0 ==> a0.len() > 0 && a1.len() == 0) && match r { FeedResult::Success { data, remaining } if data@.len() >= 3 => inv(cap, s + w.take(k), out.push(data@), a1), _ => inv(cap, s + w.take(k), out, a1) } }),
{
    if no_zero(w) {
        thm_c11_partial_frame_is_kept(cap, tail(s), a0, a1, w, r);
        match r {
            FeedResult::OverFull(rem) => {
                let k = choose|k: int| 0 <= k <= w.len() && #[trigger] w.skip(k) == rem@ && in_sync(cap, tail(s) + w.take(k), a1);
                assert(no_zero(w.take(k))); app(s, w.take(k)); assert(w.skip(w.len() - rem@.len()) =~= rem@);
                let k2 = choose|k: int| 0 <= k <= w.len() && a0.len() + k >= cap && #[trigger] w.skip(k) == rem@;
                assert(k2 == k);
            },
            _ => { app(s, w); assert(w.take(w.len() as int) =~= w); assert(w.skip(w.len() as int) =~= Seq::<u8>::empty()); },
        }
    } else {
        let n = first_zero(w);
        let c = w.take(n + 1); let h = tail(s);
        assert(zero_at(c, c.len() - 1)); app0(s, c);
        assert(w.skip(n + 1).len() == w.len() - (n + 1));
        let g = segs(s).push(h + c); assert(g.drop_last() =~= segs(s));
        if h.len() + n + 1 <= cap {
            thm_c11_fitting_frame_is_yielded(cap, h, a0, a1, w, r, n);
            match r { FeedResult::Success { data, remaining } => { assert(out.push(data@).drop_last() =~= out); }, _ => {} }
        } else {
            thm_c11_long_frame_is_dropped(cap, h, a0, a1, w, r, n);
            match r { FeedResult::Success { data, remaining } => { assert(out.push(data@).drop_last() =~= out); }, _ => {} }
        }
    }
}
proof fn first_zero(s: Seq<u8>) -> (n: int) requires !no_zero(s) ensures zero_at(s, n) decreases s.len()
{
    if s[0] == 0 { 0 } else { let t = s.skip(1); let k = choose|i: int| 0 <= i < s.len() && s[i] == 0; assert(t[k - 1] == 0); let m = first_zero(t); assert(s[m + 1] == 0) by { assert(t[m] == s[m + 1]); } assert forall|i: int| 0 <= i < m + 1 implies s[i] != 0 by { if i > 0 { assert(t[i - 1] == s[i]); } } m + 1 }
}
spec fn fed_ok<'a, 'b>(got: Seq<u8>, a0: Seq<u8>, a1: Seq<u8>, w: Seq<u8>, r: FeedResult<'a, 'b>) -> bool {
    let x = rest(r); let s1 = got.take(got.len() - x.len());
    &&& x.len() <= w.len() && x == got.skip(got.len() - x.len()) && (x.len() == w.len() ==> a0.len() > 0 && a1.len() == 0)
    &&& forall|out: Seq<Seq<u8>>| #![trigger inv(1024, got.take(got.len() - w.len()), out, a0)] inv(1024, got.take(got.len() - w.len()), out, a0) ==> match r { FeedResult::Success { data, remaining } if data@.len() >= 3 => inv(1024, s1, out.push(data@), a1), _ => inv(1024, s1, out, a1) }
}
proof fn fed_all(got: Seq<u8>, a0: Seq<u8>, w: Seq<u8>, some: Seq<Seq<u8>>)
    requires w.len() > 0, w.len() <= got.len(), w == got.skip(got.len() - w.len()), inv(1024, got.take(got.len() - w.len()), some, a0)
    ensures forall|a1: Seq<u8>, r: FeedResult| #[trigger] feed_post(1024, a0, a1, w, r) ==> fed_ok(got, a0, a1, w, r)
{
    let s = got.take(got.len() - w.len());
    assert forall|a1: Seq<u8>, r: FeedResult| #[trigger] feed_post(1024, a0, a1, w, r) implies fed_ok(got, a0, a1, w, r) by {
        let x = rest(r);
        fed(1024, s, some, a0, a1, w, r);
        assert(x =~= got.skip(got.len() - x.len()));
        assert(s + w.take(w.len() - x.len()) =~= got.take(got.len() - x.len()));
        assert forall|out: Seq<Seq<u8>>| #![trigger inv(1024, s, out, a0)] inv(1024, s, out, a0) implies (match r { FeedResult::Success { data, remaining } if data@.len() >= 3 => inv(1024, got.take(got.len() - x.len()), out.push(data@), a1), _ => inv(1024, got.take(got.len() - x.len()), out, a1) }) by { fed(1024, s, out, a0, a1, w, r); }
    }
}
/// the bytes of a list of frames, as the sender writes them
spec fn wire(f: Seq<Seq<u8>>) -> Seq<u8> decreases f.len() { if f.len() == 0 { Seq::empty() } else { wire(f.drop_last()) + cobs_enc(f.last()).push(0u8) } }
proof fn wire_segs(f: Seq<Seq<u8>>) ensures segs(wire(f)) == Seq::new(f.len(), |i: int| cobs_enc(f[i]).push(0u8)), tail(wire(f)) == Seq::<u8>::empty() decreases f.len()
{
    if f.len() > 0 {
        wire_segs(f.drop_last()); axiom_cobs(f.last()); let c = cobs_enc(f.last()).push(0u8); app0(wire(f.drop_last()), c);
        assert(Seq::<u8>::empty() + c =~= c);
        assert(segs(wire(f)) =~= Seq::new(f.len(), |i: int| cobs_enc(f[i]).push(0u8)));
    } else { assert(segs(wire(f)) =~= Seq::new(f.len(), |i: int| cobs_enc(f[i]).push(0u8))); }
}
/// frames written by the sender arrive as the same frames in the same order, whatever the reads were
proof fn thm_c19_round_trip(f: Seq<Seq<u8>>, x: SerialWireRx, done: Seq<Seq<u8>>)
    requires x.rx.got() == wire(f), rx_ok(x, done), forall|i: int| 0 <= i < f.len() ==> f[i].len() >= 3 && cobs_enc(#[trigger] f[i]).len() < 1024
    ensures done + deep(x.pending@) == f
{ wire_segs(f); round_trip(f, done + deep(x.pending@)); }
proof fn round_trip(f: Seq<Seq<u8>>, out: Seq<Seq<u8>>)
    requires delivers(1024, Seq::new(f.len(), |i: int| cobs_enc(f[i]).push(0u8)), out), forall|i: int| 0 <= i < f.len() ==> f[i].len() >= 3 && cobs_enc(#[trigger] f[i]).len() < 1024
    ensures out == f decreases f.len()
{
    let g = Seq::new(f.len(), |i: int| cobs_enc(f[i]).push(0u8));
    if f.len() > 0 {
        let e = f.drop_last(); axiom_cobs(f.last());
        assert(g.drop_last() =~= Seq::new(e.len(), |i: int| cobs_enc(e[i]).push(0u8)));
        assert(cobs_enc(f[f.len() - 1]).len() < 1024);
        assert(g.last() == cobs_enc(f.last()).push(0u8)); assert(is_frame(cobs_dec(g.last())));
        round_trip(e, out.drop_last()); assert(out.last() == f.last()); assert(out =~= out.drop_last().push(out.last())); assert(f =~= e.push(f.last()));
        assert(out =~= f);
    } else { assert(out =~= f); }
}
/// a receiver whose port has not been read from yet has delivered exactly what it should: nothing
proof fn thm_c19_start(x: SerialWireRx) requires x.acc.wf(), x.rx.got().len() == 0, x.pending@.len() == 0, x.acc.acc().len() == 0 ensures rx_ok(x, Seq::empty())
{ assert(Seq::<Seq<u8>>::empty() + deep(x.pending@) =~= Seq::<Seq<u8>>::empty()); assert(x.acc.acc() =~= tail(x.rx.got())); }
proof fn vx_start() ensures forall|x: SerialWireRx| x.acc.wf() && x.rx.got().len() == 0 && x.pending@.len() == 0 && x.acc.acc().len() == 0 ==> #[trigger] rx_ok(x, Seq::empty())
{ assert forall|x: SerialWireRx| x.acc.wf() && x.rx.got().len() == 0 && x.pending@.len() == 0 && x.acc.acc().len() == 0 implies #[trigger] rx_ok(x, Seq::empty()) by { thm_c19_start(x); } }
/// a damaged piece costs only itself: the pieces before and after it are delivered all the same
proof fn thm_c19_damage_is_local(cap: int, g: Seq<Seq<u8>>, p: Seq<u8>, out: Seq<Seq<u8>>)
    requires delivers(cap, g.push(p), out)
    ensures delivers(cap, g, out) || (out.len() > 0 && delivers(cap, g, out.drop_last()))
{ assert(g.push(p).drop_last() =~= g); }

// ----- contracts on the code -----
//@ fn <SerialWireTx as WireTx>::send ret r
    ensures r matches Ok(Ok(_)) ==> final(self).tx.put() == old(self).tx.put() + cobs_enc(data@).push(0u8), exists|k: int| 0 <= k <= cobs_enc(data@).len() + 1 && #[trigger] (old(self).tx.put() + cobs_enc(data@).push(0u8).take(k)) == final(self).tx.put()
//@ fn SerialWireTx::send_inner ret r
    ensures r matches Ok(Ok(_)) ==> final(self).tx.put() == old(self).tx.put() + cobs_enc(data@).push(0u8), exists|k: int| 0 <= k <= cobs_enc(data@).len() + 1 && #[trigger] (old(self).tx.put() + cobs_enc(data@).push(0u8).take(k)) == final(self).tx.put()
//@ hint start
    proof { axiom_cobs(data@); }
    let ghost vxd = data@;
//@ hint before /(let \w+ = )?self\.tx\.write/
    proof { assert(msg@ =~= cobs_enc(vxd).push(0u8)); assert(msg@.take(msg@.len() as int) =~= msg@); }
//@ fn <SerialWireRx as WireRx>::receive ret r
    requires exists|done: Seq<Seq<u8>>| #[trigger] rx_ok(*old(self), done)
    ensures final(self).acc.wf(), forall|done: Seq<Seq<u8>>| #[trigger] rx_ok(*old(self), done) ==> match r { Ok(Ok(p)) => rx_ok(*final(self), done.push(p@)), _ => rx_ok(*final(self), done) }, r matches Ok(Err(_)) ==> final(self).rx.gone()
//@ fn SerialWireRx::recv_inner ret r
    requires exists|done: Seq<Seq<u8>>| #[trigger] rx_ok(*old(self), done)
    ensures final(self).acc.wf(), forall|done: Seq<Seq<u8>>| #[trigger] rx_ok(*old(self), done) ==> match r { Ok(Ok(p)) => rx_ok(*final(self), done.push(p@)), _ => rx_ok(*final(self), done) }, r matches Ok(Err(_)) ==> final(self).rx.gone()
//@ attr
    #[verifier::exec_allows_no_decreases_clause]
//@ loop 0
    invariant self.acc.wf(), exists|done: Seq<Seq<u8>>| #[trigger] rx_ok(*old(self), done), forall|done: Seq<Seq<u8>>| #[trigger] rx_ok(*old(self), done) ==> rx_ok(*self, done)
//@ hint loop 0 start
    let ghost p0 = self.pending@;
//@ hint before /return Ok\(p\)/
    proof { assert forall|done: Seq<Seq<u8>>| rx_ok(*old(self), done) implies rx_ok(*self, done.push(p@)) by { assert(done + deep(p0) =~= done.push(p@) + deep(self.pending@)); } }
//@ hint before /let used =/
    let ghost g0 = self.rx.got();
//@ hint before /if used == 0/
    proof { if used == 0 { assert(self.rx.got() =~= g0); } }
//@ hint before /'cobs: while/
    let ghost got = self.rx.got();
    proof { assert(got.take(got.len() as int) =~= got); assert(got.take(got.len() - window@.len()) =~= g0); assert(got.skip(got.len() - window@.len()) =~= window@); }
//@ loop 1
    invariant_except_break self.acc.wf(), exists|done: Seq<Seq<u8>>| #[trigger] rx_ok(*old(self), done), got.take(got.len() as int) == got, self.rx.got() == got, window@.len() <= got.len(), window@ == got.skip(got.len() - window@.len()),
        forall|done: Seq<Seq<u8>>| #[trigger] rx_ok(*old(self), done) ==> inv(1024, got.take(got.len() - window@.len()), done + deep(self.pending@), self.acc.acc()),
    ensures self.acc.wf(), self.rx.got() == got, forall|done: Seq<Seq<u8>>| #[trigger] rx_ok(*old(self), done) ==> rx_ok(*self, done)
    decreases window@.len(), self.acc.acc().len()
//@ hint loop 1 start
    let ghost a0 = self.acc.acc(); let ghost w0 = window@; let ghost p1 = self.pending@;
    proof {
        let done = choose|done: Seq<Seq<u8>>| #[trigger] rx_ok(*old(self), done); fed_all(got, a0, w0, done + deep(p1));
    }
//@ hint loop 1 end
    proof { assert forall|done: Seq<Seq<u8>>| #[trigger] rx_ok(*old(self), done) implies inv(1024, got.take(got.len() - window@.len()), done + deep(self.pending@), self.acc.acc()) by {
        if self.pending@ != p1 { assert(done + deep(self.pending@) =~= (done + deep(p1)).push(self.pending@.last()@)); } } }
//@ fn HostClient::try_new_serial_cobs ret r
    ensures r matches Ok(c) ==> c.kind() == seq_no_kind && c.errpath() == err_uri_path@ && c.depth() == outgoing_depth
//@ hint start
    proof { vx_start(); }
