// =====================================================================
// Accumulator unit: contracts for accumulator.rs
// =====================================================================

// ----- dependency: cobs (assumed) -----
/// what the cobs crate decodes a zero-terminated frame to, if anything
uninterp spec fn cobs_dec(s: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body]
fn decode_in_place(buff: &mut [u8]) -> (r: Result<usize, ()>)
    ensures
        final(buff)@.len() == old(buff)@.len(),
        match r {
            Ok(n) => n <= old(buff)@.len() && cobs_dec(old(buff)@) == Some(final(buff)@.take(n as int)),
            Err(_) => cobs_dec(old(buff)@) is None,
        }
{ unimplemented!() }

// ----- std helpers the rewrite rules refer to (all verified here) -----
fn vx_position<F: Fn(u8) -> bool>(s: &[u8], f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (#[trigger] s@[i],)),
    ensures
        match r {
            Some(n) => n < s@.len() && call_ensures(f, (s@[n as int],), true) && forall|i: int| 0 <= i < n ==> call_ensures(f, (#[trigger] s@[i],), false),
            None => forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (#[trigger] s@[i],), false),
        }
{
    let mut k: usize = 0;
    while k < s.len()
        invariant k <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (#[trigger] s@[i],)),
            forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s@[i],), false),
        decreases s@.len() - k
    {
        if f(s[k]) { return Some(k); }
        k += 1;
    }
    None
}

spec fn zero_at(s: Seq<u8>, n: int) -> bool { 0 <= n < s.len() && s[n] == 0 && forall|i: int| 0 <= i < n ==> s[i] != 0 }
spec fn no_zero(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 0 }

proof fn zero_unique() ensures forall|s: Seq<u8>, a: int, b: int| #[trigger] zero_at(s, a) && #[trigger] zero_at(s, b) ==> a == b, forall|s: Seq<u8>, a: int| no_zero(s) ==> !#[trigger] zero_at(s, a)
{
    assert forall|s: Seq<u8>, a: int, b: int| #[trigger] zero_at(s, a) && #[trigger] zero_at(s, b) implies a == b by { if a < b { assert(s[a] != 0); } else if b < a { assert(s[b] != 0); } }
}

impl<const N: usize> CobsAccumulator<N> {
    spec fn wf(self) -> bool { self.idx <= N }
    spec fn acc(self) -> Seq<u8> { self.buf@.take(self.idx as int) }
}

/// no Rust object is larger than isize::MAX bytes (language guarantee, assumed)
#[verifier::external_body]
proof fn axiom_slice_len(s: &[u8]) ensures s@.len() <= isize::MAX {}
#[verifier::external_body]
proof fn axiom_array_len<const N: usize>(s: &[u8; N]) ensures N <= isize::MAX {}

//@ fn CobsAccumulator::new ret r
    ensures r.wf(), r.acc() == Seq::<u8>::empty()
//@ fn CobsAccumulator::feed ret r
    requires old(self).wf(),
    ensures final(self).wf(), feed_post(N, old(self).acc(), final(self).acc(), input@, r)
//@ fn CobsAccumulator::feed_ref ret r
    requires old(self).wf(),
    ensures final(self).wf(), feed_post(N, old(self).acc(), final(self).acc(), input@, r)
//@ hint start
    proof { axiom_slice_len(input); axiom_array_len(&self.buf); zero_unique(); }
//@ hint after /let \(take, release\)/
    proof { assert(zero_at(input@, n as int)); }
//@ hint before /self.idx = 0;/
    proof { match retval { FeedResult::Success{data,remaining} => { assert(data@ =~= self.buf@.take(data@.len() as int)); assert(cobs_dec(old(self).acc() + take@) == Some(data@)); }, _ => { assert(cobs_dec(old(self).acc() + take@) is None); } } }
//@ hint after /let new_start/
    proof { assert(input@.skip(new_start as int) =~= input@.subrange(new_start as int, input@.len() as int)); }
//@ fn CobsAccumulator::extend_unchecked
    requires old(self).wf(), old(self).idx + input@.len() <= N,
    ensures final(self).wf(), final(self).acc() == old(self).acc() + input@
//@ text
spec fn feed_post(cap: usize, a0: Seq<u8>, a1: Seq<u8>, input: Seq<u8>, r: FeedResult) -> bool {
    &&& input.len() == 0 ==> r is Consumed && a1 == a0
    &&& forall|n: int| #[trigger] zero_at(input, n) ==> {
        &&& a1.len() == 0
        &&& if a0.len() + n + 1 <= cap {
                match cobs_dec(a0 + input.take(n + 1)) {
                    Some(d) => r matches FeedResult::Success { data, remaining } && data@ == d && remaining@ == input.skip(n + 1),
                    None => r matches FeedResult::DeserError(rem) && rem@ == input.skip(n + 1),
                }
            } else { r matches FeedResult::OverFull(rem) && rem@ == input.skip(n + 1) }
        }
    &&& no_zero(input) && input.len() > 0 ==> {
        if a0.len() + input.len() <= cap { r is Consumed && a1 == a0 + input }
        else { a1.len() == 0 && (r matches FeedResult::OverFull(rem) && exists|k: int| 0 <= k <= input.len() && a0.len() + k >= cap && #[trigger] input.skip(k) == rem@) }
        }
}

// =====================================================================
// C11 over the contracts above. h is everything received since the last
// terminator; the accumulator is in sync (holds exactly h) or the frame in
// progress is already too long to fit. The three theorems are the steps of
// the induction over any history of feed() calls, whatever the chunks.
// =====================================================================
spec fn in_sync(cap: usize, h: Seq<u8>, a: Seq<u8>) -> bool { a.len() <= cap && (a == h || h.len() >= cap) }
proof fn thm_c11_fitting_frame_is_yielded(cap: usize, h: Seq<u8>, a0: Seq<u8>, a1: Seq<u8>, input: Seq<u8>, r: FeedResult, n: int)
    requires in_sync(cap, h, a0), feed_post(cap, a0, a1, input, r), zero_at(input, n), h.len() + n + 1 <= cap
    ensures in_sync(cap, Seq::empty(), a1),
        match cobs_dec(h + input.take(n + 1)) {
            Some(d) => r matches FeedResult::Success { data, remaining } && data@ == d && remaining@ == input.skip(n + 1),
            None => r matches FeedResult::DeserError(rem) && rem@ == input.skip(n + 1),
        }
{ assert(a1 =~= Seq::empty()); }
proof fn thm_c11_long_frame_is_dropped(cap: usize, h: Seq<u8>, a0: Seq<u8>, a1: Seq<u8>, input: Seq<u8>, r: FeedResult, n: int)
    requires in_sync(cap, h, a0), feed_post(cap, a0, a1, input, r), zero_at(input, n), h.len() + n + 1 > cap
    ensures in_sync(cap, Seq::empty(), a1), a0 == h ==> r is OverFull,
        (r matches FeedResult::OverFull(rem) && rem@ == input.skip(n + 1)) || (r matches FeedResult::DeserError(rem) && rem@ == input.skip(n + 1))
        || (r matches FeedResult::Success { data, remaining } && remaining@ == input.skip(n + 1)),
{ assert(a1 =~= Seq::empty()); }
proof fn thm_c11_partial_frame_is_kept(cap: usize, h: Seq<u8>, a0: Seq<u8>, a1: Seq<u8>, input: Seq<u8>, r: FeedResult)
    requires in_sync(cap, h, a0), feed_post(cap, a0, a1, input, r), no_zero(input)
    ensures
        r is Consumed ==> in_sync(cap, h + input, a1),
        r is Consumed || r is OverFull,
        r matches FeedResult::OverFull(rem) ==> h.len() + input.len() >= cap && exists|k: int| 0 <= k <= input.len() && #[trigger] input.skip(k) == rem@ && in_sync(cap, h + input.take(k), a1),
{
    if input.len() == 0 { assert(h + input =~= h); }
    if let FeedResult::OverFull(rem) = r {
        let k = choose|k: int| 0 <= k <= input.len() && a0.len() + k >= cap && #[trigger] input.skip(k) == rem@;
        assert((h + input.take(k)).len() >= cap);
    }
}
