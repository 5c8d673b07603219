// =====================================================================
// USB unit, logging: SliceWriter, varints, send_log_str, send_log_fmt
// =====================================================================
use vstd::utf8::*;
global size_of usize == 8;

// ----- dependencies -----
struct LoggingTopic;
impl Schema for u8 {}
uninterp spec fn log_key() -> Key;
impl Topic for LoggingTopic { type Message = u8; const PATH: &'static str = ""; spec fn topic_key() -> Key { log_key() } #[verifier::external_body] fn TOPIC_KEY() -> (r: Key) { unimplemented!() } }
struct FmtError;
#[verifier::external_body]
fn vx_take<'a, 'b>(x: &'b mut &'a mut [u8]) -> (r: &'a mut [u8]) ensures r == *old(x), final(x)@.len() == 0 { core::mem::take(x) }
/// `for b in s.iter_mut() { *b = v }`
fn vx_fill(s: &mut [u8], v: u8) ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| v)
{
    let n = s.len(); let mut i = 0;
    while i < n invariant i <= n, n == s@.len(), s@.len() == old(s)@.len(), forall|j: int| 0 <= j < i ==> s@[j] == v decreases n - i { s[i] = v; i += 1; }
    proof { assert(s@ =~= Seq::new(old(s)@.len(), |i: int| v)); }
}
spec fn usize_le(x: usize) -> [u8; 8] { choose|a: [u8; 8]| a@[0] == (x % 256) as u8 && a@.len() == 8 }
impl VxLe for usize {
    type B = [u8; 8];
    uninterp spec fn le(self) -> [u8; 8];
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
}
#[verifier::external_body]
proof fn axiom_usize_le() ensures forall|x: usize| (#[trigger] x.le())@[0] == (x % 256) as u8 {}
fn vx_assert_eq(a: usize, b: usize) requires a == b {}
/// what formatting does: it hands the text to the writer piece by piece and stops at the first error; it may also fail by itself
struct Arguments<'a> { a: &'a str }
impl<'a> Arguments<'a> {
    uninterp spec fn n(self) -> nat;
    uninterp spec fn piece(self, i: int) -> Seq<char>;
    uninterp spec fn sound(self) -> bool;
    #[verifier::external_body] fn vx_n(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body] fn vx_piece(&self, i: usize) -> (r: &'a str) requires i < self.n() ensures r@ == self.piece(i as int) { unimplemented!() }
    #[verifier::external_body] fn vx_sound(&self) -> (r: bool) ensures r == self.sound() { unimplemented!() }
}
/// the formatted text: its first k pieces, as bytes
spec fn text(a: Arguments, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { text(a, k - 1) + encode_utf8(a.piece(k - 1)) } }
spec fn dots(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 46u8) }
/// `b`, cut at a character to `room` bytes, the rest filled with dots
spec fn cut(b: Seq<u8>, w: Seq<u8>, room: int, j: int) -> bool { 0 <= j <= room <= b.len() && is_char_boundary(b, j) && w == b.take(j) + dots(room - j) }
/// the bytes of one log message
spec fn log_body(a: Arguments, body: Seq<u8>, room: int) -> bool {
    let t = text(a, a.n() as int);
    &&& valid_utf8(body)
    &&& body.len() <= room
    &&& a.sound() && t.len() <= room ==> body == t
    &&& a.sound() && t.len() > room ==> exists|j: int| cut(t, body, room, j) && room - j <= 6 && (room >= 3 ==> room - j >= 3)
}
/// a (possibly longer than necessary) varint
spec fn is_varint(b: Seq<u8>, n: nat) -> bool decreases b.len() {
    if b.len() == 0 { false } else if b.len() == 1 { b[0] < 128 && n == b[0] } else { b[0] >= 128 && (b[0] - 128) == n % 128 && is_varint(b.drop_first(), n / 128) }
}
spec fn varint(n: nat) -> Seq<u8> decreases n { if n < 128 { seq![n as u8] } else { seq![(n % 128 + 128) as u8] + varint(n / 128) } }
spec fn log_hdr(h: VarHeader, kk: VarKeyKind, ctr: u16) -> bool { kbytes(h.key) == compact(log_key().0@, kwidth(kk)) && kbytes(h.key).len() == kwidth(kk) && h.seq_no == VarSeq::Seq2(ctr) }
spec fn wrap16(x: u16) -> u16 { if x == 0xffff { 0 } else { (x + 1) as u16 } }

// ----- lemmas -----
proof fn cont_byte() ensures forall|c: u8| #[trigger] is_continuation_byte(c) <==> (c & 0xC0 == 0x80), !is_continuation_byte(46u8) {
    assert forall|c: u8| #[trigger] is_continuation_byte(c) <==> (c & 0xC0 == 0x80) by { utf8_byte_ranges_bitwise(c); }
    utf8_byte_ranges_bitwise(46u8); assert(46u8 & 0xC0 != 0x80) by (bit_vector);
}
proof fn dots_valid(n: int) requires n >= 0 ensures valid_utf8(dots(n)) decreases n {
    if n > 0 {
        dots_valid(n - 1);
        let b = dots(1); utf8_byte_ranges_bitwise(46u8);
        assert(valid_first_scalar(b)); assert(length_of_first_scalar(b) == 1); assert(pop_first_scalar(b) =~= Seq::empty()); assert(valid_utf8(pop_first_scalar(b))); assert(valid_utf8(b));
        valid_utf8_concat(b, dots(n - 1)); assert(b + dots(n - 1) =~= dots(n));
    } else { assert(dots(n) =~= Seq::empty()); }
}
/// a character boundary is never more than three bytes back
proof fn near(b: Seq<u8>, n: int) requires valid_utf8(b), 0 <= n <= b.len() ensures exists|j: int| n - 3 <= j <= n && 0 <= j && #[trigger] is_char_boundary(b, j) decreases b.len()
{
    if n == 0 || b.len() == 0 { assert(is_char_boundary(b, 0)); }
    else {
        let k = length_of_first_scalar(b);
        assert(valid_first_scalar(b));
        if n < k { assert(is_char_boundary(b, 0)); }
        else {
            let p = pop_first_scalar(b);
            near(p, n - k);
            let j = choose|j: int| n - k - 3 <= j <= n - k && 0 <= j && #[trigger] is_char_boundary(p, j);
            assert(is_char_boundary(b, j + k));
        }
    }
}
proof fn cut_valid(b: Seq<u8>, w: Seq<u8>, room: int, j: int) requires valid_utf8(b), cut(b, w, room, j) ensures valid_utf8(w) {
    valid_utf8_split(b, j); dots_valid(room - j); assert(b.subrange(0, j) =~= b.take(j)); valid_utf8_concat(b.take(j), dots(room - j));
}
/// after an overflow: moving the cut back to a character at least three bytes before the end
proof fn recut(a: Arguments, k: int, w: Seq<u8>, L: int, j: int, p: int)
    requires 0 <= k <= a.n(), cut(text(a, k), w, L, j), L - j <= 3, text(a, k).len() > L, L >= 3, L - 6 <= p <= L - 3, p >= 0, p == 0 || !is_continuation_byte(w[p])
    ensures ({ let m = if p < j { p } else { j }; cut(text(a, a.n() as int), w.take(p) + dots(L - p), L, m) && L - m <= 6 && L - m >= 3 }), valid_utf8(w.take(p) + dots(L - p)), text(a, a.n() as int).len() > L
{
    let m = if p < j { p } else { j };
    let t = text(a, k); let tn = text(a, a.n() as int); let x = w.take(p) + dots(L - p);
    text_prefix(a, k, a.n() as int); text_valid(a, k); text_valid(a, a.n() as int);
    assert(forall|i: int| 0 <= i < t.len() ==> t[i] == tn.take(t.len() as int)[i]);
    is_char_boundary_start_end_of_seq(tn); is_char_boundary_start_end_of_seq(t);
    if p < j { assert(w[p] == t[p]); } else if j > 0 { is_char_boundary_iff_not_is_continuation_byte(t, j); }
    if m > 0 { is_char_boundary_iff_not_is_continuation_byte(tn, m); }
    assert(x =~= tn.take(m) + dots(L - m));
    cut_valid(tn, x, L, m);
}
/// after an overflow without room for an ellipsis
proof fn nocut(a: Arguments, k: int, w: Seq<u8>, L: int, j: int)
    requires 0 <= k <= a.n(), cut(text(a, k), w, L, j), L - j <= 3, text(a, k).len() > L
    ensures cut(text(a, a.n() as int), w, L, j), valid_utf8(w), text(a, a.n() as int).len() > L
{
    let t = text(a, k); let tn = text(a, a.n() as int);
    text_prefix(a, k, a.n() as int); text_valid(a, k); text_valid(a, a.n() as int);
    assert(forall|i: int| 0 <= i < t.len() ==> t[i] == tn.take(t.len() as int)[i]);
    is_char_boundary_start_end_of_seq(tn); is_char_boundary_start_end_of_seq(t);
    if j > 0 { is_char_boundary_iff_not_is_continuation_byte(t, j); is_char_boundary_iff_not_is_continuation_byte(tn, j); }
    assert(w =~= tn.take(j) + dots(L - j));
    cut_valid(tn, w, L, j);
}
/// dots over the end of a text that starts at a character
proof fn dotted(w: Seq<u8>, p: int) requires valid_utf8(w), 0 <= p <= w.len(), p == 0 || p == w.len() || !is_continuation_byte(w[p]) ensures valid_utf8(w.take(p) + dots(w.len() - p))
{
    is_char_boundary_start_end_of_seq(w);
    if 0 < p < w.len() { is_char_boundary_iff_not_is_continuation_byte(w, p); }
    valid_utf8_split(w, p); dots_valid(w.len() - p); assert(w.subrange(0, p) =~= w.take(p)); valid_utf8_concat(w.take(p), dots(w.len() - p));
}
spec fn fmt_done(a: Arguments, w: Seq<u8>, k: int, L: int, ok: bool) -> bool {
    0 <= k <= a.n() && (ok ==> a.sound() && k == a.n() && w == text(a, k))
        && (!ok ==> (!a.sound() && k == a.n() && w == text(a, k)) || (exists|j: int| #[trigger] cut(text(a, k), w, L, j) && L - j <= 3 && text(a, k).len() > L))
}
proof fn text_valid(a: Arguments, k: int) ensures valid_utf8(text(a, k)) decreases k { if k > 0 { text_valid(a, k - 1); encode_utf8_valid_utf8(a.piece(k - 1)); valid_utf8_concat(text(a, k - 1), encode_utf8(a.piece(k - 1))); } }
proof fn text_prefix(a: Arguments, k: int, n: int) requires 0 <= k <= n ensures text(a, k).len() <= text(a, n).len(), text(a, n).take(text(a, k).len() as int) == text(a, k) decreases n
{ if k < n { text_prefix(a, k, n - 1); assert(text(a, n).take(text(a, k).len() as int) =~= text(a, n - 1).take(text(a, k).len() as int)); } else { assert(text(a, n).take(text(a, k).len() as int) =~= text(a, k)); } }
/// a boundary of a piece is a boundary of the whole
proof fn boundary_in(x: Seq<u8>, y: Seq<u8>, z: Seq<u8>, j: int) requires valid_utf8(x), valid_utf8(y), valid_utf8(z), 0 <= j <= y.len(), is_char_boundary(y, j) ensures is_char_boundary(x + y + z, x.len() + j), valid_utf8(x + y + z)
{
    valid_utf8_concat(x, y); valid_utf8_concat(x + y, z);
    let b = x + y + z; let i = x.len() + j;
    cont_byte();
    if i == b.len() { is_char_boundary_start_end_of_seq(b); }
    else {
        if j < y.len() { is_char_boundary_iff_not_is_continuation_byte(y, j); assert(b[i] == y[j]); }
        else { assert(b[i] == z[0]); is_char_boundary_start_end_of_seq(z); is_char_boundary_iff_not_is_continuation_byte(z, 0); }
        is_char_boundary_iff_not_is_continuation_byte(b, i);
    }
}
proof fn varint_len(n: nat, k: nat) requires n < pow128(k), k >= 1 ensures 1 <= varint(n).len() <= k decreases k { if n >= 128 { if k == 1 { assert(pow128(1) == 128) by { reveal_with_fuel(pow128, 2); } } else { assert(n / 128 < pow128((k - 1) as nat)) by (nonlinear_arith) requires n < 128 * pow128((k - 1) as nat); varint_len(n / 128, (k - 1) as nat); } } }
spec fn pow128(k: nat) -> nat decreases k { if k == 0 { 1 } else { 128 * pow128((k - 1) as nat) } }
proof fn pows() ensures pow128(0) == 1, pow128(1) == 128, pow128(2) == 16384, pow128(3) == 0x20_0000, pow128(4) == 0x1000_0000, pow128(9) == 0x8000_0000_0000_0000, pow128(10) == 128 * 0x8000_0000_0000_0000 { reveal_with_fuel(pow128, 11); }
proof fn byte_facts(v: usize) ensures ((v % 256) as u8) | 0x80 == (v % 128 + 128) as u8, v < 128 ==> (v % 256) as u8 == v as u8, v >> 7 == v / 128 {
    assert(((v % 256) as u8) | 0x80 == ((v % 128) + 128) as u8) by (bit_vector); assert(v >> 7 == v / 128) by (bit_vector);
}
proof fn varint_step(v: nat, i: int) requires v < pow128((10 - i) as nat), 0 <= i < 10 ensures v >= 128 ==> i < 9 && v / 128 < pow128((9 - i) as nat) && varint(v) == seq![(v % 128 + 128) as u8] + varint(v / 128), v < 128 ==> varint(v) == seq![v as u8] {
    pows();
    if v >= 128 { assert(v / 128 < pow128((9 - i) as nat)) by (nonlinear_arith) requires v < 128 * pow128((9 - i) as nat); }
}
/// canonical varint with its last byte marked as continued, then padding, still reads as the same number
proof fn padded(n: nat, k: int, f: Seq<u8>)
    requires k >= varint(n).len(), f.len() == k, forall|i: int| 0 <= i < varint(n).len() - 1 ==> f[i] == varint(n)[i],
        varint(n).len() == k ==> f[k - 1] == varint(n)[k - 1],
        varint(n).len() < k ==> f[varint(n).len() - 1] == varint(n)[varint(n).len() - 1] + 128 && f[k - 1] == 0 && forall|i: int| varint(n).len() <= i < k - 1 ==> f[i] == 128
    ensures is_varint(f, n)
    decreases k
{
    let v = varint(n); let g = f.drop_first();
    if k > 1 {
        if n >= 128 { let w = varint(n / 128); assert(v =~= seq![(n % 128 + 128) as u8] + w); assert(forall|i: int| 0 <= i < w.len() ==> v[i + 1] == w[i]); assert(forall|i: int| 0 <= i < g.len() ==> g[i] == f[i + 1]); padded(n / 128, k - 1, g); }
        else { zeros(k - 1, g); }
    }
}
proof fn zeros(k: int, f: Seq<u8>) requires k >= 1, f.len() == k, f[k - 1] == 0, forall|i: int| 0 <= i < k - 1 ==> f[i] == 128 ensures is_varint(f, 0) decreases k { if k > 1 { zeros(k - 1, f.drop_first()); } }

fn vx_fmt_write(sw: &mut SliceWriter, args: Arguments) -> (r: Result<(), FmtError>)
    ensures exists|w: Seq<u8>, k: int, l: int, ok: bool| #[trigger] fmt_done(args, w, k, l, ok) && l == old(sw).0@.len() && ok == (r is Ok) && final(old(sw).0)@ == w + final(final(sw).0)@ && final(sw).0@.len() == old(sw).0@.len() - w.len()
{
    let n = args.vx_n(); let mut i: usize = 0;
    let ghost L = sw.0@.len() as int; let ghost f0 = final(sw.0)@; let ghost mut w = Seq::<u8>::empty();
    proof { assert(f0 =~= w + final(sw.0)@); }
    while i < n
        invariant i <= n, n == args.n(), L == old(sw).0@.len(), f0 == final(old(sw).0)@, f0 == w + final(sw.0)@, sw.0@.len() == L - w.len(), w == text(args, i as int)
        decreases n - i
    {
        let ghost ofin = final(sw.0)@; let ghost olen = sw.0@.len() as int;
        let s = args.vx_piece(i);
        let r = sw.write_str(s);
        let ghost b = encode_utf8(args.piece(i as int));
        proof { encode_utf8_valid_utf8(args.piece(i as int)); text_valid(args, i as int); }
        if r.is_err() {
            proof {
                let j = choose|j: int| #[trigger] cut(b, wrote(olen, b, j), olen, j) && olen - j <= 3 && ofin == wrote(olen, b, j) + final(sw.0)@;
                let w2 = w + wrote(olen, b, j);
                assert(f0 =~= w2 + final(sw.0)@);
                boundary_in(w, b, Seq::empty(), j);
                assert(w + b + Seq::<u8>::empty() =~= text(args, i + 1));
                assert(w2 =~= text(args, i + 1).take(w.len() + j) + dots(L - (w.len() + j)));
                assert(cut(text(args, i + 1), w2, L, w.len() + j)); assert(fmt_done(args, w2, i + 1, L, false)); assert(w2.len() == L); assert(final(old(sw).0)@ == w2 + final(sw.0)@); assert(sw.0@.len() == L - w2.len());
            }
            return Err(FmtError);
        }
        proof { w = w + b; assert(f0 =~= w + final(sw.0)@); }
        i += 1;
    }
    proof { assert(fmt_done(args, w, n as int, L, args.sound())); }
    if args.vx_sound() { Ok(()) } else { Err(FmtError) }
}
spec fn over(a: Arguments, w: Seq<u8>, k: int, L: int) -> bool { exists|j: int| #[trigger] cut(text(a, k), w, L, j) && L - j <= 3 && text(a, k).len() > L }
proof fn log_done(a: Arguments, w: Seq<u8>, k: int, L: int, ok: bool, b0: Seq<u8>, st: int, b1: Seq<u8>)
    requires fmt_done(a, w, k, L, ok), w.len() <= L == b0.len(), starts(b0, w),
        if !ok && L >= 3 { 0 <= st <= L - 3 && (st == 0 || st >= w.len() || !is_continuation_byte(b0[st])) && (over(a, w, k, L) ==> st >= L - 6) && b1 == b0.take(st) + dots(L - st) } else { b1 == b0 }
    ensures log_body(a, b1.take(w.len() as int), L)
{
    let bd = b1.take(w.len() as int); let u = w.len() as int;
    text_valid(a, k);
    if ok { assert(bd =~= w); }
    else if over(a, w, k, L) {
        let j = choose|j: int| #[trigger] cut(text(a, k), w, L, j) && L - j <= 3 && text(a, k).len() > L;
        assert(w =~= b0); assert(bd =~= b1);
        if L >= 3 { recut(a, k, w, L, j, st); } else { nocut(a, k, w, L, j); }
    } else if L >= 3 && st < u { dotted(w, st); assert(bd =~= w.take(st) + dots(u - st)); }
    else { assert(bd =~= w); }
}
spec fn starts(b0: Seq<u8>, w: Seq<u8>) -> bool { b0 == w + b0.skip(w.len() as int) }
spec fn cut_at(w: Seq<u8>, start: int, L: int) -> bool { exists|q: int| L - 6 <= q <= start && 0 <= q && #[trigger] is_char_boundary(w, q) }
proof fn cut_at_low(w: Seq<u8>, start: int, L: int, ov: bool) requires ov ==> cut_at(w, start, L) ensures ov ==> start >= L - 6 {}
proof fn step_back(w: Seq<u8>, b0: Seq<u8>, start: int, L: int, ov: bool)
    requires valid_utf8(w), starts(b0, w), w.len() <= b0.len(), 0 < start < w.len(), b0[start] & 0xC0 == 0x80, ov ==> cut_at(w, start, L)
    ensures ov ==> cut_at(w, start - 1, L)
{ assert(b0[start] == w[start]); utf8_byte_ranges_bitwise(w[start]); is_char_boundary_iff_not_is_continuation_byte(w, start); }
proof fn over_near(a: Arguments, w: Seq<u8>, k: int, L: int, ok: bool, b0: Seq<u8>)
    requires fmt_done(a, w, k, L, ok), w.len() <= L == b0.len(), starts(b0, w)
    ensures valid_utf8(w), !ok && over(a, w, k, L) ==> w == b0 && (L >= 3 ==> cut_at(w, L - 3, L))
{
    text_valid(a, k);
    if !ok && over(a, w, k, L) { let j = choose|j: int| #[trigger] cut(text(a, k), w, L, j) && L - j <= 3 && text(a, k).len() > L; cut_valid(text(a, k), w, L, j); if L >= 3 { near(w, L - 3); } assert(w =~= b0); }
}
proof fn compact_len(s: Seq<u8>, w: nat) requires s.len() == 8, w == 1 || w == 2 || w == 4 || w == 8 ensures compact(s, w).len() == w, w == 8 ==> compact(s, w) == s {}
proof fn enc_len(h: VarHeader) ensures enc(h).len() == hlen(h) {}
proof fn varint_last(n: nat) ensures varint(n).len() >= 1, varint(n)[varint(n).len() - 1] < 128, forall|x: u8| x < 128 ==> #[trigger] (x | 0x80) == x + 128 decreases n
{ assert(forall|x: u8| x < 128 ==> #[trigger] (x | 0x80) == x + 128) by (bit_vector); if n >= 128 { varint_last(n / 128); } }
spec fn wrote(room: int, b: Seq<u8>, j: int) -> Seq<u8> { b.take(j) + dots(room - j) }
//@ fn <SliceWriter as core::fmt::Write>::write_str ret r
    ensures ({ let b = encode_utf8(s@); let L = old(self).0@.len() as int;
        &&& r is Ok <==> b.len() <= L
        &&& r is Ok ==> final(old(self).0)@ == b + final(final(self).0)@ && final(self).0@.len() == L - b.len()
        &&& r is Err ==> final(self).0@.len() == 0 && exists|j: int| #[trigger] cut(b, wrote(L, b, j), L, j) && L - j <= 3 && final(old(self).0)@ == wrote(L, b, j) + final(final(self).0)@ })
//@ hint start
    let ghost b = encode_utf8(s@); let ghost L = self.0@.len() as int;
    proof { encode_utf8_valid_utf8(s@); is_char_boundary_start_end_of_seq(b); if L < b.len() { near(b, L); } }
//@ loop 0
    invariant b == encode_utf8(s@), valid_utf8(b), 0 <= whole <= to_write <= b.len(), to_write == b.len() ==> whole == to_write, exists|j: int| to_write - 3 <= j <= whole && 0 <= j && #[trigger] is_char_boundary(b, j), is_char_boundary(b, b.len() as int)
    decreases whole
//@ hint before /if bad/
    proof {
        let f = final(old(self).0)@; let rest = final(self.0)@;
        if bad { assert(f =~= wrote(L, b, whole as int) + rest); assert(cut(b, wrote(L, b, whole as int), L, whole as int)); }
        else { assert(f =~= b + rest); }
    }
//@ fn varint_max ret r
    requires size_of::<T>() <= 0x1000
    ensures size_of::<T>() == 8 ==> r == 10
//@ fn varint_usize ret r
    ensures r@ == varint(n as nat)
//@ hint start
    proof { axiom_usize_le(); pows(); assert(out@.take(0) =~= Seq::<u8>::empty()); assert(varint(n as nat) =~= out@.take(0) + varint(n as nat)); }
//@ loop 0
    invariant varint(n as nat) == out@.take(i as int) + varint(value as nat), out@.len() == 10, value < pow128((10 - i) as nat), i > 0 ==> value >= 1, forall|x: usize| (#[trigger] x.le())@[0] == (x % 256) as u8,
//@ hint loop 0 start
    let ghost v0 = value; let ghost o0 = out@;
    proof { byte_facts(v0); varint_step(v0 as nat, i as int); }
//@ hint loop 0 end
    proof { assert(out@.take(i + 1) =~= o0.take(i as int).push((v0 % 128 + 128) as u8)); assert(varint(n as nat) =~= out@.take(i + 1) + varint(value as nat)); }
//@ hint before /return &mut out/
    proof { assert(out@.take(i + 1) =~= varint(n as nat)); }
//@ fn actual_varint_max_len ret r
    ensures 1 <= r <= 10, largest < pow128(r as nat), largest >= 1 ==> r <= largest
//@ hint start
    proof { pows(); assert(1usize << 7 == 128 && 1usize << 14 == 16384 && 1usize << 21 == 0x20_0000 && 1usize << 28 == 0x1000_0000) by (bit_vector); }
//@ fn <EUsbWireTx as WireTx>::send_log_str ret r
    requires tx_inv(*old(vx_locked))
    ensures tx_inv(*final(vx_locked)), rest_same(*old(vx_locked), *final(vx_locked)), final(vx_locked).log_seq == wrap16(old(vx_locked).log_seq),
        exists|h: VarHeader| #[trigger] log_hdr(h, kkind, old(vx_locked).log_seq) && ({ let m = enc(h) + ser(s);
           &&& m.len() > old(vx_locked).tx_buf@.len() ==> refused(*old(vx_locked), *final(vx_locked), r)
           &&& m.len() <= old(vx_locked).tx_buf@.len() && ser_ok(s) ==> tx_once(*old(vx_locked), *final(vx_locked), m, r)
           &&& m.len() <= old(vx_locked).tx_buf@.len() && !ser_ok(s) ==> refused(*old(vx_locked), *final(vx_locked), r) || tx_once(*old(vx_locked), *final(vx_locked), m, r) })
//@ hint before /let \(hdr_used, remain\)/
    proof { assert(log_hdr(wh, kkind, old(vx_locked).log_seq)); }
//@ hint before /if let Some\(used\)/
    proof { assert(tx_buf@.take(used_ttl as int) =~= enc(wh) + ser(s)); }
//@ fn <EUsbWireTx as WireTx>::send_log_fmt ret r
    requires tx_inv(*old(vx_locked))
    ensures tx_inv(*final(vx_locked)), rest_same(*old(vx_locked), *final(vx_locked)), final(vx_locked).log_seq == wrap16(old(vx_locked).log_seq),
        exists|h: VarHeader, c: u16| #[trigger] log_hdr(h, kkind, c) && c == old(vx_locked).log_seq && ({ let room = old(vx_locked).tx_buf@.len() - hlen(h);
            if room < 1 { refused(*old(vx_locked), *final(vx_locked), r) }
            else { exists|lf: Seq<u8>, body: Seq<u8>| #[trigger] (lf + body).len() <= room && is_varint(lf, body.len()) && log_body(args, body, room - lf.len()) && tx_once(*old(vx_locked), *final(vx_locked), enc(h) + (lf + body), r) } })
//@ hint start
    hide(is_varint); hide(varint); hide(text); hide(cut); hide(log_body); hide(fmt_done); hide(over); hide(valid_utf8); hide(is_char_boundary); hide(cut_at); hide(starts); hide(sent); hide(closed_or_noted); hide(enc); hide(compact); hide(hlen);
    let ghost seq0 = vx_locked.log_seq;
//@ hint before /let Some\(\(_hdr/
    proof { compact_len(log_key().0@, kwidth(kkind)); enc_len(wh); assert(log_hdr(wh, kkind, seq0)); }
//@ hint after /let used =/
    let ghost L = body_len as int; let ghost ok = res is Ok; let ghost b0 = body@;
    let ghost wk = choose|w: Seq<u8>, k: int, l: int, o: bool| #[trigger] fmt_done(args, w, k, l, o) && l == L && o == ok && starts(b0, w) && remain == L - w.len();
    let ghost w = wk.0; let ghost k = wk.1;
    proof { assert(exists|w: Seq<u8>, k: int, l: int, o: bool| #[trigger] fmt_done(args, w, k, l, o) && l == L && o == ok && b0 == w + final(sw.0)@ && remain == L - w.len());
        let z = choose|w: Seq<u8>, k: int, l: int, o: bool| #[trigger] fmt_done(args, w, k, l, o) && l == L && o == ok && b0 == w + final(sw.0)@ && remain == L - w.len();
        assert(b0.skip(z.0.len() as int) =~= final(sw.0)@); assert(starts(b0, z.0)) by { reveal(starts); } assert(fmt_done(args, z.0, z.1, z.2, z.3) && starts(b0, z.0)); }
    let ghost ov = !ok && over(args, w, k, L); let ghost mut st = -1int;
    proof {
        assert(starts(b0, w));
        over_near(args, w, k, L, ok, b0);
    }
//@ loop 0
    invariant 0 <= start <= L - 3, L == body_len, body@ == b0, b0.len() == L, starts(b0, w), used == w.len() <= L, ov ==> cut_at(w, start as int, L), valid_utf8(w),
    decreases start
//@ hint loop 0 start
    proof { step_back(w, b0, start as int, L, ov); }
//@ hint loop 0 after
    proof { st = start as int; utf8_byte_ranges_bitwise(body@[st]); cut_at_low(w, st, L, ov); }
//@ hint before /let mut len_bytes/
    let ghost bd = body@.take(used as int);
    proof { if !ok && L >= 3 { assert(body@ =~= b0.take(st) + dots(L - st)); } log_done(args, w, k, L, ok, b0, st, body@); assert(log_body(args, bd, L)); }
//@ hint before /if len_used.len/
    proof { varint_len(used as nat, max_log_len as nat); varint_last(used as nat); }
//@ hint before /let act_used/
    let ghost lf = len_field@;
    proof { padded(used as nat, lf.len() as int, lf); }
//@ hint before /send_all::<D>\(ep_in, &tx_buf/
    proof { assert(tx_buf@.take(act_used as int) =~= enc(wh) + (lf + bd)); assert((lf + bd).len() <= ttl_len - hlen(wh)); assert(log_body(args, bd, ttl_len - hlen(wh) - lf.len())); assert(is_varint(lf, bd.len())); }
