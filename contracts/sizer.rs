// =====================================================================
// Sizer: the key width define_dispatch! computes for a device description
// (macro-expanded text; the lists EPS, TIN, TOUT are arbitrary)
// =====================================================================
trait Schema {}
impl Schema for u16 {}
impl Schema for u32 {}
impl Schema for u64 {}
struct NamedType { n: u8 }
uninterp spec fn error_key() -> Key;
#[verifier::external_body]
fn vx_error_key() -> (r: Key) ensures r == error_key() { unimplemented!() }
// the sample application's handlers: any keys
struct EpB; struct EpA; struct EpS; struct TpB; struct TpA; struct TpS;
impl Endpoint for EpB { type Request = u16; type Response = u32; const PATH: &'static str = ""; #[verifier::external_body] const REQ_KEY: Key = Key([1; 8]); #[verifier::external_body] const RESP_KEY: Key = Key([1; 8]); }
impl Endpoint for EpA { type Request = u16; type Response = u64; const PATH: &'static str = ""; #[verifier::external_body] const REQ_KEY: Key = Key([1; 8]); #[verifier::external_body] const RESP_KEY: Key = Key([1; 8]); }
impl Endpoint for EpS { type Request = u64; type Response = u16; const PATH: &'static str = ""; #[verifier::external_body] const REQ_KEY: Key = Key([1; 8]); #[verifier::external_body] const RESP_KEY: Key = Key([1; 8]); }
impl Topic for TpB { type Message = u16; const PATH: &'static str = ""; #[verifier::external_body] const TOPIC_KEY: Key = Key([1; 8]); }
impl Topic for TpA { type Message = u16; const PATH: &'static str = ""; #[verifier::external_body] const TOPIC_KEY: Key = Key([1; 8]); }
impl Topic for TpS { type Message = u64; const PATH: &'static str = ""; #[verifier::external_body] const TOPIC_KEY: Key = Key([1; 8]); }

spec fn ep_in(m: &EndpointMap) -> Seq<Key> { Seq::new(m.endpoints@.len(), |i: int| m.endpoints@[i].1) }
spec fn ep_out(m: &EndpointMap) -> Seq<Key> { Seq::new(m.endpoints@.len(), |i: int| m.endpoints@[i].2) }
spec fn tp_keys(m: &TopicMap) -> Seq<Key> { Seq::new(m.topics@.len(), |i: int| m.topics@[i].1) }
/// every key the device can receive / send
spec fn in_keys(e: &EndpointMap, i: &TopicMap) -> Seq<Key> { ep_in(e) + tp_keys(i) }
spec fn out_keys(e: &EndpointMap, o: &TopicMap) -> Seq<Key> { ep_out(e) + tp_keys(o) + seq![error_key()] }
spec fn distinct_flat(k: Seq<Key>, w: nat) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> compact(#[trigger] k[i].0@, w) != compact(#[trigger] k[j].0@, w) }
spec fn subset(a: Seq<Key>, b: Seq<Key>) -> bool { forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]) }
spec fn vw(w: nat) -> bool { w == 1 || w == 2 || w == 4 || w == 8 }
spec fn least(k: Seq<Key>, w: nat) -> bool { vw(w) && distinct_flat(k, w) && forall|v: nat| vw(v) && v < w ==> !#[trigger] distinct_flat(k, v) }

//@ fn a_is_subset_of_b ret r
    ensures r == subset(a@, b@)
//@ loop 0
    invariant i <= a@.len(), forall|q: int| 0 <= q < i ==> b@.contains(#[trigger] a@[q]),
    decreases a@.len() - i
//@ loop 1
    invariant_except_break !matched, j <= b@.len(), forall|q: int| 0 <= q < j ==> b@[q] != a@[i as int],
    invariant i < a@.len(), le8(x) == a@[i as int].0@,
    ensures matched == b@.contains(a@[i as int]),
    decreases b@.len() - j
//@ hint after /let y =/
    proof { inj8(x, y); assert(le8(y) == b@[j as int].0@); if x == y { assert(a@[i as int].0 =~= b@[j as int].0); assert(b@.contains(a@[i as int])); } else { assert(b@[j as int] != a@[i as int]); } }
//@ fn EP_IN_KEYS ret r
    requires sizes(EPS, TIN, TOUT, EP_IN_KEYS_SZ, EP_OUT_KEYS_SZ, TP_IN_KEYS_SZ, TP_OUT_KEYS_SZ)
    ensures r@ == ep_in(EPS)
//@ loop 0
    invariant sizes(EPS, TIN, TOUT, EP_IN_KEYS_SZ, EP_OUT_KEYS_SZ, TP_IN_KEYS_SZ, TP_OUT_KEYS_SZ), i <= keys@.len(), keys@.len() == EP_IN_KEYS_SZ, forall|q: int| 0 <= q < i ==> #[trigger] keys@[q] == EPS.endpoints@[q].1,
    decreases keys@.len() - i
//@ hint loop 0 after
    proof { assert(keys@ =~= ep_in(EPS)); }
//@ fn EP_OUT_KEYS ret r
    requires sizes(EPS, TIN, TOUT, EP_IN_KEYS_SZ, EP_OUT_KEYS_SZ, TP_IN_KEYS_SZ, TP_OUT_KEYS_SZ)
    ensures r@ == ep_out(EPS)
//@ loop 0
    invariant sizes(EPS, TIN, TOUT, EP_IN_KEYS_SZ, EP_OUT_KEYS_SZ, TP_IN_KEYS_SZ, TP_OUT_KEYS_SZ), i <= keys@.len(), keys@.len() == EP_OUT_KEYS_SZ, forall|q: int| 0 <= q < i ==> #[trigger] keys@[q] == EPS.endpoints@[q].2,
    decreases keys@.len() - i
//@ hint loop 0 after
    proof { assert(keys@ =~= ep_out(EPS)); }
//@ fn TP_IN_KEYS ret r
    requires sizes(EPS, TIN, TOUT, EP_IN_KEYS_SZ, EP_OUT_KEYS_SZ, TP_IN_KEYS_SZ, TP_OUT_KEYS_SZ)
    ensures r@ == tp_keys(TIN)
//@ loop 0
    invariant sizes(EPS, TIN, TOUT, EP_IN_KEYS_SZ, EP_OUT_KEYS_SZ, TP_IN_KEYS_SZ, TP_OUT_KEYS_SZ), i <= keys@.len(), keys@.len() == TP_IN_KEYS_SZ, forall|q: int| 0 <= q < i ==> #[trigger] keys@[q] == TIN.topics@[q].1,
    decreases keys@.len() - i
//@ hint loop 0 after
    proof { assert(keys@ =~= tp_keys(TIN)); }
//@ fn TP_OUT_KEYS ret r
    requires sizes(EPS, TIN, TOUT, EP_IN_KEYS_SZ, EP_OUT_KEYS_SZ, TP_IN_KEYS_SZ, TP_OUT_KEYS_SZ)
    ensures r@ == tp_keys(TOUT)
//@ loop 0
    invariant sizes(EPS, TIN, TOUT, EP_IN_KEYS_SZ, EP_OUT_KEYS_SZ, TP_IN_KEYS_SZ, TP_OUT_KEYS_SZ), i <= keys@.len(), keys@.len() == TP_OUT_KEYS_SZ, forall|q: int| 0 <= q < i ==> #[trigger] keys@[q] == TOUT.topics@[q].1,
    decreases keys@.len() - i
//@ hint loop 0 after
    proof { assert(keys@ =~= tp_keys(TOUT)); }
//@ fn EP_HANDLER_IN_KEYS ret r
    ensures r@ =~= seq![EpB::REQ_KEY, EpA::REQ_KEY, EpS::REQ_KEY]
//@ fn EP_HANDLER_OUT_KEYS ret r
    ensures r@ =~= seq![EpB::RESP_KEY, EpA::RESP_KEY, EpS::RESP_KEY]
//@ fn TP_HANDLER_IN_KEYS ret r
    ensures r@ =~= seq![TpB::TOPIC_KEY, TpA::TOPIC_KEY, TpS::TOPIC_KEY]
//@ fn NEEDED_SZ_IN ret r
    requires sizes(EPS, TIN, TOUT, EP_IN_KEYS_SZ, EP_OUT_KEYS_SZ, TP_IN_KEYS_SZ, TP_OUT_KEYS_SZ)
    ensures least(in_keys(EPS, TIN), r as nat)
//@ hint start
    proof { flatten(in_keys(EPS, TIN)); }
//@ fn NEEDED_SZ_OUT ret r
    requires sizes(EPS, TIN, TOUT, EP_IN_KEYS_SZ, EP_OUT_KEYS_SZ, TP_IN_KEYS_SZ, TP_OUT_KEYS_SZ)
    ensures least(out_keys(EPS, TOUT), r as nat)
//@ hint start
    proof { flatten(out_keys(EPS, TOUT)); }
//@ fn NEEDED_SZ ret r
    requires sizes(EPS, TIN, TOUT, EP_IN_KEYS_SZ, EP_OUT_KEYS_SZ, TP_IN_KEYS_SZ, TP_OUT_KEYS_SZ)
    ensures needed_ok(EPS, TIN, TOUT, r as nat)
//@ hint start
    proof { monotone(in_keys(EPS, TIN)); monotone(out_keys(EPS, TOUT)); }
//@ fn DEVICE_MAP ret r
    requires sizes(EPS, TIN, TOUT, EP_IN_KEYS_SZ, EP_OUT_KEYS_SZ, TP_IN_KEYS_SZ, TP_OUT_KEYS_SZ)
    ensures needed_ok(EPS, TIN, TOUT, kwidth(r.min_key_len)), r.endpoints@ == EPS.endpoints@, r.topics_in@ == TIN.topics@, r.topics_out@ == TOUT.topics@,
//@ fn APP_WIDTH ret r
    requires sizes(EPS, TIN, TOUT, EP_IN_KEYS_SZ, EP_OUT_KEYS_SZ, TP_IN_KEYS_SZ, TP_OUT_KEYS_SZ)
    ensures needed_ok(EPS, TIN, TOUT, r as nat)
//@ text
/// C05 for a dispatcher: the smallest width at which neither the keys it receives nor the keys it sends collide,
/// and every handler's keys are in the lists (otherwise building the dispatcher is refused)
spec fn needed_ok(e: &EndpointMap, i: &TopicMap, o: &TopicMap, w: nat) -> bool {
    &&& vw(w) && distinct_flat(in_keys(e, i), w) && distinct_flat(out_keys(e, o), w)
    &&& forall|v: nat| vw(v) && v < w ==> !(#[trigger] distinct_flat(in_keys(e, i), v) && distinct_flat(out_keys(e, o), v))
    &&& subset(seq![EpB::REQ_KEY, EpA::REQ_KEY, EpS::REQ_KEY], ep_in(e))
    &&& subset(seq![EpB::RESP_KEY, EpA::RESP_KEY, EpS::RESP_KEY], ep_out(e))
    &&& subset(seq![TpB::TOPIC_KEY, TpA::TOPIC_KEY, TpS::TOPIC_KEY], tp_keys(i))
}

/// position of the q-th key of the concatenation
spec fn row_of(l: Seq<&[Key]>, q: int) -> int { if q < l[0]@.len() { 0 } else if q < l[0]@.len() + l[1]@.len() { 1 } else { 2 } }
spec fn col_of(l: Seq<&[Key]>, q: int) -> int { if q < l[0]@.len() { q } else if q < l[0]@.len() + l[1]@.len() { q - l[0]@.len() } else { q - l[0]@.len() - l[1]@.len() } }
spec fn pos_of(l: Seq<&[Key]>, i: int, j: int) -> int { if i == 0 { j } else if i == 1 { l[0]@.len() + j } else { l[0]@.len() + l[1]@.len() + j } }
spec fn cat(l: Seq<&[Key]>) -> Seq<Key> { if l.len() == 2 { l[0]@ + l[1]@ } else { l[0]@ + l[1]@ + l[2]@ } }
proof fn flat(l: Seq<&[Key]>, w: nat) requires l.len() == 2 || l.len() == 3 ensures distinct(l, w) == distinct_flat(cat(l), w)
{
    let k = cat(l);
    if distinct(l, w) {
        assert forall|i: int, j: int| 0 <= i < j < k.len() implies compact(#[trigger] k[i].0@, w) != compact(#[trigger] k[j].0@, w) by {
            assert(inr(l, row_of(l, i), col_of(l, i)) && inr(l, row_of(l, j), col_of(l, j)) && before(row_of(l, i), col_of(l, i), row_of(l, j), col_of(l, j)));
            assert(sk(l, row_of(l, i), col_of(l, i), w) != sk(l, row_of(l, j), col_of(l, j), w));
        }
    }
    if distinct_flat(k, w) {
        assert forall|i: int, j: int, x: int, y: int| inr(l, i, j) && inr(l, x, y) && before(i, j, x, y) implies #[trigger] sk(l, i, j, w) != #[trigger] sk(l, x, y, w) by {
            assert(0 <= pos_of(l, i, j) < pos_of(l, x, y) < k.len());
            assert(k[pos_of(l, i, j)] == l[i]@[j] && k[pos_of(l, x, y)] == l[x]@[y]);
        }
    }
}
proof fn flatten(k: Seq<Key>) ensures forall|l: Seq<&[Key]>, w0: nat, w: nat| #![trigger distinct(l, w0), distinct_flat(k, w)] (l.len() == 2 || l.len() == 3) && cat(l) =~= k ==> distinct(l, w) == distinct_flat(k, w)
{
    assert forall|l: Seq<&[Key]>, w0: nat, w: nat| #![trigger distinct(l, w0), distinct_flat(k, w)] (l.len() == 2 || l.len() == 3) && cat(l) =~= k implies distinct(l, w) == distinct_flat(k, w) by { flat(l, w); }
}
proof fn monotone(k: Seq<Key>) ensures forall|v: nat, w: nat| vw(v) && vw(w) && v <= w && #[trigger] distinct_flat(k, v) ==> #[trigger] distinct_flat(k, w)
{
    assert forall|v: nat, w: nat| vw(v) && vw(w) && v <= w && #[trigger] distinct_flat(k, v) implies #[trigger] distinct_flat(k, w) by {
        assert forall|i: int, j: int| 0 <= i < j < k.len() implies compact(#[trigger] k[i].0@, w) != compact(#[trigger] k[j].0@, w) by {
            thm_c03_coherent(k[i].0@, w, v); thm_c03_coherent(k[j].0@, w, v);
        }
    }
}
