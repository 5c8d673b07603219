// =====================================================================
// Wire header unit: contracts for lib.rs (Key1/Key2/Key4) and header.rs
// =====================================================================
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;

// ----- dependency: postcard_schema::key::Key (assumed: an opaque 8-byte value) -----
#[derive(Clone, Copy)]
struct Key([u8; 8]);
impl Key {
    fn to_bytes(&self) -> (r: [u8; 8]) ensures r == self.0 { self.0 }
    unsafe fn from_bytes(bytes: [u8; 8]) -> (r: Key) ensures r.0 == bytes { Key(bytes) }
}

// ----- assumed contracts on core (not in vstd) -----
spec fn le2(x: u16) -> Seq<u8> { seq![(x & 0xff) as u8, (x >> 8) as u8] }
spec fn le4(x: u32) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, (x >> 24) as u8] }
// `.to_le_bytes()` / `uN::from_le_bytes` are renamed to these (Verus cannot name core's versions)
trait VxLe: Sized + Copy { type B; spec fn le(self) -> Self::B; fn vx_to_le_bytes(self) -> (r: Self::B) ensures r == self.le(); }
spec fn arr2(s: Seq<u8>) -> [u8; 2] { choose|a: [u8; 2]| a@ == s }
spec fn arr4(s: Seq<u8>) -> [u8; 4] { choose|a: [u8; 4]| a@ == s }
impl VxLe for u16 {
    type B = [u8; 2];
    spec fn le(self) -> [u8; 2] { arr2(le2(self)) }
    fn vx_to_le_bytes(self) -> (r: [u8; 2]) {
        let r = [(self & 0xff) as u8, (self >> 8) as u8];
        proof { assert(r@ =~= le2(self)); assert(r =~= arr2(le2(self))); }
        r
    }
}
impl VxLe for u32 {
    type B = [u8; 4];
    spec fn le(self) -> [u8; 4] { arr4(le4(self)) }
    fn vx_to_le_bytes(self) -> (r: [u8; 4]) {
        let r = [(self & 0xff) as u8, ((self >> 8) & 0xff) as u8, ((self >> 16) & 0xff) as u8, (self >> 24) as u8];
        proof { assert(r@ =~= le4(self)); assert(r =~= arr4(le4(self))); }
        r
    }
}
proof fn le_facts() ensures forall|x: u16| #[trigger] x.le()@ == le2(x), forall|x: u32| #[trigger] x.le()@ == le4(x)
{
    assert forall|x: u16| #[trigger] x.le()@ == le2(x) by { let a = [(x & 0xff) as u8, (x >> 8) as u8]; assert(a@ =~= le2(x)); }
    assert forall|x: u32| #[trigger] x.le()@ == le4(x) by {
        let a = [(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, (x >> 24) as u8]; assert(a@ =~= le4(x)); }
}
fn vx_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures le2(r) == b@ {
    let (x, y) = (b[0], b[1]);
    let r = (x as u16) | ((y as u16) << 8);
    proof {
        assert(((x as u16) | ((y as u16) << 8)) & 0xff == x as u16) by (bit_vector);
        assert(((x as u16) | ((y as u16) << 8)) >> 8 == y as u16) by (bit_vector);
        assert(le2(r) =~= b@);
    }
    r
}
fn vx_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures le4(r) == b@ {
    let (x, y, z, w) = (b[0], b[1], b[2], b[3]);
    let r = (x as u32) | ((y as u32) << 8) | ((z as u32) << 16) | ((w as u32) << 24);
    proof {
        let q = (x as u32) | ((y as u32) << 8) | ((z as u32) << 16) | ((w as u32) << 24);
        assert(q & 0xff == x as u32 && (q >> 8) & 0xff == y as u32 && (q >> 16) & 0xff == z as u32 && q >> 24 == w as u32) by (bit_vector)
            requires q == (x as u32) | ((y as u32) << 8) | ((z as u32) << 16) | ((w as u32) << 24);
        assert(le4(r) =~= b@);
    }
    r
}
pub assume_specification<T> [<[T]>::split_at_mut_checked] (s: &mut [T], mid: usize) -> (r: Option<(&mut [T], &mut [T])>)
  ensures
    mid > old(s)@.len() ==> r is None && final(s)@ == old(s)@,
    mid <= old(s)@.len() ==> r is Some
       && r->Some_0.0@ == old(s)@.subrange(0, mid as int)
       && r->Some_0.1@ == old(s)@.subrange(mid as int, old(s)@.len() as int)
       && final(s)@ == final(r->Some_0.0)@ + final(r->Some_0.1)@,
;

// ----- specification: the documented key compaction -----
spec fn compact(s: Seq<u8>, w: nat) -> Seq<u8> {
    if s.len() == 8 && w == 4 { seq![s[0] ^ s[1], s[2] ^ s[3], s[4] ^ s[5], s[6] ^ s[7]] }
    else if s.len() == 8 && w == 2 { seq![s[0] ^ s[1] ^ s[2] ^ s[3], s[4] ^ s[5] ^ s[6] ^ s[7]] }
    else if s.len() == 8 && w == 1 { seq![s[0] ^ s[1] ^ s[2] ^ s[3] ^ s[4] ^ s[5] ^ s[6] ^ s[7]] }
    else if s.len() == 4 && w == 2 { seq![s[0] ^ s[1], s[2] ^ s[3]] }
    else if s.len() == 4 && w == 1 { seq![s[0] ^ s[1] ^ s[2] ^ s[3]] }
    else if s.len() == 2 && w == 1 { seq![s[0] ^ s[1]] }
    else { s }
}
spec fn kbytes(k: VarKey) -> Seq<u8> {
    match k { VarKey::Key1(k) => seq![k.0], VarKey::Key2(k) => k.0@, VarKey::Key4(k) => k.0@, VarKey::Key8(k) => k.0@ }
}
spec fn kwidth(k: VarKeyKind) -> nat {
    match k { VarKeyKind::Key1 => 1, VarKeyKind::Key2 => 2, VarKeyKind::Key4 => 4, VarKeyKind::Key8 => 8 }
}
spec fn swidth(k: VarSeqKind) -> nat { match k { VarSeqKind::Seq1 => 1, VarSeqKind::Seq2 => 2, VarSeqKind::Seq4 => 4 } }
spec fn sval(s: VarSeq) -> u32 { match s { VarSeq::Seq1(v) => v as u32, VarSeq::Seq2(v) => v as u32, VarSeq::Seq4(v) => v } }
spec fn sbytes(s: VarSeq) -> Seq<u8> { match s { VarSeq::Seq1(v) => seq![v], VarSeq::Seq2(v) => le2(v), VarSeq::Seq4(v) => le4(v) } }
spec fn min2(a: nat, b: nat) -> nat { if a <= b { a } else { b } }
spec fn keq(a: VarKey, b: VarKey) -> bool {
    let m = min2(kbytes(a).len(), kbytes(b).len());
    compact(kbytes(a), m) == compact(kbytes(b), m)
}

// ----- specification: the documented header wire format -----
spec fn disc(k: VarKey, s: VarSeq) -> u8 {
    (match k { VarKey::Key1(_) => 0x00u8, VarKey::Key2(_) => 0x40u8, VarKey::Key4(_) => 0x80u8, VarKey::Key8(_) => 0xC0u8 })
    | (match s { VarSeq::Seq1(_) => 0x00u8, VarSeq::Seq2(_) => 0x10u8, VarSeq::Seq4(_) => 0x20u8 })
}
spec fn enc(h: VarHeader) -> Seq<u8> { seq![disc(h.key, h.seq_no)] + kbytes(h.key) + sbytes(h.seq_no) }
spec fn dk(b: u8) -> nat { if b >> 6 == 0 { 1 } else if b >> 6 == 1 { 2 } else if b >> 6 == 2 { 4 } else { 8 } }
spec fn ds(b: u8) -> nat { let m = (b >> 4) & 3; if m == 0 { 1 } else if m == 1 { 2 } else { 4 } }
spec fn dec_ok(b: Seq<u8>) -> bool {
    b.len() >= 1 && b[0] & 0x0f == 0 && (b[0] >> 4) & 3 != 3 && b.len() >= 1 + dk(b[0]) + ds(b[0])
}
spec fn hlen(h: VarHeader) -> nat { 1 + kbytes(h.key).len() + sbytes(h.seq_no).len() }

// ----- trait specs for the From/TryFrom/Into/PartialEq impls of the crate -----
impl PartialEqSpecImpl for VarKey {
    closed spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, other: &VarKey) -> bool { keq(*self, *other) }
}
impl PartialEqSpecImpl for VarSeq {
    closed spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, other: &VarSeq) -> bool { sval(*self) == sval(*other) }
}
impl FromSpecImpl<Key2> for Key1 {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: Key2) -> Key1 { Key1(compact(v.0@, 1)[0]) }
}
impl FromSpecImpl<Key4> for Key1 {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: Key4) -> Key1 { Key1(compact(v.0@, 1)[0]) }
}
impl FromSpecImpl<Key> for Key1 {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: Key) -> Key1 { Key1(compact(v.0@, 1)[0]) }
}
spec fn mk2(s: Seq<u8>) -> Key2 { Key2([s[0], s[1]]) }
spec fn mk4(s: Seq<u8>) -> Key4 { Key4([s[0], s[1], s[2], s[3]]) }
broadcast proof fn mk2_inv(k: Key2) ensures #[trigger] mk2(k.0@) == k { assert(mk2(k.0@).0 =~= k.0); }
broadcast proof fn mk4_inv(k: Key4) ensures #[trigger] mk4(k.0@) == k { assert(mk4(k.0@).0 =~= k.0); }
impl FromSpecImpl<Key4> for Key2 {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: Key4) -> Key2 { mk2(compact(v.0@, 2)) }
}
impl FromSpecImpl<Key> for Key2 {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: Key) -> Key2 { mk2(compact(v.0@, 2)) }
}
impl FromSpecImpl<Key> for Key4 {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: Key) -> Key4 { mk4(compact(v.0@, 4)) }
}
impl<'a> TryFromSpecImpl<&'a VarKey> for Key1 {
    closed spec fn obeys_try_from_spec() -> bool { true }
    closed spec fn try_from_spec(v: &'a VarKey) -> Result<Key1, TooSmall> { Ok(Key1(compact(kbytes(*v), 1)[0])) }
}
impl<'a> TryFromSpecImpl<&'a VarKey> for Key2 {
    closed spec fn obeys_try_from_spec() -> bool { true }
    closed spec fn try_from_spec(v: &'a VarKey) -> Result<Key2, TooSmall> {
        if kbytes(*v).len() >= 2 { Ok(mk2(compact(kbytes(*v), 2))) } else { Err(TooSmall) } }
}
impl<'a> TryFromSpecImpl<&'a VarKey> for Key4 {
    closed spec fn obeys_try_from_spec() -> bool { true }
    closed spec fn try_from_spec(v: &'a VarKey) -> Result<Key4, TooSmall> {
        if kbytes(*v).len() >= 4 { Ok(mk4(compact(kbytes(*v), 4))) } else { Err(TooSmall) } }
}
impl<'a> TryFromSpecImpl<&'a VarKey> for Key {
    closed spec fn obeys_try_from_spec() -> bool { true }
    closed spec fn try_from_spec(v: &'a VarKey) -> Result<Key, TooSmall> {
        match *v { VarKey::Key8(k) => Ok(k), _ => Err(TooSmall) } }
}
impl FromSpecImpl<u8> for VarSeq {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: u8) -> VarSeq { VarSeq::Seq1(v) }
}
impl FromSpecImpl<u16> for VarSeq {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: u16) -> VarSeq { VarSeq::Seq2(v) }
}
impl FromSpecImpl<u32> for VarSeq {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: u32) -> VarSeq { VarSeq::Seq4(v) }
}
impl IntoSpecImpl<u8> for VarSeq {
    closed spec fn obeys_into_spec() -> bool { true }
    closed spec fn into_spec(self) -> u8 { sval(self) as u8 }
}
impl IntoSpecImpl<u16> for VarSeq {
    closed spec fn obeys_into_spec() -> bool { true }
    closed spec fn into_spec(self) -> u16 { sval(self) as u16 }
}
impl IntoSpecImpl<u32> for VarSeq {
    closed spec fn obeys_into_spec() -> bool { true }
    closed spec fn into_spec(self) -> u32 { sval(self) }
}
broadcast proof fn arr_eq<const N: usize>(a: [u8;N], b: [u8;N]) ensures
   #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a@ == b@)
{
    if PartialEqSpec::eq_spec(&a, &b) {
        assert forall|i: int| 0 <= i < N implies a@[i] == b@[i] by { assert(PartialEqSpec::eq_spec(&a[i], &b[i])); }
        assert(a@ =~= b@);
    }
}
proof fn disc_facts()
    ensures
        forall|d: u8| (#[trigger] (d & 0xC0u8) == 0) <==> d >> 6 == 0,
        forall|d: u8| (#[trigger] (d & 0xC0u8) == 0x40) <==> d >> 6 == 1,
        forall|d: u8| (#[trigger] (d & 0xC0u8) == 0x80) <==> d >> 6 == 2,
        forall|d: u8| (#[trigger] (d & 0xC0u8) == 0xC0) <==> d >> 6 == 3,
        forall|d: u8| (#[trigger] (d & 0xC0u8) == 0) || (d & 0xC0u8) == 0x40 || (d & 0xC0u8) == 0x80 || (d & 0xC0u8) == 0xC0,
        forall|d: u8| (#[trigger] (d & 0x30u8) == 0) <==> (d >> 4) & 3 == 0,
        forall|d: u8| (#[trigger] (d & 0x30u8) == 0x10) <==> (d >> 4) & 3 == 1,
        forall|d: u8| (#[trigger] (d & 0x30u8) == 0x20) <==> (d >> 4) & 3 == 2,
        forall|d: u8| (#[trigger] (d & 0x30u8) == 0x30) <==> (d >> 4) & 3 == 3,
        forall|d: u8| (#[trigger] (d & 0x30u8) == 0) || (d & 0x30u8) == 0x10 || (d & 0x30u8) == 0x20 || (d & 0x30u8) == 0x30,
        forall|d: u8| #[trigger] (d & 0x0fu8) == 0 ==> d == (d & 0xC0u8) | (d & 0x30u8),
{
    assert forall|d: u8| ((#[trigger] (d & 0xC0u8) == 0) <==> d >> 6 == 0) && ((d & 0xC0u8 == 0x40) <==> d >> 6 == 1)
        && ((d & 0xC0u8 == 0x80) <==> d >> 6 == 2) && ((d & 0xC0u8 == 0xC0) <==> d >> 6 == 3)
        && (d & 0xC0u8 == 0 || d & 0xC0u8 == 0x40 || d & 0xC0u8 == 0x80 || d & 0xC0u8 == 0xC0) by {
        assert(((d & 0xC0u8 == 0) <==> d >> 6 == 0) && ((d & 0xC0u8 == 0x40) <==> d >> 6 == 1)
        && ((d & 0xC0u8 == 0x80) <==> d >> 6 == 2) && ((d & 0xC0u8 == 0xC0) <==> d >> 6 == 3)
        && (d & 0xC0u8 == 0 || d & 0xC0u8 == 0x40 || d & 0xC0u8 == 0x80 || d & 0xC0u8 == 0xC0)) by (bit_vector);
    }
    assert forall|d: u8| ((#[trigger] (d & 0x30u8) == 0) <==> (d >> 4) & 3 == 0) && ((d & 0x30u8 == 0x10) <==> (d >> 4) & 3 == 1)
        && ((d & 0x30u8 == 0x20) <==> (d >> 4) & 3 == 2) && ((d & 0x30u8 == 0x30) <==> (d >> 4) & 3 == 3)
        && (d & 0x30u8 == 0 || d & 0x30u8 == 0x10 || d & 0x30u8 == 0x20 || d & 0x30u8 == 0x30) by {
        assert(((d & 0x30u8 == 0) <==> (d >> 4) & 3 == 0) && ((d & 0x30u8 == 0x10) <==> (d >> 4) & 3 == 1)
        && ((d & 0x30u8 == 0x20) <==> (d >> 4) & 3 == 2) && ((d & 0x30u8 == 0x30) <==> (d >> 4) & 3 == 3)
        && (d & 0x30u8 == 0 || d & 0x30u8 == 0x10 || d & 0x30u8 == 0x20 || d & 0x30u8 == 0x30)) by (bit_vector);
    }
    assert forall|d: u8| #[trigger] (d & 0x0fu8) == 0 implies d == (d & 0xC0u8) | (d & 0x30u8) by {
        assert((d & 0x0fu8) == 0 ==> d == (d & 0xC0u8) | (d & 0x30u8)) by (bit_vector);
    }
}

//@ fn Key1::from_key2 ret r
    ensures seq![r.0] == compact(value.0@, 1)
//@ fn Key1::from_key4 ret r
    ensures seq![r.0] == compact(value.0@, 1)
//@ fn Key1::from_key8 ret r
    ensures seq![r.0] == compact(value.0@, 1)
//@ fn Key2::from_key4 ret r
    ensures r.0@ == compact(value.0@, 2)
//@ fn Key2::from_key8 ret r
    ensures r.0@ == compact(value.0@, 2)
//@ fn Key4::from_key8 ret r
    ensures r.0@ == compact(value.0@, 4)
//@ fn Key1::to_bytes ret r
    ensures r == self.0
//@ fn Key2::to_bytes ret r
    ensures r == self.0
//@ fn Key4::to_bytes ret r
    ensures r == self.0
//@ fn Key1::try_from_varkey ret r
    ensures r is Some && seq![r->Some_0.0] == compact(kbytes(*value), 1)
//@ fn Key2::try_from_varkey ret r
    ensures r is Some <==> kbytes(*value).len() >= 2,
            r matches Some(k) ==> k.0@ == compact(kbytes(*value), 2)
//@ fn Key4::try_from_varkey ret r
    ensures r is Some <==> kbytes(*value).len() >= 4,
            r matches Some(k) ==> k.0@ == compact(kbytes(*value), 4)
//@ fn VarKey::shrink_to
    ensures
        kbytes(*final(self)) == compact(kbytes(*old(self)), kwidth(kind)),
        kbytes(*final(self)).len() == min2(kbytes(*old(self)).len(), kwidth(kind)),
//@ fn VarKey::kind ret r
    ensures kwidth(r) == kbytes(*self).len()
//@ fn VarSeq::resize
    ensures
        sbytes(*final(self)).len() == swidth(kind),
        kind is Seq1 ==> sval(*final(self)) == sval(*old(self)) as u8,
        kind is Seq2 ==> sval(*final(self)) == sval(*old(self)) as u16,
        kind is Seq4 ==> sval(*final(self)) == sval(*old(self)),
//@ fn VarHeader::write_to_vec ret r
    ensures r@ == enc(*self)
//@ hint start
    proof { le_facts(); }
//@ fn VarHeader::write_to_slice ret r
    ensures
        r is Some <==> old(buf)@.len() >= hlen(*self),
        r is None ==> final(buf)@.len() == old(buf)@.len(),
        r matches Some(p) ==> p.0@ == enc(*self)
            && p.1@ == old(buf)@.skip(hlen(*self) as int)
            && final(buf)@ == final(p.0)@ + final(p.1)@,
//@ hint start
    proof { le_facts(); }
//@ fn VarHeader::take_from_slice ret r
    ensures
        r is Some <==> dec_ok(buf@),
        r matches Some(p) ==> buf@ == enc(p.0) + p.1@,
//@ hint start
    proof { disc_facts(); }
//@ fn <Key2 as From<Key4>>::from
//@ hint start
    broadcast use mk2_inv, mk4_inv;
//@ fn <Key2 as From<Key>>::from
//@ hint start
    broadcast use mk2_inv, mk4_inv;
//@ fn <Key4 as From<Key>>::from
//@ hint start
    broadcast use mk2_inv, mk4_inv;
//@ fn <Key2 as TryFrom<&VarKey>>::try_from
//@ hint start
    broadcast use mk2_inv, mk4_inv;
//@ fn <Key4 as TryFrom<&VarKey>>::try_from
//@ hint start
    broadcast use mk2_inv, mk4_inv;
//@ fn <VarKey as PartialEq>::eq
//@ hint start
    broadcast use arr_eq;
    proof {
        assert forall|a: u8, b: u8| (#[trigger] seq![a] == #[trigger] seq![b]) <==> a == b by { assert(seq![a][0] == a && seq![b][0] == b); };
        assert(kbytes(*self).len() == 1 || kbytes(*self).len() == 2 || kbytes(*self).len() == 4 || kbytes(*self).len() == 8);
    }
//@ text

// =====================================================================
// Property theorems: lemmas over the contracts above
// =====================================================================
spec fn same_kind(a: VarHeader, b: VarHeader) -> bool {
    kbytes(a.key).len() == kbytes(b.key).len() && sbytes(a.seq_no).len() == sbytes(b.seq_no).len()
}
spec fn same_header(a: VarHeader, b: VarHeader) -> bool {
    same_kind(a, b) && kbytes(a.key) == kbytes(b.key) && sval(a.seq_no) == sval(b.seq_no)
}
proof fn disc_inj(a: VarHeader, b: VarHeader)
    requires disc(a.key, a.seq_no) == disc(b.key, b.seq_no)
    ensures same_kind(a, b)
{
    assert(forall|k: u8, s: u8, k2: u8, s2: u8| (k & 0x3f) == 0 && (k2 & 0x3f) == 0 && (s & 0xcf) == 0 && (s2 & 0xcf) == 0
        && #[trigger] (k | s) == #[trigger] (k2 | s2) ==> k == k2 && s == s2) by (bit_vector);
    assert(0u8 & 0x3f == 0 && 0x40u8 & 0x3f == 0 && 0x80u8 & 0x3f == 0 && 0xC0u8 & 0x3f == 0 && 0u8 & 0xcf == 0 && 0x10u8 & 0xcf == 0 && 0x20u8 & 0xcf == 0) by (bit_vector);
}
proof fn le_inj()
    ensures forall|x: u16, y: u16| #[trigger] le2(x) == #[trigger] le2(y) ==> x == y,
            forall|x: u32, y: u32| #[trigger] le4(x) == #[trigger] le4(y) ==> x == y,
{
    assert forall|x: u16, y: u16| #[trigger] le2(x) == #[trigger] le2(y) implies x == y by {
        assert(le2(x)[0] == le2(y)[0] && le2(x)[1] == le2(y)[1]);
        assert((x & 0xff) as u8 == (y & 0xff) as u8 && (x >> 8) as u8 == (y >> 8) as u8 ==> x == y) by (bit_vector);
    }
    assert forall|x: u32, y: u32| #[trigger] le4(x) == #[trigger] le4(y) implies x == y by {
        assert(le4(x)[0] == le4(y)[0] && le4(x)[1] == le4(y)[1] && le4(x)[2] == le4(y)[2] && le4(x)[3] == le4(y)[3]);
        assert((x & 0xff) as u8 == (y & 0xff) as u8 && ((x >> 8) & 0xff) as u8 == ((y >> 8) & 0xff) as u8
            && ((x >> 16) & 0xff) as u8 == ((y >> 16) & 0xff) as u8 && (x >> 24) as u8 == (y >> 24) as u8 ==> x == y) by (bit_vector);
    }
}
/// C01: an encoded header is self-delimiting and injective
proof fn thm_c01_self_delimiting(a: VarHeader, b: VarHeader, t: Seq<u8>, u: Seq<u8>)
    requires enc(a) + t == enc(b) + u
    ensures same_header(a, b), t == u
{
    let x = enc(a) + t; let y = enc(b) + u;
    assert(x[0] == disc(a.key, a.seq_no) && y[0] == disc(b.key, b.seq_no));
    disc_inj(a, b);
    let n = kbytes(a.key).len() as int; let m = n + 1 + sbytes(a.seq_no).len() as int;
    assert(kbytes(a.key) =~= x.subrange(1, n + 1));
    assert(kbytes(b.key) =~= y.subrange(1, n + 1));
    assert(sbytes(a.seq_no) =~= x.subrange(n + 1, m));
    assert(sbytes(b.seq_no) =~= y.subrange(n + 1, m));
    assert(t =~= x.skip(m)); assert(u =~= y.skip(m));
    le_inj();
    if sbytes(a.seq_no).len() == 1 { assert(sbytes(a.seq_no)[0] == sbytes(b.seq_no)[0]); }
}
proof fn enc_decodable(h: VarHeader, t: Seq<u8>)
    ensures dec_ok(enc(h) + t)
{
    let k = match h.key { VarKey::Key1(_) => 0x00u8, VarKey::Key2(_) => 0x40u8, VarKey::Key4(_) => 0x80u8, VarKey::Key8(_) => 0xC0u8 };
    let s = match h.seq_no { VarSeq::Seq1(_) => 0x00u8, VarSeq::Seq2(_) => 0x10u8, VarSeq::Seq4(_) => 0x20u8 };
    let d = k | s;
    assert((enc(h) + t)[0] == d);
    assert((k | s) & 0x0f == 0 && ((k | s) >> 4) & 3 == s >> 4 && (k | s) >> 6 == k >> 6) by (bit_vector)
        requires (k == 0 || k == 0x40 || k == 0x80 || k == 0xC0), (s == 0 || s == 0x10 || s == 0x20);
    assert(0x40u8 & 0x3f == 0 && 0x80u8 & 0x3f == 0 && 0xC0u8 & 0x3f == 0 && 0x10u8 & 0xcf == 0 && 0x20u8 & 0xcf == 0 && 0u8 & 0x3f == 0 && 0u8 & 0xcf == 0) by (bit_vector);
    assert(0u8 >> 6 == 0 && 0x40u8 >> 6 == 1 && 0x80u8 >> 6 == 2 && 0xC0u8 >> 6 == 3 && 0u8 >> 4 == 0 && 0x10u8 >> 4 == 1 && 0x20u8 >> 4 == 2) by (bit_vector);
    assert((enc(h) + t).len() == 1 + dk(d) + ds(d) + t.len());
}
/// C01: every header written by either writer is read back unchanged, with the following bytes as remainder
fn thm_c01_round_trip(h: VarHeader, buf: &mut [u8])
    requires old(buf)@.len() >= hlen(h)
{
    let v = h.write_to_vec();
    proof { enc_decodable(h, Seq::empty()); assert(enc(h) + Seq::<u8>::empty() =~= v@); }
    let r = VarHeader::take_from_slice(v.as_slice());
    assert(r is Some);
    proof { thm_c01_self_delimiting(h, r->Some_0.0, Seq::empty(), r->Some_0.1@); }
    assert(same_header(h, r->Some_0.0) && r->Some_0.1@.len() == 0);
    let ghost rest = buf@.skip(hlen(h) as int);
    let w = h.write_to_slice(buf);
    assert(w is Some);
    if let Some((hd, tl)) = w {
        assert(hd@ == v@ && tl@ == rest);
        let rd = VarHeader::take_from_slice(hd);
        proof { enc_decodable(h, Seq::empty()); assert(enc(h) + Seq::<u8>::empty() =~= hd@);
                assert(rd is Some);
                thm_c01_self_delimiting(h, rd->Some_0.0, Seq::empty(), rd->Some_0.1@); }
        assert(same_header(h, rd->Some_0.0));
    }
}
/// C02: decoding is determined by the bytes alone, and only accepts what encoding produces
fn thm_c02_strict(b: &[u8]) {
    let r = VarHeader::take_from_slice(b);
    if let Some((h, rest)) = r {
        assert(b@.len() == hlen(h) + rest@.len());
        assert(b@.subrange(0, hlen(h) as int) =~= enc(h));
        assert(rest@ =~= b@.skip(hlen(h) as int));
    }
}
/// C03: shortening in steps equals shortening at once
proof fn thm_c03_coherent(s: Seq<u8>, w1: nat, w2: nat)
    requires s.len() == 1 || s.len() == 2 || s.len() == 4 || s.len() == 8,
        w1 == 1 || w1 == 2 || w1 == 4 || w1 == 8, w2 == 1 || w2 == 2 || w2 == 4 || w2 == 8,
    ensures compact(compact(s, w1), w2) == compact(s, min2(w1, w2)),
        compact(s, w1).len() == min2(s.len(), w1),
        min2(s.len(), w1) == s.len() ==> compact(s, w1) == s
{
    assert(forall|a: u8, b: u8, c: u8, d: u8| #[trigger] ((a ^ b) ^ (c ^ d)) == a ^ b ^ c ^ d) by (bit_vector);
    assert(forall|a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8|
        #[trigger] ((a ^ b) ^ (c ^ d) ^ (e ^ f) ^ (g ^ h)) == a ^ b ^ c ^ d ^ e ^ f ^ g ^ h) by (bit_vector);
    assert(forall|a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8|
        #[trigger] ((a ^ b ^ c ^ d) ^ (e ^ f ^ g ^ h)) == a ^ b ^ c ^ d ^ e ^ f ^ g ^ h) by (bit_vector);
    assert(compact(compact(s, w1), w2) =~= compact(s, min2(w1, w2)));
}
/// C03: comparison across widths is reflexive, symmetric, and preserved by shortening either side
proof fn thm_c03_equality(a: VarKey, b: VarKey, c: VarKey, w: nat)
    requires w == 1 || w == 2 || w == 4 || w == 8, kbytes(c) == compact(kbytes(a), w)
    ensures keq(a, a), keq(a, b) == keq(b, a), keq(a, c), keq(c, a), keq(a, b) ==> keq(c, b)
{
    let s = kbytes(a); let t = kbytes(b);
    let mab = min2(s.len(), t.len());
    thm_c03_coherent(s, w, w);
    let mac = min2(s.len(), kbytes(c).len());
    thm_c03_coherent(s, w, mac);
    thm_c03_coherent(s, mac, mac);
    let mcb = min2(kbytes(c).len(), t.len());
    thm_c03_coherent(s, w, mcb);
    thm_c03_coherent(s, mab, mcb);
    thm_c03_coherent(t, mab, mcb);
}
/// C03: a shortened key still matches the key it came from (the real `shrink_to` and `==`)
fn thm_c03_shrink_matches(k: VarKey, kind: VarKeyKind) {
    let mut s = k;
    s.shrink_to(kind);
    proof { thm_c03_equality(k, k, s, kwidth(kind)); }
    let e = s == k;
    assert(e);
}
/// C04: widening keeps the number, truncation keeps the low bits, equality is by number
fn thm_c04_resize(s: VarSeq, kind: VarSeqKind) {
    let mut t = s;
    t.resize(kind);
    let e = t == s;
    assert(e == (sval(t) == sval(s)));
    proof {
        let v = sval(s);
        assert((v as u8) as u32 == v % 0x100 && (v as u16) as u32 == v % 0x1_0000) by (bit_vector);
        assert(v < 0x100 ==> (v as u8) as u32 == v) by (bit_vector);
        assert(v < 0x1_0000 ==> (v as u16) as u32 == v) by (bit_vector);
    }
    assert(swidth(kind) >= sbytes(s).len() ==> e);
}
