// =====================================================================
// Key-width unit: contract for server::min_key_needed (macro-expanded text)
// =====================================================================
spec fn le8(x: u64) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8,
    ((x >> 32) & 0xff) as u8, ((x >> 40) & 0xff) as u8, ((x >> 48) & 0xff) as u8, (x >> 56) as u8] }
fn vx_u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures le8(r) == b@ {
    let (b0, b1, b2, b3, b4, b5, b6, b7) = (b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]);
    let r = (b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56);
    proof {
        assert(r & 0xff == b0 as u64 && (r >> 8) & 0xff == b1 as u64 && (r >> 16) & 0xff == b2 as u64 && (r >> 24) & 0xff == b3 as u64
            && (r >> 32) & 0xff == b4 as u64 && (r >> 40) & 0xff == b5 as u64 && (r >> 48) & 0xff == b6 as u64 && r >> 56 == b7 as u64) by (bit_vector)
            requires r == (b0 as u64) | ((b1 as u64) << 8) | ((b2 as u64) << 16) | ((b3 as u64) << 24) | ((b4 as u64) << 32) | ((b5 as u64) << 40) | ((b6 as u64) << 48) | ((b7 as u64) << 56);
        assert(le8(r) =~= b@);
    }
    r
}
/// `panic!` (renamed from the expanded call): never returns
#[verifier::external_body]
fn vx_panic<T>() -> (r: T) ensures false { panic!() }

/// no Rust object is larger than isize::MAX bytes (language guarantee, assumed)
#[verifier::external_body]
proof fn axiom_key_slice_len(s: &[Key]) ensures s@.len() <= usize::MAX {}
spec fn inr(l: Seq<&[Key]>, i: int, j: int) -> bool { 0 <= i < l.len() && 0 <= j < l[i]@.len() }
spec fn sk(l: Seq<&[Key]>, i: int, j: int, w: nat) -> Seq<u8> { compact(l[i]@[j].0@, w) }
proof fn inj1(a: u8, b: u8) ensures seq![a] == seq![b] ==> a == b { if seq![a] == seq![b] { assert(seq![a][0] == seq![b][0]); } }
proof fn inj2(a: u16, b: u16) ensures le2(a) == le2(b) ==> a == b {
    if le2(a) == le2(b) { assert(le2(a)[0] == le2(b)[0]); assert(le2(a)[1] == le2(b)[1]); assert(((a & 0xff) as u8 == (b & 0xff) as u8 && (a >> 8) as u8 == (b >> 8) as u8) ==> a == b) by (bit_vector); }
}
proof fn inj4(a: u32, b: u32) ensures le4(a) == le4(b) ==> a == b {
    if le4(a) == le4(b) { assert(le4(a)[0] == le4(b)[0]); assert(le4(a)[1] == le4(b)[1]); assert(le4(a)[2] == le4(b)[2]); assert(le4(a)[3] == le4(b)[3]); assert(((a & 0xff) as u8 == (b & 0xff) as u8 && ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8 && ((a >> 16) & 0xff) as u8 == ((b >> 16) & 0xff) as u8 && (a >> 24) as u8 == (b >> 24) as u8) ==> a == b) by (bit_vector); }
}
proof fn inj8(a: u64, b: u64) ensures le8(a) == le8(b) ==> a == b {
    if le8(a) == le8(b) { assert(le8(a)[0] == le8(b)[0]); assert(le8(a)[1] == le8(b)[1]); assert(le8(a)[2] == le8(b)[2]); assert(le8(a)[3] == le8(b)[3]); assert(le8(a)[4] == le8(b)[4]); assert(le8(a)[5] == le8(b)[5]); assert(le8(a)[6] == le8(b)[6]); assert(le8(a)[7] == le8(b)[7]); assert(((a & 0xff) as u8 == (b & 0xff) as u8 && ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8 && ((a >> 16) & 0xff) as u8 == ((b >> 16) & 0xff) as u8 && ((a >> 24) & 0xff) as u8 == ((b >> 24) & 0xff) as u8 && ((a >> 32) & 0xff) as u8 == ((b >> 32) & 0xff) as u8 && ((a >> 40) & 0xff) as u8 == ((b >> 40) & 0xff) as u8 && ((a >> 48) & 0xff) as u8 == ((b >> 48) & 0xff) as u8 && (a >> 56) as u8 == (b >> 56) as u8) ==> a == b) by (bit_vector); }
}
spec fn before(i: int, j: int, x: int, y: int) -> bool { i < x || (i == x && j < y) }
/// no two keys of the lists are the same once shortened to w bytes
spec fn distinct(l: Seq<&[Key]>, w: nat) -> bool {
    forall|i: int, j: int, x: int, y: int| inr(l, i, j) && inr(l, x, y) && before(i, j, x, y) ==> #[trigger] sk(l, i, j, w) != #[trigger] sk(l, x, y, w)
}
/// every pair whose first key comes before position (a, b) is distinct
spec fn upto(l: Seq<&[Key]>, w: nat, a: int, b: int) -> bool {
    forall|i: int, j: int, x: int, y: int| inr(l, i, j) && before(i, j, a, b) && inr(l, x, y) && before(i, j, x, y) ==> #[trigger] sk(l, i, j, w) != #[trigger] sk(l, x, y, w)
}
/// the key at (i, j) differs from every later key before position (c, d)
spec fn row(l: Seq<&[Key]>, w: nat, i: int, j: int, c: int, d: int) -> bool {
    forall|x: int, y: int| inr(l, x, y) && before(i, j, x, y) && before(x, y, c, d) ==> #[trigger] sk(l, x, y, w) != sk(l, i, j, w)
}
//@ fn min_key_needed::one ret r
    ensures seq![r] == compact(key.0@, 1)
//@ fn min_key_needed::two ret r
    ensures le2(r) == compact(key.0@, 2)
//@ fn min_key_needed::four ret r
    ensures le4(r) == compact(key.0@, 4)
//@ fn min_key_needed::eight ret r
    ensures le8(r) == compact(key.0@, 8)
//@ fn min_key_needed ret r
    ensures
        r == 1 || r == 2 || r == 4 || r == 8,
        distinct(lists@, r as nat),
        forall|w: nat| (w == 1 || w == 2 || w == 4 || w == 8) && w < r ==> !#[trigger] distinct(lists@, w),
//@ loop 0
    invariant_except_break good, i <= lists@.len(), upto(lists@, 1, i as int, 0),
    ensures good == distinct(lists@, 1),
    decreases lists@.len() - i
//@ loop 1
    invariant good, i < lists@.len(), ilist == lists@[i as int], j <= ilist@.len(), upto(lists@, 1, i as int, j as int),
    decreases ilist@.len() - j
//@ loop 2
    invariant good, i < lists@.len(), ilist == lists@[i as int], j < ilist@.len() <= usize::MAX, i <= x <= lists@.len(), seq![akey] == sk(lists@, i as int, j as int, 1),
        row(lists@, 1, i as int, j as int, x as int, 0),
    decreases lists@.len() - x
//@ loop 3
    invariant good, i < lists@.len(), ilist == lists@[i as int], j < ilist@.len() <= usize::MAX, i <= x < lists@.len(), xlist == lists@[x as int], seq![akey] == sk(lists@, i as int, j as int, 1),
        x == i ==> y > j, row(lists@, 1, i as int, j as int, x as int, y as int),
    decreases xlist@.len() - y
//@ hint after /let akey/ 0
    proof { assert(ilist@.len() <= usize::MAX) by { axiom_key_slice_len(ilist); } assert(jkey == ilist@[j as int]); assert(seq![akey] == sk(lists@, i as int, j as int, 1)); }
//@ hint after /let bkey/ 0
    proof { assert(ykey == xlist@[y as int]); assert(seq![bkey] == sk(lists@, x as int, y as int, 1)); }
//@ hint before /y \+= 1;/ 0
    proof { inj1(akey, bkey); }
//@ hint before /good = false;/ 0
    proof { assert(inr(lists@, i as int, j as int) && inr(lists@, x as int, y as int) && sk(lists@, i as int, j as int, 1) == sk(lists@, x as int, y as int, 1) && !distinct(lists@, 1)); }
//@ loop 4
    invariant_except_break good, i <= lists@.len(), upto(lists@, 2, i as int, 0),
    ensures good == distinct(lists@, 2),
    decreases lists@.len() - i
//@ loop 5
    invariant good, i < lists@.len(), ilist == lists@[i as int], j <= ilist@.len(), upto(lists@, 2, i as int, j as int),
    decreases ilist@.len() - j
//@ loop 6
    invariant good, i < lists@.len(), ilist == lists@[i as int], j < ilist@.len() <= usize::MAX, i <= x <= lists@.len(), le2(akey) == sk(lists@, i as int, j as int, 2),
        row(lists@, 2, i as int, j as int, x as int, 0),
    decreases lists@.len() - x
//@ loop 7
    invariant good, i < lists@.len(), ilist == lists@[i as int], j < ilist@.len() <= usize::MAX, i <= x < lists@.len(), xlist == lists@[x as int], le2(akey) == sk(lists@, i as int, j as int, 2),
        x == i ==> y > j, row(lists@, 2, i as int, j as int, x as int, y as int),
    decreases xlist@.len() - y
//@ hint after /let akey/ 1
    proof { assert(ilist@.len() <= usize::MAX) by { axiom_key_slice_len(ilist); } assert(jkey == ilist@[j as int]); assert(le2(akey) == sk(lists@, i as int, j as int, 2)); }
//@ hint after /let bkey/ 1
    proof { assert(ykey == xlist@[y as int]); assert(le2(bkey) == sk(lists@, x as int, y as int, 2)); }
//@ hint before /y \+= 1;/ 1
    proof { inj2(akey, bkey); }
//@ hint before /good = false;/ 1
    proof { assert(inr(lists@, i as int, j as int) && inr(lists@, x as int, y as int) && sk(lists@, i as int, j as int, 2) == sk(lists@, x as int, y as int, 2) && !distinct(lists@, 2)); }
//@ loop 8
    invariant_except_break good, i <= lists@.len(), upto(lists@, 4, i as int, 0),
    ensures good == distinct(lists@, 4),
    decreases lists@.len() - i
//@ loop 9
    invariant good, i < lists@.len(), ilist == lists@[i as int], j <= ilist@.len(), upto(lists@, 4, i as int, j as int),
    decreases ilist@.len() - j
//@ loop 10
    invariant good, i < lists@.len(), ilist == lists@[i as int], j < ilist@.len() <= usize::MAX, i <= x <= lists@.len(), le4(akey) == sk(lists@, i as int, j as int, 4),
        row(lists@, 4, i as int, j as int, x as int, 0),
    decreases lists@.len() - x
//@ loop 11
    invariant good, i < lists@.len(), ilist == lists@[i as int], j < ilist@.len() <= usize::MAX, i <= x < lists@.len(), xlist == lists@[x as int], le4(akey) == sk(lists@, i as int, j as int, 4),
        x == i ==> y > j, row(lists@, 4, i as int, j as int, x as int, y as int),
    decreases xlist@.len() - y
//@ hint after /let akey/ 2
    proof { assert(ilist@.len() <= usize::MAX) by { axiom_key_slice_len(ilist); } assert(jkey == ilist@[j as int]); assert(le4(akey) == sk(lists@, i as int, j as int, 4)); }
//@ hint after /let bkey/ 2
    proof { assert(ykey == xlist@[y as int]); assert(le4(bkey) == sk(lists@, x as int, y as int, 4)); }
//@ hint before /y \+= 1;/ 2
    proof { inj4(akey, bkey); }
//@ hint before /good = false;/ 2
    proof { assert(inr(lists@, i as int, j as int) && inr(lists@, x as int, y as int) && sk(lists@, i as int, j as int, 4) == sk(lists@, x as int, y as int, 4) && !distinct(lists@, 4)); }
//@ loop 12
    invariant_except_break good, i <= lists@.len(), upto(lists@, 8, i as int, 0),
    ensures good == distinct(lists@, 8),
    decreases lists@.len() - i
//@ loop 13
    invariant good, i < lists@.len(), ilist == lists@[i as int], j <= ilist@.len(), upto(lists@, 8, i as int, j as int),
    decreases ilist@.len() - j
//@ loop 14
    invariant good, i < lists@.len(), ilist == lists@[i as int], j < ilist@.len() <= usize::MAX, i <= x <= lists@.len(), le8(akey) == sk(lists@, i as int, j as int, 8),
        row(lists@, 8, i as int, j as int, x as int, 0),
    decreases lists@.len() - x
//@ loop 15
    invariant good, i < lists@.len(), ilist == lists@[i as int], j < ilist@.len() <= usize::MAX, i <= x < lists@.len(), xlist == lists@[x as int], le8(akey) == sk(lists@, i as int, j as int, 8),
        x == i ==> y > j, row(lists@, 8, i as int, j as int, x as int, y as int),
    decreases xlist@.len() - y
//@ hint after /let akey/ 3
    proof { assert(ilist@.len() <= usize::MAX) by { axiom_key_slice_len(ilist); } assert(jkey == ilist@[j as int]); assert(le8(akey) == sk(lists@, i as int, j as int, 8)); }
//@ hint after /let bkey/ 3
    proof { assert(ykey == xlist@[y as int]); assert(le8(bkey) == sk(lists@, x as int, y as int, 8)); }
//@ hint before /y \+= 1;/ 3
    proof { inj8(akey, bkey); }
//@ hint before /good = false;/ 3
    proof { assert(inr(lists@, i as int, j as int) && inr(lists@, x as int, y as int) && sk(lists@, i as int, j as int, 8) == sk(lists@, x as int, y as int, 8) && !distinct(lists@, 8)); }
//@ hint before /::core::panicking/
    proof { assert(!distinct(lists@, 8)); }
//@ text
