// =====================================================================
// Declared tables: endpoints!, topics!, endpoint!, topic!, concat_arrays!, the standard tables and the
// device description of define_dispatch!, as rustc expands them for the sample tables of expand/app
// (written by tools/gen_tables_contract.py from a restatement of what the tables declare)
// =====================================================================
struct SA; struct SB; struct BR; struct BT; struct WireError; struct OwnedSchemaData; struct SchemaTotals;
#[derive(Copy, Clone)] struct Key { k: u64 }
enum VarKeyKind { Key1, Key2, Key4, Key8 }
#[verifier::external_body] fn vx_width() -> VarKeyKind { unimplemented!() }
type ERow = (&'static str, Key, Key);
type TRow = (&'static str, Key);
/// the schema of a type and the key of a path and a schema: any function
uninterp spec fn schema_of<T: ?Sized>() -> NamedType;
uninterp spec fn key_of(p: &'static str, s: NamedType) -> Key;
#[verifier::external_body] fn vx_schema<T: ?Sized>() -> (r: &'static NamedType) ensures *r == schema_of::<T>() { unimplemented!() }
impl Key {
    #[verifier::external_body] fn for_path<T: ?Sized>(p: &'static str) -> (r: Key) ensures r == key_of(p, schema_of::<T>()) { unimplemented!() }
    #[verifier::external_body] fn from_bytes(b: [u8; 8]) -> (r: Key) { unimplemented!() }
}
/// a literal array behind a reference in a const: its elements, for ever
#[verifier::external_body] fn vx_static<T, const N: usize>(a: [T; N]) -> (r: &'static [T]) ensures r@ == a@ { unimplemented!() }
// ----- the functions of uniques.rs, with the const generic length as first argument; same contracts as proved in the
//       uniques unit; that the lengths fit usize is left to the compiler (overflow in a const is a compile error) -----
#[verifier::external_body] fn vx_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { unimplemented!() }
#[verifier::external_body] fn vx_total_len<T>(arrs: &[&[T]]) -> (r: usize) ensures r == sumlen(arrs@, arrs@.len() as int) { unimplemented!() }
#[verifier::external_body] fn vx_combine_with_copy<T: Copy>(n: usize, arrs: &[&[T]], init: T) -> (r: &'static [T])
    requires sumlen(arrs@, arrs@.len() as int) == n
    ensures r@ == flat(arrs@, arrs@.len() as int) { unimplemented!() }
#[verifier::external_body] fn vx_unique_types_nty_upper(n: &NamedType) -> (r: usize) ensures r == up(*n) { unimplemented!() }
#[verifier::external_body] fn vx_type_chewer_nty(m: usize, n: &'static NamedType) -> (r: (&'static [Option<&'static NamedType>], usize))
    requires up(*n) <= m
    ensures lok(r.0@, r.1 as int, reach(*n)), r.0@.len() == m { unimplemented!() }
#[verifier::external_body] fn vx_merge_nty_lists(m: usize, lists: &[&[&'static NamedType]]) -> (r: (&'static [Option<&'static NamedType>], usize))
    requires sumlen(lists@, lists@.len() as int) <= m
    ensures lok(r.0@, r.1 as int, llset(lists@, lists@.len() as int)), r.0@.len() == m { unimplemented!() }
#[verifier::external_body] fn vx_raw_cruncher(a: usize, opts: &'static [Option<&'static NamedType>]) -> (r: &'static [&'static NamedType])
    requires a <= opts@.len(), forall|i: int| 0 <= i < a ==> (#[trigger] opts@[i]) is Some, forall|i: int| a <= i < opts@.len() ==> (#[trigger] opts@[i]) is None
    ensures r@.len() == a, forall|i: int| 0 <= i < a ==> Some(#[trigger] r@[i]) == opts@[i] { unimplemented!() }
/// the types of a list are exactly `s`, each once, none built in
spec fn listed(l: Seq<&'static NamedType>, s: Set<Tree>) -> bool {
    &&& lset(l, l.len() as int) =~= s
    &&& forall|i: int| 0 <= i < l.len() ==> !prim(*(#[trigger] l[i]).ty)
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> tv(*#[trigger] l[i]) != tv(*#[trigger] l[j])
}
proof fn lset_in(l: Seq<&'static NamedType>, n: int, t: Tree)
    requires 0 <= n <= l.len(), forall|i: int| 0 <= i < l.len() ==> !prim(*(#[trigger] l[i]).ty)
    ensures lset(l, n).contains(t) <==> exists|i: int| 0 <= i < n && tv(*#[trigger] l[i]) == t
    decreases n
{
    if n > 0 {
        lset_in(l, n - 1, t);
        if lset(l, n).contains(t) { if tv(*l[n - 1]) == t { } else { let i = choose|i: int| 0 <= i < n - 1 && tv(*#[trigger] l[i]) == t; assert(0 <= i < n && tv(*l[i]) == t); } }
        if exists|i: int| 0 <= i < n && tv(*#[trigger] l[i]) == t { let i = choose|i: int| 0 <= i < n && tv(*#[trigger] l[i]) == t; if i < n - 1 { assert(0 <= i < n - 1 && tv(*l[i]) == t); } }
    }
}
fn vx_cruncher(a: usize, opts: &'static [Option<&'static NamedType>]) -> (r: &'static [&'static NamedType])
    requires a <= opts@.len(), forall|i: int| 0 <= i < a ==> (#[trigger] opts@[i]) is Some, forall|i: int| a <= i < opts@.len() ==> (#[trigger] opts@[i]) is None
    ensures forall|s: Set<Tree>| #[trigger] lok(opts@, a as int, s) ==> listed(r@, s) && lset(r@, r@.len() as int) == s
{
    let r = vx_raw_cruncher(a, opts);
    proof {
        assert forall|s: Set<Tree>| #[trigger] lok(opts@, a as int, s) implies listed(r@, s) && lset(r@, r@.len() as int) == s by {
            assert forall|i: int| 0 <= i < r@.len() implies !prim(*(#[trigger] r@[i]).ty) && opts@[i]->0 == r@[i] && s.contains(tv(*r@[i])) by { assert(Some(r@[i]) == opts@[i]); }
            assert forall|t: Tree| lset(r@, r@.len() as int).contains(t) <==> #[trigger] s.contains(t) by {
                lset_in(r@, r@.len() as int, t);
                if s.contains(t) { let i = choose|i: int| 0 <= i < a && tv(*(#[trigger] opts@[i])->0) == t; assert(Some(r@[i]) == opts@[i]); assert(tv(*r@[i]) == t); }
            }
            assert(lset(r@, r@.len() as int) =~= s);
            assert forall|i: int, j: int| 0 <= i < j < r@.len() implies tv(*#[trigger] r@[i]) != tv(*#[trigger] r@[j]) by { assert(tv(*opts@[i]->0) != tv(*opts@[j]->0)); }
        }
    }
    r
}
spec fn flat<T>(l: Seq<&[T]>, i: int) -> Seq<T> decreases i { if i <= 0 { Seq::empty() } else { flat(l, i - 1) + l[i - 1]@ } }
