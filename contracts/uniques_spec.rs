// =====================================================================
// Unique type list unit: contracts for uniques.rs
// =====================================================================
// (NamedType, NamedValue, NamedVariant, DataModelType, DataModelVariant are
//  extracted from the postcard-schema crate; contracts only describe them)
#[verifier::external_body] fn vx_panic() requires false { unimplemented!() }
#[verifier::external_body] fn vx_any<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body] fn vx_unit_schema() -> (r: &'static NamedType) { unimplemented!() }
uninterp spec fn nb(s: &str) -> Seq<u8>;
/// str::as_bytes: the bytes of a name
#[verifier::external_body] fn vx_bytes<'a>(s: &'a str) -> (r: &'a [u8]) ensures r@ == nb(s) { unimplemented!() }

// ----- specification: types as values -----
/// a schema as a value: kind, name and children
struct Tree { tag: int, name: Seq<u8>, kids: Seq<Tree> }
spec fn leaf(tag: int) -> Tree { Tree { tag, name: Seq::empty(), kids: Seq::empty() } }
spec fn tv(n: NamedType) -> Tree decreases n { Tree { tag: 0, name: nb(n.name), kids: seq![dv(*n.ty)] } }
spec fn tvs(s: Seq<&'static NamedType>) -> Seq<Tree> decreases s { if s.len() == 0 { Seq::empty() } else { tvs(s.drop_last()).push(tv(*s[s.len() - 1])) } }
spec fn fvs(s: Seq<&'static NamedValue>) -> Seq<Tree> decreases s { if s.len() == 0 { Seq::empty() } else { fvs(s.drop_last()).push(fv(*s[s.len() - 1])) } }
spec fn fv(v: NamedValue) -> Tree decreases v { Tree { tag: 0, name: nb(v.name), kids: seq![tv(*v.ty)] } }
spec fn rvs(s: Seq<&'static NamedVariant>) -> Seq<Tree> decreases s { if s.len() == 0 { Seq::empty() } else { rvs(s.drop_last()).push(rv(*s[s.len() - 1])) } }
spec fn rv(v: NamedVariant) -> Tree decreases v { Tree { tag: 0, name: nb(v.name), kids: seq![vv(*v.ty)] } }
spec fn vv(d: DataModelVariant) -> Tree decreases d {
    match d {
        DataModelVariant::UnitVariant => leaf(1),
        DataModelVariant::NewtypeVariant(n) => Tree { tag: 2, name: Seq::empty(), kids: seq![tv(*n)] },
        DataModelVariant::TupleVariant(s) => Tree { tag: 3, name: Seq::empty(), kids: tvs(s@) },
        DataModelVariant::StructVariant(s) => Tree { tag: 4, name: Seq::empty(), kids: fvs(s@) },
    }
}
spec fn dv(d: DataModelType) -> Tree decreases d {
    match d {
        DataModelType::Bool => leaf(1), DataModelType::I8 => leaf(2), DataModelType::U8 => leaf(3), DataModelType::I16 => leaf(4), DataModelType::I32 => leaf(5),
        DataModelType::I64 => leaf(6), DataModelType::I128 => leaf(7), DataModelType::U16 => leaf(8), DataModelType::U32 => leaf(9), DataModelType::U64 => leaf(10),
        DataModelType::U128 => leaf(11), DataModelType::Usize => leaf(12), DataModelType::Isize => leaf(13), DataModelType::F32 => leaf(14), DataModelType::F64 => leaf(15),
        DataModelType::Char => leaf(16), DataModelType::String => leaf(17), DataModelType::ByteArray => leaf(18), DataModelType::Unit => leaf(19), DataModelType::Schema => leaf(20),
        DataModelType::UnitStruct => leaf(21),
        DataModelType::Option(n) => Tree { tag: 22, name: Seq::empty(), kids: seq![tv(*n)] },
        DataModelType::NewtypeStruct(n) => Tree { tag: 23, name: Seq::empty(), kids: seq![tv(*n)] },
        DataModelType::Seq(n) => Tree { tag: 24, name: Seq::empty(), kids: seq![tv(*n)] },
        DataModelType::Tuple(s) => Tree { tag: 25, name: Seq::empty(), kids: tvs(s@) },
        DataModelType::TupleStruct(s) => Tree { tag: 26, name: Seq::empty(), kids: tvs(s@) },
        DataModelType::Map { key, val } => Tree { tag: 27, name: Seq::empty(), kids: seq![tv(*key), tv(*val)] },
        DataModelType::Struct(s) => Tree { tag: 28, name: Seq::empty(), kids: fvs(s@) },
        DataModelType::Enum(s) => Tree { tag: 29, name: Seq::empty(), kids: rvs(s@) },
    }
}
/// built-in types, which are never listed
spec fn prim(d: DataModelType) -> bool { !(d is UnitStruct || d is Option || d is NewtypeStruct || d is Seq || d is Tuple || d is TupleStruct || d is Map || d is Struct || d is Enum) }

// ----- specification: the listed types reachable from a type, and the bound on their number -----
spec fn reach(n: NamedType) -> Set<Tree> decreases n { if prim(*n.ty) { dreach(*n.ty) } else { dreach(*n.ty).insert(tv(n)) } }
spec fn treach(s: Seq<&'static NamedType>) -> Set<Tree> decreases s { if s.len() == 0 { Set::empty() } else { treach(s.drop_last()) + reach(*s[s.len() - 1]) } }
spec fn freach1(v: NamedValue) -> Set<Tree> decreases v { reach(*v.ty) }
spec fn freach(s: Seq<&'static NamedValue>) -> Set<Tree> decreases s { if s.len() == 0 { Set::empty() } else { freach(s.drop_last()) + freach1(*s[s.len() - 1]) } }
spec fn vreach1(v: NamedVariant) -> Set<Tree> decreases v { vvreach(*v.ty) }
spec fn vvreach(d: DataModelVariant) -> Set<Tree> decreases d {
    match d { DataModelVariant::UnitVariant => Set::empty(), DataModelVariant::NewtypeVariant(n) => reach(*n), DataModelVariant::TupleVariant(s) => treach(s@), DataModelVariant::StructVariant(s) => freach(s@) }
}
spec fn vreach(s: Seq<&'static NamedVariant>) -> Set<Tree> decreases s { if s.len() == 0 { Set::empty() } else { vreach(s.drop_last()) + vreach1(*s[s.len() - 1]) } }
spec fn dreach(d: DataModelType) -> Set<Tree> decreases d {
    match d {
        DataModelType::Option(n) | DataModelType::NewtypeStruct(n) | DataModelType::Seq(n) => reach(*n),
        DataModelType::Tuple(s) | DataModelType::TupleStruct(s) => treach(s@),
        DataModelType::Map { key, val } => reach(*key) + reach(*val),
        DataModelType::Struct(s) => freach(s@),
        DataModelType::Enum(s) => vreach(s@),
        _ => Set::empty(),
    }
}
spec fn up(n: NamedType) -> nat decreases n { if prim(*n.ty) { dup(*n.ty) } else { dup(*n.ty) + 1 } }
spec fn tup(s: Seq<&'static NamedType>) -> nat decreases s { if s.len() == 0 { 0 } else { tup(s.drop_last()) + up(*s[s.len() - 1]) } }
spec fn fup1(v: NamedValue) -> nat decreases v { up(*v.ty) }
spec fn fup(s: Seq<&'static NamedValue>) -> nat decreases s { if s.len() == 0 { 0 } else { fup(s.drop_last()) + fup1(*s[s.len() - 1]) } }
spec fn vup1(v: NamedVariant) -> nat decreases v { vvup(*v.ty) }
spec fn vvup(d: DataModelVariant) -> nat decreases d {
    match d { DataModelVariant::UnitVariant => 0, DataModelVariant::NewtypeVariant(n) => up(*n), DataModelVariant::TupleVariant(s) => tup(s@), DataModelVariant::StructVariant(s) => fup(s@) }
}
spec fn vup(s: Seq<&'static NamedVariant>) -> nat decreases s { if s.len() == 0 { 0 } else { vup(s.drop_last()) + vup1(*s[s.len() - 1]) } }
spec fn dup(d: DataModelType) -> nat decreases d {
    match d {
        DataModelType::Option(n) | DataModelType::NewtypeStruct(n) | DataModelType::Seq(n) => up(*n),
        DataModelType::Tuple(s) | DataModelType::TupleStruct(s) => tup(s@),
        DataModelType::Map { key, val } => up(*key) + up(*val),
        DataModelType::Struct(s) => fup(s@),
        DataModelType::Enum(s) => vup(s@),
        _ => 0,
    }
}

// ----- specification: a list of types -----
/// the first `used` entries are types, the rest is empty; no two are equal; together they are exactly `s`; none is built in
spec fn lok(a: Seq<Option<&NamedType>>, used: int, s: Set<Tree>) -> bool {
    &&& 0 <= used <= a.len()
    &&& forall|i: int| 0 <= i < used ==> (#[trigger] a[i]) is Some && !prim(*a[i]->0.ty) && s.contains(tv(*a[i]->0))
    &&& forall|i: int| used <= i < a.len() ==> (#[trigger] a[i]) is None
    &&& forall|i: int, j: int| 0 <= i < j < used ==> tv(*(#[trigger] a[i])->0) != tv(*(#[trigger] a[j])->0)
    &&& forall|t: Tree| #[trigger] s.contains(t) ==> exists|i: int| 0 <= i < used && tv(*(#[trigger] a[i])->0) == t
}
/// the types of the first j entries
spec fn pre(a: Seq<Option<&NamedType>>, j: int) -> Set<Tree> decreases j { if j <= 0 { Set::empty() } else { pre(a, j - 1).insert(tv(*a[j - 1]->0)) } }
proof fn pre_all(a: Seq<Option<&NamedType>>, j: int, used: int, s: Set<Tree>)
    requires lok(a, used, s), 0 <= j <= used
    ensures forall|t: Tree| #[trigger] pre(a, j).contains(t) <==> exists|i: int| 0 <= i < j && tv(*(#[trigger] a[i])->0) == t, j == used ==> pre(a, j) =~= s
    decreases j
{
    if j > 0 {
        pre_all(a, j - 1, used, s);
        assert forall|t: Tree| #[trigger] pre(a, j).contains(t) <==> exists|i: int| 0 <= i < j && tv(*(#[trigger] a[i])->0) == t by {
            if pre(a, j).contains(t) { if t == tv(*a[j - 1]->0) { assert(0 <= j - 1 < j && tv(*a[j - 1]->0) == t); } else { assert(pre(a, j - 1).contains(t)); let i = choose|i: int| 0 <= i < j - 1 && tv(*(#[trigger] a[i])->0) == t; assert(0 <= i < j && tv(*a[i]->0) == t); } } else if exists|i: int| 0 <= i < j && tv(*(#[trigger] a[i])->0) == t { let i = choose|i: int| 0 <= i < j && tv(*(#[trigger] a[i])->0) == t; if i < j - 1 { assert(pre(a, j - 1).contains(t)); } }
        }
    }
}
/// appending a new type
proof fn lok_push(a: Seq<Option<&NamedType>>, b: Seq<Option<&NamedType>>, used: int, s: Set<Tree>, x: &NamedType)
    requires lok(a, used, s), used < a.len(), b == a.update(used, Some(x)), !prim(*x.ty), forall|i: int| 0 <= i < used ==> tv(*(#[trigger] a[i])->0) != tv(*x)
    ensures lok(b, used + 1, s.insert(tv(*x)))
{
    let s2 = s.insert(tv(*x));
    assert forall|t: Tree| #[trigger] s2.contains(t) implies exists|i: int| 0 <= i < used + 1 && tv(*(#[trigger] b[i])->0) == t by {
        if t == tv(*x) { assert(b[used] == Some(x)); assert(tv(*b[used]->0) == t); } else { let i = choose|i: int| 0 <= i < used && tv(*(#[trigger] a[i])->0) == t; assert(b[i] == a[i]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < used + 1 implies tv(*(#[trigger] b[i])->0) != tv(*(#[trigger] b[j])->0) by { assert(b[i] == a[i]); if j < used { assert(b[j] == a[j]); } else { assert(b[j] == Some(x)); } }
    assert forall|i: int| 0 <= i < used + 1 implies (#[trigger] b[i]) is Some && !prim(*b[i]->0.ty) && s2.contains(tv(*b[i]->0)) by { if i < used { assert(b[i] == a[i]); } else { assert(b[i] == Some(x)); } }
    assert forall|i: int| used + 1 <= i < b.len() implies (#[trigger] b[i]) is None by { assert(b[i] == a[i]); }
}
proof fn lok_eq(a: Seq<Option<&NamedType>>, used: int, s: Set<Tree>, t: Set<Tree>) requires lok(a, used, s), s =~= t ensures lok(a, used, t) { assert(s == t); }
proof fn tvs_len(s: Seq<&'static NamedType>) ensures tvs(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] tvs(s)[i] == tv(*s[i]) decreases s.len() { if s.len() > 0 { tvs_len(s.drop_last()); } }
proof fn fvs_len(s: Seq<&'static NamedValue>) ensures fvs(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] fvs(s)[i] == fv(*s[i]) decreases s.len() { if s.len() > 0 { fvs_len(s.drop_last()); } }
proof fn rvs_len(s: Seq<&'static NamedVariant>) ensures rvs(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] rvs(s)[i] == rv(*s[i]) decreases s.len() { if s.len() > 0 { rvs_len(s.drop_last()); } }
proof fn tup_mono(s: Seq<&'static NamedType>, i: int) requires 0 <= i < s.len() ensures tup(s.take(i)) + up(*s[i]) == tup(s.take(i + 1)), tup(s.take(i + 1)) <= tup(s), treach(s.take(i + 1)) == treach(s.take(i)) + reach(*s[i]) decreases s.len() - i
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1)[i] == s[i]); if i + 1 < s.len() { tup_mono(s, i + 1); } else { assert(s.take(i + 1) =~= s); } }
proof fn fup_mono(s: Seq<&'static NamedValue>, i: int) requires 0 <= i < s.len() ensures fup(s.take(i)) + up(*s[i].ty) == fup(s.take(i + 1)), fup(s.take(i + 1)) <= fup(s), freach(s.take(i + 1)) == freach(s.take(i)) + reach(*s[i].ty) decreases s.len() - i
{ assert(fup1(*s[i]) == up(*s[i].ty)); assert(freach1(*s[i]) == reach(*s[i].ty)); assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1)[i] == s[i]); if i + 1 < s.len() { fup_mono(s, i + 1); } else { assert(s.take(i + 1) =~= s); } }
proof fn vup_mono(s: Seq<&'static NamedVariant>, i: int) requires 0 <= i < s.len() ensures vup(s.take(i)) + vvup(*s[i].ty) == vup(s.take(i + 1)), vup(s.take(i + 1)) <= vup(s), vreach(s.take(i + 1)) == vreach(s.take(i)) + vvreach(*s[i].ty) decreases s.len() - i
{ assert(vup1(*s[i]) == vvup(*s[i].ty)); assert(vreach1(*s[i]) == vvreach(*s[i].ty)); assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1)[i] == s[i]); if i + 1 < s.len() { vup_mono(s, i + 1); } else { assert(s.take(i + 1) =~= s); } }
/// merging lists: the distinct listed types of some lists
spec fn lset(s: Seq<&'static NamedType>, j: int) -> Set<Tree> decreases j { if j <= 0 { Set::empty() } else if prim(*s[j - 1].ty) { lset(s, j - 1) } else { lset(s, j - 1).insert(tv(*s[j - 1])) } }
spec fn llset(l: Seq<&[&'static NamedType]>, i: int) -> Set<Tree> decreases i { if i <= 0 { Set::empty() } else { llset(l, i - 1) + lset(l[i - 1]@, l[i - 1]@.len() as int) } }
spec fn sumlen<T>(l: Seq<&[T]>, i: int) -> int decreases i { if i <= 0 { 0 } else { sumlen(l, i - 1) + l[i - 1]@.len() } }
proof fn sumlen_mono<T>(l: Seq<&[T]>, i: int, n: int) requires 0 <= i <= n ensures 0 <= sumlen(l, i) <= sumlen(l, n) decreases n { if i < n { sumlen_mono(l, i, n - 1); } else if i > 0 { sumlen_mono(l, i - 1, i - 1); } }
/// a reached type is listed once, whatever the nesting; nothing else is listed
proof fn thm_c17_exact(a: Seq<Option<&NamedType>>, used: int, n: NamedType, t: Tree)
    requires lok(a, used, reach(n))
    ensures reach(n).contains(t) <==> exists|i: int| 0 <= i < used && tv(*(#[trigger] a[i])->0) == t
{}

// ----- contracts on the code -----
