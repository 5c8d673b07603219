// =====================================================================
// Declared tables: endpoints!, topics!, endpoint!, topic!, concat_arrays!, the standard tables and the
// device description of define_dispatch!, as rustc expands them for the sample tables of expand/app
// (written by tools/gen_tables_contract.py from a restatement of what the tables declare)
// =====================================================================
struct SA; struct SB; struct BR; struct BT; struct WireError; struct OwnedSchemaData; struct SchemaTotals;
#[derive(Copy, Clone)] struct Key { k: u64 }
enum VarKeyKind { Key1, Key2, Key4, Key8 }
#[verifier::external_body] fn vx_width() -> VarKeyKind { unimplemented!() }
type ERow = (&'static str, Key, Key);
type TRow = (&'static str, Key);
/// the schema of a type and the key of a path and a schema: any function
uninterp spec fn schema_of<T: ?Sized>() -> NamedType;
uninterp spec fn key_of(p: &'static str, s: NamedType) -> Key;
#[verifier::external_body] fn vx_schema<T: ?Sized>() -> (r: &'static NamedType) ensures *r == schema_of::<T>() { unimplemented!() }
impl Key {
    #[verifier::external_body] fn for_path<T: ?Sized>(p: &'static str) -> (r: Key) ensures r == key_of(p, schema_of::<T>()) { unimplemented!() }
    #[verifier::external_body] fn from_bytes(b: [u8; 8]) -> (r: Key) { unimplemented!() }
}
/// a literal array behind a reference in a const: its elements, for ever
#[verifier::external_body] fn vx_static<T, const N: usize>(a: [T; N]) -> (r: &'static [T]) ensures r@ == a@ { unimplemented!() }
// ----- the functions of uniques.rs, with the const generic length as first argument; same contracts as proved in the
//       uniques unit; that the lengths fit usize is left to the compiler (overflow in a const is a compile error) -----
#[verifier::external_body] fn vx_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { unimplemented!() }
#[verifier::external_body] fn vx_total_len<T>(arrs: &[&[T]]) -> (r: usize) ensures r == sumlen(arrs@, arrs@.len() as int) { unimplemented!() }
#[verifier::external_body] fn vx_combine_with_copy<T: Copy>(n: usize, arrs: &[&[T]], init: T) -> (r: &'static [T])
    requires sumlen(arrs@, arrs@.len() as int) == n
    ensures r@ == flat(arrs@, arrs@.len() as int) { unimplemented!() }
#[verifier::external_body] fn vx_unique_types_nty_upper(n: &NamedType) -> (r: usize) ensures r == up(*n) { unimplemented!() }
#[verifier::external_body] fn vx_type_chewer_nty(m: usize, n: &'static NamedType) -> (r: (&'static [Option<&'static NamedType>], usize))
    requires up(*n) <= m
    ensures lok(r.0@, r.1 as int, reach(*n)), r.0@.len() == m { unimplemented!() }
#[verifier::external_body] fn vx_merge_nty_lists(m: usize, lists: &[&[&'static NamedType]]) -> (r: (&'static [Option<&'static NamedType>], usize))
    requires sumlen(lists@, lists@.len() as int) <= m
    ensures lok(r.0@, r.1 as int, llset(lists@, lists@.len() as int)), r.0@.len() == m { unimplemented!() }
#[verifier::external_body] fn vx_raw_cruncher(a: usize, opts: &'static [Option<&'static NamedType>]) -> (r: &'static [&'static NamedType])
    requires a <= opts@.len(), forall|i: int| 0 <= i < a ==> (#[trigger] opts@[i]) is Some, forall|i: int| a <= i < opts@.len() ==> (#[trigger] opts@[i]) is None
    ensures r@.len() == a, forall|i: int| 0 <= i < a ==> Some(#[trigger] r@[i]) == opts@[i] { unimplemented!() }
/// the types of a list are exactly `s`, each once, none built in
spec fn listed(l: Seq<&'static NamedType>, s: Set<Tree>) -> bool {
    &&& lset(l, l.len() as int) =~= s
    &&& forall|i: int| 0 <= i < l.len() ==> !prim(*(#[trigger] l[i]).ty)
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> tv(*#[trigger] l[i]) != tv(*#[trigger] l[j])
}
proof fn lset_in(l: Seq<&'static NamedType>, n: int, t: Tree)
    requires 0 <= n <= l.len(), forall|i: int| 0 <= i < l.len() ==> !prim(*(#[trigger] l[i]).ty)
    ensures lset(l, n).contains(t) <==> exists|i: int| 0 <= i < n && tv(*#[trigger] l[i]) == t
    decreases n
{
    if n > 0 {
        lset_in(l, n - 1, t);
        if lset(l, n).contains(t) { if tv(*l[n - 1]) == t { } else { let i = choose|i: int| 0 <= i < n - 1 && tv(*#[trigger] l[i]) == t; assert(0 <= i < n && tv(*l[i]) == t); } }
        if exists|i: int| 0 <= i < n && tv(*#[trigger] l[i]) == t { let i = choose|i: int| 0 <= i < n && tv(*#[trigger] l[i]) == t; if i < n - 1 { assert(0 <= i < n - 1 && tv(*l[i]) == t); } }
    }
}
fn vx_cruncher(a: usize, opts: &'static [Option<&'static NamedType>]) -> (r: &'static [&'static NamedType])
    requires a <= opts@.len(), forall|i: int| 0 <= i < a ==> (#[trigger] opts@[i]) is Some, forall|i: int| a <= i < opts@.len() ==> (#[trigger] opts@[i]) is None
    ensures forall|s: Set<Tree>| #[trigger] lok(opts@, a as int, s) ==> listed(r@, s) && lset(r@, r@.len() as int) == s
{
    let r = vx_raw_cruncher(a, opts);
    proof {
        assert forall|s: Set<Tree>| #[trigger] lok(opts@, a as int, s) implies listed(r@, s) && lset(r@, r@.len() as int) == s by {
            assert forall|i: int| 0 <= i < r@.len() implies !prim(*(#[trigger] r@[i]).ty) && opts@[i]->0 == r@[i] && s.contains(tv(*r@[i])) by { assert(Some(r@[i]) == opts@[i]); }
            assert forall|t: Tree| lset(r@, r@.len() as int).contains(t) <==> #[trigger] s.contains(t) by {
                lset_in(r@, r@.len() as int, t);
                if s.contains(t) { let i = choose|i: int| 0 <= i < a && tv(*(#[trigger] opts@[i])->0) == t; assert(Some(r@[i]) == opts@[i]); assert(tv(*r@[i]) == t); }
            }
            assert(lset(r@, r@.len() as int) =~= s);
            assert forall|i: int, j: int| 0 <= i < j < r@.len() implies tv(*#[trigger] r@[i]) != tv(*#[trigger] r@[j]) by { assert(tv(*opts@[i]->0) != tv(*opts@[j]->0)); }
        }
    }
    r
}
spec fn flat<T>(l: Seq<&[T]>, i: int) -> Seq<T> decreases i { if i <= 0 { Seq::empty() } else { flat(l, i - 1) + l[i - 1]@ } }

spec fn std_eps() -> Seq<ERow> { seq![("postcard-rpc/ping", key_of("postcard-rpc/ping", schema_of::<u32>()), key_of("postcard-rpc/ping", schema_of::<u32>())), ("postcard-rpc/schemas/get", key_of("postcard-rpc/schemas/get", schema_of::<()>()), key_of("postcard-rpc/schemas/get", schema_of::<SchemaTotals>()))] }
spec fn std_ep_types() -> Set<Tree> { Set::<Tree>::empty() + reach(schema_of::<u32>()) + reach(schema_of::<u32>()) + reach(schema_of::<()>()) + reach(schema_of::<SchemaTotals>()) }
spec fn std_out() -> Seq<TRow> { seq![("postcard-rpc/schema/data", key_of("postcard-rpc/schema/data", schema_of::<OwnedSchemaData>())), ("postcard-rpc/logging", key_of("postcard-rpc/logging", schema_of::<String>()))] }
spec fn std_out_types() -> Set<Tree> { Set::<Tree>::empty() + reach(schema_of::<OwnedSchemaData>()) + reach(schema_of::<String>()) }
spec fn std_in() -> Seq<TRow> { Seq::<TRow>::empty() }
spec fn std_in_types() -> Set<Tree> { Set::<Tree>::empty() }
//@ fn ERROR_PATH ret r
    ensures r == "error"
//@ fn ERROR_KEY ret r
    ensures r == key_of("error", schema_of::<WireError>())
//@ fn PingEndpoint_PATH ret r
    ensures r == "postcard-rpc/ping"
//@ fn PingEndpoint_REQ_KEY ret r
    ensures r == key_of("postcard-rpc/ping", schema_of::<u32>())
//@ fn PingEndpoint_RESP_KEY ret r
    ensures r == key_of("postcard-rpc/ping", schema_of::<u32>())
//@ fn GetAllSchemasEndpoint_PATH ret r
    ensures r == "postcard-rpc/schemas/get"
//@ fn GetAllSchemasEndpoint_REQ_KEY ret r
    ensures r == key_of("postcard-rpc/schemas/get", schema_of::<()>())
//@ fn GetAllSchemasEndpoint_RESP_KEY ret r
    ensures r == key_of("postcard-rpc/schemas/get", schema_of::<SchemaTotals>())
//@ fn EpB_PATH ret r
    ensures r == "e/b"
//@ fn EpB_REQ_KEY ret r
    ensures r == key_of("e/b", schema_of::<u16>())
//@ fn EpB_RESP_KEY ret r
    ensures r == key_of("e/b", schema_of::<u32>())
//@ fn EpA_PATH ret r
    ensures r == "e/a"
//@ fn EpA_REQ_KEY ret r
    ensures r == key_of("e/a", schema_of::<u16>())
//@ fn EpA_RESP_KEY ret r
    ensures r == key_of("e/a", schema_of::<u64>())
//@ fn EpS_PATH ret r
    ensures r == "e/s"
//@ fn EpS_REQ_KEY ret r
    ensures r == key_of("e/s", schema_of::<u64>())
//@ fn EpS_RESP_KEY ret r
    ensures r == key_of("e/s", schema_of::<u16>())
//@ fn OneEp_PATH ret r
    ensures r == "OneEp"
//@ fn OneEp_REQ_KEY ret r
    ensures r == key_of("OneEp", schema_of::<SA>())
//@ fn OneEp_RESP_KEY ret r
    ensures r == key_of("OneEp", schema_of::<SB>())
//@ fn TwoEp_PATH ret r
    ensures r == "two/ep"
//@ fn TwoEp_REQ_KEY ret r
    ensures r == key_of("two/ep", schema_of::<SB>())
//@ fn TwoEp_RESP_KEY ret r
    ensures r == key_of("two/ep", schema_of::<u32>())
//@ fn DefA_PATH ret r
    ensures r == "d/a"
//@ fn DefA_REQ_KEY ret r
    ensures r == key_of("d/a", schema_of::<SA>())
//@ fn DefA_RESP_KEY ret r
    ensures r == key_of("d/a", schema_of::<SB>())
//@ fn DefC_PATH ret r
    ensures r == "d/c"
//@ fn DefC_REQ_KEY ret r
    ensures r == key_of("d/c", schema_of::<()>())
//@ fn DefC_RESP_KEY ret r
    ensures r == key_of("d/c", schema_of::<SA>())
//@ fn DefD_PATH ret r
    ensures r == "d/d"
//@ fn DefD_REQ_KEY ret r
    ensures r == key_of("d/d", schema_of::<SB>())
//@ fn DefD_RESP_KEY ret r
    ensures r == key_of("d/d", schema_of::<[u8; 4]>())
//@ fn OmA_PATH ret r
    ensures r == "o/a"
//@ fn OmA_REQ_KEY ret r
    ensures r == key_of("o/a", schema_of::<BR>())
//@ fn OmA_RESP_KEY ret r
    ensures r == key_of("o/a", schema_of::<SB>())
//@ fn OmB_PATH ret r
    ensures r == "o/b"
//@ fn OmB_REQ_KEY ret r
    ensures r == key_of("o/b", schema_of::<u8>())
//@ fn OmB_RESP_KEY ret r
    ensures r == key_of("o/b", schema_of::<BR>())
//@ fn OmC_PATH ret r
    ensures r == "o/c"
//@ fn OmC_REQ_KEY ret r
    ensures r == key_of("o/c", schema_of::<BR>())
//@ fn OmC_RESP_KEY ret r
    ensures r == key_of("o/c", schema_of::<BT>())
//@ fn InA_PATH ret r
    ensures r == "i/a"
//@ fn InA_REQ_KEY ret r
    ensures r == key_of("i/a", schema_of::<SA>())
//@ fn InA_RESP_KEY ret r
    ensures r == key_of("i/a", schema_of::<SB>())
//@ fn GetAllSchemaDataTopic_PATH ret r
    ensures r == "postcard-rpc/schema/data"
//@ fn GetAllSchemaDataTopic_TOPIC_KEY ret r
    ensures r == key_of("postcard-rpc/schema/data", schema_of::<OwnedSchemaData>())
//@ fn LoggingTopic_PATH ret r
    ensures r == "postcard-rpc/logging"
//@ fn LoggingTopic_TOPIC_KEY ret r
    ensures r == key_of("postcard-rpc/logging", schema_of::<String>())
//@ fn TpB_PATH ret r
    ensures r == "t/b"
//@ fn TpB_TOPIC_KEY ret r
    ensures r == key_of("t/b", schema_of::<u16>())
//@ fn TpA_PATH ret r
    ensures r == "t/a"
//@ fn TpA_TOPIC_KEY ret r
    ensures r == key_of("t/a", schema_of::<u16>())
//@ fn TpS_PATH ret r
    ensures r == "t/s"
//@ fn TpS_TOPIC_KEY ret r
    ensures r == key_of("t/s", schema_of::<u64>())
//@ fn TpO_PATH ret r
    ensures r == "t/o"
//@ fn TpO_TOPIC_KEY ret r
    ensures r == key_of("t/o", schema_of::<u16>())
//@ fn OneTp_PATH ret r
    ensures r == "OneTp"
//@ fn OneTp_TOPIC_KEY ret r
    ensures r == key_of("OneTp", schema_of::<SA>())
//@ fn TwoTp_PATH ret r
    ensures r == "two/tp"
//@ fn TwoTp_TOPIC_KEY ret r
    ensures r == key_of("two/tp", schema_of::<SB>())
//@ fn TiB_PATH ret r
    ensures r == "ti/b"
//@ fn TiB_TOPIC_KEY ret r
    ensures r == key_of("ti/b", schema_of::<SB>())
//@ fn TiC_PATH ret r
    ensures r == "ti/c"
//@ fn TiC_TOPIC_KEY ret r
    ensures r == key_of("ti/c", schema_of::<BR>())
//@ fn ToA_PATH ret r
    ensures r == "to/a"
//@ fn ToA_TOPIC_KEY ret r
    ensures r == key_of("to/a", schema_of::<SA>())
//@ fn ToB_PATH ret r
    ensures r == "to/b"
//@ fn ToB_TOPIC_KEY ret r
    ensures r == key_of("to/b", schema_of::<u8>())
//@ fn TcA_PATH ret r
    ensures r == "tc/a"
//@ fn TcA_TOPIC_KEY ret r
    ensures r == key_of("tc/a", schema_of::<SB>())
//@ fn TmA_PATH ret r
    ensures r == "tm/a"
//@ fn TmA_TOPIC_KEY ret r
    ensures r == key_of("tm/a", schema_of::<SB>())
//@ fn TmB_PATH ret r
    ensures r == "tm/b"
//@ fn TmB_TOPIC_KEY ret r
    ensures r == key_of("tm/b", schema_of::<SA>())
//@ fn STANDARD_ICD_ENDPOINTS ret r
    ensures r.endpoints@ =~= seq![("postcard-rpc/ping", key_of("postcard-rpc/ping", schema_of::<u32>()), key_of("postcard-rpc/ping", schema_of::<u32>())), ("postcard-rpc/schemas/get", key_of("postcard-rpc/schemas/get", schema_of::<()>()), key_of("postcard-rpc/schemas/get", schema_of::<SchemaTotals>()))], listed(r.types@, Set::<Tree>::empty() + reach(schema_of::<u32>()) + reach(schema_of::<u32>()) + reach(schema_of::<()>()) + reach(schema_of::<SchemaTotals>()))
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn EPS ret r
    ensures r.endpoints@ =~= std_eps() + seq![("e/b", key_of("e/b", schema_of::<u16>()), key_of("e/b", schema_of::<u32>())), ("e/a", key_of("e/a", schema_of::<u16>()), key_of("e/a", schema_of::<u64>())), ("e/s", key_of("e/s", schema_of::<u64>()), key_of("e/s", schema_of::<u16>()))], listed(r.types@, Set::<Tree>::empty() + reach(schema_of::<u16>()) + reach(schema_of::<u32>()) + reach(schema_of::<u16>()) + reach(schema_of::<u64>()) + reach(schema_of::<u64>()) + reach(schema_of::<u16>()) + std_ep_types())
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn EP_DEF ret r
    ensures r.endpoints@ =~= std_eps() + seq![("d/a", key_of("d/a", schema_of::<SA>()), key_of("d/a", schema_of::<SB>())), ("d/c", key_of("d/c", schema_of::<()>()), key_of("d/c", schema_of::<SA>())), ("d/d", key_of("d/d", schema_of::<SB>()), key_of("d/d", schema_of::<[u8; 4]>()))], listed(r.types@, Set::<Tree>::empty() + reach(schema_of::<SA>()) + reach(schema_of::<SB>()) + reach(schema_of::<()>()) + reach(schema_of::<SA>()) + reach(schema_of::<SB>()) + reach(schema_of::<[u8; 4]>()) + std_ep_types())
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn EP_OMIT ret r
    ensures r.endpoints@ =~= seq![("o/a", key_of("o/a", schema_of::<BR>()), key_of("o/a", schema_of::<SB>())), ("o/b", key_of("o/b", schema_of::<u8>()), key_of("o/b", schema_of::<BR>())), ("o/c", key_of("o/c", schema_of::<BR>()), key_of("o/c", schema_of::<BT>()))], listed(r.types@, Set::<Tree>::empty() + reach(schema_of::<BR>()) + reach(schema_of::<SB>()) + reach(schema_of::<u8>()) + reach(schema_of::<BR>()) + reach(schema_of::<BR>()) + reach(schema_of::<BT>()))
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn EP_INCL ret r
    ensures r.endpoints@ =~= std_eps() + seq![("i/a", key_of("i/a", schema_of::<SA>()), key_of("i/a", schema_of::<SB>()))], listed(r.types@, Set::<Tree>::empty() + reach(schema_of::<SA>()) + reach(schema_of::<SB>()) + std_ep_types())
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn EP_EMPTY ret r
    ensures r.endpoints@ =~= std_eps() + Seq::<ERow>::empty(), listed(r.types@, Set::<Tree>::empty() + std_ep_types())
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn EP_NONE ret r
    ensures r.endpoints@ =~= Seq::<ERow>::empty(), listed(r.types@, Set::<Tree>::empty())
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn STANDARD_ICD_TOPICS_OUT ret r
    ensures r.topics@ =~= seq![("postcard-rpc/schema/data", key_of("postcard-rpc/schema/data", schema_of::<OwnedSchemaData>())), ("postcard-rpc/logging", key_of("postcard-rpc/logging", schema_of::<String>()))], listed(r.types@, Set::<Tree>::empty() + reach(schema_of::<OwnedSchemaData>()) + reach(schema_of::<String>())), r.direction is ToClient
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn STANDARD_ICD_TOPICS_IN ret r
    ensures r.topics@ =~= Seq::<TRow>::empty(), listed(r.types@, Set::<Tree>::empty()), r.direction is ToServer
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn TIN ret r
    ensures r.topics@ =~= std_in() + seq![("t/b", key_of("t/b", schema_of::<u16>())), ("t/a", key_of("t/a", schema_of::<u16>())), ("t/s", key_of("t/s", schema_of::<u64>()))], listed(r.types@, Set::<Tree>::empty() + reach(schema_of::<u16>()) + reach(schema_of::<u16>()) + reach(schema_of::<u64>()) + std_in_types()), r.direction is ToServer
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn TOUT ret r
    ensures r.topics@ =~= std_out() + seq![("t/o", key_of("t/o", schema_of::<u16>()))], listed(r.types@, Set::<Tree>::empty() + reach(schema_of::<u16>()) + std_out_types()), r.direction is ToClient
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn TP_IN ret r
    ensures r.topics@ =~= std_in() + seq![("ti/b", key_of("ti/b", schema_of::<SB>())), ("ti/c", key_of("ti/c", schema_of::<BR>()))], listed(r.types@, Set::<Tree>::empty() + reach(schema_of::<SB>()) + reach(schema_of::<BR>()) + std_in_types()), r.direction is ToServer
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn TP_OUT ret r
    ensures r.topics@ =~= std_out() + seq![("to/a", key_of("to/a", schema_of::<SA>())), ("to/b", key_of("to/b", schema_of::<u8>()))], listed(r.types@, Set::<Tree>::empty() + reach(schema_of::<SA>()) + reach(schema_of::<u8>()) + std_out_types()), r.direction is ToClient
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn TP_OUT_INCL ret r
    ensures r.topics@ =~= std_out() + seq![("tc/a", key_of("tc/a", schema_of::<SB>()))], listed(r.types@, Set::<Tree>::empty() + reach(schema_of::<SB>()) + std_out_types()), r.direction is ToClient
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn TP_OUT_OMIT ret r
    ensures r.topics@ =~= seq![("tm/a", key_of("tm/a", schema_of::<SB>())), ("tm/b", key_of("tm/b", schema_of::<SA>()))], listed(r.types@, Set::<Tree>::empty() + reach(schema_of::<SB>()) + reach(schema_of::<SA>())), r.direction is ToClient
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn TP_IN_NONE ret r
    ensures r.topics@ =~= Seq::<TRow>::empty(), listed(r.types@, Set::<Tree>::empty()), r.direction is ToServer
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
//@ fn DEVICE_MAP ret r
    ensures r.endpoints@ =~= std_eps() + seq![("e/b", key_of("e/b", schema_of::<u16>()), key_of("e/b", schema_of::<u32>())), ("e/a", key_of("e/a", schema_of::<u16>()), key_of("e/a", schema_of::<u64>())), ("e/s", key_of("e/s", schema_of::<u64>()), key_of("e/s", schema_of::<u16>()))], r.topics_in@ =~= std_in() + seq![("t/b", key_of("t/b", schema_of::<u16>())), ("t/a", key_of("t/a", schema_of::<u16>())), ("t/s", key_of("t/s", schema_of::<u64>()))], r.topics_out@ =~= std_out() + seq![("t/o", key_of("t/o", schema_of::<u16>()))], listed(r.types@, Set::<Tree>::empty() + reach(schema_of::<u16>()) + reach(schema_of::<u32>()) + reach(schema_of::<u16>()) + reach(schema_of::<u64>()) + reach(schema_of::<u64>()) + reach(schema_of::<u16>()) + std_ep_types() + Set::<Tree>::empty() + reach(schema_of::<u16>()) + reach(schema_of::<u16>()) + reach(schema_of::<u64>()) + std_in_types() + Set::<Tree>::empty() + reach(schema_of::<u16>()) + std_out_types())
//@ hint start
    proof { reveal_with_fuel(llset, 9); reveal_with_fuel(flat, 4); reveal_with_fuel(sumlen, 5); }
