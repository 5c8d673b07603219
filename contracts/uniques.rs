//@ fn is_prim ret r
    ensures r == (prim(*dmt))
//@ fn str_eq ret r
    ensures r == (nb(a) == nb(b))
//@ loop 0
    invariant i <= nb(a).len(), nb(a).len() == nb(b).len(), a_by@ == nb(a), b_by@ == nb(b), forall|q: int| 0 <= q < i ==> a_by@[q] == b_by@[q]
    decreases nb(a).len() - i
//@ hint loop 0 after
    proof { assert(nb(a) =~= nb(b)); }
//@ fn nty_eq ret r
    ensures r == (tv(*a) == tv(*b))
    decreases *a
//@ hint start
    proof { assert(tv(*a).kids[0] == dv(*a.ty)); assert(tv(*b).kids[0] == dv(*b.ty)); }
//@ fn var_eq ret r
    ensures r == (rv(*a) == rv(*b))
    decreases *a
//@ hint start
    proof { assert(rv(*a).kids[0] == vv(*a.ty)); assert(rv(*b).kids[0] == vv(*b.ty)); }
//@ fn ntys_eq ret r
    ensures r == (tvs(a@) == tvs(b@))
    decreases a@
//@ hint start
    proof { tvs_len(a@); tvs_len(b@); }
//@ loop 0
    invariant i <= a@.len(), a@.len() == b@.len(), tvs(a@).len() == a@.len(), tvs(b@).len() == b@.len(), forall|q: int| 0 <= q < a@.len() ==> #[trigger] tvs(a@)[q] == tv(*a@[q]), forall|q: int| 0 <= q < b@.len() ==> #[trigger] tvs(b@)[q] == tv(*b@[q]), forall|q: int| 0 <= q < i ==> #[trigger] tvs(a@)[q] == tvs(b@)[q]
    decreases a@.len() - i
//@ hint loop 0 start
    proof { assert(tvs(a@)[i as int] == tv(*a@[i as int])); assert(tvs(b@)[i as int] == tv(*b@[i as int])); }
//@ hint loop 0 after
    proof { assert(tvs(a@) =~= tvs(b@)); }
//@ fn vars_eq ret r
    ensures r == (rvs(a@) == rvs(b@))
    decreases a@
//@ hint start
    proof { rvs_len(a@); rvs_len(b@); }
//@ loop 0
    invariant i <= a@.len(), a@.len() == b@.len(), rvs(a@).len() == a@.len(), rvs(b@).len() == b@.len(), forall|q: int| 0 <= q < a@.len() ==> #[trigger] rvs(a@)[q] == rv(*a@[q]), forall|q: int| 0 <= q < b@.len() ==> #[trigger] rvs(b@)[q] == rv(*b@[q]), forall|q: int| 0 <= q < i ==> #[trigger] rvs(a@)[q] == rvs(b@)[q]
    decreases a@.len() - i
//@ hint loop 0 start
    proof { assert(rvs(a@)[i as int] == rv(*a@[i as int])); assert(rvs(b@)[i as int] == rv(*b@[i as int])); }
//@ hint loop 0 after
    proof { assert(rvs(a@) =~= rvs(b@)); }
//@ fn vals_eq ret r
    ensures r == (fvs(a@) == fvs(b@))
    decreases a@
//@ hint start
    proof { fvs_len(a@); fvs_len(b@); }
//@ loop 0
    invariant i <= a@.len(), a@.len() == b@.len(), fvs(a@).len() == a@.len(), fvs(b@).len() == b@.len(), forall|q: int| 0 <= q < a@.len() ==> #[trigger] fvs(a@)[q] == fv(*a@[q]), forall|q: int| 0 <= q < b@.len() ==> #[trigger] fvs(b@)[q] == fv(*b@[q]), forall|q: int| 0 <= q < i ==> #[trigger] fvs(a@)[q] == fvs(b@)[q]
    decreases a@.len() - i
//@ hint loop 0 start
    proof { assert(fvs(a@)[i as int] == fv(*a@[i as int])); assert(fvs(b@)[i as int] == fv(*b@[i as int])); assert(fv(*a@[i as int]).kids[0] == tv(*a@[i as int].ty)); assert(fv(*b@[i as int]).kids[0] == tv(*b@[i as int].ty)); }
//@ hint loop 0 after
    proof { assert(fvs(a@) =~= fvs(b@)); }
//@ fn dmv_eq ret r
    ensures r == (vv(*a) == vv(*b))
    decreases *a
//@ hint start
    proof { kids_v(*a); kids_v(*b); }
//@ fn dmt_eq ret r
    ensures r == (dv(*a) == dv(*b))
    decreases *a
//@ attr
    #[verifier::spinoff_prover]
//@ hint start
    proof { kids_d(*a); kids_d(*b); }
//@ text
proof fn kids_v(d: DataModelVariant) ensures d matches DataModelVariant::NewtypeVariant(n) ==> vv(d).kids[0] == tv(*n) {}
proof fn kids_d(d: DataModelType)
    ensures d matches DataModelType::Option(n) ==> dv(d).kids[0] == tv(*n), d matches DataModelType::NewtypeStruct(n) ==> dv(d).kids[0] == tv(*n), d matches DataModelType::Seq(n) ==> dv(d).kids[0] == tv(*n),
        d matches DataModelType::Map { key, val } ==> dv(d).kids[0] == tv(*key) && dv(d).kids[1] == tv(*val)
{}
//@ fn unique_types_nty_upper ret r
    requires up(*nty) <= usize::MAX
    ensures r == up(*nty)
    decreases *nty
//@ fn unique_types_dmt_upper ret r
    requires dup(*dmt) <= usize::MAX
    ensures r == dup(*dmt)
    decreases *dmt
//@ loop 0
    invariant i <= nts@.len(), uniq == tup(nts@.take(i as int)), tup(nts@) <= usize::MAX, (*dmt == DataModelType::Tuple(nts) || *dmt == DataModelType::TupleStruct(nts)), decreases_to!(*dmt => nts@)
    decreases nts@.len() - i
//@ hint loop 0 start
    proof { tup_mono(nts@, i as int); assert(decreases_to!(nts@ => *nts@[i as int])); }
//@ hint loop 0 after
    proof { assert(nts@.take(nts@.len() as int) =~= nts@); }
//@ hint loop 0 before
    proof { assert(nts@.take(0).len() == 0); }
//@ loop 1
    invariant i <= nvals@.len(), uniq == fup(nvals@.take(i as int)), fup(nvals@) <= usize::MAX, *dmt == DataModelType::Struct(nvals), decreases_to!(*dmt => nvals@)
    decreases nvals@.len() - i
//@ hint loop 1 start
    proof { fup_mono(nvals@, i as int); assert(decreases_to!(nvals@ => *nvals@[i as int])); }
//@ hint loop 1 after
    proof { assert(nvals@.take(nvals@.len() as int) =~= nvals@); }
//@ hint loop 1 before
    proof { assert(nvals@.take(0).len() == 0); }
//@ loop 2
    invariant i <= nvars@.len(), uniq == vup(nvars@.take(i as int)), vup(nvars@) <= usize::MAX, *dmt == DataModelType::Enum(nvars), decreases_to!(*dmt => nvars@)
    decreases nvars@.len() - i
//@ hint loop 2 start
    proof { vup_mono(nvars@, i as int); assert(decreases_to!(nvars@ => *nvars@[i as int])); }
//@ hint loop 2 after
    proof { assert(nvars@.take(nvars@.len() as int) =~= nvars@); }
//@ hint loop 2 before
    proof { assert(nvars@.take(0).len() == 0); }
//@ fn unique_types_var_upper ret r
    requires vvup(*nvar.ty) <= usize::MAX
    ensures r == vvup(*nvar.ty)
    decreases *nvar
//@ loop 0
    invariant i <= nts@.len(), uniq == tup(nts@.take(i as int)), tup(nts@) <= usize::MAX, *nvar.ty == DataModelVariant::TupleVariant(nts), decreases_to!(*nvar => nts@)
    decreases nts@.len() - i
//@ hint loop 0 start
    proof { tup_mono(nts@, i as int); assert(decreases_to!(nts@ => *nts@[i as int])); }
//@ hint loop 0 after
    proof { assert(nts@.take(nts@.len() as int) =~= nts@); }
//@ hint loop 0 before
    proof { assert(nts@.take(0).len() == 0); }
//@ loop 1
    invariant i <= nvals@.len(), uniq == fup(nvals@.take(i as int)), fup(nvals@) <= usize::MAX, *nvar.ty == DataModelVariant::StructVariant(nvals), decreases_to!(*nvar => nvals@)
    decreases nvals@.len() - i
//@ hint loop 1 start
    proof { fup_mono(nvals@, i as int); assert(decreases_to!(nvals@ => *nvals@[i as int])); }
//@ hint loop 1 after
    proof { assert(nvals@.take(nvals@.len() as int) =~= nvals@); }
//@ hint loop 1 before
    proof { assert(nvals@.take(0).len() == 0); }
//@ fn type_chewer_nty ret r
    requires up(*nty) <= MAX
    ensures lok(r.0@, r.1 as int, reach(*nty)), r.1 <= up(*nty)
    decreases *nty
//@ loop 0
    invariant i <= used, lok(arr@, used as int, dreach(*nty.ty)), used <= dup(*nty.ty), up(*nty) <= MAX, prim(*nty.ty) ==> found, !found ==> forall|q: int| 0 <= q < i ==> tv(*(#[trigger] arr@[q])->0) != tv(*nty), found && !prim(*nty.ty) ==> dreach(*nty.ty).contains(tv(*nty))
    decreases used - i
//@ hint before /if !found/
    let ghost arr0 = arr@;
    proof { if found && !prim(*nty.ty) { assert(dreach(*nty.ty) =~= dreach(*nty.ty).insert(tv(*nty))); } }
//@ hint before /\(arr, used\)\s*$/
    proof { if arr@ != arr0 || used > 0 && !prim(*nty.ty) && !dreach(*nty.ty).contains(tv(*nty)) { } if !found { lok_push(arr0, arr@, used - 1, dreach(*nty.ty), nty); } }
//@ fn type_chewer_dmt ret r
    requires dup(*dmt) <= MAX
    ensures lok(r.0@, r.1 as int, dreach(*dmt)), r.1 <= dup(*dmt)
    decreases *dmt
//@ attr
    #[verifier::spinoff_prover]
//@ hint loop 0 before
    proof { assert(nts@.take(0).len() == 0); lok_eq(out@, outidx as int, Set::<Tree>::empty(), Set::<Tree>::empty() + treach(nts@.take(0))); }
//@ loop 0
    invariant i <= nts@.len(), (*dmt == DataModelType::Tuple(nts) || *dmt == DataModelType::TupleStruct(nts)), decreases_to!(*dmt => nts@), out@.len() == MAX, 0 + tup(nts@) <= MAX, outidx <= 0 + tup(nts@.take(i as int)), lok(out@, outidx as int, Set::<Tree>::empty() + treach(nts@.take(i as int)))
    decreases nts@.len() - i
//@ hint loop 0 start
    proof { tup_mono(nts@, i as int); assert(decreases_to!(nts@ => *nts@[i as int])); }
//@ hint loop 0 end
    proof { assert(Set::<Tree>::empty() + treach(nts@.take(i as int)) =~= Set::<Tree>::empty() + treach(nts@.take(i - 1)) + reach(*nts@[i - 1])); }
//@ hint loop 0 after
    proof { assert(nts@.take(nts@.len() as int) =~= nts@); lok_eq(out@, outidx as int, Set::<Tree>::empty() + treach(nts@), dreach(*dmt)); }
//@ hint loop 1 before
    let ghost s0 = Set::<Tree>::empty() + treach(nts@.take(i as int)); let ghost b0 = outidx as int;
    proof { lok_eq(out@, outidx as int, s0, s0 + pre(arr@, 0)); }
//@ loop 1
    invariant j <= used, lok(arr@, used as int, reach(*nts@[i as int])), used <= up(*nts@[i as int]), b0 + up(*nts@[i as int]) <= MAX, outidx <= b0 + j, lok(out@, outidx as int, s0 + pre(arr@, j as int)), out@.len() == MAX
    decreases used - j
//@ hint loop 1 start
    let ghost out0 = out@; let ghost oi0 = outidx as int;
    proof { pre_all(arr@, j as int, used as int, reach(*nts@[i as int])); }
//@ hint loop 1 end
    proof {
        let x = tv(*arr@[j - 1]->0);
        assert((s0 + pre(arr@, j - 1)).insert(x) =~= s0 + pre(arr@, j as int));
        if out@ == out0 { if (s0 + pre(arr@, j - 1)).contains(x) { assert(s0 + pre(arr@, j - 1) =~= s0 + pre(arr@, j as int)); } }
        else { lok_push(out0, out@, oi0, s0 + pre(arr@, j - 1), arr@[j - 1]->0); }
    }
//@ hint loop 1 after
    proof { pre_all(arr@, used as int, used as int, reach(*nts@[i as int])); assert(s0 + pre(arr@, used as int) =~= s0 + reach(*nts@[i as int])); }
//@ loop 2
    invariant k <= outidx, lok(out@, outidx as int, s0 + pre(arr@, j as int)), !found ==> forall|q: int| 0 <= q < k ==> tv(*(#[trigger] out@[q])->0) != tv(*ty), found ==> exists|q: int| 0 <= q < outidx && tv(*(#[trigger] out@[q])->0) == tv(*ty)
    decreases outidx - k
//@ hint loop 3 before
    let ghost s0 = Set::<Tree>::empty(); let ghost b0 = outidx as int;
    proof { lok_eq(out@, outidx as int, s0, s0 + pre(arr@, 0)); }
//@ loop 3
    invariant j <= used, lok(arr@, used as int, reach(**key)), used <= up(**key), b0 + up(**key) <= MAX, outidx <= b0 + j, lok(out@, outidx as int, s0 + pre(arr@, j as int)), out@.len() == MAX
    decreases used - j
//@ hint loop 3 start
    let ghost out0 = out@; let ghost oi0 = outidx as int;
    proof { pre_all(arr@, j as int, used as int, reach(**key)); }
//@ hint loop 3 end
    proof {
        let x = tv(*arr@[j - 1]->0);
        assert((s0 + pre(arr@, j - 1)).insert(x) =~= s0 + pre(arr@, j as int));
        if out@ == out0 { if (s0 + pre(arr@, j - 1)).contains(x) { assert(s0 + pre(arr@, j - 1) =~= s0 + pre(arr@, j as int)); } }
        else { lok_push(out0, out@, oi0, s0 + pre(arr@, j - 1), arr@[j - 1]->0); }
    }
//@ hint loop 3 after
    proof { pre_all(arr@, used as int, used as int, reach(**key)); assert(s0 + pre(arr@, used as int) =~= s0 + reach(**key)); }
//@ loop 4
    invariant k <= outidx, lok(out@, outidx as int, s0 + pre(arr@, j as int)), !found ==> forall|q: int| 0 <= q < k ==> tv(*(#[trigger] out@[q])->0) != tv(*ty), found ==> exists|q: int| 0 <= q < outidx && tv(*(#[trigger] out@[q])->0) == tv(*ty)
    decreases outidx - k
//@ hint loop 5 before
    let ghost s0 = Set::<Tree>::empty() + reach(**key); let ghost b0 = outidx as int;
    proof { lok_eq(out@, outidx as int, s0, s0 + pre(arr@, 0)); }
//@ loop 5
    invariant j <= used, lok(arr@, used as int, reach(**val)), used <= up(**val), b0 + up(**val) <= MAX, outidx <= b0 + j, lok(out@, outidx as int, s0 + pre(arr@, j as int)), out@.len() == MAX
    decreases used - j
//@ hint loop 5 start
    let ghost out0 = out@; let ghost oi0 = outidx as int;
    proof { pre_all(arr@, j as int, used as int, reach(**val)); }
//@ hint loop 5 end
    proof {
        let x = tv(*arr@[j - 1]->0);
        assert((s0 + pre(arr@, j - 1)).insert(x) =~= s0 + pre(arr@, j as int));
        if out@ == out0 { if (s0 + pre(arr@, j - 1)).contains(x) { assert(s0 + pre(arr@, j - 1) =~= s0 + pre(arr@, j as int)); } }
        else { lok_push(out0, out@, oi0, s0 + pre(arr@, j - 1), arr@[j - 1]->0); }
    }
//@ hint loop 5 after
    proof { pre_all(arr@, used as int, used as int, reach(**val)); assert(s0 + pre(arr@, used as int) =~= s0 + reach(**val)); }
//@ loop 6
    invariant k <= outidx, lok(out@, outidx as int, s0 + pre(arr@, j as int)), !found ==> forall|q: int| 0 <= q < k ==> tv(*(#[trigger] out@[q])->0) != tv(*ty), found ==> exists|q: int| 0 <= q < outidx && tv(*(#[trigger] out@[q])->0) == tv(*ty)
    decreases outidx - k
//@ hint loop 5 after
    proof { lok_eq(out@, outidx as int, s0 + reach(**val), dreach(*dmt)); }
//@ hint loop 7 before
    proof { assert(nvals@.take(0).len() == 0); lok_eq(out@, outidx as int, Set::<Tree>::empty(), Set::<Tree>::empty() + freach(nvals@.take(0))); }
//@ loop 7
    invariant i <= nvals@.len(), *dmt == DataModelType::Struct(nvals), decreases_to!(*dmt => nvals@), out@.len() == MAX, 0 + fup(nvals@) <= MAX, outidx <= 0 + fup(nvals@.take(i as int)), lok(out@, outidx as int, Set::<Tree>::empty() + freach(nvals@.take(i as int)))
    decreases nvals@.len() - i
//@ hint loop 7 start
    proof { fup_mono(nvals@, i as int); assert(decreases_to!(nvals@ => *nvals@[i as int])); }
//@ hint loop 7 end
    proof { assert(Set::<Tree>::empty() + freach(nvals@.take(i as int)) =~= Set::<Tree>::empty() + freach(nvals@.take(i - 1)) + reach(*nvals@[i - 1].ty)); }
//@ hint loop 7 after
    proof { assert(nvals@.take(nvals@.len() as int) =~= nvals@); lok_eq(out@, outidx as int, Set::<Tree>::empty() + freach(nvals@), dreach(*dmt)); }
//@ hint loop 8 before
    let ghost s0 = Set::<Tree>::empty() + freach(nvals@.take(i as int)); let ghost b0 = outidx as int;
    proof { lok_eq(out@, outidx as int, s0, s0 + pre(arr@, 0)); }
//@ loop 8
    invariant j <= used, lok(arr@, used as int, reach(*nvals@[i as int].ty)), used <= up(*nvals@[i as int].ty), b0 + up(*nvals@[i as int].ty) <= MAX, outidx <= b0 + j, lok(out@, outidx as int, s0 + pre(arr@, j as int)), out@.len() == MAX
    decreases used - j
//@ hint loop 8 start
    let ghost out0 = out@; let ghost oi0 = outidx as int;
    proof { pre_all(arr@, j as int, used as int, reach(*nvals@[i as int].ty)); }
//@ hint loop 8 end
    proof {
        let x = tv(*arr@[j - 1]->0);
        assert((s0 + pre(arr@, j - 1)).insert(x) =~= s0 + pre(arr@, j as int));
        if out@ == out0 { if (s0 + pre(arr@, j - 1)).contains(x) { assert(s0 + pre(arr@, j - 1) =~= s0 + pre(arr@, j as int)); } }
        else { lok_push(out0, out@, oi0, s0 + pre(arr@, j - 1), arr@[j - 1]->0); }
    }
//@ hint loop 8 after
    proof { pre_all(arr@, used as int, used as int, reach(*nvals@[i as int].ty)); assert(s0 + pre(arr@, used as int) =~= s0 + reach(*nvals@[i as int].ty)); }
//@ loop 9
    invariant k <= outidx, lok(out@, outidx as int, s0 + pre(arr@, j as int)), !found ==> forall|q: int| 0 <= q < k ==> tv(*(#[trigger] out@[q])->0) != tv(*ty), found ==> exists|q: int| 0 <= q < outidx && tv(*(#[trigger] out@[q])->0) == tv(*ty)
    decreases outidx - k
//@ hint loop 10 before
    proof { assert(nvars@.take(0).len() == 0); lok_eq(out@, outidx as int, Set::<Tree>::empty(), Set::<Tree>::empty() + vreach(nvars@.take(0))); }
//@ loop 10
    invariant i <= nvars@.len(), *dmt == DataModelType::Enum(nvars), decreases_to!(*dmt => nvars@), out@.len() == MAX, 0 + vup(nvars@) <= MAX, outidx <= 0 + vup(nvars@.take(i as int)), lok(out@, outidx as int, Set::<Tree>::empty() + vreach(nvars@.take(i as int)))
    decreases nvars@.len() - i
//@ hint loop 10 start
    proof { vup_mono(nvars@, i as int); assert(decreases_to!(nvars@ => *nvars@[i as int])); }
//@ hint loop 10 end
    proof { assert(Set::<Tree>::empty() + vreach(nvars@.take(i as int)) =~= Set::<Tree>::empty() + vreach(nvars@.take(i - 1)) + vvreach(*nvars@[i - 1].ty)); }
//@ hint loop 10 after
    proof { assert(nvars@.take(nvars@.len() as int) =~= nvars@); lok_eq(out@, outidx as int, Set::<Tree>::empty() + vreach(nvars@), dreach(*dmt)); }
//@ hint loop 11 before
    let ghost s0 = (Set::<Tree>::empty() + vreach(nvars@.take(i as int))); let ghost b0 = outidx as int;
    proof { lok_eq(out@, outidx as int, s0, s0 + pre(arr@, 0)); }
//@ loop 11
    invariant j <= used, lok(arr@, used as int, reach(**nt)), used <= up(**nt), b0 + up(**nt) <= MAX, outidx <= b0 + j, lok(out@, outidx as int, s0 + pre(arr@, j as int)), out@.len() == MAX
    decreases used - j
//@ hint loop 11 start
    let ghost out0 = out@; let ghost oi0 = outidx as int;
    proof { pre_all(arr@, j as int, used as int, reach(**nt)); }
//@ hint loop 11 end
    proof {
        let x = tv(*arr@[j - 1]->0);
        assert((s0 + pre(arr@, j - 1)).insert(x) =~= s0 + pre(arr@, j as int));
        if out@ == out0 { if (s0 + pre(arr@, j - 1)).contains(x) { assert(s0 + pre(arr@, j - 1) =~= s0 + pre(arr@, j as int)); } }
        else { lok_push(out0, out@, oi0, s0 + pre(arr@, j - 1), arr@[j - 1]->0); }
    }
//@ hint loop 11 after
    proof { pre_all(arr@, used as int, used as int, reach(**nt)); assert(s0 + pre(arr@, used as int) =~= s0 + reach(**nt)); }
//@ loop 12
    invariant k <= outidx, lok(out@, outidx as int, s0 + pre(arr@, j as int)), !found ==> forall|q: int| 0 <= q < k ==> tv(*(#[trigger] out@[q])->0) != tv(*ty), found ==> exists|q: int| 0 <= q < outidx && tv(*(#[trigger] out@[q])->0) == tv(*ty)
    decreases outidx - k
//@ hint loop 13 before
    let ghost sv0 = (Set::<Tree>::empty() + vreach(nvars@.take(i as int))); let ghost bv0 = outidx as int;
    proof { assert(nts@.take(0).len() == 0); lok_eq(out@, outidx as int, sv0, sv0 + treach(nts@.take(0))); }
//@ loop 13
    invariant x <= nts@.len(), *nvars@[i as int].ty == DataModelVariant::TupleVariant(nts), 0 <= i < nvars@.len(), decreases_to!(*dmt => nts@), out@.len() == MAX, bv0 + tup(nts@) <= MAX, outidx <= bv0 + tup(nts@.take(x as int)), lok(out@, outidx as int, sv0 + treach(nts@.take(x as int)))
    decreases nts@.len() - x
//@ hint loop 13 start
    proof { tup_mono(nts@, x as int); assert(decreases_to!(nts@ => *nts@[x as int])); }
//@ hint loop 13 end
    proof { assert(sv0 + treach(nts@.take(x as int)) =~= sv0 + treach(nts@.take(x - 1)) + reach(*nts@[x - 1])); }
//@ hint loop 13 after
    proof { assert(nts@.take(nts@.len() as int) =~= nts@); lok_eq(out@, outidx as int, sv0 + treach(nts@), sv0 + vvreach(*nvars@[i as int].ty)); }
//@ hint loop 14 before
    let ghost s0 = sv0 + treach(nts@.take(x as int)); let ghost b0 = outidx as int;
    proof { lok_eq(out@, outidx as int, s0, s0 + pre(arr@, 0)); }
//@ loop 14
    invariant j <= used, lok(arr@, used as int, reach(*nts@[x as int])), used <= up(*nts@[x as int]), b0 + up(*nts@[x as int]) <= MAX, outidx <= b0 + j, lok(out@, outidx as int, s0 + pre(arr@, j as int)), out@.len() == MAX
    decreases used - j
//@ hint loop 14 start
    let ghost out0 = out@; let ghost oi0 = outidx as int;
    proof { pre_all(arr@, j as int, used as int, reach(*nts@[x as int])); }
//@ hint loop 14 end
    proof {
        let x = tv(*arr@[j - 1]->0);
        assert((s0 + pre(arr@, j - 1)).insert(x) =~= s0 + pre(arr@, j as int));
        if out@ == out0 { if (s0 + pre(arr@, j - 1)).contains(x) { assert(s0 + pre(arr@, j - 1) =~= s0 + pre(arr@, j as int)); } }
        else { lok_push(out0, out@, oi0, s0 + pre(arr@, j - 1), arr@[j - 1]->0); }
    }
//@ hint loop 14 after
    proof { pre_all(arr@, used as int, used as int, reach(*nts@[x as int])); assert(s0 + pre(arr@, used as int) =~= s0 + reach(*nts@[x as int])); }
//@ loop 15
    invariant k <= outidx, lok(out@, outidx as int, s0 + pre(arr@, j as int)), !found ==> forall|q: int| 0 <= q < k ==> tv(*(#[trigger] out@[q])->0) != tv(*ty), found ==> exists|q: int| 0 <= q < outidx && tv(*(#[trigger] out@[q])->0) == tv(*ty)
    decreases outidx - k
//@ hint loop 16 before
    let ghost sv0 = (Set::<Tree>::empty() + vreach(nvars@.take(i as int))); let ghost bv0 = outidx as int;
    proof { assert(nvals@.take(0).len() == 0); lok_eq(out@, outidx as int, sv0, sv0 + freach(nvals@.take(0))); }
//@ loop 16
    invariant x <= nvals@.len(), *nvars@[i as int].ty == DataModelVariant::StructVariant(nvals), 0 <= i < nvars@.len(), decreases_to!(*dmt => nvals@), out@.len() == MAX, bv0 + fup(nvals@) <= MAX, outidx <= bv0 + fup(nvals@.take(x as int)), lok(out@, outidx as int, sv0 + freach(nvals@.take(x as int)))
    decreases nvals@.len() - x
//@ hint loop 16 start
    proof { fup_mono(nvals@, x as int); assert(decreases_to!(nvals@ => *nvals@[x as int])); }
//@ hint loop 16 end
    proof { assert(sv0 + freach(nvals@.take(x as int)) =~= sv0 + freach(nvals@.take(x - 1)) + reach(*nvals@[x - 1].ty)); }
//@ hint loop 16 after
    proof { assert(nvals@.take(nvals@.len() as int) =~= nvals@); lok_eq(out@, outidx as int, sv0 + freach(nvals@), sv0 + vvreach(*nvars@[i as int].ty)); }
//@ hint loop 17 before
    let ghost s0 = sv0 + freach(nvals@.take(x as int)); let ghost b0 = outidx as int;
    proof { lok_eq(out@, outidx as int, s0, s0 + pre(arr@, 0)); }
//@ loop 17
    invariant j <= used, lok(arr@, used as int, reach(*nvals@[x as int].ty)), used <= up(*nvals@[x as int].ty), b0 + up(*nvals@[x as int].ty) <= MAX, outidx <= b0 + j, lok(out@, outidx as int, s0 + pre(arr@, j as int)), out@.len() == MAX
    decreases used - j
//@ hint loop 17 start
    let ghost out0 = out@; let ghost oi0 = outidx as int;
    proof { pre_all(arr@, j as int, used as int, reach(*nvals@[x as int].ty)); }
//@ hint loop 17 end
    proof {
        let x = tv(*arr@[j - 1]->0);
        assert((s0 + pre(arr@, j - 1)).insert(x) =~= s0 + pre(arr@, j as int));
        if out@ == out0 { if (s0 + pre(arr@, j - 1)).contains(x) { assert(s0 + pre(arr@, j - 1) =~= s0 + pre(arr@, j as int)); } }
        else { lok_push(out0, out@, oi0, s0 + pre(arr@, j - 1), arr@[j - 1]->0); }
    }
//@ hint loop 17 after
    proof { pre_all(arr@, used as int, used as int, reach(*nvals@[x as int].ty)); assert(s0 + pre(arr@, used as int) =~= s0 + reach(*nvals@[x as int].ty)); }
//@ loop 18
    invariant k <= outidx, lok(out@, outidx as int, s0 + pre(arr@, j as int)), !found ==> forall|q: int| 0 <= q < k ==> tv(*(#[trigger] out@[q])->0) != tv(*ty), found ==> exists|q: int| 0 <= q < outidx && tv(*(#[trigger] out@[q])->0) == tv(*ty)
    decreases outidx - k
//@ fn cruncher ret r
    requires A <= opts@.len(), forall|i: int| 0 <= i < A ==> (#[trigger] opts@[i]) is Some, forall|i: int| A <= i < opts@.len() ==> (#[trigger] opts@[i]) is None
    ensures forall|i: int| 0 <= i < A ==> Some(#[trigger] r@[i]) == opts@[i]
//@ loop 0
    invariant i <= A, A <= opts@.len(), out@.len() == A, forall|q: int| 0 <= q < A ==> (#[trigger] opts@[q]) is Some, forall|q: int| A <= q < opts@.len() ==> (#[trigger] opts@[q]) is None, forall|q: int| 0 <= q < i ==> Some(#[trigger] out@[q]) == opts@[q]
    decreases A - i
//@ loop 1
    invariant A <= i, forall|q: int| A <= q < opts@.len() ==> (#[trigger] opts@[q]) is None
    decreases opts@.len() - i
//@ fn merge_nty_lists ret r
    requires sumlen(lists@, lists@.len() as int) <= M
    ensures lok(r.0@, r.1 as int, llset(lists@, lists@.len() as int)), r.1 <= sumlen(lists@, lists@.len() as int)
//@ loop 0
    invariant i <= lists@.len(), out@.len() == M, sumlen(lists@, lists@.len() as int) <= M, lok(out@, out_ct as int, llset(lists@, i as int)), out_ct <= sumlen(lists@, i as int)
    decreases lists@.len() - i
//@ hint loop 0 start
    proof { sumlen_mono(lists@, i + 1, lists@.len() as int); }
//@ hint loop 1 before
    let ghost s0 = llset(lists@, i as int); let ghost b0 = sumlen(lists@, i as int);
    proof { lok_eq(out@, out_ct as int, s0, s0 + lset(list@, 0)); }
//@ loop 1
    invariant j <= list@.len(), out@.len() == M, b0 + list@.len() <= M, lok(out@, out_ct as int, s0 + lset(list@, j as int)), out_ct <= b0 + j
    decreases list@.len() - j
//@ hint loop 1 start
    let ghost out0 = out@; let ghost oc0 = out_ct as int;
//@ hint loop 1 end
    proof {
        let x = tv(*list@[j - 1]);
        if !prim(*list@[j - 1].ty) {
            assert((s0 + lset(list@, j - 1)).insert(x) =~= s0 + lset(list@, j as int));
            if out@ == out0 { if (s0 + lset(list@, j - 1)).contains(x) { assert(s0 + lset(list@, j - 1) =~= s0 + lset(list@, j as int)); } }
            else { lok_push(out0, out@, oc0, s0 + lset(list@, j - 1), list@[j - 1]); }
        }
    }
//@ loop 2
    invariant k <= out_ct, lok(out@, out_ct as int, s0 + lset(list@, j as int)), prim(*item.ty) ==> found, !found ==> forall|q: int| 0 <= q < k ==> tv(*(#[trigger] out@[q])->0) != tv(*item), found && !prim(*item.ty) ==> (s0 + lset(list@, j as int)).contains(tv(*item))
    decreases out_ct - k
//@ fn total_len ret r
    requires sumlen(arrs@, arrs@.len() as int) <= usize::MAX
    ensures r == sumlen(arrs@, arrs@.len() as int)
//@ loop 0
    invariant i <= arrs@.len(), ct == sumlen(arrs@, i as int), sumlen(arrs@, arrs@.len() as int) <= usize::MAX
    decreases arrs@.len() - i
//@ hint loop 0 start
    proof { sumlen_mono(arrs@, i + 1, arrs@.len() as int); }
//@ fn combine_with_copy ret r
    requires sumlen(arrs@, arrs@.len() as int) == N
    ensures r@ == flat(arrs@, arrs@.len() as int)
//@ loop 0
    invariant i <= arrs@.len(), out@.len() == N, sumlen(arrs@, arrs@.len() as int) == N, outidx == sumlen(arrs@, i as int), flat(arrs@, i as int).len() == outidx, out@.take(outidx as int) == flat(arrs@, i as int)
    decreases arrs@.len() - i
//@ hint loop 0 before
    proof { assert(out@.take(0) =~= flat(arrs@, 0)); }
//@ hint loop 0 start
    let ghost o0 = outidx as int;
    proof { sumlen_mono(arrs@, i + 1, arrs@.len() as int); assert(flat(arrs@, i as int) =~= flat(arrs@, i as int) + arrs@[i as int]@.take(0)); }
//@ loop 1
    invariant j <= arrs@[i as int]@.len(), 0 <= i < arrs@.len(), out@.len() == N, outidx == o0 + j, o0 + arrs@[i as int]@.len() <= N, flat(arrs@, i as int).len() == o0, out@.take(outidx as int) == flat(arrs@, i as int) + arrs@[i as int]@.take(j as int)
    decreases arrs@[i as int]@.len() - j
//@ hint loop 1 start
    let ghost w0 = out@;
//@ hint loop 1 end
    proof {
        assert(arrs@[i as int]@.take(j as int) =~= arrs@[i as int]@.take(j - 1).push(arrs@[i as int]@[j - 1]));
        assert(out@.take(outidx as int) =~= w0.take(outidx - 1).push(arrs@[i as int]@[j - 1]));
        assert(out@.take(outidx as int) =~= flat(arrs@, i as int) + arrs@[i as int]@.take(j as int));
    }
//@ hint loop 1 after
    proof { assert(arrs@[i as int]@.take(arrs@[i as int]@.len() as int) =~= arrs@[i as int]@); }
//@ hint loop 0 after
    proof { assert(out@.take(N as int) =~= out@); }
//@ text
spec fn flat<T>(l: Seq<&[T]>, i: int) -> Seq<T> decreases i { if i <= 0 { Seq::empty() } else { flat(l, i - 1) + l[i - 1]@ } }
