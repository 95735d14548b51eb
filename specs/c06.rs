//@include prelude.rs
//@assume_bodies
//@include newlayout.rs
//@include vecops.rs
//@verify_bodies
//@include permute.rs
//@assume_bodies
//@include reverse_axes.rs
//@verify_bodies

// C06: broadcasting.
//@struct rstsr-common/src/flags.rs :: FlagOrder
pub use FlagOrder::C as RowMajor;
pub use FlagOrder::F as ColMajor;
//@struct rstsr-common/src/layout/broadcast.rs :: BroadcastType

/// number of axes added in front of a shape of rank m to align it with rank n
pub open spec fn shift(m: int, n: int, order: FlagOrder) -> int { if order is C { n - m } else { 0 } }
/// axis i of the common rank n has no counterpart in a shape of rank m
pub open spec fn absent(m: int, n: int, i: int, order: FlagOrder) -> bool { i < shift(m, n, order) || i >= shift(m, n, order) + m }
/// aligned length of a shape at axis i
pub open spec fn dim_at(s: Seq<usize>, n: int, i: int, order: FlagOrder) -> int {
    if absent(s.len() as int, n, i, order) { 1 } else { s[i - shift(s.len() as int, n, order)] as int }
}
pub open spec fn max_rank(a: Seq<usize>, b: Seq<usize>) -> int { if a.len() > b.len() { a.len() as int } else { b.len() as int } }
pub open spec fn pair_ok(x: int, y: int) -> bool { x == y || x == 1 || y == 1 }
/// the broadcasting rule
pub open spec fn compatible(a: Seq<usize>, b: Seq<usize>, order: FlagOrder) -> bool {
    forall|i: int| 0 <= i < max_rank(a, b) ==> pair_ok(#[trigger] dim_at(a, max_rank(a, b), i, order), dim_at(b, max_rank(a, b), i, order))
}
pub open spec fn common(x: int, y: int) -> int { if x == 1 { y } else { x } }
pub open spec fn common_shape(a: Seq<usize>, b: Seq<usize>, order: FlagOrder) -> Seq<usize> {
    Seq::new(max_rank(a, b) as nat, |i: int| common(dim_at(a, max_rank(a, b), i, order), dim_at(b, max_rank(a, b), i, order)) as usize)
}
/// what happens to axis i of a when it is broadcast together with b
pub open spec fn kind(a: Seq<usize>, b: Seq<usize>, i: int, order: FlagOrder) -> BroadcastType {
    let n = max_rank(a, b);
    if absent(a.len() as int, n, i, order) { BroadcastType::Expand }
    else if dim_at(a, n, i, order) == 1 && dim_at(b, n, i, order) != 1 { BroadcastType::Upcast }
    else { BroadcastType::Preserve }
}
/// multi-index of the source: added axes dropped, repeated axes at zero
pub open spec fn project(idx: Seq<int>, s: Seq<usize>, order: FlagOrder) -> Seq<int> {
    Seq::new(s.len(), |k: int| if s[k] == 1 { 0int } else { idx[k + shift(s.len() as int, idx.len() as int, order)] })
}
/// r shows the elements of l broadcast to the shape of r
pub open spec fn broadcast_of(l: Layout, r: Layout, order: FlagOrder) -> bool {
    forall|idx: Seq<int>| in_range(idx, r.shape@) ==> in_range(#[trigger] project(idx, l.shape@, order), l.shape@) && r.addr(idx) == l.addr(project(idx, l.shape@, order))
}

pub proof fn lemma_dim_rev(a: Seq<usize>, n: int, i: int)
    requires 0 <= i < n, a.len() <= n,
    ensures dim_at(a.reverse(), n, n - 1 - i, FlagOrder::C) == dim_at(a, n, i, FlagOrder::F), absent(a.len() as int, n, n - 1 - i, FlagOrder::C) == absent(a.len() as int, n, i, FlagOrder::F),
{ }

//@types D1=Vec<usize> ; D2=Vec<usize> ; DMax=Vec<usize>
//@fn rstsr-common/src/layout/broadcast.rs :: broadcast_shape
//@opt arg:shape1 arg:shape2 drop:into dropargs:map_err
//@calls TryInto::<D>::try_into=vx_same ; TryInto::<Vec<usize>>::try_into=vx_same
//@requires
    vx_shape1@.len() < 0x1_0000_0000, vx_shape2@.len() < 0x1_0000_0000,
//@ensures
    r is Ok <==> compatible(vx_shape1@, vx_shape2@, order),
    r is Ok ==> r->Ok_0.0@ == common_shape(vx_shape1@, vx_shape2@, order),
    r is Ok ==> r->Ok_0.1@.len() == max_rank(vx_shape1@, vx_shape2@) && r->Ok_0.2@.len() == max_rank(vx_shape1@, vx_shape2@),
    r is Ok ==> forall|i: int| 0 <= i < max_rank(vx_shape1@, vx_shape2@) ==> #[trigger] r->Ok_0.1@[i] == kind(vx_shape1@, vx_shape2@, i, order),
    r is Ok ==> forall|i: int| 0 <= i < max_rank(vx_shape1@, vx_shape2@) ==> #[trigger] r->Ok_0.2@[i] == kind(vx_shape2@, vx_shape1@, i, order),
//@at start
    let ghost (a, b) = (vx_shape1@, vx_shape2@);
    let ghost nn = max_rank(a, b);
//@loop 0
    invariant
        a == vx_shape1@, b == vx_shape2@, vx_i0 <= n, vx_n0 == 0, n == nn, nn == max_rank(a, b), n1 == shape1@.len(), n2 == shape2@.len(), nn == max_rank(shape1@, shape2@), n1 < 0x1_0000_0000, n2 < 0x1_0000_0000,
        shape1@ == (if order is F { a.reverse() } else { a }), shape2@ == (if order is F { b.reverse() } else { b }),
        shape@.len() == n, tp1@.len() == n, tp2@.len() == n,
        forall|i: int| vx_i0 <= i < n ==> pair_ok(#[trigger] dim_at(shape1@, nn, i, RowMajor), dim_at(shape2@, nn, i, RowMajor)),
        forall|i: int| vx_i0 <= i < n ==> #[trigger] shape@[i] == common(dim_at(shape1@, nn, i, RowMajor), dim_at(shape2@, nn, i, RowMajor)),
        forall|i: int| vx_i0 <= i < n ==> #[trigger] tp1@[i] == kind(shape1@, shape2@, i, RowMajor),
        forall|i: int| vx_i0 <= i < n ==> #[trigger] tp2@[i] == kind(shape2@, shape1@, i, RowMajor),
    decreases vx_i0,
//@at let n
    proof { assert(order is F ==> shape1@ =~= a.reverse() && shape2@ =~= b.reverse()); }
//@at let d2
        proof {
            assert(d1 == dim_at(shape1@, nn, i as int, RowMajor));
            assert(d2 == dim_at(shape2@, nn, i as int, RowMajor));
        }
//@at return 0
                    proof {
                        let k = if order is F { nn - 1 - i } else { i as int };
                        if order is F { lemma_dim_rev(a, nn, k); lemma_dim_rev(b, nn, k); } else { assert(order == FlagOrder::C); }
                        assert(d1 == dim_at(a, nn, k, order) && d2 == dim_at(b, nn, k, order));
                        assert(!pair_ok(dim_at(a, nn, k, order), dim_at(b, nn, k, order)));
                    }
//@at end
    proof {
        if order is F {
            assert forall|i: int| 0 <= i < nn implies pair_ok(#[trigger] dim_at(a, nn, i, order), dim_at(b, nn, i, order)) by {
                lemma_dim_rev(a, nn, i); lemma_dim_rev(b, nn, i);
                assert(pair_ok(dim_at(shape1@, nn, nn - 1 - i, RowMajor), dim_at(shape2@, nn, nn - 1 - i, RowMajor)));
            }
            assert forall|i: int| 0 <= i < nn implies shape@[i] == common(dim_at(a, nn, i, order), dim_at(b, nn, i, order)) && #[trigger] tp1@[i] == kind(a, b, i, order) by {
                lemma_dim_rev(a, nn, i); lemma_dim_rev(b, nn, i);
            }
            assert forall|i: int| 0 <= i < nn implies #[trigger] tp2@[i] == kind(b, a, i, order) by {
                lemma_dim_rev(a, nn, i); lemma_dim_rev(b, nn, i);
            }
        }
        assert(shape@ =~= common_shape(a, b, order));
    }
//@end

pub open spec fn zeroed(t: BroadcastType) -> bool { t is Expand || t is Upcast }
/// strides of l aligned to rank n, zero on the added and the repeated axes
pub open spec fn restrided(l: Layout, tp: Seq<BroadcastType>, j: int, n: int, order: FlagOrder) -> isize {
    if zeroed(tp[j]) || absent(l.shape@.len() as int, n, j, order) { 0 } else { l.stride@[j - shift(l.shape@.len() as int, n, order)] }
}
//@fn rstsr-common/src/layout/broadcast.rs :: update_layout_by_shape
//@param broadcast_type=&Vec<BroadcastType>
//@opt drop:into dropargs:map_err resmap
//@calls .try_into=vx_same
//@methods unwrap_unchecked=unwrap
//@requires
    layout.len_ok(), layout.shape@.len() <= shape@.len(), broadcast_type@.len() == shape@.len(), shape@.len() < 0x1_0000_0000,
//@ensures
    r is Ok, r->Ok_0.shape@ == shape@, r->Ok_0.offset == layout.offset, r->Ok_0.stride@.len() == shape@.len(),
    forall|j: int| 0 <= j < shape@.len() ==> #[trigger] r->Ok_0.stride@[j] == restrided(*layout, broadcast_type@, j, shape@.len() as int, order),
//@clauses
    decreases if order is F { 1int } else { 0int },
//@at start
    let ghost (l0, sh0, tp0) = (*layout, shape@, broadcast_type@);
//@at let result
        proof {
            let n = sh0.len() as int;
            let rl = result->Ok_0;
            let m = l0.shape@.len() as int;
            assert(rl.len_ok());
            assert(is_perm(reversal(n), n)) by { assert(reversal(n).no_duplicates()); }
            assert(is_perm(reversal(m), m)) by { assert(reversal(m).no_duplicates()); }
            assert forall|r2: Layout| permuted(rl, r2, reversal(n)) implies r2.shape@ =~= sh0
                && forall|j: int| 0 <= j < n ==> #[trigger] r2.stride@[j] == restrided(l0, tp0, j, n, order) by {
                assert forall|j: int| 0 <= j < n implies r2.shape@[j] == sh0[j] by { assert(reversal(n)[j] == n - 1 - j); }
                assert forall|j: int| 0 <= j < n implies #[trigger] r2.stride@[j] == restrided(l0, tp0, j, n, order) by {
                    assert(reversal(n)[j] == n - 1 - j);
                    let k = n - 1 - j;
                    assert(rl.stride@[k] == restrided(layout, broadcast_type@, k, n, RowMajor));
                    if j < m { assert(reversal(m)[m - 1 - j] == j); }
                }
            }
        }
//@loop 0
        invariant
            vx_n0 == n, vx_i0 <= n, n == shape@.len(), layout.len_ok(), n_old == layout.shape@.len(), n_old <= n, broadcast_type@.len() == n, stride@.len() == n,
            order is C,
            forall|j: int| 0 <= j < n ==> #[trigger] stride@[j] == if j < vx_i0 { restrided(*layout, broadcast_type@, j, n as int, order) }
                else if j < n - n_old { 0 } else { layout.stride@[j - (n - n_old)] },
        decreases vx_n0 - vx_i0,
//@end

/// terms of the added axes vanish, the others are those of the source
pub proof fn lemma_bc_dot(idx: Seq<int>, l: Layout, st: Seq<isize>, tp: Seq<BroadcastType>, order: FlagOrder, m: int)
    requires
        0 <= m <= st.len(), idx.len() == st.len(), l.len_ok(), l.shape@.len() <= st.len(), tp.len() == st.len(),
        forall|j: int| 0 <= j < st.len() ==> #[trigger] st[j] == restrided(l, tp, j, st.len() as int, order),
        // an axis that is not stretched keeps its index, a stretched one has length one
        forall|j: int| 0 <= j < st.len() && !absent(l.shape@.len() as int, st.len() as int, j, order) ==>
            if zeroed(#[trigger] tp[j]) { l.shape@[j - shift(l.shape@.len() as int, st.len() as int, order)] == 1 }
            else { l.shape@[j - shift(l.shape@.len() as int, st.len() as int, order)] == 1 ==> idx[j] == 0 },
    ensures ({
        let k = m - shift(l.shape@.len() as int, st.len() as int, order);
        dot(idx, st, m) == dot(project(idx, l.shape@, order), l.stride@, if k < 0 { 0 } else if k > l.shape@.len() { l.shape@.len() as int } else { k })
    }),
    decreases m,
{
    if m > 0 {
        lemma_bc_dot(idx, l, st, tp, order, m - 1);
        let j = m - 1;
        assert(st[j] == restrided(l, tp, j, st.len() as int, order));
        let _ = tp[j];
        assert(idx[j] * 0 == 0);
        if !absent(l.shape@.len() as int, st.len() as int, j, order) {
            let k = j - shift(l.shape@.len() as int, st.len() as int, order);
            assert(0 * l.stride@[k] == 0);
        }
    }
}
pub proof fn lemma_broadcast(l: Layout, b: Seq<usize>, r: Layout, tp: Seq<BroadcastType>, order: FlagOrder)
    requires
        l.len_ok(), compatible(l.shape@, b, order), r.offset == l.offset,
        r.shape@ == common_shape(l.shape@, b, order), r.stride@.len() == r.shape@.len(), tp.len() == r.shape@.len(),
        forall|i: int| 0 <= i < tp.len() ==> #[trigger] tp[i] == kind(l.shape@, b, i, order),
        forall|j: int| 0 <= j < tp.len() ==> #[trigger] r.stride@[j] == restrided(l, tp, j, tp.len() as int, order),
    ensures broadcast_of(l, r, order),
{
    let a = l.shape@; let n = r.shape@.len() as int; let m = a.len() as int;
    assert forall|idx: Seq<int>| in_range(idx, r.shape@) implies in_range(#[trigger] project(idx, a, order), a) && r.addr(idx) == l.addr(project(idx, a, order)) by {
        let q = project(idx, a, order);
        assert forall|k: int| 0 <= k < m implies 0 <= #[trigger] q[k] < a[k] by {
            let j = k + shift(m, n, order);
            assert(pair_ok(dim_at(a, n, j, order), dim_at(b, n, j, order)));
            assert(0 <= idx[j] < r.shape@[j]);
            assert(dim_at(a, n, j, order) == a[k]);
        }
        assert forall|j: int| 0 <= j < n && !absent(m, n, j, order) implies
            (if zeroed(#[trigger] tp[j]) { a[j - shift(m, n, order)] == 1 } else { a[j - shift(m, n, order)] == 1 ==> idx[j] == 0 }) by {
            assert(tp[j] == kind(a, b, j, order));
            assert(0 <= idx[j] < r.shape@[j]);
            assert(dim_at(a, n, j, order) == a[j - shift(m, n, order)]);
        }
        lemma_bc_dot(idx, l, r.stride@, tp, order, n);
    }
}
pub proof fn lemma_common_sym(a: Seq<usize>, b: Seq<usize>, order: FlagOrder)
    requires compatible(a, b, order),
    ensures compatible(b, a, order), common_shape(a, b, order) == common_shape(b, a, order),
{
    let n = max_rank(a, b);
    assert forall|i: int| 0 <= i < n implies pair_ok(#[trigger] dim_at(b, n, i, order), dim_at(a, n, i, order)) by {
        assert(pair_ok(dim_at(a, n, i, order), dim_at(b, n, i, order)));
    }
    assert forall|i: int| 0 <= i < n implies common_shape(a, b, order)[i] == common_shape(b, a, order)[i] by {
        assert(pair_ok(dim_at(a, n, i, order), dim_at(b, n, i, order)));
    }
    assert(common_shape(a, b, order) =~= common_shape(b, a, order));
}

//@fn rstsr-common/src/layout/broadcast.rs :: broadcast_layout
//@requires
    layout1.len_ok(), layout2.len_ok(), layout1.shape@.len() < 0x1_0000_0000, layout2.shape@.len() < 0x1_0000_0000,
//@ensures
    r is Ok <==> compatible(layout1.shape@, layout2.shape@, order),
    r is Ok ==> r->Ok_0.0.shape@ == common_shape(layout1.shape@, layout2.shape@, order) && r->Ok_0.1.shape@ == r->Ok_0.0.shape@,
    r is Ok ==> broadcast_of(*layout1, r->Ok_0.0, order) && broadcast_of(*layout2, r->Ok_0.1, order),
//@at start
    let ghost (l1, l2) = (*layout1, *layout2);
//@at end
    proof {
        lemma_broadcast(l1, l2.shape@, layout1, tp1@, order);
        lemma_common_sym(l1.shape@, l2.shape@, order);
        lemma_broadcast(l2, l1.shape@, layout2, tp2@, order);
    }
//@end

pub open spec fn stretches(small: Seq<usize>, big: Seq<usize>) -> bool {
    small.len() <= big.len() && forall|k: int| 0 <= k < small.len() ==> small[k] == 1 || #[trigger] small[k] == big[k + big.len() - small.len()]
}
pub trait DimBroadcastableAPI: DimBaseAPI {
    fn broadcastable_from(&self, other: &Vec<usize>) -> (r: bool)
        requires self.seq().len() < 0x1_0000_0000, other@.len() < 0x1_0000_0000,
        ensures r <==> stretches(other@, self.seq());
    fn broadcastable_to(&self, other: &Vec<usize>) -> (r: bool)
        requires self.seq().len() < 0x1_0000_0000, other@.len() < 0x1_0000_0000,
        ensures r <==> stretches(self.seq(), other@);
}
impl DimBroadcastableAPI for Vec<usize> {
    //@fn rstsr-common/src/layout/broadcast.rs :: trait DimBroadcastableAPI :: broadcastable_from
    //@opt private
    //@loop 0
        invariant
            vx_n0 == 0, vx_i0 <= n, n == n1, n1 == self@.len(), n2 == other@.len(), n2 <= n1, n1 < 0x1_0000_0000, *shape1 == *self, *shape2 == *other,
            forall|k: int| 0 <= k < n2 && vx_i0 <= k + n1 - n2 ==> other@[k] == 1 || #[trigger] other@[k] == self@[k + n1 - n2],
        decreases vx_i0,
    //@at return 1
            proof { let k = i + n2 - n1; assert(other@[k] == d2); }
    //@end
    //@fn rstsr-common/src/layout/broadcast.rs :: trait DimBroadcastableAPI :: broadcastable_to
    //@opt private
    //@loop 0
        invariant
            vx_n0 == 0, vx_i0 <= n, n == n2, n1 == self@.len(), n2 == other@.len(), n1 <= n2, n2 < 0x1_0000_0000, *shape1 == *self, *shape2 == *other,
            forall|k: int| 0 <= k < n1 && vx_i0 <= k + n2 - n1 ==> self@[k] == 1 || #[trigger] self@[k] == other@[k + n2 - n1],
        decreases vx_i0,
    //@at return 1
            proof { let k = i + n1 - n2; assert(self@[k] == d1); }
    //@end
}
}
fn main() {}
