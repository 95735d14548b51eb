// Rearrangements of layouts for iteration.
/// stable sort with a comparator; only that the result is a permutation is used
#[verifier::external_body]
pub fn vx_sort_by(v: &mut Vec<isize>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(),
{ unimplemented!() }

/// axes to reverse: those of negative stride
pub open spec fn negs(st: Seq<isize>, n: int) -> Seq<bool> { Seq::new(st.len(), |i: int| i < n && st[i] < 0) }
pub open spec fn flip_idx(idx: Seq<int>, sh: Seq<usize>, fl: Seq<bool>) -> Seq<int> {
    Seq::new(sh.len(), |i: int| if fl[i] { sh[i] - 1 - idx[i] } else { idx[i] })
}
/// the layout m is l with the axes fl walked backwards
pub open spec fn flipped(l: Layout, m: Layout, fl: Seq<bool>) -> bool {
    &&& m.shape@ == l.shape@ && m.stride@.len() == l.stride@.len() && l.shape@.len() == l.stride@.len() && fl.len() == l.shape@.len()
    &&& forall|i: int| 0 <= i < fl.len() ==> #[trigger] m.stride@[i] == if fl[i] { -l.stride@[i] } else { l.stride@[i] as int }
    &&& m.offset <= l.offset
    &&& forall|idx: Seq<int>| in_range(idx, l.shape@) ==> in_range(#[trigger] flip_idx(idx, l.shape@, fl), l.shape@) && m.addr(idx) == l.addr(flip_idx(idx, l.shape@, fl))
}
pub proof fn lemma_flip_none(l: Layout)
    requires l.len_ok(),
    ensures flipped(l, l, negs(l.stride@, 0)),
{
    assert forall|idx: Seq<int>| in_range(idx, l.shape@) implies in_range(#[trigger] flip_idx(idx, l.shape@, negs(l.stride@, 0)), l.shape@) && l.addr(idx) == l.addr(flip_idx(idx, l.shape@, negs(l.stride@, 0))) by {
        assert(flip_idx(idx, l.shape@, negs(l.stride@, 0)) =~= idx);
    }
}
/// one more axis reversed, or not negative
pub proof fn lemma_flip_step(l: Layout, m: Layout, m2: Layout, a: int, slice: Slice)
    requires
        flipped(l, m, negs(l.stride@, a)), 0 <= a < l.shape@.len(), nonempty(l.shape@), l.stride@[a] < 0,
        slice.start is None, slice.stop is None, slice.step == Some(-1isize),
        m2.shape@.len() == m.shape@.len(), forall|i: int| 0 <= i < m.shape@.len() && i != a ==> m2.shape@[i] == m.shape@[i],
        forall|k: int| 0 <= k < m2.shape@[a] <==> #[trigger] taken(slice, m.shape@[a] as int, k),
        forall|idx: Seq<int>| in_range(idx, m2.shape@) ==> in_range(#[trigger] idx.update(a, pos_of(slice, m.shape@[a] as int, idx[a])), m.shape@)
                && m2.addr(idx) == m.addr(idx.update(a, pos_of(slice, m.shape@[a] as int, idx[a]))),
        m2.stride@.len() == m.stride@.len(), forall|i: int| 0 <= i < m.shape@.len() && i != a ==> m2.stride@[i] == m.stride@[i],
        m2.stride@[a] == m.stride@[a] * -1,
        m2.shape@[a] > 0 ==> m2.offset == m.offset + m.stride@[a] * (m.shape@[a] - 1),
    ensures flipped(l, m2, negs(l.stride@, a + 1)),
{
    let n = m.shape@[a] as int;
    let f1 = negs(l.stride@, a); let f2 = negs(l.stride@, a + 1);
    assert forall|k: int| #[trigger] taken(slice, n, k) <==> 0 <= k < n by {
        assert(k * step_of(slice) == -k) by (nonlinear_arith) requires step_of(slice) == -1;
        assert(pos_of(slice, n, k) == n - 1 - k);
    }
    assert(l.shape@[a] > 0);
    assert(m2.shape@[a] == n) by {
        assert(taken(slice, n, n - 1));
        if m2.shape@[a] > n { assert(taken(slice, n, n)); }
    }
    assert(m2.shape@ =~= l.shape@);
    let t = m.stride@[a] as int;
    assert(m.stride@[a] == l.stride@[a]);
    assert(t * (n - 1) <= 0) by (nonlinear_arith) requires t < 0, n >= 1;
    assert forall|i: int| 0 <= i < f2.len() implies #[trigger] m2.stride@[i] == if f2[i] { -l.stride@[i] } else { l.stride@[i] as int } by {
        assert(m.stride@[i] == if f1[i] { -l.stride@[i] } else { l.stride@[i] as int });
    }
    assert forall|idx: Seq<int>| in_range(idx, l.shape@) implies in_range(#[trigger] flip_idx(idx, l.shape@, f2), l.shape@) && m2.addr(idx) == l.addr(flip_idx(idx, l.shape@, f2)) by {
        let j = idx.update(a, pos_of(slice, n, idx[a]));
        assert(in_range(j, m.shape@));
        let k = idx[a]; assert(k * step_of(slice) == -k) by (nonlinear_arith) requires step_of(slice) == -1;
        assert(pos_of(slice, n, idx[a]) == n - 1 - idx[a]);
        assert(in_range(flip_idx(j, l.shape@, f1), l.shape@));
        assert(flip_idx(j, l.shape@, f1) =~= flip_idx(idx, l.shape@, f2));
    }
}
pub proof fn lemma_negs_skip(l: Layout, a: int)
    requires 0 <= a < l.stride@.len(), l.stride@[a] >= 0,
    ensures negs(l.stride@, a) == negs(l.stride@, a + 1),
{ assert(negs(l.stride@, a) =~= negs(l.stride@, a + 1)); }

/// a permutation of the axis numbers, as a list of signed numbers
pub open spec fn axes_list(s: Seq<isize>, n: int) -> bool {
    s.len() == n && distinct(s) && forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n
}
pub open spec fn upto(n: int) -> Seq<isize> { Seq::new(n as nat, |i: int| i as isize) }
pub proof fn lemma_axes_sorted(s: Seq<isize>, n: int)
    requires s.to_multiset() == upto(n).to_multiset(), s.len() == n, 0 <= n <= isize::MAX,
    ensures axes_list(s, n),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_distinct_multiset(s);
    lemma_distinct_multiset(upto(n));
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < n by {
        assert(s.to_multiset().count(s[i]) > 0);
        assert(upto(n).contains(s[i]));
        let j = choose|j: int| 0 <= j < upto(n).len() && upto(n)[j] == s[i];
    }
}
pub proof fn lemma_axes_list(s: Seq<isize>, n: int)
    requires axes_list(s, n), n <= isize::MAX,
    ensures all_axes_ok(s, n), norm_list(s, n) == s, distinct(norm_list(s, n)), is_perm(axes_perm(s, n), n),
        forall|i: int| 0 <= i < n ==> axes_perm(s, n)[i] == s[i],
{
    assert forall|i: int| 0 <= i < s.len() implies axis_ok(#[trigger] s[i] as int, n) by { assert(0 <= s[i] < n); }
    assert(norm_list(s, n) =~= s);
    let p = axes_perm(s, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] p[i] < n && p[i] == s[i] by { assert(0 <= s[i] < n); }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies p[i] != p[j] by { assert(s[i] != s[j]); }
}
/// r walks the elements of l: its axes are those of l in another order, some of them backwards
pub open spec fn arranged(l: Layout, r: Layout, p: Seq<usize>, fl: Seq<bool>) -> bool { exists|m: Layout| flipped(l, m, fl) && #[trigger] permuted(m, r, p) }

pub open spec fn bc_len(l: Layout, i: int) -> int { if l.shape@[i] == 1 || l.stride@[i] == 0 { 1 } else { l.shape@[i] as int } }
pub open spec fn bc_step(l: Layout, i: int) -> int { if l.shape@[i] == 1 || l.stride@[i] == 0 { 0 } else { l.stride@[i] as int } }
/// r is l with the axes of stride zero reduced to length one
pub open spec fn debroadcast(l: Layout, r: Layout) -> bool {
    &&& r.offset == l.offset && r.shape@.len() == l.shape@.len() && r.stride@.len() == l.shape@.len()
    &&& forall|i: int| 0 <= i < l.shape@.len() ==> #[trigger] r.shape@[i] == bc_len(l, i) && r.stride@[i] == bc_step(l, i)
}
pub open spec fn bc_upto(l: Layout, sh: Seq<usize>, st: Seq<isize>, k: int) -> bool {
    &&& sh.len() == l.shape@.len() && st.len() == l.shape@.len()
    &&& forall|i: int| 0 <= i < sh.len() ==> #[trigger] sh[i] == if i < k { bc_len(l, i) } else { l.shape@[i] as int }
    &&& forall|i: int| 0 <= i < st.len() ==> #[trigger] st[i] == if i < k { bc_step(l, i) } else { l.stride@[i] as int }
}
pub open spec fn once(l: Layout, r: Layout, p: Seq<usize>) -> bool { exists|g: Layout| #[trigger] permuted(l, g, p) && debroadcast(g, r) }
//@fn rstsr-common/src/layout/rearrangement.rs :: greedy_layout
//@requires
    layout.good(),
    forall|i: int| 0 <= i < layout.shape@.len() ==> #[trigger] layout.shape@[i] < 0x2000_0000_0000_0000,
//@ensures
    // the index list is a permutation of the axes
    axes_list(r.1@, layout.shape@.len() as int),
    // keeping the shape: the result visits the same elements, negative strides reversed
    keep_shape && !layout.empty() ==> arranged(*layout, r.0, axes_perm(r.1@, layout.shape@.len() as int), negs(layout.stride@, layout.shape@.len() as int)),
    layout.empty() ==> same_lay(r.0, *layout),
    // not keeping it: repeated axes are visited once
    !keep_shape && !layout.empty() ==> once(*layout, r.0, axes_perm(r.1@, layout.shape@.len() as int)),
//@at start
    let ghost l0 = *layout;
    let ghost n0 = l0.shape@.len() as int;
    let ghost mut gm = l0;
    proof { lemma_flip_none(l0); }
//@loop 0
        invariant vx_n0 == n0, 0 <= vx_i0 <= vx_n0, n0 < isize::MAX, vx_acc0@ =~= upto(vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@loop 1
        invariant vx_n1 == n0, vx_i1 <= vx_n1, layout.good(), flipped(l0, layout, negs(l0.stride@, vx_i1 as int)), nonempty(l0.shape@), n0 == l0.shape@.len(), l0.good(),
            forall|i: int| 0 <= i < l0.shape@.len() ==> #[trigger] l0.shape@[i] < 0x2000_0000_0000_0000,
        decreases vx_n1 - vx_i1,
//@loop 2
        invariant vx_n2 == n0, 0 <= vx_i2 <= vx_n2, n0 < isize::MAX, vx_acc2@ =~= upto(vx_i2 as int),
        decreases vx_n2 - vx_i2,
//@at loop 1 top
            let ghost m0 = layout;
            let ghost a = vx_i1 as int;
            proof {
                assert(layout.stride@[a] == if negs(l0.stride@, a)[a] { -l0.stride@[a] } else { l0.stride@[a] as int });
                if l0.stride@[a] >= 0 { lemma_negs_skip(l0, a); }
                assert forall|i: int| 0 <= i < layout.shape@.len() implies #[trigger] layout.shape@[i] < 0x2000_0000_0000_0000 by { assert(l0.shape@[i] < 0x2000_0000_0000_0000); }
                assert forall|i: int| 0 <= i < layout.stride@.len() implies isize::MIN < #[trigger] layout.stride@[i] * -1 <= isize::MAX by { assert(layout.stride@[i] > isize::MIN); }
            }
//@at after layout = layout.dim_narrow
            proof { lemma_flip_step(l0, m0, layout, a, Slice { start: None, stop: None, step: Some(-1isize) }); }
//@at loop 1 after
        proof { gm = layout; }
//@at let index
    proof { assert(index@ =~= upto(n0)); }
//@at before let mut layout #1
    proof { lemma_axes_sorted(index@, n0); lemma_axes_list(index@, n0); }
//@at let layout #1
    proof { if keep_shape { assert(flipped(l0, gm, negs(l0.stride@, n0)) && permuted(gm, layout, axes_perm(index@, n0))); } }
//@loop 3
        invariant vx_n3 == n0, vx_i3 <= vx_n3, shape@.len() == n0, stride@.len() == n0, layout.shape@.len() == n0, layout.stride@.len() == n0,
            bc_upto(layout, shape@, stride@, vx_i3 as int),
        decreases vx_n3 - vx_i3,
//@at let layout #1
    let ghost g1 = layout;
//@at before return (layout, index)
    proof { if !keep_shape { assert(permuted(l0, g1, axes_perm(index@, n0))); assert(debroadcast(g1, layout)); assert(once(l0, layout, axes_perm(index@, n0))); } }
//@end

//@fn rstsr-common/src/layout/rearrangement.rs :: reversed_permute
//@param indices=&Vec<isize>
//@requires
    axes_list(indices@, indices@.len() as int), indices@.len() <= isize::MAX,
//@ensures
    axes_list(r@, indices@.len() as int),
    forall|i: int| 0 <= i < indices@.len() ==> r@[#[trigger] indices@[i] as int] == i,
//@at start
    let ghost n = indices@.len() as int;
    let ghost p = axes_perm(indices@, n);
    proof { lemma_axes_list(indices@, n); }
//@loop 0
        invariant vx_n0 == indices@.len(), vx_i0 <= vx_n0, n == vx_n0, new_indices@.len() == n, axes_list(indices@, n), n <= isize::MAX,
            forall|i: int| 0 <= i < vx_i0 ==> new_indices@[#[trigger] indices@[i] as int] == i,
        decreases vx_n0 - vx_i0,
//@at loop 0 top
            proof { assert(0 <= indices@[vx_i0 as int] < n); }
//@at before return new_indices
    proof {
        assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] new_indices@[j] < n && indices@[new_indices@[j] as int] == j by {
            lemma_perm_onto(p, n, j);
            let i = p.index_of(j as usize);
            assert(indices@[i] == j);
            assert(new_indices@[indices@[i] as int] == i);
        }
    }
//@end
//@struct rstsr-common/src/flags.rs :: FlagOrder
pub use FlagOrder::C as RowMajor;
pub use FlagOrder::F as ColMajor;
//@struct rstsr-common/src/flags.rs :: TensorIterOrder
pub use TensorIterOrder as Order;
/// the build's default order: either one
#[verifier::external_body]
pub fn vx_order() -> (r: FlagOrder) { unimplemented!() }

pub open spec fn small(l: Layout) -> bool { forall|i: int| 0 <= i < l.shape@.len() ==> #[trigger] l.shape@[i] < 0x2000_0000_0000_0000 }
pub open spec fn ready(l: Layout) -> bool { l.good() && small(l) }
pub open spec fn iperm(n: int) -> Seq<usize> { Seq::new(n as nat, |i: int| i as usize) }
pub proof fn lemma_iperm(l: Layout, r: Layout)
    requires same_lay(l, r), l.len_ok(),
    ensures permuted(l, r, iperm(l.shape@.len() as int)),
{
    let p = iperm(l.shape@.len() as int);
    assert(p.no_duplicates());
}
/// what rearranging one layout guarantees, by order
pub open spec fn unary_of(l: Layout, r: Layout, order: TensorIterOrder) -> bool {
    &&& order is C ==> permuted(l, r, reversal(l.shape@.len() as int))
    &&& order is F ==> permuted(l, r, iperm(l.shape@.len() as int))
    &&& order is K && l.empty() ==> same_lay(l, r)
    &&& order is G && l.empty() ==> same_lay(l, r)
    &&& order is G && !l.empty() ==> exists|p: Seq<usize>| #[trigger] once(l, r, p)
    &&& order is K && !l.empty() ==> exists|p: Seq<usize>| #[trigger] arranged(l, r, p, negs(l.stride@, l.shape@.len() as int))
}
//@fn rstsr-common/src/layout/rearrangement.rs :: translate_to_col_major_unary
//@opt closure:fn_c
//@sig fn vx_fn_c(l: &Layout) -> Result<Layout>
//@requires
    l.len_ok(),
//@ensures
    r is Ok && permuted(*l, r->Ok_0, reversal(l.shape@.len() as int)),
//@end
//@fn rstsr-common/src/layout/rearrangement.rs :: translate_to_col_major_unary
//@opt closure:fn_f
//@sig fn vx_fn_f(l: &Layout) -> Result<Layout>
//@requires
    l.len_ok(),
//@ensures
    r is Ok && permuted(*l, r->Ok_0, iperm(l.shape@.len() as int)),
//@at start
    proof { assert forall|x: Layout| same_lay(*l, x) implies #[trigger] permuted(*l, x, iperm(l.shape@.len() as int)) by { lemma_iperm(*l, x); } }
//@end
//@fn rstsr-common/src/layout/rearrangement.rs :: translate_to_col_major_unary
//@opt closure:fn_b
//@sig fn vx_fn_b(l: &Layout) -> Result<Layout>
//@requires
    l.good(), l.shape@.len() > 0,
//@ensures
    r is Ok ==> r->Ok_0.shape@.len() == l.shape@.len() && size_of_shape(r->Ok_0.shape@) == size_of_shape(l.shape@),
//@loop 0
        invariant vx_n0 == l.shape@.len(), 1 <= vx_i0 <= vx_n0, shape@.len() == vx_n0, stride@.len() == vx_n0, l.size_fits(),
            size_of_shape(l.shape@) == prod(shape@, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at loop 0 before
        proof { assert(prod(shape@, 1) == prod(shape@, 0) * shape@[0] && prod(shape@, 0) == 1); assert(prod(l.shape@, l.shape@.len() as int) <= isize::MAX); }
//@at loop 0 top
            let ghost s0 = shape@;
            proof { assert(prod(l.shape@, l.shape@.len() as int) <= isize::MAX); }
//@at loop 0 bottom
            proof { lemma_prod_same(s0, shape@, i as int); assert(prod(shape@, i + 1) == prod(shape@, i as int) * 1); }
//@end
//@fn rstsr-common/src/layout/rearrangement.rs :: translate_to_col_major_unary
//@opt noclosures:fn_c,fn_f,fn_b
//@calls fn_c=vx_fn_c ; fn_b=vx_fn_b ; fn_f=vx_fn_f ; FlagOrder::default=vx_order
//@requires
    ready(*layout), order is A || order is B ==> layout.shape@.len() > 0,
//@ensures
    order is C || order is F || order is K || order is G ==> r is Ok,
    r is Ok ==> unary_of(*layout, r->Ok_0, order),
//@end
//@include prefer.rs
impl Layout {
//@fn rstsr-common/src/layout/broadcast.rs :: impl Layout<D> :: size_non_broadcast
//@requires
        self.len_ok(), self.size_fits(),
//@ensures
        self.empty() ==> r == 0,
        !self.empty() ==> r == prod_nz(self.shape@, self.stride@, self.shape@.len() as int),
//@loop 0
            invariant vx_n0 == self.shape@.len(), vx_i0 <= vx_n0, self.len_ok(), self.size_fits(), nonempty(self.shape@),
                size == prod_nz(self.shape@, self.stride@, vx_i0 as int),
            decreases vx_n0 - vx_i0,
//@at loop 0 top
                proof {
                    let k = vx_i0 as int;
                    lemma_prod_nz(self.shape@, self.stride@, k + 1);
                    assert(prod(self.shape@, k + 1) <= isize::MAX);
                }
//@end
}
/// product of the lengths of the axes of non-zero stride
pub open spec fn prod_nz(s: Seq<usize>, st: Seq<isize>, n: int) -> int
    decreases n,
{ if n <= 0 { 1 } else { prod_nz(s, st, n - 1) * if st[n - 1] != 0 { s[n - 1] as int } else { 1 } } }
pub proof fn lemma_prod_nz(s: Seq<usize>, st: Seq<isize>, n: int)
    requires 0 <= n <= s.len(), s.len() == st.len(), nonempty(s),
    ensures 1 <= prod_nz(s, st, n) <= prod(s, n),
    decreases n,
{
    if n > 0 {
        lemma_prod_nz(s, st, n - 1);
        let x = s[n - 1] as int; let a = prod_nz(s, st, n - 1); let b = prod(s, n - 1);
        assert(s[n - 1] > 0);
        assert(1 <= a * x <= b * x) by (nonlinear_arith) requires 1 <= a <= b, x >= 1;
        assert(b <= b * x) by (nonlinear_arith) requires b >= 1, x >= 1;
        assert(a * 1 == a);
    }
}
/// the same reordering of axes for every layout
pub open spec fn aligned(ls: Seq<&Layout>, rs: Seq<Layout>, p: Seq<usize>) -> bool {
    rs.len() == ls.len() && forall|j: int| 0 <= j < ls.len() ==> permuted(*ls[j], #[trigger] rs[j], p)
}
pub open spec fn aligned_any(ls: Seq<&Layout>, rs: Seq<Layout>) -> bool { exists|p: Seq<usize>| #[trigger] aligned(ls, rs, p) }
pub open spec fn same_shape(ls: Seq<&Layout>) -> bool { forall|i: int, j: int| 0 <= i < ls.len() && 0 <= j < ls.len() ==> #[trigger] ls[i].shape@ == #[trigger] ls[j].shape@ }
pub open spec fn all_ready(ls: Seq<&Layout>) -> bool { forall|j: int| 0 <= j < ls.len() ==> ready(*#[trigger] ls[j]) }
//@fn rstsr-common/src/layout/rearrangement.rs :: translate_to_col_major
//@opt closure:fn_single rescollect
//@sig fn vx_fn_single(ls: &[&Layout], order: TensorIterOrder) -> Result<Vec<Layout>>
//@requires
    all_ready(ls@), order is A || order is B ==> forall|j: int| 0 <= j < ls@.len() ==> (#[trigger] ls@[j]).shape@.len() > 0,
//@ensures
    order is C || order is F || order is K || order is G ==> r is Ok,
    r is Ok ==> each_unary(ls@, r->Ok_0@, order),
//@loop 0
        invariant vx_n0 == ls@.len(), vx_i0 <= vx_n0, vx_acc0@.len() == vx_i0, all_ready(ls@),
            order is A || order is B ==> forall|j: int| 0 <= j < ls@.len() ==> (#[trigger] ls@[j]).shape@.len() > 0,
            forall|j: int| 0 <= j < vx_i0 ==> unary_of(*ls@[j], #[trigger] vx_acc0@[j], order),
        decreases vx_n0 - vx_i0,
//@at loop 0 top
            proof { assert(ready(*ls@[vx_i0 as int])); assert(ls@[vx_i0 as int].shape@.len() >= 0); }
//@end
pub open spec fn each_unary(ls: Seq<&Layout>, rs: Seq<Layout>, order: TensorIterOrder) -> bool {
    rs.len() == ls.len() && forall|j: int| 0 <= j < ls.len() ==> unary_of(*ls[j], #[trigger] rs[j], order)
}
pub proof fn lemma_unary_aligned(ls: Seq<&Layout>)
    requires same_shape(ls), ls.len() > 0,
    ensures forall|rs: Seq<Layout>, order: TensorIterOrder| #[trigger] each_unary(ls, rs, order) && (order is C || order is F) ==> aligned_any(ls, rs),
{
    assert forall|rs: Seq<Layout>, order: TensorIterOrder| #[trigger] each_unary(ls, rs, order) && (order is C || order is F) implies aligned_any(ls, rs) by {
        let n = ls[0].shape@.len() as int;
        let p = if order is C { reversal(n) } else { iperm(n) };
        assert forall|j: int| 0 <= j < ls.len() implies permuted(*ls[j], #[trigger] rs[j], p) by { assert(unary_of(*ls[j], rs[j], order)); assert(ls[j].shape@ == ls[0].shape@); }
        assert(aligned(ls, rs, p));
    }
}
pub open spec fn acc_in(a: Option<(usize, (usize, usize))>, n: int) -> bool { a is Some ==> (a->Some_0).1.0 < n }
pub proof fn lemma_chain(ls: Seq<&Layout>)
    requires forall|i: int| 0 <= i < ls.len() - 1 ==> #[trigger] ls[i].shape@ == ls[i + 1].shape@,
    ensures same_shape(ls),
{
    assert forall|i: int, j: int| 0 <= i < ls.len() && 0 <= j < ls.len() implies #[trigger] ls[i].shape@ == #[trigger] ls[j].shape@ by {
        lemma_chain_to(ls, i); lemma_chain_to(ls, j);
    }
}
pub proof fn lemma_chain_to(ls: Seq<&Layout>, i: int)
    requires forall|i: int| 0 <= i < ls.len() - 1 ==> #[trigger] ls[i].shape@ == ls[i + 1].shape@, 0 <= i < ls.len(),
    ensures ls[i].shape@ == ls[0].shape@,
    decreases i,
{ if i > 0 { lemma_chain_to(ls, i - 1); assert(ls[i - 1].shape@ == ls[i - 1 + 1].shape@); } }
//@fn rstsr-common/src/layout/rearrangement.rs :: translate_to_col_major
//@opt noclosures:fn_single rescollect copymax
//@calls fn_single=vx_fn_single ; FlagOrder::default=vx_order
//@requires
    all_ready(layouts@), order is A || order is B ==> forall|j: int| 0 <= j < layouts@.len() ==> (#[trigger] layouts@[j]).shape@.len() > 0,
//@ensures
    r is Ok ==> same_shape(layouts@),
    order is C || order is F || order is K ==> (r is Ok <==> same_shape(layouts@)),
    r is Ok && (order is C || order is F || order is K) ==> aligned_any(layouts@, r->Ok_0@),
//@loop 0
        invariant vx_n0 + 1 == layouts@.len(), vx_i0 <= vx_n0,
            vx_acc0 ==> forall|i: int| 0 <= i < vx_i0 ==> #[trigger] layouts@[i].shape@ == layouts@[i + 1].shape@,
            !vx_acc0 ==> !same_shape(layouts@),
        decreases vx_n0 - vx_i0,
//@loop 1
        invariant vx_n1 == layouts@.len(), vx_i1 <= vx_n1, all_ready(layouts@),
        decreases vx_n1 - vx_i1,
//@loop 2
        invariant vx_n2 == layouts@.len(), vx_i2 <= vx_n2, all_ready(layouts@),
        decreases vx_n2 - vx_i2,
//@loop 3
        invariant vx_n3 == layouts@.len(), vx_i3 <= vx_n3, all_ready(layouts@),
        decreases vx_n3 - vx_i3,
//@loop 4
        invariant vx_n4 == layouts@.len(), vx_i4 <= vx_n4, all_ready(layouts@),
        decreases vx_n4 - vx_i4,
//@loop 5
        invariant vx_n5 == layouts@.len(), vx_i5 <= vx_n5, all_ready(layouts@), vx_acc5@.len() == vx_i5,
        decreases vx_n5 - vx_i5,
//@loop 6
        invariant vx_n6 == size_iter@.len(), vx_i6 <= vx_n6,
        decreases vx_n6 - vx_i6,
//@loop 7
        invariant vx_n7 == size_iter@.len(), vx_i7 <= vx_n7,
        decreases vx_n7 - vx_i7,
//@loop 8
        invariant vx_n8 == size_iter@.len(), vx_i8 <= vx_n8, acc_in(vx_acc8, vx_n8 as int), vx_acc8 is None ==> vx_i8 == 0,
        decreases vx_n8 - vx_i8,
//@loop 9
        invariant vx_n9 == layouts@.len(), vx_i9 <= vx_n9, all_ready(layouts@), vx_acc9@.len() == vx_i9, n0 < isize::MAX, axes_list(permute_index@, n0),
            forall|j: int| 0 <= j < layouts@.len() ==> #[trigger] layouts@[j].shape@.len() == n0,
            forall|j: int| 0 <= j < vx_i9 ==> permuted(*layouts@[j], #[trigger] vx_acc9@[j], axes_perm(permute_index@, n0)),
        decreases vx_n9 - vx_i9,
//@at loop 0 top
            proof { assert(layouts.len() == layouts@.len()); }
//@at loop 9 after
            proof { assert(aligned(layouts@, vx_acc9@, axes_perm(permute_index@, n0))); }
//@at return 0
        proof { assert(aligned(layouts@, Seq::empty(), Seq::empty())); }
//@at loop 1 top
            proof { assert(ready(*layouts@[vx_i1 as int])); }
//@at loop 2 top
            proof { assert(ready(*layouts@[vx_i2 as int])); }
//@at loop 3 top
            proof { assert(ready(*layouts@[vx_i3 as int])); }
//@at loop 4 top
            proof { assert(ready(*layouts@[vx_i4 as int])); }
//@at loop 5 top
            proof { assert(ready(*layouts@[vx_i5 as int])); }
//@at loop 9 top
            proof { assert(ready(*layouts@[vx_i9 as int])); lemma_axes_list(permute_index@, n0); assert(layouts@[vx_i9 as int].shape@.len() == n0); }
//@at let is_same_shape
    let ghost n0 = layouts@[0].shape@.len() as int;
    proof {
        if is_same_shape { lemma_chain(layouts@); lemma_unary_aligned(layouts@); }
        assert(ready(*layouts@[0]));
    }
//@end
/// r is l without its first d axes
pub open spec fn dropped(l: Layout, r: Layout, d: int) -> bool {
    &&& 0 <= d <= l.shape@.len() && r.offset == l.offset
    &&& r.shape@ == l.shape@.subrange(d, l.shape@.len() as int) && r.stride@ == l.stride@.subrange(d, l.shape@.len() as int)
}
/// conversion to the dynamic-rank layout: the same layout
#[verifier::external_body]
pub fn vx_into_dim(l: Layout) -> (r: Result<Layout>)
    ensures r is Ok, same_lay(l, r->Ok_0),
{ unimplemented!() }
pub open spec fn machine_of(l: Layout) -> bool { l.machine() }
pub open spec fn all_machine(ls: Seq<&Layout>) -> bool { forall|j: int| 0 <= j < ls.len() ==> machine_of(*#[trigger] ls[j]) }
pub open spec fn dims_ok(a: Seq<usize>, ls: Seq<&Layout>) -> bool {
    forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] <= ls[j].shape@.len() && (ls[j].empty() || f_contig_to(ls[j].shape@, ls[j].stride@, a[j] as int))
                && (ls[j].empty() ==> a[j] == ls[j].shape@.len())
}
pub proof fn lemma_dims(ls: Seq<&Layout>, a: Seq<usize>, d: usize)
    requires dims_ok(a, ls), a.len() == ls.len(), ls.len() > 0, same_shape(ls), all_machine(ls), a.contains(d), forall|i: int| 0 <= i < a.len() ==> d <= #[trigger] a[i],
    ensures
        d <= ls[0].shape@.len(), ls[0].empty() ==> d == ls[0].shape@.len(),
        forall|j: int| 0 <= j < ls.len() ==> (#[trigger] ls[j]).empty() || f_contig_to(ls[j].shape@, ls[j].stride@, d as int),
        ls[0].empty() ==> prod(ls[0].shape@, d as int) == 0, !ls[0].empty() ==> prod(ls[0].shape@, d as int) >= 1,
{
    assert(d <= a[0]);
    assert(machine_of(*ls[0]));
    let k = choose|k: int| 0 <= k < a.len() && a[k] == d;
    assert(ls[k].shape@ == ls[0].shape@);
    assert forall|j: int| 0 <= j < ls.len() implies (#[trigger] ls[j]).empty() || f_contig_to(ls[j].shape@, ls[j].stride@, d as int) by { assert(d <= a[j]); }
    lemma_prod_zero(ls[0].shape@, d as int);
    if ls[0].empty() {
        let i = choose|i: int| 0 <= i < ls[0].shape@.len() && !(#[trigger] ls[0].shape@[i] > 0);
        assert(ls[0].shape@[i] == 0);
    }
}
pub open spec fn min_of(a: Option<&usize>, s: Seq<usize>) -> bool {
    a is Some ==> s.contains(*a->Some_0) && forall|i: int| 0 <= i < s.len() ==> *a->Some_0 <= #[trigger] s[i]
}
pub open spec fn contig_split(ls: Seq<&Layout>, rs: Seq<Layout>, d: int) -> bool {
    rs.len() == ls.len() && forall|j: int| 0 <= j < ls.len() ==> dropped(*ls[j], #[trigger] rs[j], d) && (ls[j].empty() || f_contig_to(ls[j].shape@, ls[j].stride@, d))
}
pub open spec fn contig_any(ls: Seq<&Layout>, rs: Seq<Layout>, size: int) -> bool {
    exists|d: int| #[trigger] contig_split(ls, rs, d) && 0 < d <= ls[0].shape@.len() && size == prod(ls[0].shape@, d)
}
//@fn rstsr-common/src/layout/rearrangement.rs :: translate_to_col_major_with_contig
//@calls .into_dim=vx_into_dim
//@requires
    all_machine(layouts@), same_shape(layouts@), layouts@.len() > 0,
//@ensures
    // nothing merged, or the leading axes merged are consecutive in every layout
    r.1 == 0 ==> layouts@[0].empty() || aligned(layouts@, r.0@, iperm(layouts@[0].shape@.len() as int)),
    r.1 > 0 ==> !layouts@[0].empty() && contig_any(layouts@, r.0@, r.1 as int),
//@at start
    let ghost l0 = *layouts@[0];
    let ghost n = l0.shape@.len() as int;
    proof { assert(layouts.len() == layouts@.len()); assert(machine_of(l0)); }
//@loop 0
        invariant vx_n0 == layouts@.len(), vx_i0 <= vx_n0, all_machine(layouts@), vx_acc0@.len() == vx_i0,
            dims_ok(vx_acc0@, layouts@),
        decreases vx_n0 - vx_i0,
//@at loop 0 top
            proof { let l = *layouts@[vx_i0 as int]; assert(machine_of(l));
                assert forall|q: int| 0 <= q <= l.shape@.len() && nonempty(l.shape@) && walks_f(l, q) implies f_contig_to(l.shape@, l.stride@, q) by { lemma_walk_f_bwd(l, q); } }
//@loop 1
        invariant vx_n1 == dims_f_contig@.len(), vx_i1 <= vx_n1, vx_acc1 is None <==> vx_i1 == 0,
            min_of(vx_acc1, dims_f_contig@.take(vx_i1 as int)),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost i1 = vx_i1 as int; let ghost a1 = vx_acc1;
            proof { let w = dims_f_contig@; assert(w.take(i1 + 1) =~= w.take(i1).push(w[i1])); assert(w.take(i1 + 1)[i1] == w[i1]);
                assert forall|x: usize| #[trigger] w.take(i1).contains(x) implies w.take(i1 + 1).contains(x) by { let q = w.take(i1).index_of(x); assert(w.take(i1 + 1)[q] == x); } }
//@loop 2
        invariant vx_n2 == layouts@.len(), vx_i2 <= vx_n2, vx_acc2@.len() == vx_i2,
            forall|j: int| 0 <= j < vx_i2 ==> same_lay(*layouts@[j], #[trigger] vx_acc2@[j]),
        decreases vx_n2 - vx_i2,
//@loop 3
        invariant vx_s3@ == l0.shape@.subrange(0, ndim_f_contig as int), vx_n3 == ndim_f_contig, vx_i3 <= vx_n3, ndim_f_contig <= n, n == l0.shape@.len(), l0.machine(),
            vx_acc3 == prod(l0.shape@, vx_i3 as int),
        decreases vx_n3 - vx_i3,
//@at loop 3 top
            proof { assert(prod(l0.shape@, vx_i3 + 1) <= isize::MAX); }
//@loop 4
        invariant vx_n4 == layouts@.len(), vx_i4 <= vx_n4, vx_acc4@.len() == vx_i4, all_machine(layouts@), same_shape(layouts@), n == layouts@[0].shape@.len(), ndim_f_contig <= n,
            forall|j: int| 0 <= j < vx_i4 ==> dropped(*layouts@[j], #[trigger] vx_acc4@[j], ndim_f_contig as int),
        decreases vx_n4 - vx_i4,
//@at loop 4 top
            let ghost l4 = *layouts@[vx_i4 as int];
            proof { assert(machine_of(*layouts@[vx_i4 as int])); assert(layouts@[vx_i4 as int].shape@ == layouts@[0].shape@); }
//@at loop 5 after
                            proof { assert(vx_acc5@ =~= l4.shape@.subrange(ndim_f_contig as int, n)); }
//@at loop 6 after
                            proof { assert(vx_acc6@ =~= l4.stride@.subrange(ndim_f_contig as int, n)); }
//@at loop 4 bottom
            proof {
                let q = vx_acc4@.last();
                assert(dropped(l4, q, ndim_f_contig as int));
            }
//@loop 5
        invariant vx_s5@ == l.shape@.subrange(ndim_f_contig as int, l.shape@.len() as int), vx_n5 == vx_s5@.len(), vx_i5 <= vx_n5, vx_acc5@ =~= vx_s5@.take(vx_i5 as int),
        decreases vx_n5 - vx_i5,
//@loop 6
        invariant vx_s6@ == l.stride@.subrange(ndim_f_contig as int, l.stride@.len() as int), vx_n6 == vx_s6@.len(), vx_i6 <= vx_n6, vx_acc6@ =~= vx_s6@.take(vx_i6 as int),
        decreases vx_n6 - vx_i6,
//@at let ndim_f_contig
    let ghost d = ndim_f_contig;
    proof {
        assert(dims_f_contig@.take(dims_f_contig@.len() as int) =~= dims_f_contig@);
        lemma_dims(layouts@, dims_f_contig@, d);
    }
//@at let size_contig
        proof { assert(size_contig == prod(l0.shape@, d as int)); }
//@at before return (result, size_contig)
        proof {
            assert forall|j: int| 0 <= j < layouts@.len() implies dropped(*layouts@[j], #[trigger] result@[j], d as int) && (layouts@[j].empty() || f_contig_to(layouts@[j].shape@, layouts@[j].stride@, d as int)) by { assert(layouts@[j].shape@ == layouts@[0].shape@); }
            assert(contig_split(layouts@, result@, d as int)); assert(contig_any(layouts@, result@, size_contig as int)); }
//@at loop 2 after
            proof {
                assert forall|j: int| 0 <= j < layouts@.len() implies permuted(*layouts@[j], #[trigger] vx_acc2@[j], iperm(n)) by {
                    assert(machine_of(*layouts@[j])); assert(layouts@[j].shape@ == layouts@[0].shape@);
                    lemma_iperm(*layouts@[j], vx_acc2@[j]);
                }
            }
//@end
