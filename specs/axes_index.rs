// C15: lists of axes.
//@include sorting.rs
//@types AxesIndex<isize>=AxesIndex ; T=isize ; Vec<T>=Vec<isize>
//@struct rstsr-common/src/axis_index.rs :: AxesIndex

pub open spec fn entries(a: AxesIndex) -> Seq<isize> {
    match a { AxesIndex::None => Seq::empty(), AxesIndex::Val(x) => seq![x], AxesIndex::Vec(v) => v@ }
}
pub open spec fn all_axes_ok(s: Seq<isize>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> axis_ok(#[trigger] s[i] as int, n) }
pub open spec fn norm_list(s: Seq<isize>, n: int) -> Seq<isize> { Seq::new(s.len(), |i: int| axis_norm(s[i] as int, n) as isize) }

//@fn rstsr-common/src/axis_index.rs :: normalize_axes_index
//@calls .sort=&mut vx_sort
//@attr #[verifier::loop_isolation(false)]
//@requires
        ndim <= isize::MAX,
//@ensures
        // accepted exactly when there is a list, every entry is an axis and none is repeated (unless allowed)
        r is Ok <==> !(axes is None) && all_axes_ok(entries(axes), ndim as int) && (allow_duplicate || distinct(norm_list(entries(axes), ndim as int))),
        // the normalised entries, in the given order or sorted
        r is Ok ==> r->Ok_0@.to_multiset() == norm_list(entries(axes), ndim as int).to_multiset() && r->Ok_0@.len() == entries(axes).len(),
        r is Ok && !sort ==> r->Ok_0@ == norm_list(entries(axes), ndim as int),
        r is Ok && sort ==> ascending(r->Ok_0@),
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> 0 <= #[trigger] r->Ok_0@[i] < ndim,
        r is Ok && !allow_duplicate ==> distinct(r->Ok_0@),
//@at start
    let ghost es = entries(axes);
    let ghost nl = norm_list(es, ndim as int);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
//@loop 0
        invariant
            vx_n0 == axes@.len(), vx_i0 <= vx_n0, es == axes@, nl == norm_list(es, ndim as int), ndim <= isize::MAX,
            normalized_axes@ =~= nl.take(vx_i0 as int),
            forall|i: int| 0 <= i < vx_i0 ==> axis_ok(#[trigger] es[i] as int, ndim as int),
        decreases vx_n0 - vx_i0,
//@at loop 0 top
            proof { if !axis_ok(es[vx_i0 as int] as int, ndim as int) { assert(!all_axes_ok(es, ndim as int)); } }
//@at loop 0 after
            proof { assert(normalized_axes@ =~= nl); }
//@at before let axis
            proof { assert(es[0] == axis); if !axis_ok(axis as int, ndim as int) { assert(!all_axes_ok(es, ndim as int)); } }
//@at let vec
    proof {
        assert(vec@.len() == es.len() && all_axes_ok(es, ndim as int));
        if !sort || axes is Val { assert(vec@ =~= nl); }
        assert(vec@.to_multiset() == nl.to_multiset());
        assert(sort ==> ascending(vec@));
        assert forall|i: int| 0 <= i < vec@.len() implies 0 <= #[trigger] vec@[i] < ndim by {
            assert(vec@.to_multiset().count(vec@[i]) > 0);
            assert(nl.contains(vec@[i]));
            let j = choose|j: int| 0 <= j < nl.len() && nl[j] == vec@[i];
            assert(axis_ok(es[j] as int, ndim as int));
        }
        lemma_distinct_multiset(vec@);
        lemma_distinct_multiset(nl);
        assert(distinct(vec@) == distinct(nl));
    }
//@loop 1
        invariant
            vx_n1 == vec@.len(), vx_i1 <= vx_n1, vx_acc1@ =~= vec@.take(vx_i1 as int),
        decreases vx_n1 - vx_i1,
//@at let vec_sorted
        proof {
            if !sort { assert(vec@.take(vec@.len() as int) =~= vec@); }
            assert(vec_sorted@.to_multiset() == vec@.to_multiset());
            lemma_distinct_multiset(vec_sorted@);
            lemma_sorted_distinct(vec_sorted@);
        }
//@loop 2
            invariant
                vx_n2 == (if vec_sorted@.len() < 2 { 0 } else { vec_sorted@.len() - 1 }), vx_i2 <= vx_n2, vec_sorted@.len() <= usize::MAX,
                vx_acc2 ==> adjacent_equal(vec_sorted@),
                !vx_acc2 ==> forall|i: int| 0 <= i < vx_i2 ==> #[trigger] vec_sorted@[i] != vec_sorted@[i + 1],
            decreases vx_n2 - vx_i2,
//@at let w
            proof { assert(w@[0] == vec_sorted@[vx_p2 as int] && w@[1] == vec_sorted@[vx_p2 + 1]); }
//@end
