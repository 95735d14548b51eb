// transposition by an axis list
//@fn rstsr-common/src/axis_index.rs :: impl From<&[T]> for AxesIndex<T> :: from
//@rename vx_axes_from
//@types Self=AxesIndex
//@param value=&Vec<isize>
//@ensures
        r == AxesIndex::Vec(*value) || (r is Vec && r->Vec_0@ == value@),
//@end
pub open spec fn axes_perm(axes: Seq<isize>, n: int) -> Seq<usize> { Seq::new(axes.len(), |i: int| axis_norm(axes[i] as int, n) as usize) }
impl Layout {
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: transpose
    //@param axes=&Vec<isize>
    //@calls .into=vx_axes_from
    //@requires
        self.len_ok(),
    //@ensures
        // accepted exactly for permutations of the axes
        r is Ok <==> axes@.len() == self.shape@.len() && all_axes_ok(axes@, self.shape@.len() as int) && distinct(norm_list(axes@, self.shape@.len() as int)),
        r is Ok ==> permuted(*self, r->Ok_0, axes_perm(axes@, self.shape@.len() as int)),
        r is Ok ==> ({
            let p = axes_perm(axes@, self.shape@.len() as int);
            forall|idx: Seq<int>| in_range(idx, r->Ok_0.shape@) ==> in_range(#[trigger] relabel(idx, p), self.shape@) && r->Ok_0.addr(idx) == self.addr(relabel(idx, p))
        }),
    //@at start
        let ghost ax0 = axes@;
        let ghost p = axes_perm(axes@, self.shape@.len() as int);
        let ghost nl = norm_list(axes@, self.shape@.len() as int);
    //@at before let axes #0
        proof {
            assert(entries(AxesIndex::Vec(*axes)) =~= ax0);
        }
    //@loop 0
            invariant vx_n0 == axes@.len(), vx_i0 <= vx_n0, vx_acc0@.len() == vx_i0, axes@ == nl,
                forall|i: int| 0 <= i < vx_i0 ==> vx_acc0@[i] == nl[i] as usize,
            decreases vx_n0 - vx_i0,
    //@at let axes #1
        proof {
            assert(axes@ =~= p);
            assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] < self.shape@.len() by { assert(axis_ok(ax0[i] as int, n as int)); }
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies p[i] != p[j] by { assert(axis_ok(ax0[i] as int, n as int) && axis_ok(ax0[j] as int, n as int)); assert(nl[i] != nl[j]); }
            assert(p.no_duplicates());
        }
    //@loop 1
            invariant vx_n1 == self.shape@.len(), vx_i1 <= vx_n1, axes@ == p, is_perm(p, vx_n1 as int), self.len_ok(), n == vx_n1,
                *shape_old == self.shape, *stride_old == self.stride, shape@.len() == n, stride@.len() == n,
                forall|i: int| 0 <= i < vx_i1 ==> shape@[i] == self.shape@[#[trigger] p[i] as int] && stride@[i] == self.stride@[p[i] as int],
            decreases vx_n1 - vx_i1,
    //@at loop 1 top
            proof { assert(p[vx_i1 as int] < n); }
    //@at loop 1 after
        proof { lemma_permuted(*self, Layout { shape, stride, offset: self.offset }, p); }
    //@end
}
