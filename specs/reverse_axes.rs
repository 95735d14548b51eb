// axes in reverse order
pub open spec fn reversal(n: int) -> Seq<usize> { Seq::new(n as nat, |i: int| (n - 1 - i) as usize) }
impl Layout {
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: reverse_axes
    //@requires
        self.len_ok(),
    //@ensures
        permuted(*self, r, reversal(self.shape@.len() as int)),
        forall|idx: Seq<int>| in_range(idx, r.shape@) ==> in_range(#[trigger] relabel(idx, reversal(self.shape@.len() as int)), self.shape@)
            && r.addr(idx) == self.addr(relabel(idx, reversal(self.shape@.len() as int))),
    //@at start
        let ghost n = self.shape@.len() as int;
        let ghost p = reversal(n);
        proof { assert(p.no_duplicates()); assert(is_perm(p, n)); }
    //@loop 0
            invariant vx_n0 == self.shape@.len(), vx_i0 <= vx_n0, n == vx_n0, self.len_ok(), p == reversal(n), is_perm(p, n),
                *shape_old == self.shape, *stride_old == self.stride, shape@.len() == n, stride@.len() == n,
                forall|i: int| 0 <= i < vx_i0 ==> shape@[i] == self.shape@[#[trigger] p[i] as int] && stride@[i] == self.stride@[p[i] as int],
            decreases vx_n0 - vx_i0,
    //@at loop 0 top
            proof { assert(p[vx_i0 as int] == n - 1 - vx_i0); }
    //@at loop 0 after
        proof { lemma_permuted(*self, Layout { shape, stride, offset: self.offset }, p); }
    //@end
}
