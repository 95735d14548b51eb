
// C01: address bounds of a layout, acceptance of layouts, indexing.
impl Layout {
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: bounds_index
    //@requires
        self.fits(),
    //@ensures
        // every in-range index lies inside the reported bounds
        r is Ok ==> forall|idx: Seq<int>| in_range(idx, self.shape@) ==> r->Ok_0.0 <= #[trigger] self.addr(idx) < r->Ok_0.1,
        // ... which are attained (exact)
        r is Ok && !self.empty() ==> exists|idx: Seq<int>| in_range(idx, self.shape@) && #[trigger] self.addr(idx) == r->Ok_0.0,
        r is Ok && !self.empty() ==> exists|idx: Seq<int>| in_range(idx, self.shape@) && #[trigger] self.addr(idx) == r->Ok_0.1 - 1,
        // an empty layout reaches nothing
        self.empty() ==> r is Ok && r->Ok_0.0 == self.offset && r->Ok_0.1 == self.offset,
        // rejection exactly when some address is negative
        r is Err <==> exists|idx: Seq<int>| in_range(idx, self.shape@) && #[trigger] self.addr(idx) < 0,
        // closed form
        r is Ok && !self.empty() ==> r->Ok_0.0 == self.offset + ext_neg(self.shape@, self.stride@, self.shape@.len() as int)
            && r->Ok_0.1 == self.offset + ext_pos(self.shape@, self.stride@, self.shape@.len() as int) + 1,
        r is Err ==> r->Err_0 is ValueOutOfRange,
    //@at start
        let ghost sh = self.shape@;
        let ghost st = self.stride@;
        proof {
            lemma_ext_mono(sh, st, 0, sh.len() as int);
            assert forall|idx: Seq<int>| in_range(idx, sh) implies
                self.offset + ext_neg(sh, st, sh.len() as int) <= #[trigger] self.addr(idx) <= self.offset + ext_pos(sh, st, sh.len() as int)
            by { lemma_dot_bounds(idx, sh, st, sh.len() as int); }
            if nonempty(sh) {
                lemma_ext_attained(sh, st, sh.len() as int);
                assert(self.addr(idx_lo(sh, st)) == self.offset + ext_neg(sh, st, sh.len() as int));
                assert(self.addr(idx_hi(sh, st)) == self.offset + ext_pos(sh, st, sh.len() as int));
            } else {
                assert forall|idx: Seq<int>| !in_range(idx, sh) by {
                    let i = choose|i: int| 0 <= i < sh.len() && !(#[trigger] sh[i] > 0);
                    if in_range(idx, sh) { assert(0 <= idx[i] < sh[i]); }
                }
            }
            if sh.len() == 0 {
                assert(in_range(Seq::<int>::empty(), sh));
                assert(self.addr(Seq::<int>::empty()) == self.offset);
            }
        }
    //@loop 0
            invariant
                sh == self.shape@, st == self.stride@, *shape == self.shape, *stride == self.stride, n == sh.len(), self.fits(),
                vx_n0 == n, 0 <= vx_i0 <= n,
                max == self.offset + ext_pos(sh, st, vx_i0 as int),
                min == self.offset + ext_neg(sh, st, vx_i0 as int),
                forall|j: int| 0 <= j < vx_i0 ==> sh[j] > 0,
                !nonempty(sh) ==> forall|idx: Seq<int>| !in_range(idx, sh),
                offset == self.offset,
            decreases n - vx_i0,
    //@at loop 0 top
            proof {
                let k = vx_i0 as int;
                lemma_ext_mono(sh, st, k, sh.len() as int);
                lemma_ext_mono(sh, st, k + 1, sh.len() as int);
                assert(st[k] > isize::MIN && sh[k] <= isize::MAX);
                if sh[k] > 0 && st[k] > 0 {
                    assert(st[k] * (sh[k] - 1) >= 0) by (nonlinear_arith) requires st[k] > 0, sh[k] > 0;
                }
                if sh[k] > 0 && st[k] <= 0 {
                    assert(st[k] * (sh[k] - 1) <= 0) by (nonlinear_arith) requires st[k] <= 0, sh[k] > 0;
                }
            }
    //@at loop 0 after
        proof { assert(nonempty(sh)); }
    //@end
}
