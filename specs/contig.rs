// C03: contiguity, size, canonical strides.
/// the first r axes, walked in column-major order, visit consecutive positions
pub open spec fn f_contig_to(sh: Seq<usize>, st: Seq<isize>, r: int) -> bool {
    forall|i: int| 0 <= i < r ==> sh[i] == 1 || #[trigger] st[i] == prod(sh, i)
}
/// the axes k.. , walked in row-major order, visit consecutive positions
pub open spec fn c_contig_from(sh: Seq<usize>, st: Seq<isize>, k: int) -> bool {
    forall|i: int| k <= i < sh.len() ==> sh[i] == 1 || #[trigger] st[i] == sprod(sh, i + 1)
}
pub open spec fn walks_f(l: Layout, r: int) -> bool {
    forall|idx: Seq<int>| in_range(idx, l.shape@) ==> #[trigger] dot(idx, l.stride@, r) == rank_f(idx, l.shape@, r)
}
pub open spec fn walks_c(l: Layout, k: int) -> bool {
    forall|idx: Seq<int>| in_range(idx, l.shape@) ==> #[trigger] sdot(idx, l.stride@, k) == rank_c(idx, l.shape@, k)
}
pub open spec fn unit(n: nat, i: int) -> Seq<int> { Seq::new(n, |k: int| if k == i { 1int } else { 0int }) }

pub proof fn lemma_walk_f_fwd(l: Layout, r: int)
    requires l.len_ok(), 0 <= r <= l.shape@.len(), f_contig_to(l.shape@, l.stride@, r),
    ensures walks_f(l, r),
    decreases r,
{
    if r > 0 {
        lemma_walk_f_fwd(l, r - 1);
        assert forall|idx: Seq<int>| in_range(idx, l.shape@) implies #[trigger] dot(idx, l.stride@, r) == rank_f(idx, l.shape@, r) by {
            assert(dot(idx, l.stride@, r - 1) == rank_f(idx, l.shape@, r - 1));
            let i = r - 1;
            assert(0 <= idx[i] < l.shape@[i]);
            if l.shape@[i] != 1 { assert(l.stride@[i] == prod(l.shape@, i)); } else {
                assert(idx[i] * l.stride@[i] == 0 && idx[i] * prod(l.shape@, i) == 0) by (nonlinear_arith) requires idx[i] == 0;
            }
        }
    }
}
pub proof fn lemma_unit_f(n: nat, i: int, st: Seq<isize>, sh: Seq<usize>, r: int)
    requires 0 <= i < n, 0 <= r <= n, n == st.len(), n == sh.len(),
    ensures
        dot(unit(n, i), st, r) == if i < r { st[i] as int } else { 0 },
        rank_f(unit(n, i), sh, r) == if i < r { prod(sh, i) } else { 0 },
    decreases r,
{
    if r > 0 {
        lemma_unit_f(n, i, st, sh, r - 1);
        assert(0 * st[r - 1] == 0 && 1 * st[r - 1] == st[r - 1]);
        assert(0 * prod(sh, r - 1) == 0 && 1 * prod(sh, r - 1) == prod(sh, r - 1));
    }
}
pub proof fn lemma_walk_f_bwd(l: Layout, r: int)
    requires l.len_ok(), 0 <= r <= l.shape@.len(), walks_f(l, r), nonempty(l.shape@),
    ensures f_contig_to(l.shape@, l.stride@, r),
{
    let sh = l.shape@; let n = sh.len();
    assert forall|i: int| 0 <= i < r implies sh[i] == 1 || #[trigger] l.stride@[i] == prod(sh, i) by {
        if sh[i] != 1 {
            let u = unit(n, i);
            assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] u[k] < sh[k] by { assert(sh[k] > 0); }
            assert(in_range(u, sh));
            lemma_unit_f(n, i, l.stride@, sh, r);
            assert(dot(u, l.stride@, r) == rank_f(u, sh, r));
        }
    }
}
pub proof fn lemma_walk_c_fwd(l: Layout, k: int)
    requires l.len_ok(), 0 <= k <= l.shape@.len(), c_contig_from(l.shape@, l.stride@, k),
    ensures walks_c(l, k),
    decreases l.shape@.len() - k,
{
    if k < l.shape@.len() {
        lemma_walk_c_fwd(l, k + 1);
        assert forall|idx: Seq<int>| in_range(idx, l.shape@) implies #[trigger] sdot(idx, l.stride@, k) == rank_c(idx, l.shape@, k) by {
            assert(sdot(idx, l.stride@, k + 1) == rank_c(idx, l.shape@, k + 1));
            assert(0 <= idx[k] < l.shape@[k]);
            if l.shape@[k] != 1 { assert(l.stride@[k] == sprod(l.shape@, k + 1)); } else {
                assert(idx[k] * l.stride@[k] == 0 && idx[k] * sprod(l.shape@, k + 1) == 0) by (nonlinear_arith) requires idx[k] == 0;
            }
        }
    }
}
pub proof fn lemma_unit_c(n: nat, i: int, st: Seq<isize>, sh: Seq<usize>, k: int)
    requires 0 <= i < n, 0 <= k <= n, n == st.len(), n == sh.len(),
    ensures
        sdot(unit(n, i), st, k) == if i >= k { st[i] as int } else { 0 },
        rank_c(unit(n, i), sh, k) == if i >= k { sprod(sh, i + 1) } else { 0 },
    decreases n - k,
{
    if k < n {
        lemma_unit_c(n, i, st, sh, k + 1);
        assert(0 * st[k] == 0 && 1 * st[k] == st[k]);
        assert(0 * sprod(sh, k + 1) == 0 && 1 * sprod(sh, k + 1) == sprod(sh, k + 1));
    }
}
pub proof fn lemma_walk_c_bwd(l: Layout, k: int)
    requires l.len_ok(), 0 <= k <= l.shape@.len(), walks_c(l, k), nonempty(l.shape@),
    ensures c_contig_from(l.shape@, l.stride@, k),
{
    let sh = l.shape@; let n = sh.len();
    assert forall|i: int| k <= i < n implies sh[i] == 1 || #[trigger] l.stride@[i] == sprod(sh, i + 1) by {
        if sh[i] != 1 {
            let u = unit(n, i);
            assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] u[j] < sh[j] by { assert(sh[j] > 0); }
            assert(in_range(u, sh));
            lemma_unit_c(n, i, l.stride@, sh, k);
            assert(sdot(u, l.stride@, k) == rank_c(u, sh, k));
        }
    }
}
pub proof fn lemma_contig_iff(l: Layout)
    requires l.len_ok(), nonempty(l.shape@),
    ensures
        f_contig_to(l.shape@, l.stride@, l.shape@.len() as int) <==> walks_f(l, l.shape@.len() as int),
        c_contig_from(l.shape@, l.stride@, 0) <==> walks_c(l, 0),
{
    let n = l.shape@.len() as int;
    if f_contig_to(l.shape@, l.stride@, n) { lemma_walk_f_fwd(l, n); }
    if walks_f(l, n) { lemma_walk_f_bwd(l, n); }
    if c_contig_from(l.shape@, l.stride@, 0) { lemma_walk_c_fwd(l, 0); }
    if walks_c(l, 0) { lemma_walk_c_bwd(l, 0); }
}

impl Layout {
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: ndim_of_f_contig
    //@requires
        self.len_ok(), self.size_fits(),
    //@ensures
        r <= self.shape@.len(),
        self.empty() ==> r == self.shape@.len(),
        // the walk over the first r axes is consecutive, and r is the largest such count
        !self.empty() ==> walks_f(*self, r as int),
        !self.empty() ==> forall|q: int| r < q <= self.shape@.len() ==> !walks_f(*self, q),
    //@at start
        let ghost sh = self.shape@;
        let ghost st = self.stride@;
        proof {
            assert(self.empty() ==> sh.len() > 0);
            assert forall|q: int| 0 <= q <= sh.len() && nonempty(sh) && walks_f(*self, q) implies f_contig_to(sh, st, q) by { lemma_walk_f_bwd(*self, q); }
            assert forall|q: int| 0 <= q <= sh.len() && nonempty(sh) && f_contig_to(sh, st, q) implies walks_f(*self, q) by { lemma_walk_f_fwd(*self, q); }
            if sh.len() == 0 { assert(walks_f(*self, 0)); }
        }
    //@loop 0
            invariant
                sh == self.shape@, st == self.stride@, *shape == self.shape, *stride == self.stride, self.len_ok(), self.size_fits(),
                nonempty(sh),
                vx_n0 == sh.len(), 0 <= vx_i0 <= vx_n0,
                acc == prod(sh, vx_i0 as int),
                f_contig_to(sh, st, vx_i0 as int),
                forall|q: int| 0 <= q <= sh.len() && walks_f(*self, q) ==> f_contig_to(sh, st, q),
                forall|q: int| 0 <= q <= sh.len() && f_contig_to(sh, st, q) ==> walks_f(*self, q),
            decreases vx_n0 - vx_i0,
    //@at loop 0 top
            proof {
                assert(prod(sh, vx_i0 + 1) <= isize::MAX);
                assert forall|i: int| 0 <= i < vx_i0 implies sh[i] > 0 by { assert(sh[i] > 0); }
                lemma_prod_pos(sh, vx_i0 as int);
                let p = prod(sh, vx_i0 as int); let d = sh[vx_i0 as int] as int;
                assert(sh[vx_i0 as int] > 0);
                assert(d <= p * d && p * d >= 1) by (nonlinear_arith) requires p >= 1, d >= 1;
            }
    //@end
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: ndim_of_c_contig
    //@requires
        self.len_ok(), self.size_fits(),
    //@ensures
        r <= self.shape@.len(),
        self.empty() ==> r == self.shape@.len(),
        !self.empty() ==> walks_c(*self, self.shape@.len() - r),
        !self.empty() ==> forall|q: int| 0 <= q < self.shape@.len() - r ==> !walks_c(*self, q),
    //@at start
        let ghost sh = self.shape@;
        let ghost st = self.stride@;
        proof {
            assert(self.empty() ==> sh.len() > 0);
            assert forall|q: int| 0 <= q <= sh.len() && nonempty(sh) && walks_c(*self, q) implies c_contig_from(sh, st, q) by { lemma_walk_c_bwd(*self, q); }
            assert forall|q: int| 0 <= q <= sh.len() && nonempty(sh) && c_contig_from(sh, st, q) implies walks_c(*self, q) by { lemma_walk_c_fwd(*self, q); }
            if sh.len() == 0 { assert(walks_c(*self, 0)); }
        }
    //@loop 0
            invariant
                sh == self.shape@, st == self.stride@, *shape == self.shape, *stride == self.stride, self.len_ok(), self.size_fits(),
                nonempty(sh), vx_n0 == sh.len(), vx_r0 == vx_n0, 0 <= vx_i0 <= vx_n0,
                acc == sprod(sh, sh.len() - vx_i0),
                c_contig_from(sh, st, sh.len() - vx_i0),
                forall|q: int| 0 <= q <= sh.len() && walks_c(*self, q) ==> c_contig_from(sh, st, q),
                forall|q: int| 0 <= q <= sh.len() && c_contig_from(sh, st, q) ==> walks_c(*self, q),
            decreases vx_n0 - vx_i0,
    //@at loop 0 top
            proof {
                let k = sh.len() - vx_i0 - 1;
                lemma_sprod_le(sh, k);
                lemma_sprod_le(sh, k + 1);
                assert(prod(sh, sh.len() as int) <= isize::MAX);
                assert(sh[k] > 0);
                let p = sprod(sh, k + 1); let d = sh[k] as int;
                assert(d <= p * d && p * d >= 1 && p * d == d * p) by (nonlinear_arith) requires p >= 1, d >= 1;
            }
    //@end
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: f_contig
    //@requires
        self.len_ok(), self.size_fits(),
    //@ensures
        r <==> self.empty() || walks_f(*self, self.shape@.len() as int),
    //@end
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: c_contig
    //@requires
        self.len_ok(), self.size_fits(),
    //@ensures
        r <==> self.empty() || walks_c(*self, 0),
    //@end
}

// ---- canonical strides
pub fn vx_max(a: usize, b: usize) -> (r: usize)
    ensures r == if a >= b { a } else { b },
{ if a >= b { a } else { b } }

/// the shape with zero lengths counted as one (strides of an empty tensor place no constraint)
pub open spec fn ones(s: Seq<usize>) -> Seq<usize> { Seq::new(s.len(), |i: int| if s[i] == 0 { 1usize } else { s[i] }) }

/// suffix products are representable (for a non-empty shape this follows from its size fitting: lemma_sprod_le)
pub open spec fn sprods_fit(s: Seq<usize>) -> bool {
    forall|k: int| 0 <= k <= s.len() ==> #[trigger] sprod(s, k) <= isize::MAX && (k < s.len() ==> s[k] <= isize::MAX)
}

pub trait DimShapeAPI: Sized {
    spec fn sq(&self) -> Seq<usize>;
    fn shape_size(&self) -> (r: usize)
        requires prods_fit(self.sq()),
        ensures r == size_of_shape(self.sq());
    fn stride_f_contig(&self) -> (r: Vec<isize>)
        requires prods_fit(self.sq()), forall|k: int| 0 <= k < self.sq().len() ==> #[trigger] self.sq()[k] <= isize::MAX,
        ensures r@.len() == self.sq().len(),
            nonempty(self.sq()) ==> forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == prod(self.sq(), i),
            nonempty(self.sq()) ==> f_contig_to(self.sq(), r@, r@.len() as int);
    fn stride_c_contig(&self) -> (r: Vec<isize>)
        requires sprods_fit(self.sq()),
        ensures r@.len() == self.sq().len(),
            nonempty(self.sq()) ==> forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == sprod(self.sq(), i + 1),
            nonempty(self.sq()) ==> c_contig_from(self.sq(), r@, 0);
}
impl DimShapeAPI for Vec<usize> {
    open spec fn sq(&self) -> Seq<usize> { self@ }
    //@fn rstsr-common/src/layout/shape.rs :: impl DimShapeAPI for IxD :: shape_size
    //@opt private
    //@loop 0
            invariant
                prods_fit(self@), vx_n0 == self@.len(), 0 <= vx_i0 <= vx_n0,
                vx_acc0 == prod(self@, vx_i0 as int),
            decreases vx_n0 - vx_i0,
    //@at loop 0 top
            proof { assert(prod(self@, vx_i0 + 1) <= isize::MAX); }
    //@end
    //@fn rstsr-common/src/layout/shape.rs :: impl DimShapeAPI for IxD :: stride_f_contig
    //@opt private
    //@loop 0
            invariant
forall|k: int| 0 <= k < self@.len() ==> #[trigger] self@[k] <= isize::MAX,
                prods_fit(self@), vx_n0 == self@.len(), 1 <= vx_i0, vx_n0 >= 1 ==> vx_i0 <= vx_n0, stride@.len() == vx_n0,
                vx_n0 >= 1 ==> stride@[0] == 1,
                forall|j: int| 0 <= j < vx_i0 && j < vx_n0 ==> #[trigger] stride@[j] == prod(self@, j),
            decreases vx_n0 - vx_i0,
    //@at loop 0 before
        proof { assert(prod(self@, 0) == 1); }
    //@at loop 0 top
            proof {
                let k = vx_i0 as int;
                assert(prod(self@, k) <= isize::MAX);
                assert(prod(self@, k) == prod(self@, k - 1) * self@[k - 1]);
                assert(stride@[k - 1] == prod(self@, k - 1));
                assert(self@[k - 1] <= isize::MAX);
                lemma_prod_nonneg(self@, k);
            }
    //@end
    //@fn rstsr-common/src/layout/shape.rs :: impl DimShapeAPI for IxD :: stride_c_contig
    //@opt private
    //@loop 0
            invariant
                sprods_fit(self@), vx_n0 == 0, self@.len() == 0 || vx_i0 < self@.len(), stride@.len() == self@.len(),
                self@.len() == 0 ==> vx_i0 == 0,
                forall|j: int| vx_i0 <= j < self@.len() ==> #[trigger] stride@[j] == sprod(self@, j + 1),
            decreases vx_i0,
    //@at loop 0 top
            proof {
                let k = vx_i0 as int;
                assert(sprod(self@, k) <= isize::MAX);
                assert(stride@[k] == sprod(self@, k + 1));
                assert(sprod(self@, k) == self@[k] * sprod(self@, k + 1));
                assert(self@[k] * sprod(self@, k + 1) == sprod(self@, k + 1) * self@[k]) by (nonlinear_arith);
                assert(self@[k] <= isize::MAX);
                lemma_sprod_nonneg(self@, k);
            }
    //@end
}
