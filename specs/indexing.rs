// C01: the position of an element, given its multi-index
/// multi-index denoted by an index list (negative entries count from the end)
pub open spec fn idx_of(index: Seq<isize>, shape: Seq<usize>) -> Seq<int> {
    Seq::new(index.len(), |i: int| axis_norm(index[i] as int, shape[i] as int))
}
pub open spec fn idx_ints(index: Seq<usize>) -> Seq<int> { Seq::new(index.len(), |i: int| index[i] as int) }
/// every partial position is between the extents of the layout
pub proof fn lemma_partial(idx: Seq<int>, shape: Seq<usize>, stride: Seq<isize>, k: int)
    requires 0 <= k < shape.len(), shape.len() == stride.len(), idx.len() == shape.len(),
        forall|i: int| 0 <= i <= k ==> 0 <= #[trigger] idx[i] < shape[i],
    ensures
        ext_neg(shape, stride, shape.len() as int) <= dot(idx, stride, k) <= ext_pos(shape, stride, shape.len() as int),
        ext_neg(shape, stride, shape.len() as int) <= dot(idx, stride, k + 1) <= ext_pos(shape, stride, shape.len() as int),
        ext_neg(shape, stride, shape.len() as int) <= idx[k] * stride[k] <= ext_pos(shape, stride, shape.len() as int),
{
    let n = shape.len() as int;
    lemma_partial_b(idx, shape, stride, k);
    lemma_partial_b(idx, shape, stride, k + 1);
    lemma_ext_mono(shape, stride, k, n);
    lemma_ext_mono(shape, stride, k + 1, n);
    lemma_ext_mono(shape, stride, 0, k);
    let i = idx[k]; let s = stride[k]; let d = shape[k];
    if s > 0 { assert(0 <= i * s <= s * (d - 1)) by (nonlinear_arith) requires 0 <= i < d, s > 0; }
    else { assert(s * (d - 1) <= i * s <= 0) by (nonlinear_arith) requires 0 <= i < d, s <= 0; }
    assert(ext_neg(shape, stride, k + 1) <= i * s <= ext_pos(shape, stride, k + 1));
}
pub proof fn lemma_partial_b(idx: Seq<int>, shape: Seq<usize>, stride: Seq<isize>, n: int)
    requires 0 <= n <= shape.len(), shape.len() == stride.len(), idx.len() == shape.len(),
        forall|i: int| 0 <= i < n ==> 0 <= #[trigger] idx[i] < shape[i],
    ensures ext_neg(shape, stride, n) <= dot(idx, stride, n) <= ext_pos(shape, stride, n),
    decreases n,
{
    if n > 0 {
        lemma_partial_b(idx, shape, stride, n - 1);
        let i = idx[n - 1]; let s = stride[n - 1]; let d = shape[n - 1];
        if s > 0 { assert(0 <= i * s <= s * (d - 1)) by (nonlinear_arith) requires 0 <= i < d, s > 0; }
        else { assert(s * (d - 1) <= i * s <= 0) by (nonlinear_arith) requires 0 <= i < d, s <= 0; }
    }
}
impl Layout {
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: index_f
    //@requires
        self.fits(),
    //@ensures
        r is Ok <==> index@.len() == self.shape@.len() && in_range(idx_of(index@, self.shape@), self.shape@)
            && self.addr(idx_of(index@, self.shape@)) >= 0,
        r is Ok ==> r->Ok_0 == self.addr(idx_of(index@, self.shape@)),
    //@at start
        let ghost ix = idx_of(index@, self.shape@);
        let ghost n = self.shape@.len() as int;
        proof { lemma_ext_mono(self.shape@, self.stride@, 0, n); }
    //@loop 0
            invariant
                self.fits(), ix == idx_of(index@, self.shape@), n == self.shape@.len(), n == index@.len(),
                *shape == self.shape, *stride == self.stride,
                vx_n0 == n, 0 <= vx_i0 <= n,
                forall|i: int| 0 <= i < vx_i0 ==> 0 <= #[trigger] ix[i] < self.shape@[i],
                pos == self.offset + dot(ix, self.stride@, vx_i0 as int),
                self.offset + ext_neg(self.shape@, self.stride@, n) <= pos <= self.offset + ext_pos(self.shape@, self.stride@, n),
            decreases n - vx_i0,
    //@at before return Err(Error::IndexError) #0
                proof { assert(!(0 <= ix[vx_i0 - 1] < self.shape@[vx_i0 - 1])); }
    //@at before pos += #0
            proof {
                let k = vx_i0 - 1;
                assert(idx == ix[k]);
                lemma_partial(ix, self.shape@, self.stride@, k);
                assert(strd * idx == idx * strd) by (nonlinear_arith);
            }
    //@end
    /// every partial sum of the position of an index is representable
    pub open spec fn part_fits(&self, ix: Seq<int>) -> bool {
        &&& self.len_ok() && ix.len() == self.shape@.len()
        &&& self.offset <= isize::MAX
        &&& forall|k: int| 0 <= k <= ix.len() ==> isize::MIN <= self.offset + #[trigger] dot(ix, self.stride@, k) <= isize::MAX
        &&& forall|k: int| 0 <= k < ix.len() ==> isize::MIN <= #[trigger] ix[k] * self.stride@[k] <= isize::MAX && 0 <= ix[k] <= isize::MAX
    }
    pub proof fn lemma_part_fits(&self, ix: Seq<int>)
        requires self.fits(), in_range(ix, self.shape@),
        ensures self.part_fits(ix),
    {
        let n = ix.len() as int;
        lemma_ext_mono(self.shape@, self.stride@, 0, n);
        assert forall|k: int| 0 <= k <= n implies isize::MIN <= self.offset + #[trigger] dot(ix, self.stride@, k) <= isize::MAX by {
            if k < n {
                assert forall|i: int| 0 <= i <= k implies 0 <= #[trigger] ix[i] < self.shape@[i] by { }
                lemma_partial(ix, self.shape@, self.stride@, k);
            } else { lemma_dot_bounds(ix, self.shape@, self.stride@, n); }
        }
        assert forall|k: int| 0 <= k < n implies isize::MIN <= #[trigger] ix[k] * self.stride@[k] <= isize::MAX && 0 <= ix[k] <= isize::MAX by {
            assert(0 <= ix[k] < self.shape@[k]);
            lemma_partial(ix, self.shape@, self.stride@, k);
        }
    }
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: index_uncheck
    //@requires
        self.part_fits(idx_ints(index@)),
    //@ensures
        r == self.addr(idx_ints(index@)),
    //@at start
        let ghost ix = idx_ints(index@);
        let ghost n = self.shape@.len() as int;
        proof {
            assert(0 <= n ==> dot(ix, self.stride@, 0) == 0);
            assert forall|i: int| 0 <= i < n implies ix[i] == index@[i] by { }
            reveal_with_fuel(dot, 5);
            if n > 0 { assert(isize::MIN <= self.offset + dot(ix, self.stride@, 1) && isize::MIN <= ix[0] * self.stride@[0]); assert(self.stride@[0] * index@[0] == index@[0] * self.stride@[0]) by (nonlinear_arith); }
            if n > 1 { assert(isize::MIN <= self.offset + dot(ix, self.stride@, 2) && isize::MIN <= ix[1] * self.stride@[1]); assert(self.stride@[1] * index@[1] == index@[1] * self.stride@[1]) by (nonlinear_arith); }
            if n > 2 { assert(isize::MIN <= self.offset + dot(ix, self.stride@, 3) && isize::MIN <= ix[2] * self.stride@[2]); assert(self.stride@[2] * index@[2] == index@[2] * self.stride@[2]) by (nonlinear_arith); }
            if n > 3 { assert(isize::MIN <= self.offset + dot(ix, self.stride@, 4) && isize::MIN <= ix[3] * self.stride@[3]); assert(self.stride@[3] * index@[3] == index@[3] * self.stride@[3]) by (nonlinear_arith); }
        }
    //@loop 0
            invariant
                self.part_fits(ix), ix == idx_ints(index@), n == self.shape@.len(), n == index@.len(),
                *stride == self.stride,
                vx_n0 == n, 0 <= vx_i0 <= n,
                pos == self.offset + dot(ix, self.stride@, vx_i0 as int),
            decreases n - vx_i0,
    //@at loop 0 top
            proof {
                let k = vx_i0 as int;
                assert(isize::MIN <= ix[k] * self.stride@[k] && isize::MIN <= self.offset + dot(ix, self.stride@, k + 1) <= isize::MAX);
                assert(self.stride@[k] * index@[k] == ix[k] * self.stride@[k]) by (nonlinear_arith) requires ix[k] == index@[k];
            }
    //@end
}
