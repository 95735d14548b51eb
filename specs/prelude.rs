// Shared vocabulary of all contract files: the error kinds, the layout structure extracted from the
// source, the address function of a layout and the facts about it.
#![allow(unused)]
use vstd::prelude::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
verus! {

global size_of usize == 8;
global size_of isize == 8;

#[derive(Debug)]
pub enum Error {
    ValueOutOfRange, InvalidValue, InvalidLayout, AxisError, IndexError, RuntimeError, DeviceMismatch,
    UnImplemented, MemoryError, TryFromIntError, Infallible, RayonError, FaerError, Miscellaneous,
}
pub type Result<T> = core::result::Result<T, Error>;

// ---- std items without a built-in contract (trusted; listed in the evidence)
pub assume_specification [isize::abs] (x: isize) -> (r: isize)
    requires x > isize::MIN,
    ensures r == if x < 0 { -x } else { x as int };
pub assume_specification [isize::unsigned_abs] (x: isize) -> (r: usize)
    ensures r == if x < 0 { -x } else { x as int };

// ---- replacements for macros (vec![x; n], panic!, assert!): ordinary verified code
pub fn vx_vec_fill<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x,
{
    let mut v: Vec<T> = Vec::new();
    let mut i = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> v@[j] == x,
        decreases n - i,
    {
        v.push(x);
        i = i + 1;
    }
    v
}
pub fn vx_unreachable() -> (r: !)
    requires false,
{
    loop invariant false decreases 0int { }
}
pub fn vx_assert(c: bool)
    requires c,
{ }

//@types D=Vec<usize> ; D::Stride=Vec<isize> ; IxD=Vec<usize> ; Self::Stride=Vec<isize>
//@degeneric Layout
//@calls unsafe_new=unsafe_new ; Layout::new_unchecked=Layout::new_unchecked

pub trait DimBaseAPI {
    spec fn seq(&self) -> Seq<usize>;
    fn ndim(&self) -> (r: usize)
        ensures r == self.seq().len();
    fn new_shape(&self) -> (r: Vec<usize>)
        ensures r@.len() == self.seq().len(), forall|i: int| 0 <= i < r@.len() ==> r@[i] == 0;
    fn new_stride(&self) -> (r: Vec<isize>)
        ensures r@.len() == self.seq().len(), forall|i: int| 0 <= i < r@.len() ==> r@[i] == 0;
}
impl DimBaseAPI for Vec<usize> {
    open spec fn seq(&self) -> Seq<usize> { self@ }
    //@fn rstsr-common/src/layout/dim.rs :: impl DimBaseAPI for IxD :: ndim
    //@opt private
    //@end
    //@fn rstsr-common/src/layout/dim.rs :: impl DimBaseAPI for IxD :: new_shape
    //@opt private
    //@end
    //@fn rstsr-common/src/layout/dim.rs :: impl DimBaseAPI for IxD :: new_stride
    //@opt private
    //@end
}

//@struct rstsr-common/src/layout/layoutbase.rs :: Layout

// ---- axis arguments
pub open spec fn axis_ok(axis: int, n: int) -> bool { -n <= axis < n }
pub open spec fn axis_norm(axis: int, n: int) -> int { if axis < 0 { axis + n } else { axis } }

//@fn rstsr-common/src/error.rs :: rstsr_check_axis
//@macrofn rstsr_check_axis
//@sig fn rstsr_check_axis(axis: isize, ndim: usize) -> Result<usize>
//@requires
        ndim <= isize::MAX,
//@ensures
        r is Ok <==> axis_ok(axis as int, ndim as int),
        r is Ok ==> r->Ok_0 == axis_norm(axis as int, ndim as int),
//@end

//@fn rstsr-common/src/error.rs :: rstsr_check_axis_insert
//@macrofn rstsr_check_axis_insert
//@sig fn rstsr_check_axis_insert(axis: isize, ndim: usize) -> Result<usize>
//@requires
        ndim < isize::MAX,
//@ensures
        r is Ok <==> axis_ok(axis as int, ndim + 1),
        r is Ok ==> r->Ok_0 == axis_norm(axis as int, ndim + 1),
//@end

// ---- shapes and addresses
pub open spec fn prod(s: Seq<usize>, n: int) -> int
    decreases n,
{
    if n <= 0 { 1 } else { prod(s, n - 1) * s[n - 1] }
}
pub open spec fn size_of_shape(s: Seq<usize>) -> int { prod(s, s.len() as int) }

pub open spec fn dot(idx: Seq<int>, stride: Seq<isize>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { dot(idx, stride, n - 1) + idx[n - 1] * stride[n - 1] }
}
pub open spec fn in_range(idx: Seq<int>, shape: Seq<usize>) -> bool {
    idx.len() == shape.len() && forall|i: int| 0 <= i < shape.len() ==> 0 <= #[trigger] idx[i] < shape[i]
}
pub open spec fn nonempty(shape: Seq<usize>) -> bool {
    forall|i: int| 0 <= i < shape.len() ==> #[trigger] shape[i] > 0
}
/// sum of the positive (negative) extents stride*(len-1) of the first n axes
pub open spec fn ext_pos(shape: Seq<usize>, stride: Seq<isize>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else {
        ext_pos(shape, stride, n - 1) + if shape[n - 1] > 0 && stride[n - 1] > 0 { stride[n - 1] * (shape[n - 1] - 1) } else { 0 }
    }
}
pub open spec fn ext_neg(shape: Seq<usize>, stride: Seq<isize>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else {
        ext_neg(shape, stride, n - 1) + if shape[n - 1] > 0 && stride[n - 1] <= 0 { stride[n - 1] * (shape[n - 1] - 1) } else { 0 }
    }
}

impl Layout {
    /// address of the element at a multi-index
    pub open spec fn addr(&self, idx: Seq<int>) -> int { self.offset + dot(idx, self.stride@, self.shape@.len() as int) }
    pub open spec fn len_ok(&self) -> bool {
        self.shape@.len() == self.stride@.len() && self.shape@.len() < isize::MAX
    }
    /// machine range: all addresses of the layout, and its lengths, are representable
    pub open spec fn fits(&self) -> bool {
        &&& self.len_ok()
        &&& forall|i: int| 0 <= i < self.shape@.len() ==> #[trigger] self.shape@[i] <= isize::MAX
        &&& forall|i: int| 0 <= i < self.stride@.len() ==> #[trigger] self.stride@[i] > isize::MIN
        &&& self.offset + ext_pos(self.shape@, self.stride@, self.shape@.len() as int) < isize::MAX
        &&& ext_neg(self.shape@, self.stride@, self.shape@.len() as int) > isize::MIN
    }
    pub open spec fn size_fits(&self) -> bool {
        prods_fit(self.shape@)
    }
    pub open spec fn empty(&self) -> bool { !nonempty(self.shape@) }
}
/// every partial product of the lengths is representable
pub open spec fn prods_fit(shape: Seq<usize>) -> bool {
    forall|k: int| 0 <= k <= shape.len() ==> #[trigger] prod(shape, k) <= isize::MAX
}

pub proof fn lemma_ext_mono(shape: Seq<usize>, stride: Seq<isize>, i: int, n: int)
    requires 0 <= i <= n <= shape.len(), shape.len() == stride.len(),
    ensures
        0 <= ext_pos(shape, stride, i) <= ext_pos(shape, stride, n),
        ext_neg(shape, stride, n) <= ext_neg(shape, stride, i) <= 0,
    decreases n,
{
    if n > 0 {
        if shape[n - 1] > 0 && stride[n - 1] > 0 {
            assert(stride[n - 1] * (shape[n - 1] - 1) >= 0) by (nonlinear_arith) requires stride[n - 1] > 0, shape[n - 1] >= 1;
        }
        if shape[n - 1] > 0 && stride[n - 1] <= 0 {
            assert(stride[n - 1] * (shape[n - 1] - 1) <= 0) by (nonlinear_arith) requires stride[n - 1] <= 0, shape[n - 1] >= 1;
        }
        if i < n { lemma_ext_mono(shape, stride, i, n - 1); } else { lemma_ext_mono(shape, stride, n - 1, n - 1); }
    }
}

/// every in-range multi-index lies between the extents
pub proof fn lemma_dot_bounds(idx: Seq<int>, shape: Seq<usize>, stride: Seq<isize>, n: int)
    requires 0 <= n <= shape.len(), shape.len() == stride.len(), in_range(idx, shape),
    ensures ext_neg(shape, stride, n) <= dot(idx, stride, n) <= ext_pos(shape, stride, n),
    decreases n,
{
    if n > 0 {
        lemma_dot_bounds(idx, shape, stride, n - 1);
        let i = idx[n - 1]; let s = stride[n - 1]; let d = shape[n - 1];
        if s > 0 {
            assert(0 <= i * s <= s * (d - 1)) by (nonlinear_arith) requires 0 <= i < d, s > 0;
        } else {
            assert(s * (d - 1) <= i * s <= 0) by (nonlinear_arith) requires 0 <= i < d, s <= 0;
        }
    }
}
pub open spec fn idx_lo(shape: Seq<usize>, stride: Seq<isize>) -> Seq<int> {
    Seq::new(shape.len(), |i: int| if stride[i] > 0 { 0int } else { shape[i] - 1 })
}
pub open spec fn idx_hi(shape: Seq<usize>, stride: Seq<isize>) -> Seq<int> {
    Seq::new(shape.len(), |i: int| if stride[i] > 0 { shape[i] - 1 } else { 0int })
}
pub proof fn lemma_ext_attained(shape: Seq<usize>, stride: Seq<isize>, n: int)
    requires 0 <= n <= shape.len(), shape.len() == stride.len(), nonempty(shape),
    ensures
        in_range(idx_lo(shape, stride), shape),
        in_range(idx_hi(shape, stride), shape),
        dot(idx_lo(shape, stride), stride, n) == ext_neg(shape, stride, n),
        dot(idx_hi(shape, stride), stride, n) == ext_pos(shape, stride, n),
    decreases n,
{
    let a = idx_lo(shape, stride); let b = idx_hi(shape, stride);
    assert forall|i: int| 0 <= i < shape.len() implies 0 <= #[trigger] a[i] < shape[i] by { assert(shape[i] > 0); }
    assert forall|i: int| 0 <= i < shape.len() implies 0 <= #[trigger] b[i] < shape[i] by { assert(shape[i] > 0); }
    if n > 0 {
        lemma_ext_attained(shape, stride, n - 1);
        assert(shape[n - 1] > 0);
        let s = stride[n - 1]; let d = shape[n - 1];
        if s > 0 {
            assert((d - 1) * s == s * (d - 1)) by (nonlinear_arith);
            assert(0 * s == 0) by (nonlinear_arith);
        } else {
            assert((d - 1) * s == s * (d - 1)) by (nonlinear_arith);
            assert(0 * s == 0) by (nonlinear_arith);
        }
    }
}
pub proof fn lemma_prod_zero(s: Seq<usize>, n: int)
    requires 0 <= n <= s.len(),
    ensures prod(s, n) >= 0, prod(s, n) == 0 <==> exists|i: int| 0 <= i < n && s[i] == 0,
    decreases n,
{
    if n > 0 {
        lemma_prod_zero(s, n - 1);
        let p = prod(s, n - 1); let x = s[n - 1] as int;
        assert(p * x >= 0) by (nonlinear_arith) requires p >= 0, x >= 0;
        assert((p * x == 0) <==> (p == 0 || x == 0)) by (nonlinear_arith);
        if p == 0 {
            let i = choose|i: int| 0 <= i < n - 1 && s[i] == 0;
            assert(0 <= i < n && s[i] == 0);
        }
        if x == 0 { assert(0 <= n - 1 < n && s[n - 1] == 0); }
        if exists|i: int| 0 <= i < n && s[i] == 0 {
            let i = choose|i: int| 0 <= i < n && s[i] == 0;
            if i < n - 1 { assert(0 <= i < n - 1 && s[i] == 0); }
        }
    }
}
pub proof fn lemma_prod_same(a: Seq<usize>, b: Seq<usize>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures prod(a, n) == prod(b, n),
    decreases n,
{
    if n > 0 { lemma_prod_same(a, b, n - 1); }
}
pub proof fn lemma_dot_same(i1: Seq<int>, s1: Seq<isize>, i2: Seq<int>, s2: Seq<isize>, n: int)
    requires 0 <= n, n <= i1.len(), n <= i2.len(), n <= s1.len(), n <= s2.len(),
        forall|k: int| 0 <= k < n ==> i1[k] == i2[k] && s1[k] == s2[k],
    ensures dot(i1, s1, n) == dot(i2, s2, n),
    decreases n,
{
    if n > 0 { lemma_dot_same(i1, s1, i2, s2, n - 1); }
}

impl Layout {
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: shape
    //@ensures
        *r == self.shape,
    //@end
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: stride
    //@ensures
        *r == self.stride,
    //@end
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: offset
    //@ensures
        r == self.offset,
    //@end
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: ndim
    //@ensures
        r == self.shape@.len(),
    //@end
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: size
    //@requires
        self.size_fits(),
    //@ensures
        r == size_of_shape(self.shape@),
        (r == 0) == self.empty(),
    //@loop 0
            invariant
                self.size_fits(),
                vx_s0 == self.shape, vx_n0 == self.shape@.len(), 0 <= vx_i0 <= vx_n0,
                vx_acc0 == prod(self.shape@, vx_i0 as int),
            decreases vx_n0 - vx_i0,
    //@at loop 0 top
            proof { assert(prod(self.shape@, vx_i0 + 1) <= isize::MAX); }
    //@at tail
        proof { lemma_prod_zero(self.shape@, self.shape@.len() as int); }
    //@end
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: new_unchecked
    //@ensures
        r.shape == shape, r.stride == stride, r.offset == offset,
    //@end
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: new_shape
    //@ensures
        r@.len() == self.shape@.len(), forall|i: int| 0 <= i < r@.len() ==> r@[i] == 0,
    //@end
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: new_stride
    //@ensures
        r@.len() == self.shape@.len(), forall|i: int| 0 <= i < r@.len() ==> r@[i] == 0,
    //@end
}
