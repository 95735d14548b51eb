// C17: elements grouped into arrays of N entries, without copying.
// Trusted: a pointer to the elements stands for the elements; Vec/slice::from_raw_parts reads the
// memory behind it as `len` elements, [T; N] being N consecutive T (std documentation).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxPtr<T> { p: *const T }
impl<T> View for VxPtr<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub fn vx_keep<T>(v: Vec<T>) -> (r: Vec<T>) ensures r == v { v }
#[verifier::external_body]
pub fn vx_vec_ptr<T>(v: &Vec<T>) -> (r: VxPtr<T>) ensures r@ == v@ { VxPtr { p: v.as_ptr() } }
#[verifier::external_body]
pub fn vx_slice_ptr<T>(v: &[T]) -> (r: VxPtr<T>) ensures r@ == v@ { VxPtr { p: v.as_ptr() } }
/// g is f read in groups of N
pub open spec fn grouped<T, const N: usize>(f: Seq<T>, g: Seq<[T; N]>) -> bool {
    f.len() == g.len() * N && forall|j: int, k: int| 0 <= j < g.len() && 0 <= k < N ==> #[trigger] g[j]@[k] == f[j * N + k]
}
#[verifier::external_body]
pub fn vx_raw_vec_group<T, const N: usize>(p: VxPtr<T>, len: usize, cap: usize) -> (r: Vec<[T; N]>)
    requires len * N <= p@.len(), len <= cap,
    ensures r@.len() == len, len * N == p@.len() ==> grouped::<T, N>(p@, r@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_raw_vec_flat<T, const N: usize>(p: VxPtr<[T; N]>, len: usize, cap: usize) -> (r: Vec<T>)
    requires len <= p@.len() * N, len <= cap,
    ensures r@.len() == len, len == p@.len() * N ==> grouped::<T, N>(r@, p@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_raw_slice_group<'l, T, const N: usize>(p: VxPtr<T>, len: usize) -> (r: &'l [[T; N]])
    requires len * N <= p@.len(),
    ensures r@.len() == len, len * N == p@.len() ==> grouped::<T, N>(p@, r@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_raw_slice_flat<'l, T, const N: usize>(p: VxPtr<[T; N]>, len: usize) -> (r: &'l [T])
    requires len <= p@.len() * N,
    ensures r@.len() == len, len == p@.len() * N ==> grouped::<T, N>(r@, p@),
{ unimplemented!() }

pub trait PackVec<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn pack_array_f<const N: usize>(self) -> (r: Result<Vec<[T; N]>>)
        requires N > 0,
        ensures r is Ok <==> self.items().len() as int % N as int == 0, r is Ok ==> grouped::<T, N>(self.items(), r->Ok_0@);
}
impl<T> PackVec<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    //@fn rstsr-common/src/pack_array.rs :: impl PackArrayAPI<T> for Vec<T> :: pack_array_f
    //@opt rawcast private
    //@generics <const N: usize>
    //@retty Result<Vec<[T; N]>>
    //@calls ManuallyDrop::new=vx_keep ; .as_ptr=& vx_vec_ptr ; Vec::from_raw_parts=vx_raw_vec_group
    //@at start
        proof { let l = self@.len() as int; let n = N as int; assert(l == n * (l / n) + l % n && (l / n) * n == n * (l / n)) by (nonlinear_arith) requires n > 0; }
    //@end
}
pub trait UnpackVec<T, const N: usize>: Sized {
    spec fn groups(&self) -> Seq<[T; N]>;
    fn unpack_array(self) -> (r: Vec<T>)
        requires self.groups().len() * N <= usize::MAX,
        ensures grouped::<T, N>(r@, self.groups());
}
impl<T, const N: usize> UnpackVec<T, N> for Vec<[T; N]> {
    open spec fn groups(&self) -> Seq<[T; N]> { self@ }
    //@fn rstsr-common/src/pack_array.rs :: impl UnpackArrayAPI for Vec<[T; N]> :: unpack_array
    //@opt rawcast private
    //@retty Vec<T>
    //@calls ManuallyDrop::new=vx_keep ; .as_ptr=& vx_vec_ptr ; Vec::from_raw_parts=vx_raw_vec_flat
    //@end
}

pub trait PackRef<'l, T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn pack_array_f<const N: usize>(self) -> (r: Result<&'l [[T; N]]>)
        requires N > 0,
        ensures r is Ok <==> self.items().len() as int % N as int == 0, r is Ok ==> grouped::<T, N>(self.items(), r->Ok_0@);
}
impl<'l, T> PackRef<'l, T> for &'l [T] {
    open spec fn items(&self) -> Seq<T> { self@ }
    //@fn rstsr-common/src/pack_array.rs :: impl PackArrayAPI<T> for &[T] :: pack_array_f
    //@opt rawcast private
    //@generics <const N: usize>
    //@retty Result<&'l [[T; N]]>
    //@calls .as_ptr=vx_slice_ptr ; core::slice::from_raw_parts=vx_raw_slice_group
    //@at start
        proof { let l = self@.len() as int; let n = N as int; assert(l == n * (l / n) + l % n && (l / n) * n == n * (l / n)) by (nonlinear_arith) requires n > 0; }
    //@end
}
pub trait UnpackRef<'l, T, const N: usize>: Sized {
    spec fn groups(&self) -> Seq<[T; N]>;
    fn unpack_array(self) -> (r: &'l [T])
        requires self.groups().len() * N <= usize::MAX,
        ensures grouped::<T, N>(r@, self.groups());
}
impl<'l, T, const N: usize> UnpackRef<'l, T, N> for &'l [[T; N]] {
    open spec fn groups(&self) -> Seq<[T; N]> { self@ }
    //@fn rstsr-common/src/pack_array.rs :: impl UnpackArrayAPI for &'l [[T; N]] :: unpack_array
    //@opt rawcast private
    //@retty &'l [T]
    //@calls .as_ptr=vx_slice_ptr ; core::slice::from_raw_parts=vx_raw_slice_flat
    //@end
}

// A tensor is its elements and a layout; the device plays no part here.
pub struct Storage<T> { pub data: Vec<T>, pub device: () }
pub struct Tensor<T> { pub storage: Storage<T>, pub layout: Layout }
impl<T> Storage<T> {
    pub fn new(data: Vec<T>, device: ()) -> (r: Self) ensures r.data == data { Storage { data, device } }
    pub fn into_raw_parts(self) -> (r: (Vec<T>, ())) ensures r.0 == self.data { (self.data, self.device) }
}
impl<T> Tensor<T> {
    pub fn layout(&self) -> (r: &Layout) ensures *r == self.layout { &self.layout }
    pub fn ndim(&self) -> (r: usize) ensures r == self.layout.shape@.len() { self.layout.shape.len() }
    pub fn into_raw_parts(self) -> (r: (Storage<T>, Layout)) ensures r.0 == self.storage, r.1 == self.layout { (self.storage, self.layout) }
    pub fn new_unchecked(storage: Storage<T>, layout: Layout) -> (r: Self) ensures r.storage == storage, r.layout == layout { Tensor { storage, layout } }
}
/// entry k of element x of the grouped layout g is element x with k at axis a of the plain layout f
pub open spec fn groups_of(f: Layout, g: Layout, a: int, n: int) -> bool {
    &&& 0 <= a < f.shape@.len() && f.shape@[a] == n && g.shape@ == f.shape@.remove(a)
    &&& forall|x: Seq<int>, k: int| in_range(x, g.shape@) && 0 <= k < n ==> in_range(#[trigger] x.insert(a, k), f.shape@) && f.addr(x.insert(a, k)) == n * g.addr(x) + k
}
/// what can be grouped
pub open spec fn groupable(l: Layout, a: int, n: int) -> bool {
    &&& 0 <= a < l.shape@.len() && l.stride@[a] == 1 && l.shape@[a] == n && n > 0 && l.offset % (n as usize) == 0
    &&& forall|i: int| 0 <= i < l.shape@.len() && i != a && l.shape@[i] > 1 ==> #[trigger] l.stride@[i] as int % n == 0
}
pub fn vx_lay_ok(v: Result<Layout>) -> (r: Layout) requires v is Ok ensures r == v->Ok_0 { match v { Ok(x) => x, Err(_) => vx_unreachable() } }
impl<T> Tensor<T> {
    //@fn rstsr-core/src/tensor/pack_array.rs :: impl TensorAny<R, T, B, D> :: into_pack_array_f
    //@generics <const N: usize>
    //@retty Result<Tensor<[T; N]>>
    //@opt dropargs:unwrap_or_else drop:try_into arg:axis
    //@calls TensorAny::new_unchecked=Tensor::new_unchecked
    //@requires
        self.layout.good(),
    //@ensures
        r is Ok <==> axis_ok(vx_axis as int, self.layout.shape@.len() as int) && groupable(self.layout, axis_norm(vx_axis as int, self.layout.shape@.len() as int), N as int) && self.storage.data@.len() as int % N as int == 0,
        r is Ok ==> ({
            let t = r->Ok_0;
            &&& groups_of(self.layout, t.layout, axis_norm(vx_axis as int, self.layout.shape@.len() as int), N as int)
            &&& grouped::<T, N>(self.storage.data@, t.storage.data@)
        }),
    //@at start
        let ghost a = axis_norm(vx_axis as int, self.layout.shape@.len() as int);
        let ghost l0 = self.layout;
    //@loop 0
            invariant
                vx_n0 == l0.shape@.len(), 0 <= vx_i0 <= vx_n0, self.layout == l0, l0.shape@.len() == l0.stride@.len(), N > 0, axis == a, a == axis_norm(vx_axis as int, l0.shape@.len() as int), N <= isize::MAX,
                forall|i: int| 0 <= i < vx_i0 && i != a && l0.shape@[i] > 1 ==> #[trigger] l0.stride@[i] as int % N as int == 0,
            decreases vx_n0 - vx_i0,
    //@at loop 0 top
            proof {
                let i = vx_i0 as int;
                lemma_rem(l0.stride@[i] as int, N as int);
                assert(i != a && l0.shape@[i] > 1 && l0.stride@[i] as int % N as int != 0 ==> !groupable(l0, a, N as int));
            }
    //@at loop 1 top
            proof { lemma_rem(layout.stride@[vx_i1 as int] as int, N as int); }
    //@loop 1
            invariant
                vx_s1 == layout.stride, vx_n1 == layout.stride@.len(), 0 <= vx_i1 <= vx_n1, N > 0, N <= isize::MAX, vx_acc1@.len() == vx_i1,
                forall|i: int| 0 <= i < vx_i1 && layout.stride@[i] as int % N as int == 0 ==> N as int * #[trigger] vx_acc1@[i] == layout.stride@[i],
            decreases vx_n1 - vx_i1,
    //@at tail
        proof {
            let n = N as int;
            assert(l0.offset == n * (l0.offset / N)) by (nonlinear_arith) requires l0.offset % N == 0, n == N, N > 0;
            assert forall|i: int| 0 <= i < layout.shape@.len() implies layout.shape@[i] <= 1 || layout.stride@[i] == n * #[trigger] new_layout.stride@[i] by {
                let j = if i < a { i } else { i + 1 };
                assert(layout.shape@[i] == l0.shape@[j] && layout.stride@[i] == l0.stride@[j]);
            }
            assert(ungrouped(new_layout, l0, a, n));
            lemma_ungrouped(new_layout, l0, a, n);
        }
    //@end
}
pub proof fn lemma_rem(s: int, n: int)
    requires n > 0,
    ensures 0int % n == 0, 0 <= s % n < n, 0 <= (-s) % n < n, (-s) % n == 0 <==> s % n == 0, s == n * (s / n) + s % n, -s == n * ((-s) / n) + (-s) % n, s % n == 0 && s < 0 ==> s == n * (-((-s) / n)),
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-s, n);
    vstd::arithmetic::div_mod::lemma_small_mod(0, n as nat);
    assert(0 <= s % n < n && 0 <= (-s) % n < n) by (nonlinear_arith) requires n > 0;
    let q = s / n; let p = (-s) / n;
    assert(n * (-q) == -(n * q) && n * (-p) == -(n * p)) by (nonlinear_arith);
    if s % n == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-s, n, -q, 0); }
    if (-s) % n == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(s, n, -p, 0); }
}
pub open spec fn ungrouped(l: Layout, r: Layout, a: int, n: int) -> bool {
    &&& 0 <= a < r.shape@.len() && l.shape@.len() == l.stride@.len() && r.shape@.len() == r.stride@.len() && r.shape@.remove(a) == l.shape@ && r.shape@[a] == n && r.stride@[a] == 1 && r.offset == n * l.offset
    &&& r.shape@.len() == l.shape@.len() + 1
    &&& forall|i: int| 0 <= i < l.shape@.len() ==> (l.shape@[i] <= 1 || r.stride@.remove(a)[i] == n * #[trigger] l.stride@[i])
}
pub proof fn lemma_scaled(x: Seq<int>, sh: Seq<usize>, t: Seq<isize>, u: Seq<isize>, n: int, m: int)
    requires x.len() == sh.len(), t.len() == sh.len(), u.len() == sh.len(), in_range(x, sh), 0 <= m <= sh.len(),
        forall|i: int| 0 <= i < sh.len() ==> sh[i] <= 1 || u[i] == n * #[trigger] t[i],
    ensures dot(x, u, m) == n * dot(x, t, m),
    decreases m,
{
    if m > 0 {
        lemma_scaled(x, sh, t, u, n, m - 1);
        assert(0 <= x[m - 1] < sh[m - 1]);
        let (d, v, s, w) = (dot(x, t, m - 1), x[m - 1], t[m - 1] as int, u[m - 1] as int);
        if sh[m - 1] <= 1 { assert(v * w == 0 && v * s == 0) by (nonlinear_arith) requires v == 0; assert(n * (d + v * s) == n * d) by (nonlinear_arith) requires v * s == 0; }
        else { assert(t[m - 1] == s); assert(n * (d + v * s) == n * d + v * (n * s)) by (nonlinear_arith); }
    } else { assert(n * 0 == 0); }
}
pub proof fn lemma_ungrouped(l: Layout, r: Layout, a: int, n: int)
    requires ungrouped(l, r, a, n),
    ensures groups_of(r, l, a, n),
{
    assert forall|x: Seq<int>, k: int| in_range(x, l.shape@) && 0 <= k < n implies in_range(#[trigger] x.insert(a, k), r.shape@) && r.addr(x.insert(a, k)) == n * l.addr(x) + k by {
        let y = x.insert(a, k);
        let m = r.shape@.len() as int;
        assert(y.remove(a) =~= x);
        lemma_cut_dot(y, r.stride@, a, m);
        lemma_scaled(x, l.shape@, l.stride@, r.stride@.remove(a), n, m - 1);
        assert(k * 1 == k);
        let (o, d) = (l.offset as int, dot(x, l.stride@, m - 1));
        assert(n * (o + d) == n * o + n * d) by (nonlinear_arith);
        assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] y[i] < r.shape@[i] by {
            if i < a { assert(0 <= x[i] < l.shape@[i]); assert(r.shape@.remove(a)[i] == r.shape@[i]); }
            else if i > a { assert(0 <= x[i - 1] < l.shape@[i - 1]); assert(r.shape@.remove(a)[i - 1] == r.shape@[i]); }
        }
    }
}
impl<T, const N: usize> Tensor<[T; N]> {
    //@fn rstsr-core/src/tensor/pack_array.rs :: impl TensorAny<R, [T; N], B, D> :: into_unpack_array_f
    //@types T=T
    //@retty Result<Tensor<T>>
    //@calls TensorAny::new_unchecked=Tensor::new_unchecked ; .into_dim=vx_lsame ; .rstsr_unwrap=vx_lay_ok
    //@requires
        self.layout.len_ok(), self.storage.data@.len() * N <= usize::MAX, N <= isize::MAX, self.layout.offset * N <= usize::MAX,
        forall|i: int| 0 <= i < self.layout.stride@.len() ==> isize::MIN <= #[trigger] self.layout.stride@[i] * N <= isize::MAX,
    //@ensures
        r is Ok <==> axis_ok(axis as int, self.layout.shape@.len() as int + 1),
        r is Ok ==> ({
            let t = r->Ok_0;
            &&& groups_of(t.layout, self.layout, axis_norm(axis as int, self.layout.shape@.len() as int + 1), N as int)
            &&& grouped::<T, N>(t.storage.data@, self.storage.data@)
        }),
    //@at start
        let ghost a = axis_norm(axis as int, self.layout.shape@.len() as int + 1);
        let ghost l0 = self.layout;
    //@loop 0
            invariant
                vx_n0 == l0.stride@.len(), 0 <= vx_i0 <= vx_n0, stride@.len() == vx_n0, N <= isize::MAX, vx_acc0 == vx_i0,
                forall|i: int| 0 <= i < l0.stride@.len() ==> isize::MIN <= #[trigger] l0.stride@[i] * N <= isize::MAX,
                forall|i: int| 0 <= i < vx_n0 ==> #[trigger] stride@[i] == if i < vx_i0 { l0.stride@[i] * N } else { l0.stride@[i] as int },
            decreases vx_n0 - vx_i0,
    //@at tail
        proof {
            assert(layout.shape@.remove(a) =~= l0.shape@);
            assert forall|i: int| 0 <= i < l0.shape@.len() implies layout.stride@.remove(a)[i] == N * #[trigger] l0.stride@[i] by { assert(l0.stride@[i] * N == N * l0.stride@[i]) by (nonlinear_arith); }
            assert(l0.offset * N == N * l0.offset) by (nonlinear_arith);
            lemma_ungrouped(l0, layout, a, N as int);
        }
    //@end
}
/// the entries read through the grouped layout are the elements read through the plain one
pub proof fn lemma_reads<T, const N: usize>(f: Layout, fd: Seq<T>, g: Layout, gd: Seq<[T; N]>, a: int, x: Seq<int>, k: int)
    requires groups_of(f, g, a, N as int), grouped::<T, N>(fd, gd), in_range(x, g.shape@), 0 <= k < N, 0 <= f.addr(x.insert(a, k)) < fd.len(),
    ensures 0 <= g.addr(x) < gd.len(), gd[g.addr(x)]@[k] == fd[f.addr(x.insert(a, k))],
{
    let (n, q, m) = (N as int, g.addr(x), gd.len() as int);
    assert(f.addr(x.insert(a, k)) == n * q + k);
    if q < 0 { assert(n * q <= n * -1) by (nonlinear_arith) requires q <= -1, n > 0; }
    assert(q < m) by (nonlinear_arith) requires n * q + k < m * n, 0 <= k < n;
    assert(n * q == q * n) by (nonlinear_arith);
    assert(gd[q]@[k] == fd[q * N + k]);
}
/// grouping and ungrouping undo each other
pub proof fn lemma_inverse<T, const N: usize>(f: Layout, fd: Seq<T>, g: Layout, gd: Seq<[T; N]>, f2: Layout, fd2: Seq<T>, a: int)
    requires groups_of(f, g, a, N as int), grouped::<T, N>(fd, gd), groups_of(f2, g, a, N as int), grouped::<T, N>(fd2, gd), N > 0,
    ensures fd == fd2, f.shape@ == f2.shape@, forall|y: Seq<int>| in_range(y, f.shape@) ==> #[trigger] f2.addr(y) == f.addr(y),
{
    assert(f.shape@ =~= f2.shape@) by {
        assert(f.shape@.remove(a).insert(a, f.shape@[a]) =~= f.shape@);
        assert(f2.shape@.remove(a).insert(a, f2.shape@[a]) =~= f2.shape@);
    }
    assert(fd =~= fd2) by {
        assert forall|i: int| 0 <= i < fd.len() implies fd[i] == fd2[i] by {
            let (n, m) = (N as int, gd.len() as int);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, n);
            let (j, k) = (i / n, i % n);
            assert(0 <= k < n && j >= 0) by (nonlinear_arith) requires i >= 0, n > 0, j == i / n, k == i % n;
            assert(j < m) by (nonlinear_arith) requires i == n * j + k, i < m * n, k >= 0, n > 0;
            assert(n * j == j * n) by (nonlinear_arith);
            assert(gd[j]@[k] == fd[j * N + k] && gd[j]@[k] == fd2[j * N + k]);
        }
    }
    assert forall|y: Seq<int>| in_range(y, f.shape@) implies #[trigger] f2.addr(y) == f.addr(y) by {
        let x = y.remove(a);
        assert(x.insert(a, y[a]) =~= y);
        assert(in_range(x, g.shape@)) by {
            assert forall|i: int| 0 <= i < x.len() implies 0 <= #[trigger] x[i] < g.shape@[i] by { if i < a { assert(0 <= y[i] < f.shape@[i]); } else { assert(0 <= y[i + 1] < f.shape@[i + 1]); } }
        }
        assert(0 <= y[a] < f.shape@[a]);
        assert(f.addr(x.insert(a, y[a])) == f2.addr(x.insert(a, y[a])));
    }
}
