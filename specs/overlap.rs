
// C02: an accepted layout maps distinct multi-indices to distinct positions.

/// trusted contract of slice::sort_by_key: a permutation with non-decreasing keys
#[verifier::external_body]
pub fn vx_sort_by_key(v: &mut Vec<usize>, keys: &Vec<isize>)
    requires old(v)@.len() == keys@.len(),
    ensures
        final(v)@.len() == old(v)@.len(),
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|k: usize| final(v)@.contains(k) <==> old(v)@.contains(k),
        old(v)@.no_duplicates() ==> final(v)@.no_duplicates(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> exists|p: int, q: int|
            0 <= p < keys@.len() && 0 <= q < keys@.len() && old(v)@[p] == #[trigger] final(v)@[i] && old(v)@[q] == #[trigger] final(v)@[j]
            && #[trigger] keys@[p] <= #[trigger] keys@[q],
{ unimplemented!() }

pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }

/// sum of w[k] over the k < n that occur among the first p entries of a
pub open spec fn wsum(w: Seq<int>, a: Seq<usize>, p: int, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { wsum(w, a, p, n - 1) + if a.take(p).contains((n - 1) as usize) { w[n - 1] } else { 0 } }
}
pub proof fn lemma_wsum_step(w: Seq<int>, a: Seq<usize>, p: int, n: int)
    requires 0 <= p < a.len(), a.no_duplicates(), 0 <= n <= w.len(), w.len() <= usize::MAX,
    ensures wsum(w, a, p + 1, n) == wsum(w, a, p, n) + if a[p] < n { w[a[p] as int] } else { 0 },
    decreases n,
{
    if n > 0 {
        lemma_wsum_step(w, a, p, n - 1);
        let k = (n - 1) as usize;
        if a[p] == k {
            assert(a.take(p + 1)[p] == k);
            if a.take(p).contains(k) {
                let j = choose|j: int| 0 <= j < p && a.take(p)[j] == k;
                assert(a[j] == a[p]);
            }
        } else {
            if a.take(p).contains(k) {
                let j = choose|j: int| 0 <= j < p && a.take(p)[j] == k;
                assert(a.take(p + 1)[j] == k);
            }
            if a.take(p + 1).contains(k) {
                let b = a.take(p + 1);
                let j = choose|j: int| 0 <= j < p + 1 && b[j] == k;
                assert(j < p);
                assert(a.take(p)[j] == k);
            }
        }
    }
}
pub proof fn lemma_wsum_zero(w: Seq<int>, a: Seq<usize>, n: int)
    requires 0 <= n <= w.len(), 0 <= a.len(),
    ensures wsum(w, a, 0, n) == 0,
    decreases n,
{
    if n > 0 { lemma_wsum_zero(w, a, n - 1); }
}
/// reach of the first p sorted axes
pub open spec fn cum(sh: Seq<usize>, st: Seq<isize>, a: Seq<usize>, p: int) -> int
    decreases p,
{
    if p <= 0 { 0 } else { cum(sh, st, a, p - 1) + (sh[a[p - 1] as int] - 1) * iabs(st[a[p - 1] as int] as int) }
}
pub open spec fn extent(sh: Seq<usize>, st: Seq<isize>) -> Seq<int> {
    Seq::new(sh.len(), |k: int| if sh[k] > 0 { (sh[k] - 1) * iabs(st[k] as int) } else { 0 })
}
pub proof fn lemma_cum_is_wsum(sh: Seq<usize>, st: Seq<isize>, a: Seq<usize>, p: int)
    requires 0 <= p <= a.len(), a.no_duplicates(), sh.len() == st.len(), sh.len() < isize::MAX,
        forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < sh.len() && sh[a[i] as int] > 1,
    ensures cum(sh, st, a, p) == wsum(extent(sh, st), a, p, sh.len() as int),
    decreases p,
{
    if p > 0 {
        lemma_cum_is_wsum(sh, st, a, p - 1);
        lemma_wsum_step(extent(sh, st), a, p - 1, sh.len() as int);
    } else { lemma_wsum_zero(extent(sh, st), a, sh.len() as int); }
}
pub proof fn lemma_wsum_ext(sh: Seq<usize>, st: Seq<isize>, a: Seq<usize>, p: int, n: int)
    requires 0 <= n <= sh.len(), sh.len() == st.len(), 0 <= p <= a.len(),
    ensures 0 <= wsum(extent(sh, st), a, p, n) <= ext_pos(sh, st, n) - ext_neg(sh, st, n),
    decreases n,
{
    if n > 0 {
        lemma_wsum_ext(sh, st, a, p, n - 1);
        let d = sh[n - 1] as int; let s = st[n - 1] as int;
        if d > 0 {
            assert((d - 1) * iabs(s) >= 0) by (nonlinear_arith) requires d > 0, iabs(s) >= 0;
            if s > 0 { assert((d - 1) * iabs(s) == s * (d - 1)) by (nonlinear_arith) requires s > 0; }
            else { assert((d - 1) * iabs(s) == -(s * (d - 1))) by (nonlinear_arith) requires s <= 0; }
        }
    }
}
/// what the loop of check_strides establishes
pub open spec fn separated(sh: Seq<usize>, st: Seq<isize>, a: Seq<usize>) -> bool {
    &&& a.no_duplicates()
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < sh.len() && sh[a[i] as int] > 1
    &&& forall|k: usize| k < sh.len() && sh[k as int] > 1 ==> a.contains(k)
    &&& forall|i: int| 0 <= i < a.len() ==> st[#[trigger] a[i] as int] == 0 || iabs(st[a[i] as int] as int) > cum(sh, st, a, i)
}
pub open spec fn diffs(i1: Seq<int>, i2: Seq<int>, st: Seq<isize>) -> Seq<int> {
    Seq::new(st.len(), |k: int| (i1[k] - i2[k]) * st[k])
}
/// prefix p of the sorted axes: the partial difference is bounded by the reach, and vanishes only if
/// all its index differences do
pub proof fn lemma_prefix(sh: Seq<usize>, st: Seq<isize>, a: Seq<usize>, i1: Seq<int>, i2: Seq<int>, p: int)
    requires separated(sh, st, a), 0 <= p <= a.len(), in_range(i1, sh), in_range(i2, sh), sh.len() == st.len(), sh.len() < isize::MAX,
        forall|k: int| 0 <= k < sh.len() && st[k] == 0 ==> i1[k] == i2[k],
    ensures
        iabs(wsum(diffs(i1, i2, st), a, p, sh.len() as int)) <= cum(sh, st, a, p),
        wsum(diffs(i1, i2, st), a, p, sh.len() as int) == 0 ==> forall|q: int| 0 <= q < p ==> i1[#[trigger] a[q] as int] == i2[a[q] as int],
    decreases p,
{
    let w = diffs(i1, i2, st);
    let n = sh.len() as int;
    if p == 0 { lemma_wsum_zero(w, a, n); } else {
        lemma_prefix(sh, st, a, i1, i2, p - 1);
        lemma_wsum_step(w, a, p - 1, n);
        let k = a[p - 1] as int;
        let d = i1[k] - i2[k]; let s = st[k] as int; let m = sh[k] as int;
        let before = wsum(w, a, p - 1, n);
        assert(0 <= i1[k] < m && 0 <= i2[k] < m);
        assert(iabs(d * s) <= (m - 1) * iabs(s)) by (nonlinear_arith) requires -(m - 1) <= d <= m - 1, m >= 1;
        if s != 0 && d != 0 {
            assert(iabs(d * s) >= iabs(s)) by (nonlinear_arith) requires d != 0;
        }
        if s == 0 { assert(d == 0); }
        if d == 0 { assert(d * s == 0) by (nonlinear_arith) requires d == 0; }
    }
}
pub proof fn lemma_dot_diff(i1: Seq<int>, i2: Seq<int>, sh: Seq<usize>, st: Seq<isize>, a: Seq<usize>, n: int)
    requires 0 <= n <= sh.len(), sh.len() == st.len(), in_range(i1, sh), in_range(i2, sh), sh.len() < isize::MAX,
        forall|k: usize| k < sh.len() && sh[k as int] > 1 ==> a.contains(k),
    ensures dot(i1, st, n) - dot(i2, st, n) == wsum(diffs(i1, i2, st), a, a.len() as int, n),
    decreases n,
{
    if n > 0 {
        lemma_dot_diff(i1, i2, sh, st, a, n - 1);
        let k = n - 1;
        assert(i1[k] * st[k] - i2[k] * st[k] == (i1[k] - i2[k]) * st[k]) by (nonlinear_arith);
        assert(a.take(a.len() as int) =~= a);
        if !(sh[k] > 1) {
            assert(0 <= i1[k] < sh[k] && 0 <= i2[k] < sh[k]);
            assert((i1[k] - i2[k]) * st[k] == 0) by (nonlinear_arith) requires i1[k] == i2[k];
        } else { assert(a.contains(k as usize)); }
    }
}
pub open spec fn injective(l: Layout) -> bool {
    forall|i1: Seq<int>, i2: Seq<int>|
        in_range(i1, l.shape@) && in_range(i2, l.shape@)
        && (forall|k: int| 0 <= k < l.shape@.len() && l.stride@[k] == 0 ==> i1[k] == i2[k])
        && #[trigger] l.addr(i1) == #[trigger] l.addr(i2) ==> i1 =~= i2
}
pub proof fn lemma_injective(l: Layout, a: Seq<usize>)
    requires separated(l.shape@, l.stride@, a), l.len_ok(),
    ensures injective(l),
{
    let sh = l.shape@; let st = l.stride@;
    assert forall|i1: Seq<int>, i2: Seq<int>|
        in_range(i1, sh) && in_range(i2, sh)
        && (forall|k: int| 0 <= k < sh.len() && st[k] == 0 ==> i1[k] == i2[k])
        && #[trigger] l.addr(i1) == #[trigger] l.addr(i2) implies i1 =~= i2 by {
        lemma_dot_diff(i1, i2, sh, st, a, sh.len() as int);
        lemma_prefix(sh, st, a, i1, i2, a.len() as int);
        assert forall|k: int| 0 <= k < sh.len() implies i1[k] == i2[k] by {
            assert(0 <= i1[k] < sh[k] && 0 <= i2[k] < sh[k]);
            if sh[k] > 1 {
                assert(a.contains(k as usize));
                let q = choose|q: int| 0 <= q < a.len() && a[q] == k as usize;
                assert(i1[a[q] as int] == i2[a[q] as int]);
            }
        }
    }
}

pub open spec fn sorted_by(a: Seq<usize>, st: Seq<isize>) -> bool {
    forall|i: int, j: int| 0 <= i < j < a.len() ==> iabs(st[#[trigger] a[i] as int] as int) <= iabs(st[#[trigger] a[j] as int] as int)
}
/// reach of the axes other than k whose stride is not larger than that of axis k
pub open spec fn reach(sh: Seq<usize>, st: Seq<isize>, j: int) -> int {
    if sh[j] > 1 { (sh[j] - 1) * iabs(st[j] as int) } else { 0 }
}
pub open spec fn below(sh: Seq<usize>, st: Seq<isize>, k: int, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else {
        below(sh, st, k, n - 1) + if n - 1 != k && iabs(st[n - 1] as int) <= iabs(st[k] as int) { reach(sh, st, n - 1) } else { 0 }
    }
}
/// the acceptance rule in closed form: every non-zero stride exceeds the reach of the axes below it
pub open spec fn strides_ok(sh: Seq<usize>, st: Seq<isize>) -> bool {
    forall|k: int| 0 <= k < sh.len() && sh[k] > 1 && #[trigger] st[k] != 0 ==> iabs(st[k] as int) > below(sh, st, k, sh.len() as int)
}
pub proof fn lemma_reach(sh: Seq<usize>, st: Seq<isize>, j: int)
    requires 0 <= j < sh.len(), sh.len() == st.len(),
    ensures 0 <= reach(sh, st, j), reach(sh, st, j) == if sh[j] > 0 { extent(sh, st)[j] } else { 0 },
        sh[j] > 1 && st[j] != 0 ==> reach(sh, st, j) >= iabs(st[j] as int) > 0,
{
    let d = sh[j] as int; let s = iabs(st[j] as int);
    if d > 1 { assert((d - 1) * s >= s) by (nonlinear_arith) requires d > 1, s >= 0; }
    if d == 1 { assert((d - 1) * s == 0) by (nonlinear_arith) requires d == 1; }
}
/// the sorted walk never counts more than the closed form
pub proof fn lemma_wsum_le_below(sh: Seq<usize>, st: Seq<isize>, a: Seq<usize>, i: int, k: int, n: int)
    requires 0 <= i <= a.len(), 0 <= n <= sh.len(), sh.len() == st.len(), sh.len() < isize::MAX,
        forall|q: int| 0 <= q < i ==> #[trigger] a[q] != k && iabs(st[a[q] as int] as int) <= iabs(st[k] as int) && a[q] < sh.len(),
    ensures wsum(extent(sh, st), a, i, n) <= below(sh, st, k, n),
    decreases n,
{
    if n > 0 {
        lemma_wsum_le_below(sh, st, a, i, k, n - 1);
        lemma_reach(sh, st, n - 1);
        let b = a.take(i);
        if b.contains((n - 1) as usize) {
            let q = choose|q: int| 0 <= q < b.len() && b[q] == (n - 1) as usize;
            assert(a[q] == (n - 1) as usize);
        }
    }
}
pub proof fn lemma_below_le_wsum(sh: Seq<usize>, st: Seq<isize>, a: Seq<usize>, i: int, k: int, n: int)
    requires 0 <= i <= a.len(), 0 <= n <= sh.len(), sh.len() == st.len(), sh.len() < isize::MAX,
        forall|j: usize| j < sh.len() && j != k && iabs(st[j as int] as int) <= iabs(st[k] as int) && sh[j as int] > 1 && st[j as int] != 0 ==> a.take(i).contains(j),
    ensures below(sh, st, k, n) <= wsum(extent(sh, st), a, i, n),
    decreases n,
{
    if n > 0 {
        lemma_below_le_wsum(sh, st, a, i, k, n - 1);
        lemma_reach(sh, st, n - 1);
        let j = (n - 1) as usize;
        if st[n - 1] == 0 { assert((sh[n - 1] - 1) * iabs(0) == 0) by (nonlinear_arith) requires iabs(0) == 0; }
        if j != k && iabs(st[j as int] as int) <= iabs(st[k] as int) && sh[j as int] > 1 && st[j as int] != 0 {
            assert(a.take(i).contains(j));
        }
    }
}
pub proof fn lemma_cum_mono(sh: Seq<usize>, st: Seq<isize>, a: Seq<usize>, p: int, q: int)
    requires 0 <= p <= q <= a.len(), sh.len() == st.len(), forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < sh.len() && sh[a[i] as int] > 1,
    ensures 0 <= cum(sh, st, a, p) <= cum(sh, st, a, q),
    decreases q,
{
    if q > 0 {
        let k = a[q - 1] as int;
        assert((sh[k] - 1) * iabs(st[k] as int) >= 0) by (nonlinear_arith) requires sh[k] > 1, iabs(st[k] as int) >= 0;
        if p < q { lemma_cum_mono(sh, st, a, p, q - 1); } else { lemma_cum_mono(sh, st, a, p - 1, q - 1); }
    }
}
pub proof fn lemma_separated_closed(sh: Seq<usize>, st: Seq<isize>, a: Seq<usize>)
    requires separated(sh, st, a), sh.len() == st.len(), sh.len() < isize::MAX,
    ensures strides_ok(sh, st),
{
    assert forall|k: int| 0 <= k < sh.len() && sh[k] > 1 && #[trigger] st[k] != 0 implies iabs(st[k] as int) > below(sh, st, k, sh.len() as int) by {
        assert(a.contains(k as usize));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == k as usize;
        assert forall|j: usize| j < sh.len() && j != k && iabs(st[j as int] as int) <= iabs(st[k] as int) && sh[j as int] > 1 && st[j as int] != 0
            implies a.take(i).contains(j) by {
            assert(a.contains(j));
            let q = choose|q: int| 0 <= q < a.len() && a[q] == j;
            if q < i { assert(a.take(i)[q] == j); } else {
                assert(q > i);
                lemma_cum_mono(sh, st, a, i + 1, q);
                lemma_cum_mono(sh, st, a, 0, i);
                lemma_reach(sh, st, k);
                assert(cum(sh, st, a, i + 1) == cum(sh, st, a, i) + (sh[k] - 1) * iabs(st[k] as int));
                assert(iabs(st[a[q] as int] as int) > cum(sh, st, a, q));
            }
        }
        lemma_below_le_wsum(sh, st, a, i, k, sh.len() as int);
        lemma_cum_is_wsum(sh, st, a, i);
        assert(iabs(st[a[i] as int] as int) > cum(sh, st, a, i));
    }
}

/// one step of the walk over the sorted axes: the count stays in machine range, and the closed form
/// implies the comparison made
pub proof fn lemma_walk_step(l: Layout, a: Seq<usize>, p: int)
    requires
        l.fits(), 0 <= p < a.len(), a.no_duplicates(), sorted_by(a, l.stride@),
        forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < l.shape@.len() && l.shape@[a[i] as int] > 1,
    ensures
        0 <= cum(l.shape@, l.stride@, a, p),
        cum(l.shape@, l.stride@, a, p + 1) <= usize::MAX,
        cum(l.shape@, l.stride@, a, p + 1) == cum(l.shape@, l.stride@, a, p) + (l.shape@[a[p] as int] - 1) * iabs(l.stride@[a[p] as int] as int),
        (l.shape@[a[p] as int] - 1) * iabs(l.stride@[a[p] as int] as int) >= 0,
        l.stride@[a[p] as int] == 0 ==> cum(l.shape@, l.stride@, a, p + 1) == cum(l.shape@, l.stride@, a, p),
        strides_ok(l.shape@, l.stride@) && l.stride@[a[p] as int] != 0 ==> cum(l.shape@, l.stride@, a, p) < iabs(l.stride@[a[p] as int] as int),
{
    let sh = l.shape@; let st = l.stride@;
    let k = a[p] as int;
    lemma_cum_is_wsum(sh, st, a, p + 1);
    lemma_wsum_ext(sh, st, a, p + 1, sh.len() as int);
    lemma_ext_mono(sh, st, 0, sh.len() as int);
    lemma_cum_is_wsum(sh, st, a, p);
    lemma_wsum_ext(sh, st, a, p, sh.len() as int);
    let d = sh[k] as int; let s = iabs(st[k] as int);
    assert((d - 1) * s >= 0) by (nonlinear_arith) requires d > 1, s >= 0;
    if s == 0 { assert((d - 1) * s == 0) by (nonlinear_arith) requires s == 0; }
    assert forall|q: int| 0 <= q < p implies #[trigger] a[q] != k && iabs(st[a[q] as int] as int) <= iabs(st[k] as int) && a[q] < sh.len() by {
        assert(a[q] != a[p]);
    }
    lemma_wsum_le_below(sh, st, a, p, k, sh.len() as int);
    if strides_ok(sh, st) && st[k] != 0 {
        assert(iabs(st[k] as int) > below(sh, st, k, sh.len() as int));
    }
}
pub proof fn lemma_walk_end(l: Layout, a: Seq<usize>, skip_zero: bool)
    requires
        l.fits(), a.no_duplicates(),
        forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < l.shape@.len() && l.shape@[a[i] as int] > 1,
        forall|k: usize| k < l.shape@.len() && l.shape@[k as int] > 1 ==> a.contains(k),
        forall|i: int| 0 <= i < a.len() ==> (l.stride@[#[trigger] a[i] as int] == 0 && skip_zero) || iabs(l.stride@[a[i] as int] as int) > cum(l.shape@, l.stride@, a, i),
    ensures
        injective(l), strides_ok(l.shape@, l.stride@),
        !skip_zero ==> forall|k: int| 0 <= k < l.shape@.len() && l.shape@[k] > 1 ==> l.stride@[k] != 0,
{
    let sh = l.shape@; let st = l.stride@;
    assert(separated(sh, st, a));
    lemma_injective(l, a);
    lemma_separated_closed(sh, st, a);
    if !skip_zero {
        assert forall|k: int| 0 <= k < sh.len() && sh[k] > 1 implies st[k] != 0 by {
            assert(a.contains(k as usize));
            let q = choose|q: int| 0 <= q < a.len() && a[q] == k as usize;
            assert(iabs(st[a[q] as int] as int) > cum(sh, st, a, q));
            lemma_cum_is_wsum(sh, st, a, q);
            lemma_wsum_ext(sh, st, a, q, sh.len() as int);
        }
    }
}

impl Layout {
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: check_strides
    //@requires
        self.fits(), self.size_fits(),
    //@ensures
        // acceptance implies that no two elements share a position; so coinciding indices are rejected
        r is Ok ==> injective(*self),
        // acceptance in closed form
        skip_zero ==> (r is Ok <==> self.empty() || strides_ok(self.shape@, self.stride@)),
        r is Err ==> r->Err_0 is InvalidLayout,
        // with skip_zero == false zero strides are rejected as well
        r is Ok && !skip_zero && !self.empty() ==> forall|k: int| 0 <= k < self.shape@.len() && self.shape@[k] > 1 ==> self.stride@[k] != 0,
    //@at start
        let ghost sh = self.shape@;
        let ghost st = self.stride@;
        proof {
            if self.empty() {
                assert forall|i1: Seq<int>| !in_range(i1, sh) by {
                    let i = choose|i: int| 0 <= i < sh.len() && !(#[trigger] sh[i] > 0);
                    if in_range(i1, sh) { assert(0 <= i1[i] < sh[i]); }
                }
                assert(injective(*self));
            }
            if sh.len() == 0 { lemma_injective(*self, Seq::empty()); }
        }
    //@loop 0
            invariant
                sh == self.shape@, *shape == self.shape, *stride == self.stride, n == sh.len(), self.fits(), vx_n0 == n, 0 <= vx_i0 <= n,
                vx_acc0@.no_duplicates(),
                forall|i: int| 0 <= i < vx_acc0@.len() ==> 0 <= #[trigger] vx_acc0@[i] < vx_i0 && sh[vx_acc0@[i] as int] > 1,
                forall|k: usize| k < vx_i0 && sh[k as int] > 1 ==> vx_acc0@.contains(k),
            decreases n - vx_i0,
    //@at loop 0 top
            let ghost acc_old = vx_acc0@;
            proof {
                assert forall|k: usize| k < vx_i0 && sh[k as int] > 1 implies acc_old.push(vx_i0).contains(k) by {
                    assert(acc_old.contains(k));
                    let j = choose|j: int| 0 <= j < acc_old.len() && acc_old[j] == k;
                    assert(acc_old.push(vx_i0)[j] == k);
                }
                assert(acc_old.push(vx_i0)[acc_old.len() as int] == vx_i0);
            }
    //@at let indices
        let ghost idx0 = indices@;
    //@loop 1
            invariant
                *shape == self.shape, *stride == self.stride, self.fits(), vx_n1 == indices@.len(), 0 <= vx_i1 <= vx_n1, indices@ == idx0, sh == self.shape@, st == self.stride@,
                forall|i: int| 0 <= i < indices@.len() ==> 0 <= #[trigger] indices@[i] < sh.len() && sh[indices@[i] as int] > 1,
                vx_acc1@.len() == vx_i1,
                forall|i: int| 0 <= i < vx_i1 ==> #[trigger] vx_acc1@[i] == iabs(st[indices@[i] as int] as int),
            decreases vx_n1 - vx_i1,
    //@at loop 1 top
            proof { assert(0 <= indices@[vx_i1 as int] < sh.len()); assert(st[indices@[vx_i1 as int] as int] > isize::MIN); }
    //@at after vx_sort_by_key
        proof {
            assert forall|i: int, j: int| 0 <= i < j < indices@.len() implies iabs(st[#[trigger] indices@[i] as int] as int) <= iabs(st[#[trigger] indices@[j] as int] as int) by {
                let (p, q) = choose|p: int, q: int| 0 <= p < vx_keys@.len() && 0 <= q < vx_keys@.len() && idx0[p] == indices@[i] && idx0[q] == indices@[j] && #[trigger] vx_keys@[p] <= #[trigger] vx_keys@[q];
                assert(vx_keys@[p] == iabs(st[idx0[p] as int] as int));
                assert(vx_keys@[q] == iabs(st[idx0[q] as int] as int));
            }
        }
    //@at let shape_sorted
        let ghost a = indices@;
    //@at before let shape_sorted
        proof {
            assert forall|i: int| 0 <= i < indices@.len() implies 0 <= #[trigger] indices@[i] < sh.len() && sh[indices@[i] as int] > 1 by {
                assert(indices@.contains(indices@[i]));
                assert(idx0.contains(indices@[i]));
                let j = choose|j: int| 0 <= j < idx0.len() && idx0[j] == indices@[i];
                assert(0 <= idx0[j] < sh.len());
            }
        }
    //@loop 2
            invariant
                *shape == self.shape, vx_n2 == indices@.len(), 0 <= vx_i2 <= vx_n2, sh == self.shape@,
                forall|i: int| 0 <= i < indices@.len() ==> 0 <= #[trigger] indices@[i] < sh.len() && sh[indices@[i] as int] > 1,
                vx_acc2@.len() == vx_i2,
                forall|i: int| 0 <= i < vx_i2 ==> vx_acc2@[i] == sh[indices@[i] as int],
            decreases vx_n2 - vx_i2,
    //@at loop 2 top
            proof { assert(0 <= indices@[vx_i2 as int] < sh.len()); }
    //@loop 3
            invariant
                *stride == self.stride, self.fits(), vx_n3 == indices@.len(), 0 <= vx_i3 <= vx_n3, sh == self.shape@, st == self.stride@,
                forall|i: int| 0 <= i < indices@.len() ==> 0 <= #[trigger] indices@[i] < sh.len() && sh[indices@[i] as int] > 1,
                vx_acc3@.len() == vx_i3,
                forall|i: int| 0 <= i < vx_i3 ==> vx_acc3@[i] == iabs(st[indices@[i] as int] as int),
            decreases vx_n3 - vx_i3,
    //@at loop 3 top
            proof { assert(0 <= indices@[vx_i3 as int] < sh.len()); assert(st[indices@[vx_i3 as int] as int] > isize::MIN); }
    //@loop 4
            invariant
                self.fits(), sh == self.shape@, st == self.stride@, a == indices@, vx_n4 == a.len(), 0 <= vx_i4 <= vx_n4, !self.empty(),
                a.no_duplicates(), sorted_by(a, st),
                shape_sorted@.len() == a.len(), stride_sorted@.len() == a.len(),
                forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < sh.len() && sh[a[i] as int] > 1,
                forall|i: int| 0 <= i < a.len() ==> #[trigger] shape_sorted@[i] == sh[a[i] as int],
                forall|i: int| 0 <= i < a.len() ==> #[trigger] stride_sorted@[i] == iabs(st[a[i] as int] as int),
                elem_cum == cum(sh, st, a, vx_i4 as int),
                forall|i: int| 0 <= i < vx_i4 ==> (st[#[trigger] a[i] as int] == 0 && skip_zero) || iabs(st[a[i] as int] as int) > cum(sh, st, a, i),
            decreases vx_n4 - vx_i4,
    //@at loop 4 top
            proof {
                let p = vx_i4 as int;
                let k = a[p] as int;
                assert(shape_sorted@[p] == sh[k] && stride_sorted@[p] == iabs(st[k] as int));
                lemma_walk_step(*self, a, p);
            }
    //@at loop 4 after
        proof {
            assert forall|k: usize| k < sh.len() && sh[k as int] > 1 implies a.contains(k) by { assert(idx0.contains(k)); }
            lemma_walk_end(*self, a, skip_zero);
        }
    //@end
}
