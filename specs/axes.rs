// ---- one axis of a layout replaced
pub open spec fn cp(d: int, s: int) -> int { if d > 0 && s > 0 { s * (d - 1) } else { 0 } }
pub open spec fn cn(d: int, s: int) -> int { if d > 0 && s <= 0 { s * (d - 1) } else { 0 } }
pub proof fn lemma_ext_update(sh: Seq<usize>, st: Seq<isize>, sh2: Seq<usize>, st2: Seq<isize>, a: int, n: int)
    requires
        0 <= n <= sh.len(), sh.len() == st.len(), sh2.len() == sh.len(), st2.len() == sh.len(), 0 <= a < sh.len(),
        forall|i: int| 0 <= i < sh.len() && i != a ==> sh2[i] == sh[i] && st2[i] == st[i],
    ensures
        ext_pos(sh2, st2, n) == ext_pos(sh, st, n) + if a < n { cp(sh2[a] as int, st2[a] as int) - cp(sh[a] as int, st[a] as int) } else { 0 },
        ext_neg(sh2, st2, n) == ext_neg(sh, st, n) + if a < n { cn(sh2[a] as int, st2[a] as int) - cn(sh[a] as int, st[a] as int) } else { 0 },
    decreases n,
{
    if n > 0 { lemma_ext_update(sh, st, sh2, st2, a, n - 1); }
}
pub proof fn lemma_dot_update(idx: Seq<int>, st: Seq<isize>, idx2: Seq<int>, st2: Seq<isize>, a: int, n: int)
    requires
        0 <= n <= st.len(), st2.len() == st.len(), idx.len() == st.len(), idx2.len() == st.len(), 0 <= a < st.len(),
        forall|i: int| 0 <= i < st.len() && i != a ==> st2[i] == st[i] && idx[i] == idx2[i],
    ensures dot(idx2, st2, n) == dot(idx, st, n) + if a < n { idx2[a] * st2[a] - idx[a] * st[a] } else { 0 },
    decreases n,
{
    if n > 0 { lemma_dot_update(idx, st, idx2, st2, a, n - 1); }
}
pub proof fn lemma_prods_le(s: Seq<usize>, t: Seq<usize>, n: int)
    requires 0 <= n <= s.len(), s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> t[i] <= s[i],
    ensures 0 <= prod(t, n) <= prod(s, n),
    decreases n,
{
    if n > 0 {
        lemma_prods_le(s, t, n - 1);
        let (p, q, x, y) = (prod(t, n - 1), prod(s, n - 1), t[n - 1] as int, s[n - 1] as int);
        assert(0 <= p * x <= q * y) by (nonlinear_arith) requires 0 <= p <= q, 0 <= x <= y;
    }
}
/// below(k) of the new axes does not exceed below(k2) of the old ones when every counted term was counted
pub proof fn lemma_below_mono(sh: Seq<usize>, st: Seq<isize>, sh2: Seq<usize>, st2: Seq<isize>, k: int, n: int)
    requires
        0 <= n <= sh.len(), sh.len() == st.len(), sh2.len() == sh.len(), st2.len() == sh.len(), 0 <= k < sh.len(),
        forall|j: int| 0 <= j < n && j != k && iabs(st2[j] as int) <= iabs(st2[k] as int) && #[trigger] reach(sh2, st2, j) > 0
            ==> iabs(st[j] as int) <= iabs(st[k] as int) && reach(sh2, st2, j) <= reach(sh, st, j),
    ensures below(sh2, st2, k, n) <= below(sh, st, k, n),
    decreases n,
{
    if n > 0 {
        lemma_below_mono(sh, st, sh2, st2, k, n - 1);
        lemma_reach(sh, st, n - 1);
        lemma_reach(sh2, st2, n - 1);
    }
}
pub proof fn lemma_below_ge(sh: Seq<usize>, st: Seq<isize>, k: int, j: int, n: int)
    requires 0 <= j < n <= sh.len(), sh.len() == st.len(), j != k, 0 <= k < sh.len(), iabs(st[j] as int) <= iabs(st[k] as int),
    ensures below(sh, st, k, n) >= reach(sh, st, j), below(sh, st, k, n - 1) >= 0,
    decreases n,
{
    lemma_reach(sh, st, n - 1);
    if n - 1 > j { lemma_below_ge(sh, st, k, j, n - 1); } else { lemma_below_nonneg(sh, st, k, n - 1); }
}
pub proof fn lemma_below_nonneg(sh: Seq<usize>, st: Seq<isize>, k: int, n: int)
    requires 0 <= n <= sh.len(), sh.len() == st.len(), 0 <= k < sh.len(),
    ensures below(sh, st, k, n) >= 0,
    decreases n,
{
    if n > 0 { lemma_below_nonneg(sh, st, k, n - 1); lemma_reach(sh, st, n - 1); }
}
/// the axis a of l keeps m positions start + k*step, all of them in range
pub open spec fn narrows(l: Layout, r: Layout, a: int, start: int, step: int) -> bool {
    &&& r.shape@.len() == l.shape@.len() && r.stride@.len() == l.stride@.len()
    &&& 0 <= a < l.shape@.len()
    &&& forall|i: int| 0 <= i < l.shape@.len() && i != a ==> r.shape@[i] == l.shape@[i] && r.stride@[i] == l.stride@[i]
    &&& r.stride@[a] == l.stride@[a] * step
    &&& r.offset == l.offset + l.stride@[a] * start
    &&& r.shape@[a] > 0 ==> 0 <= start < l.shape@[a] && 0 <= start + (r.shape@[a] - 1) * step < l.shape@[a]
    &&& r.shape@[a] == 0 ==> start == 0
    &&& l.shape@[a] > 0 && step != 0
}
pub proof fn lemma_narrow_axis(n: int, m: int, s: int, start: int, step: int)
    requires n > 0, step != 0, m >= 0, m > 0 ==> 0 <= start < n && 0 <= start + (m - 1) * step < n, m == 0 ==> start == 0,
    ensures
        s * start + cp(m, s * step) <= cp(n, s), s * start + cn(m, s * step) >= cn(n, s),
        m <= n, m > 1 ==> iabs(s * step) * (m - 1) <= iabs(s) * (n - 1) && iabs(step) * (m - 1) <= n - 1, m == n && m > 1 ==> iabs(step) == 1,
        iabs(s * step) >= iabs(s), s != 0 <==> s * step != 0, cp(n, s) >= 0, cn(n, s) <= 0,
        iabs(s * step) == iabs(s) * iabs(step),
{
    assert(iabs(s * step) == iabs(s) * iabs(step)) by {
        if s >= 0 && step >= 0 { assert(s * step >= 0) by (nonlinear_arith) requires s >= 0, step >= 0; }
        if s >= 0 && step < 0 { assert(s * step <= 0 && s * step == -(s * -step)) by (nonlinear_arith) requires s >= 0, step < 0; }
        if s < 0 && step >= 0 { assert(s * step <= 0 && s * step == -(-s * step)) by (nonlinear_arith) requires s < 0, step >= 0; }
        if s < 0 && step < 0 { assert(s * step >= 0 && s * step == -s * -step) by (nonlinear_arith) requires s < 0, step < 0; }
    }
    assert(iabs(s) * iabs(step) >= iabs(s)) by (nonlinear_arith) requires iabs(step) >= 1, iabs(s) >= 0;
    assert(s != 0 <==> s * step != 0) by (nonlinear_arith) requires step != 0;
    if s > 0 { assert(s * (n - 1) >= 0) by (nonlinear_arith) requires s > 0, n > 0; }
    else { assert(s * (n - 1) <= 0) by (nonlinear_arith) requires s <= 0, n > 0; }
    if m > 0 {
        let e = start + (m - 1) * step;
        assert(s * e == s * start + (s * step) * (m - 1)) by (nonlinear_arith) requires e == start + (m - 1) * step;
        if s > 0 {
            assert(0 <= s * start <= s * (n - 1)) by (nonlinear_arith) requires s > 0, 0 <= start < n;
            assert(0 <= s * e <= s * (n - 1)) by (nonlinear_arith) requires s > 0, 0 <= e < n;
        } else {
            assert(s * (n - 1) <= s * start <= 0) by (nonlinear_arith) requires s <= 0, 0 <= start < n;
            assert(s * (n - 1) <= s * e <= 0) by (nonlinear_arith) requires s <= 0, 0 <= e < n;
        }
        assert(s * step > 0 ==> (s * step) * (m - 1) >= 0) by (nonlinear_arith) requires m >= 1;
        assert(s * step <= 0 ==> (s * step) * (m - 1) <= 0) by (nonlinear_arith) requires m >= 1;
        // |(m-1) step| <= n-1
        let w = (m - 1) * step;
        assert(-(n - 1) <= w <= n - 1);
        if step > 0 { assert(w >= m - 1) by (nonlinear_arith) requires w == (m - 1) * step, step >= 1, m >= 1; assert(iabs(step) * (m - 1) == w) by (nonlinear_arith) requires iabs(step) == step, w == (m - 1) * step; }
        else { assert(-w >= m - 1) by (nonlinear_arith) requires w == (m - 1) * step, step <= -1, m >= 1; assert(iabs(step) * (m - 1) == -w) by (nonlinear_arith) requires iabs(step) == -step, w == (m - 1) * step; }
        let x = iabs(step) * (m - 1);
        assert(iabs(s) * x <= iabs(s) * (n - 1)) by (nonlinear_arith) requires x <= n - 1, iabs(s) >= 0;
        assert((iabs(s) * iabs(step)) * (m - 1) == iabs(s) * x) by (nonlinear_arith) requires x == iabs(step) * (m - 1);
        if m == n && m > 1 {
            let t = iabs(step);
            assert(t == 1) by (nonlinear_arith) requires t * (m - 1) <= m - 1, t >= 1, m > 1;
        }
    } else { assert(s * start == 0) by (nonlinear_arith) requires start == 0; }
}
pub proof fn lemma_narrow(l: Layout, r: Layout, a: int, start: int, step: int)
    requires narrows(l, r, a, start, step), l.good(), r.stride@[a] > isize::MIN,
    ensures
        r.good(),
        forall|idx: Seq<int>| in_range(idx, r.shape@) ==> in_range(#[trigger] idx.update(a, start + idx[a] * step), l.shape@)
            && r.addr(idx) == l.addr(idx.update(a, start + idx[a] * step)),
{
    let sh = l.shape@; let st = l.stride@; let sh2 = r.shape@; let st2 = r.stride@; let n = sh.len() as int;
    lemma_narrow_axis(sh[a] as int, sh2[a] as int, st[a] as int, start, step);
    lemma_ext_update(sh, st, sh2, st2, a, n);
    lemma_ext_mono(sh2, st2, 0, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] sh2[i] <= isize::MAX by { if i != a { assert(sh2[i] == sh[i]); } }
    assert forall|i: int| 0 <= i < n implies #[trigger] st2[i] > isize::MIN by { if i != a { assert(st2[i] == st[i]); } }
    assert(r.fits());
    assert forall|k: int| 0 <= k <= n implies #[trigger] prod(sh2, k) <= isize::MAX by {
        assert forall|i: int| 0 <= i < n implies sh2[i] <= sh[i] by {}
        lemma_prods_le(sh, sh2, k);
        assert(prod(sh, k) <= isize::MAX);
    }
    if nonempty(sh2) {
        assert forall|i: int| 0 <= i < n implies #[trigger] sh[i] > 0 by { assert(sh2[i] > 0); }
        assert forall|k: int| 0 <= k < n && sh2[k] > 1 && #[trigger] st2[k] != 0 implies iabs(st2[k] as int) > below(sh2, st2, k, n) by {
            assert(st[k] != 0 && sh[k] > 1);
            assert(iabs(st[k] as int) > below(sh, st, k, n));
            assert forall|j: int| 0 <= j < n && j != k && iabs(st2[j] as int) <= iabs(st2[k] as int) && #[trigger] reach(sh2, st2, j) > 0
                implies iabs(st[j] as int) <= iabs(st[k] as int) && reach(sh2, st2, j) <= reach(sh, st, j) by {
                assert(sh2[j] > 1);
                if st2[j] == 0 { assert((sh2[j] - 1) * 0 == 0); }
                assert(st[j] != 0);
                if j == a {
                    assert((sh2[j] - 1) * iabs(st2[j] as int) == iabs(st[j] * step) * (sh2[j] - 1)) by (nonlinear_arith) requires st2[j] == st[j] * step;
                    assert((sh[j] - 1) * iabs(st[j] as int) == iabs(st[j] as int) * (sh[j] - 1)) by (nonlinear_arith);
                } else if k == a && iabs(st[j] as int) > iabs(st[k] as int) {
                    // j would lie in the reach of the narrowed axis
                    assert(iabs(st[j] as int) > below(sh, st, j, n));
                    lemma_below_ge(sh, st, j, k, n);
                    assert(reach(sh, st, k) == (sh[k] - 1) * iabs(st[k] as int));
                    let x = sh2[k] - 1;
                    let t = iabs(st[k] * step);
                    assert(t * x >= t) by (nonlinear_arith) requires x >= 1, t >= 0;
                    assert((sh[k] - 1) * iabs(st[k] as int) == iabs(st[k] as int) * (sh[k] - 1)) by (nonlinear_arith);
                    assert(false);
                }
            }
            lemma_below_mono(sh, st, sh2, st2, k, n);
        }
    }
    assert forall|idx: Seq<int>| in_range(idx, sh2) implies in_range(#[trigger] idx.update(a, start + idx[a] * step), sh)
        && r.addr(idx) == l.addr(idx.update(a, start + idx[a] * step)) by {
        let v = start + idx[a] * step;
        let j = idx.update(a, v);
        assert(0 <= idx[a] < sh2[a]);
        let m1 = sh2[a] - 1; let i0 = idx[a];
        if step > 0 { assert(0 <= i0 * step <= m1 * step) by (nonlinear_arith) requires 0 <= i0 <= m1, step > 0; }
        else { assert(m1 * step <= i0 * step <= 0) by (nonlinear_arith) requires 0 <= i0 <= m1, step < 0; }
        assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] j[i] < sh[i] by { if i != a { assert(0 <= idx[i] < sh2[i]); } }
        lemma_dot_update(j, st, idx, st2, a, n);
        let s = st[a] as int;
        assert(i0 * (s * step) == v * s - s * start) by (nonlinear_arith) requires v == start + i0 * step;
    }
}

/// moving along one axis stays inside the extents
pub proof fn lemma_axis_shift(l: Layout, a: int, start: int)
    requires l.good(), 0 <= a < l.shape@.len(), l.shape@[a] > 0, 0 <= start < l.shape@[a],
    ensures
        0 <= l.offset + l.stride@[a] * start <= l.hi(), isize::MIN < l.stride@[a] * start <= isize::MAX, l.hi() < isize::MAX, l.offset <= isize::MAX,
        cn(l.shape@[a] as int, l.stride@[a] as int) <= l.stride@[a] * start <= cp(l.shape@[a] as int, l.stride@[a] as int),
{
    let sh = l.shape@; let st = l.stride@; let n = sh.len() as int; let s = st[a] as int; let d = sh[a] as int;
    if s > 0 { assert(0 <= s * start <= s * (d - 1)) by (nonlinear_arith) requires s > 0, 0 <= start < d; }
    else { assert(s * (d - 1) <= s * start <= 0) by (nonlinear_arith) requires s <= 0, 0 <= start < d; }
    lemma_ext_mono(sh, st, a + 1, n);
    lemma_ext_mono(sh, st, a, n);
    lemma_ext_mono(sh, st, 0, n);
}
