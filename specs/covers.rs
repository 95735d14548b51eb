// Walking a rearranged layout visits every element once.
pub open spec fn wprod(w: Seq<int>, a: Seq<usize>, p: int, n: int) -> int
    decreases n,
{
    if n <= 0 { 1 } else { wprod(w, a, p, n - 1) * if a.take(p).contains((n - 1) as usize) { w[n - 1] } else { 1 } }
}
pub proof fn lemma_wprod_step(w: Seq<int>, a: Seq<usize>, p: int, n: int)
    requires 0 <= p < a.len(), a.no_duplicates(), 0 <= n <= w.len(), w.len() <= usize::MAX,
    ensures wprod(w, a, p + 1, n) == wprod(w, a, p, n) * if a[p] < n { w[a[p] as int] } else { 1 },
    decreases n,
{
    let q = wprod(w, a, p, n);
    if n > 0 {
        lemma_wprod_step(w, a, p, n - 1);
        let k = (n - 1) as usize;
        let q1 = wprod(w, a, p, n - 1);
        let x = w[n - 1];
        if a[p] == k {
            assert(a.take(p + 1)[p] == k);
            if a.take(p).contains(k) {
                let j = choose|j: int| 0 <= j < p && a.take(p)[j] == k;
                assert(a[j] == k && a[p] == k);
            }
            assert(q1 * 1 == q1);
        } else {
            assert(a.take(p + 1).contains(k) == a.take(p).contains(k)) by {
                if a.take(p).contains(k) {
                    let j = choose|j: int| 0 <= j < p && a.take(p)[j] == k;
                    assert(a.take(p + 1)[j] == k);
                }
                if a.take(p + 1).contains(k) {
                    let j = a.take(p + 1).index_of(k);
                    assert(j < p); assert(a.take(p)[j] == k);
                }
            }
            let y = if a[p] < n - 1 { w[a[p] as int] } else { 1 };
            let z = if a.take(p).contains(k) { x } else { 1 };
            assert((q1 * y) * z == (q1 * z) * y) by (nonlinear_arith);
        }
    } else { assert(q * 1 == q); }
}
pub proof fn lemma_wprod_zero(w: Seq<int>, a: Seq<usize>, n: int)
    requires 0 <= n <= w.len(),
    ensures wprod(w, a, 0, n) == 1,
    decreases n,
{
    if n > 0 { lemma_wprod_zero(w, a, n - 1); assert(!a.take(0).contains((n - 1) as usize)); }
}
pub open spec fn iprod(w: Seq<int>, n: int) -> int
    decreases n,
{ if n <= 0 { 1 } else { iprod(w, n - 1) * w[n - 1] } }
pub proof fn lemma_wprod_all(w: Seq<int>, p: Seq<usize>, n: int, m: int)
    requires is_perm(p, n), 0 <= m <= n, w.len() == n, n <= usize::MAX,
    ensures wprod(w, p, n, m) == iprod(w, m),
    decreases m,
{
    if m > 0 {
        lemma_wprod_all(w, p, n, m - 1);
        lemma_perm_onto(p, n, m - 1);
        assert(p.take(n) =~= p);
    }
}
pub proof fn lemma_iprod_perm_to(v: Seq<int>, w: Seq<int>, p: Seq<usize>, m: int)
    requires is_perm(p, w.len() as int), w.len() <= usize::MAX, v.len() == w.len(), 0 <= m <= p.len(), forall|i: int| 0 <= i < p.len() ==> v[i] == w[#[trigger] p[i] as int],
    ensures iprod(v, m) == wprod(w, p, m, w.len() as int),
    decreases m,
{
    if m == 0 { lemma_wprod_zero(w, p, w.len() as int); } else {
        lemma_iprod_perm_to(v, w, p, m - 1);
        lemma_wprod_step(w, p, m - 1, w.len() as int);
        assert(p[m - 1] < w.len());
    }
}
pub proof fn lemma_iprod_perm(v: Seq<int>, w: Seq<int>, p: Seq<usize>)
    requires is_perm(p, w.len() as int), w.len() <= usize::MAX, v.len() == w.len(), forall|i: int| 0 <= i < p.len() ==> v[i] == w[#[trigger] p[i] as int],
    ensures iprod(v, v.len() as int) == iprod(w, w.len() as int),
{
    lemma_iprod_perm_to(v, w, p, p.len() as int);
    lemma_wprod_all(w, p, w.len() as int, w.len() as int);
}
pub proof fn lemma_isum_perm_to(v: Seq<int>, w: Seq<int>, p: Seq<usize>, m: int)
    requires is_perm(p, w.len() as int), w.len() <= usize::MAX, v.len() == w.len(), 0 <= m <= p.len(), forall|i: int| 0 <= i < p.len() ==> v[i] == w[#[trigger] p[i] as int],
    ensures isum(v, m) == wsum(w, p, m, w.len() as int),
    decreases m,
{
    if m == 0 { lemma_wsum_zero(w, p, w.len() as int); } else {
        lemma_isum_perm_to(v, w, p, m - 1);
        lemma_wsum_step(w, p, m - 1, w.len() as int);
        assert(p[m - 1] < w.len());
    }
}
pub proof fn lemma_isum_perm(v: Seq<int>, w: Seq<int>, p: Seq<usize>)
    requires is_perm(p, w.len() as int), w.len() <= usize::MAX, v.len() == w.len(), forall|i: int| 0 <= i < p.len() ==> v[i] == w[#[trigger] p[i] as int],
    ensures isum(v, v.len() as int) == isum(w, w.len() as int),
{
    lemma_isum_perm_to(v, w, p, p.len() as int);
    lemma_wsum_all(w, p, w.len() as int, w.len() as int);
}
pub proof fn lemma_prod_iprod(s: Seq<usize>, n: int)
    requires 0 <= n <= s.len(),
    ensures prod(s, n) == iprod(ints(s), n),
    decreases n,
{ if n > 0 { lemma_prod_iprod(s, n - 1); } }
pub open spec fn pshape(s: Seq<usize>, p: Seq<usize>) -> Seq<usize> { Seq::new(p.len(), |i: int| s[p[i] as int]) }
pub proof fn lemma_perm_size(s: Seq<usize>, p: Seq<usize>)
    requires is_perm(p, s.len() as int), s.len() <= usize::MAX,
    ensures size_of_shape(pshape(s, p)) == size_of_shape(s), nonempty(s) == nonempty(pshape(s, p)),
{
    let t = pshape(s, p);
    lemma_prod_iprod(t, t.len() as int); lemma_prod_iprod(s, s.len() as int);
    lemma_iprod_perm(ints(t), ints(s), p);
    lemma_prod_zero(s, s.len() as int); lemma_prod_zero(t, t.len() as int);
    if nonempty(s) { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] > 0 by { assert(p[i] < s.len()); } }
    else {
        let j = choose|j: int| 0 <= j < s.len() && !(#[trigger] s[j] > 0);
        lemma_perm_onto(p, s.len() as int, j);
        let k = p.index_of(j as usize);
        assert(t[k] == s[j]);
    }
}
pub open spec fn abs_terms(s: Seq<usize>, st: Seq<isize>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] * (if st[i] < 0 { -(st[i] as int) } else { st[i] as int })) }
pub open spec fn neg_terms(s: Seq<usize>, st: Seq<isize>) -> Seq<int> { Seq::new(s.len(), |i: int| if s[i] > 0 && st[i] <= 0 { st[i] * (s[i] - 1) } else { 0 }) }
pub proof fn lemma_terms(s: Seq<usize>, st: Seq<isize>, n: int)
    requires 0 <= n <= s.len(), s.len() == st.len(),
    ensures span(s, st, n) == isum(abs_terms(s, st), n), ext_neg(s, st, n) == isum(neg_terms(s, st), n),
    decreases n,
{ if n > 0 { lemma_terms(s, st, n - 1); } }
/// the lengths, zeros counted as ones, multiply to a representable number
pub open spec fn wide(s: Seq<usize>) -> bool { size_of_shape(ones(s)) <= isize::MAX }
pub proof fn lemma_wide(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len(),
    ensures 0 <= prod(s, k) <= prod(ones(s), k), prod(ones(s), k) >= 1, prod(ones(s), k) <= size_of_shape(ones(s)),
    decreases k,
{
    let o = ones(s);
    lemma_prod_nonneg(s, k);
    lemma_prod_pos(o, k);
    lemma_prod_split(o, k);
    lemma_sprod_pos(o, k);
    assert(prod(o, k) <= prod(o, k) * sprod(o, k)) by (nonlinear_arith) requires prod(o, k) >= 1, sprod(o, k) >= 1;
    if k > 0 {
        lemma_wide(s, k - 1);
        let a = prod(s, k - 1); let b = prod(o, k - 1); let x = s[k - 1] as int; let y = o[k - 1] as int;
        assert(a * x <= b * y) by (nonlinear_arith) requires 0 <= a <= b, 0 <= x <= y;
    }
}
pub proof fn lemma_wide_fits(s: Seq<usize>)
    requires wide(s),
    ensures prods_fit(s), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= isize::MAX,
{
    let o = ones(s);
    assert forall|k: int| 0 <= k <= s.len() implies #[trigger] prod(s, k) <= isize::MAX by { lemma_wide(s, k); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] <= isize::MAX by {
        lemma_wide(s, i); lemma_wide(s, i + 1);
        let b = prod(o, i); let y = o[i] as int;
        assert(y <= b * y) by (nonlinear_arith) requires b >= 1, y >= 1;
    }
}
/// layouts whose rearrangements can be walked in machine arithmetic
pub open spec fn tame(l: Layout) -> bool { l.roomy() && wide(l.shape@) }
pub proof fn lemma_perm_tame(l: Layout, r: Layout, p: Seq<usize>)
    requires permuted(l, r, p), tame(l),
    ensures tame(r), lsize(r) == lsize(l), r.shape@ == pshape(l.shape@, p), r.empty() == l.empty(), l.lo() == r.lo(), small(l) ==> small(r), l.shape@.len() == r.shape@.len(), l.machine() ==> r.machine(),
{
    let s = l.shape@; let st = l.stride@; let n = s.len() as int;
    assert(r.shape@ =~= pshape(s, p)) by {
        assert forall|i: int| 0 <= i < n implies r.shape@[i] == pshape(s, p)[i] by { let x = p[i]; }
    }
    lemma_perm_size(s, p);
    assert(ones(r.shape@) =~= pshape(ones(s), p)) by {
        assert forall|i: int| 0 <= i < n implies ones(r.shape@)[i] == pshape(ones(s), p)[i] by { assert(p[i] < n); }
    }
    lemma_perm_size(ones(s), p);
    lemma_wide_fits(r.shape@);
    lemma_terms(s, st, n); lemma_terms(r.shape@, r.stride@, n);
    let v = abs_terms(r.shape@, r.stride@); let w = abs_terms(s, st);
    assert forall|i: int| 0 <= i < p.len() implies v[i] == w[#[trigger] p[i] as int] by { assert(p[i] < n); }
    lemma_isum_perm(v, w, p);
    let v2 = neg_terms(r.shape@, r.stride@); let w2 = neg_terms(s, st);
    assert forall|i: int| 0 <= i < p.len() implies v2[i] == w2[#[trigger] p[i] as int] by { assert(p[i] < n); }
    lemma_isum_perm(v2, w2, p);
    if small(l) { assert forall|i: int| 0 <= i < n implies #[trigger] r.shape@[i] < 0x2000_0000_0000_0000 by { assert(p[i] < n); assert(s[p[i] as int] < 0x2000_0000_0000_0000); } }
    if l.machine() {
        lemma_pos_terms(s, st, n); lemma_pos_terms(r.shape@, r.stride@, n);
        let v3 = pos_terms(r.shape@, r.stride@); let w3 = pos_terms(s, st);
        assert forall|i: int| 0 <= i < p.len() implies v3[i] == w3[#[trigger] p[i] as int] by { assert(p[i] < n); }
        lemma_isum_perm(v3, w3, p);
        assert forall|i: int| 0 <= i < n implies #[trigger] r.stride@[i] > isize::MIN by { assert(p[i] < n); assert(st[p[i] as int] > isize::MIN); }
    }
}
pub open spec fn pos_terms(s: Seq<usize>, st: Seq<isize>) -> Seq<int> { Seq::new(s.len(), |i: int| if s[i] > 0 && st[i] > 0 { st[i] * (s[i] - 1) } else { 0 }) }
pub proof fn lemma_pos_terms(s: Seq<usize>, st: Seq<isize>, n: int)
    requires 0 <= n <= s.len(), s.len() == st.len(),
    ensures ext_pos(s, st, n) == isum(pos_terms(s, st), n),
    decreases n,
{ if n > 0 { lemma_pos_terms(s, st, n - 1); } }

/// multi-index of the source visited at step k of the walk of the permuted layout, and back
pub open spec fn widx(s: Seq<usize>, p: Seq<usize>, k: int) -> Seq<int> { relabel(ints(unrank(false, pshape(s, p), k)), p) }
pub open spec fn pick(ix: Seq<int>, p: Seq<usize>) -> Seq<usize> { Seq::new(p.len(), |i: int| ix[p[i] as int] as usize) }
pub open spec fn kpos(s: Seq<usize>, p: Seq<usize>, ix: Seq<int>) -> int { rk(false, pick(ix, p), pshape(s, p)) }
pub proof fn lemma_kpos(s: Seq<usize>, p: Seq<usize>, ix: Seq<int>)
    requires is_perm(p, s.len() as int), in_range(ix, s), s.len() <= usize::MAX,
    ensures 0 <= kpos(s, p, ix) < size_of_shape(s), widx(s, p, kpos(s, p, ix)) == ix,
{
    let n = s.len() as int; let t = pshape(s, p); let a = pick(ix, p);
    assert forall|i: int| 0 <= i < n implies #[trigger] a[i] < t[i] && a[i] == ix[p[i] as int] by { assert(p[i] < n); assert(0 <= ix[p[i] as int] < s[p[i] as int]); }
    lemma_rk_range(false, a, t);
    lemma_perm_size(s, p);
    lemma_unrank_is(false, t, a);
    let j = relabel(ints(a), p);
    assert forall|i: int| 0 <= i < n implies j[i] == ix[i] by {
        lemma_perm_onto(p, n, i);
        let k = p.index_of(i as usize);
        assert(ints(a)[k] == ix[p[k] as int]);
    }
    assert(j =~= ix);
}
pub proof fn lemma_widx(s: Seq<usize>, p: Seq<usize>, k: int)
    requires is_perm(p, s.len() as int), 0 <= k < size_of_shape(s), s.len() <= usize::MAX,
    ensures in_range(widx(s, p, k), s), kpos(s, p, widx(s, p, k)) == k,
{
    let n = s.len() as int; let t = pshape(s, p);
    lemma_perm_size(s, p);
    lemma_unrank(false, t, k);
    let a = unrank(false, t, k);
    let ix = widx(s, p, k);
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] ix[i] < s[i] by {
        lemma_perm_onto(p, n, i);
        let q = p.index_of(i as usize);
        assert(a[q] < t[q]); assert(ints(a)[q] == a[q]);
    }
    let b = pick(ix, p);
    assert forall|i: int| 0 <= i < n implies b[i] == a[i] by {
        assert(p[i] < n);
        lemma_perm_onto(p, n, p[i] as int);
        assert(p[p.index_of(p[i])] == p[i]);
        assert(ix[p[i] as int] == ints(a)[i]);
    }
    assert(b =~= a);
}
/// the walk of a permuted layout: step k visits the element of the source at widx(k), and every element has its step
pub open spec fn walks_all(l: Layout, r: Layout, p: Seq<usize>) -> bool {
    &&& lsize(r) == lsize(l)
    &&& forall|k: int| 0 <= k < lsize(l) ==> in_range(#[trigger] widx(l.shape@, p, k), l.shape@) && r.elem(false, k) == l.addr(widx(l.shape@, p, k)) && kpos(l.shape@, p, widx(l.shape@, p, k)) == k
    &&& forall|ix: Seq<int>| in_range(ix, l.shape@) ==> 0 <= #[trigger] kpos(l.shape@, p, ix) < lsize(l) && r.elem(false, kpos(l.shape@, p, ix)) == l.addr(ix) && widx(l.shape@, p, kpos(l.shape@, p, ix)) == ix
}
pub proof fn lemma_walks(l: Layout, r: Layout, p: Seq<usize>)
    requires permuted(l, r, p), l.len_ok(),
    ensures walks_all(l, r, p),
{
    let s = l.shape@; let n = s.len() as int;
    assert(r.shape@ =~= pshape(s, p)) by {
        assert forall|i: int| 0 <= i < n implies r.shape@[i] == pshape(s, p)[i] by { let x = p[i]; }
    }
    lemma_perm_size(s, p);
    lemma_permuted(l, r, p);
    assert forall|k: int| 0 <= k < lsize(l) implies in_range(#[trigger] widx(s, p, k), s) && r.elem(false, k) == l.addr(widx(s, p, k)) && kpos(s, p, widx(s, p, k)) == k by {
        lemma_widx(s, p, k);
        lemma_unrank(false, r.shape@, k);
        let a = unrank(false, r.shape@, k);
        assert(in_range(ints(a), r.shape@)) by { assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] ints(a)[i] < r.shape@[i] by { assert(a[i] < r.shape@[i]); } }
        assert(r.addr(ints(a)) == l.addr(relabel(ints(a), p)));
    }
    assert forall|ix: Seq<int>| in_range(ix, s) implies 0 <= #[trigger] kpos(s, p, ix) < lsize(l) && r.elem(false, kpos(s, p, ix)) == l.addr(ix) && widx(s, p, kpos(s, p, ix)) == ix by {
        lemma_kpos(s, p, ix);
        let k = kpos(s, p, ix);
        lemma_widx(s, p, k);
        assert(in_range(widx(s, p, k), s) && r.elem(false, k) == l.addr(widx(s, p, k)));
    }
}

// ---- the leading axes walked as one block
pub proof fn lemma_prod_tail(s: Seq<usize>, d: int, m: int)
    requires 0 <= d <= m <= s.len(),
    ensures prod(s, m) == prod(s, d) * prod(s.subrange(d, s.len() as int), m - d),
    decreases m,
{
    let t = s.subrange(d, s.len() as int);
    if m > d {
        lemma_prod_tail(s, d, m - 1);
        let a = prod(s, d); let b = prod(t, m - 1 - d); let x = s[m - 1] as int;
        assert(t[m - d - 1] == s[m - 1]);
        assert((a * b) * x == a * (b * x)) by (nonlinear_arith);
    } else { assert(prod(s, d) * 1 == prod(s, d)); }
}
pub proof fn lemma_rank_tail(a: Seq<int>, s: Seq<usize>, d: int, m: int)
    requires 0 <= d <= m <= s.len(), a.len() == s.len(),
    ensures rank_f(a, s, m) == rank_f(a, s, d) + prod(s, d) * rank_f(a.subrange(d, a.len() as int), s.subrange(d, s.len() as int), m - d),
    decreases m,
{
    let t = s.subrange(d, s.len() as int); let b = a.subrange(d, a.len() as int);
    let w = prod(s, d);
    if m > d {
        lemma_rank_tail(a, s, d, m - 1);
        lemma_prod_tail(s, d, m - 1);
        let x = a[m - 1]; let q = prod(t, m - 1 - d); let h = rank_f(b, t, m - 1 - d);
        assert(b[m - d - 1] == x);
        assert(w * h + x * (w * q) == w * (h + x * q)) by (nonlinear_arith);
    } else { assert(w * 0 == 0) by (nonlinear_arith); }
}
pub proof fn lemma_dot_tail(a: Seq<int>, st: Seq<isize>, d: int, m: int)
    requires 0 <= d <= m <= st.len(), a.len() == st.len(),
    ensures dot(a, st, m) == dot(a, st, d) + dot(a.subrange(d, a.len() as int), st.subrange(d, st.len() as int), m - d),
    decreases m,
{ if m > d { lemma_dot_tail(a, st, d, m - 1); assert(a.subrange(d, a.len() as int)[m - d - 1] == a[m - 1]); assert(st.subrange(d, st.len() as int)[m - d - 1] == st[m - 1]); } }
pub proof fn lemma_rank_local(a: Seq<int>, b: Seq<int>, s: Seq<usize>, n: int)
    requires 0 <= n <= s.len(), a.len() == s.len(), b.len() == s.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures rank_f(a, s, n) == rank_f(b, s, n),
    decreases n,
{ if n > 0 { lemma_rank_local(a, b, s, n - 1); } }
/// step o*S+i of the full walk is position i of the block at step o of the walk of the remaining axes
pub proof fn lemma_block(l: Layout, r: Layout, d: int, o: int, i: int)
    requires l.len_ok(), dropped(l, r, d), f_contig_to(l.shape@, l.stride@, d), 0 <= o < lsize(r), 0 <= i < prod(l.shape@, d),
    ensures 0 <= o * prod(l.shape@, d) + i < lsize(l), l.elem(false, o * prod(l.shape@, d) + i) == r.elem(false, o) + i, lsize(l) == prod(l.shape@, d) * lsize(r),
{
    let s = l.shape@; let n = s.len() as int; let w = prod(s, d); let t = r.shape@;
    lemma_prod_tail(s, d, n);
    let low = lemma_rank_f_surj(s, d, i);
    lemma_unrank(false, t, o);
    let high = unrank(false, t, o);
    let a = Seq::new(n as nat, |k: int| if k < d { low[k] } else { high[k - d] });
    assert(in_shape(a, s)) by {
        assert forall|k: int| 0 <= k < n implies #[trigger] a[k] < s[k] by {
            if k < d { assert(low[k] < s[k]); } else { assert(high[k - d] < t[k - d]); }
        }
    }
    let ia = ints(a);
    lemma_rank_tail(ia, s, d, n);
    lemma_dot_tail(ia, l.stride@, d, n);
    assert(ia.subrange(d, n) =~= ints(high));
    lemma_rank_local(ia, ints(low), s, d);
    assert(w * o == o * w) by (nonlinear_arith);
    lemma_rk_range(false, a, s);
    lemma_unrank_is(false, s, a);
    lemma_walk_f_fwd(l, d);
    assert(in_range(ia, s)) by { assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] ia[k] < s[k] by { assert(a[k] < s[k]); } }
}
pub proof fn lemma_dropped_tame(l: Layout, r: Layout, d: int)
    requires tame(l), dropped(l, r, d), f_contig_to(l.shape@, l.stride@, d), !l.empty(),
    ensures tame(r), lsize(l) == prod(l.shape@, d) * lsize(r), prod(l.shape@, d) >= 1, !r.empty(), r.shape@.len() == l.shape@.len() - d,
{
    let s = l.shape@; let st = l.stride@; let n = s.len() as int; let t = r.shape@;
    lemma_prod_tail(s, d, n);
    lemma_prod_pos(s, d);
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] > 0 by { assert(s[k + d] > 0); }
    assert(ones(s) =~= s); assert(ones(t) =~= t);
    lemma_prod_pos(t, t.len() as int);
    assert(lsize(r) <= lsize(l)) by (nonlinear_arith) requires lsize(l) == prod(s, d) * lsize(r), prod(s, d) >= 1, lsize(r) >= 1;
    lemma_wide_fits(t);
    lemma_span_tail(s, st, d, n);
    lemma_span(s, st, d);
    lemma_ext_attained(t, r.stride@, t.len() as int);
    let lo = idx_lo(t, r.stride@);
    let ix = Seq::new(n as nat, |k: int| if k < d { 0int } else { lo[k - d] });
    assert(in_range(ix, s)) by { assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] ix[k] < s[k] by { assert(s[k] > 0); if k >= d { assert(0 <= lo[k - d] < t[k - d]); } } }
    lemma_dot_bounds(ix, s, st, n);
    lemma_dot_tail(ix, st, d, n);
    lemma_dot_zeros(ix, st, d);
    assert(ix.subrange(d, n) =~= lo);
}
pub proof fn lemma_dot_zeros(ix: Seq<int>, st: Seq<isize>, d: int)
    requires 0 <= d <= st.len(), ix.len() == st.len(), forall|k: int| 0 <= k < d ==> ix[k] == 0,
    ensures dot(ix, st, d) == 0,
    decreases d,
{ if d > 0 { lemma_dot_zeros(ix, st, d - 1); let t = st[d - 1] as int; assert(0 * t == 0) by (nonlinear_arith); } }
pub proof fn lemma_span_tail(s: Seq<usize>, st: Seq<isize>, d: int, m: int)
    requires 0 <= d <= m <= s.len(), s.len() == st.len(),
    ensures span(s, st, m) == span(s, st, d) + span(s.subrange(d, s.len() as int), st.subrange(d, s.len() as int), m - d),
    decreases m,
{ if m > d { lemma_span_tail(s, st, d, m - 1); assert(s.subrange(d, s.len() as int)[m - d - 1] == s[m - 1]); assert(st.subrange(d, s.len() as int)[m - d - 1] == st[m - 1]); } }
