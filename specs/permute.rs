// relabelling of axes by a permutation
pub open spec fn is_perm(p: Seq<usize>, n: int) -> bool {
    p.len() == n && p.no_duplicates() && forall|i: int| 0 <= i < n ==> #[trigger] p[i] < n
}
/// multi-index of the source: its entry p[i] is entry i of idx
pub open spec fn relabel(idx: Seq<int>, p: Seq<usize>) -> Seq<int> {
    Seq::new(p.len(), |j: int| idx[p.index_of(j as usize)])
}
pub open spec fn ones_w(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| 1int) }
pub proof fn lemma_wsum_count(a: Seq<usize>, p: int, n: int)
    requires 0 <= p <= a.len(), a.no_duplicates(), 0 <= n <= usize::MAX, forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] < n,
    ensures wsum(ones_w(n), a, p, n) == p,
    decreases p,
{
    if p == 0 { lemma_wsum_zero(ones_w(n), a, n); } else {
        lemma_wsum_count(a, p - 1, n);
        lemma_wsum_step(ones_w(n), a, p - 1, n);
    }
}
pub proof fn lemma_wsum_miss(a: Seq<usize>, p: int, n: int, m: int, j: int)
    requires 0 <= p <= a.len(), 0 <= m <= n, n <= usize::MAX, 0 <= j < n, !a.contains(j as usize),
    ensures wsum(ones_w(n), a, p, m) <= if j < m { m - 1 } else { m },
    decreases m,
{
    if m > 0 {
        lemma_wsum_miss(a, p, n, m - 1, j);
        if m - 1 == j && a.take(p).contains(j as usize) {
            let i = choose|i: int| 0 <= i < p && a.take(p)[i] == j as usize;
            assert(a[i] == j as usize);
        }
    }
}
pub proof fn lemma_perm_onto(p: Seq<usize>, n: int, j: int)
    requires is_perm(p, n), 0 <= j < n, n <= usize::MAX,
    ensures p.contains(j as usize), 0 <= p.index_of(j as usize) < n, p[p.index_of(j as usize)] == j,
{
    lemma_wsum_count(p, n, n);
    if !p.contains(j as usize) { lemma_wsum_miss(p, n, n, n, j); }
}
/// the sum over the axes does not depend on their order
pub proof fn lemma_wsum_all(w: Seq<int>, p: Seq<usize>, n: int, m: int)
    requires is_perm(p, n), 0 <= m <= n, w.len() == n, n <= usize::MAX,
    ensures wsum(w, p, n, m) == isum(w, m),
    decreases m,
{
    if m > 0 {
        lemma_wsum_all(w, p, n, m - 1);
        lemma_perm_onto(p, n, m - 1);
        assert(p.take(n) =~= p);
    }
}
pub open spec fn isum(w: Seq<int>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { isum(w, n - 1) + w[n - 1] } }
pub open spec fn terms(idx: Seq<int>, st: Seq<isize>) -> Seq<int> { Seq::new(st.len(), |k: int| idx[k] * st[k]) }
pub proof fn lemma_dot_isum(idx: Seq<int>, st: Seq<isize>, n: int)
    requires 0 <= n <= st.len(), idx.len() == st.len(),
    ensures dot(idx, st, n) == isum(terms(idx, st), n),
    decreases n,
{ if n > 0 { lemma_dot_isum(idx, st, n - 1); } }

/// the layout r is l with its axes permuted: axis i of r is axis p[i] of l
pub open spec fn permuted(l: Layout, r: Layout, p: Seq<usize>) -> bool {
    &&& is_perm(p, l.shape@.len() as int) && r.offset == l.offset
    &&& r.shape@.len() == l.shape@.len() && r.stride@.len() == l.stride@.len() && l.shape@.len() == l.stride@.len()
    &&& forall|i: int| 0 <= i < p.len() ==> r.shape@[i] == l.shape@[#[trigger] p[i] as int] && r.stride@[i] == l.stride@[p[i] as int]
}
pub proof fn lemma_dot_perm(idx: Seq<int>, l: Layout, r: Layout, p: Seq<usize>, m: int)
    requires permuted(l, r, p), 0 <= m <= p.len(), idx.len() == p.len(), p.len() <= usize::MAX,
    ensures dot(idx, r.stride@, m) == wsum(terms(relabel(idx, p), l.stride@), p, m, p.len() as int),
    decreases m,
{
    let w = terms(relabel(idx, p), l.stride@);
    let n = p.len() as int;
    if m == 0 { lemma_wsum_zero(w, p, n); } else {
        lemma_dot_perm(idx, l, r, p, m - 1);
        lemma_wsum_step(w, p, m - 1, n);
        let j = p[m - 1] as int;
        lemma_perm_onto(p, n, j);
        assert(p.index_of(j as usize) == m - 1);
    }
}
pub proof fn lemma_permuted(l: Layout, r: Layout, p: Seq<usize>)
    requires permuted(l, r, p), l.len_ok(),
    ensures
        forall|idx: Seq<int>| in_range(idx, r.shape@) ==> in_range(#[trigger] relabel(idx, p), l.shape@) && r.addr(idx) == l.addr(relabel(idx, p)),
{
    let n = p.len() as int;
    assert forall|idx: Seq<int>| in_range(idx, r.shape@) implies in_range(#[trigger] relabel(idx, p), l.shape@) && r.addr(idx) == l.addr(relabel(idx, p)) by {
        let j = relabel(idx, p);
        assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] j[i] < l.shape@[i] by {
            lemma_perm_onto(p, n, i);
            let k = p.index_of(i as usize);
            assert(0 <= idx[k] < r.shape@[k]);
            assert(r.shape@[k] == l.shape@[p[k] as int]);
        }
        lemma_dot_perm(idx, l, r, p, n);
        lemma_wsum_all(terms(j, l.stride@), p, n, n);
        lemma_dot_isum(j, l.stride@, n);
    }
}
