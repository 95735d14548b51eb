// Elements corresponding by rank in row-major (cc) or column-major order.
pub open spec fn hitr(l: Layout, cc: bool, m: int, pos: int) -> bool { exists|k: int| 0 <= k < m && #[trigger] l.elem(cc, k) == pos }
/// state after the elements of rank below m are written
pub open spec fn swept<C>(c0: Seq<C>, c: Seq<C>, l: Layout, cc: bool, w: spec_fn(int) -> C, m: int) -> bool {
    &&& c.len() == c0.len()
    &&& forall|k: int| 0 <= k < m ==> c[#[trigger] l.elem(cc, k)] == w(k)
    &&& forall|pos: int| 0 <= pos < c.len() && !#[trigger] hitr(l, cc, m, pos) ==> c[pos] == c0[pos]
}
/// c holds w(k) at the element of rank k, and is otherwise c0
pub open spec fn ranked<C>(c0: Seq<C>, c: Seq<C>, l: Layout, cc: bool, w: spec_fn(int) -> C) -> bool {
    &&& untouched(c0, c, l)
    &&& forall|k: int| 0 <= k < lsize(l) ==> c[#[trigger] l.elem(cc, k)] == w(k)
}
pub open spec fn rix(l: Layout, cc: bool, k: int) -> Seq<int> { ints(unrank(cc, l.shape@, k)) }
pub proof fn lemma_rix(l: Layout, cc: bool, k: int)
    requires 0 <= k < lsize(l), l.len_ok(),
    ensures in_range(rix(l, cc, k), l.shape@), l.elem(cc, k) == l.addr(rix(l, cc, k)), rk(cc, unrank(cc, l.shape@, k), l.shape@) == k,
{
    lemma_unrank(cc, l.shape@, k);
    let a = unrank(cc, l.shape@, k);
    assert forall|i: int| 0 <= i < l.shape@.len() implies 0 <= #[trigger] rix(l, cc, k)[i] < l.shape@[i] by { assert(a[i] < l.shape@[i]); }
}
pub proof fn lemma_distinct_ranks(l: Layout, cc: bool)
    requires l.len_ok(), unrepeated(l), injective(l),
    ensures forall|i: int, j: int| 0 <= i < lsize(l) && 0 <= j < lsize(l) && #[trigger] l.elem(cc, i) == #[trigger] l.elem(cc, j) ==> i == j,
{
    assert forall|i: int, j: int| 0 <= i < lsize(l) && 0 <= j < lsize(l) && #[trigger] l.elem(cc, i) == #[trigger] l.elem(cc, j) implies i == j by {
        lemma_rix(l, cc, i); lemma_rix(l, cc, j);
        let a = rix(l, cc, i); let b = rix(l, cc, j);
        assert forall|k: int| 0 <= k < l.shape@.len() && l.stride@[k] == 0 implies a[k] == b[k] by { assert(0 <= a[k] < l.shape@[k] && 0 <= b[k] < l.shape@[k]); }
        assert(l.addr(a) == l.addr(b));
        assert(a =~= b);
        let x = unrank(cc, l.shape@, i); let y = unrank(cc, l.shape@, j);
        lemma_unrank(cc, l.shape@, i); lemma_unrank(cc, l.shape@, j);
        assert forall|k: int| 0 <= k < x.len() implies x[k] == y[k] by { assert(ints(x)[k] == ints(y)[k]); }
        assert(x =~= y);
    }
}
pub proof fn lemma_sweep_step<C>(c0: Seq<C>, c: Seq<C>, l: Layout, cc: bool, w: spec_fn(int) -> C, m: int)
    requires swept(c0, c, l, cc, w, m), dest(l, c0.len() as int), 0 <= m < lsize(l),
    ensures 0 <= l.elem(cc, m) < c.len(), swept(c0, c.update(l.elem(cc, m), w(m)), l, cc, w, m + 1),
{
    let pos = l.elem(cc, m);
    lemma_rix(l, cc, m);
    lemma_distinct_ranks(l, cc);
    let d = c.update(pos, w(m));
    assert forall|k: int| 0 <= k < m + 1 implies d[#[trigger] l.elem(cc, k)] == w(k) by {
        lemma_rix(l, cc, k);
        if k < m { assert(l.elem(cc, k) != pos); }
    }
    assert forall|q: int| 0 <= q < d.len() && !#[trigger] hitr(l, cc, m + 1, q) implies d[q] == c0[q] by {
        assert(!hitr(l, cc, m, q)) by { if hitr(l, cc, m, q) { let k = choose|k: int| 0 <= k < m && #[trigger] l.elem(cc, k) == q; assert(0 <= k < m + 1 && l.elem(cc, k) == q); } }
        assert(q != pos);
    }
}
pub proof fn lemma_sweep_end<C>(c0: Seq<C>, c: Seq<C>, l: Layout, cc: bool, w: spec_fn(int) -> C)
    requires swept(c0, c, l, cc, w, lsize(l)), l.len_ok(), 
    ensures ranked(c0, c, l, cc, w),
{
    assert forall|pos: int| 0 <= pos < c.len() && !#[trigger] addressed(l, pos) implies c[pos] == c0[pos] by {
        if hitr(l, cc, lsize(l), pos) {
            let k = choose|k: int| 0 <= k < lsize(l) && #[trigger] l.elem(cc, k) == pos;
            lemma_rix(l, cc, k);
        }
    }
}
/// position of the element of rank k of a layout that is contiguous in the order
pub open spec fn in_line(l: Layout, cc: bool) -> bool { l.empty() || (if cc { walks_c(l, 0) } else { walks_f(l, l.shape@.len() as int) }) }
pub proof fn lemma_in_line(l: Layout, cc: bool)
    requires l.len_ok(), in_line(l, cc),
    ensures forall|k: int| 0 <= k < lsize(l) ==> #[trigger] l.elem(cc, k) == l.offset + k,
{
    assert forall|k: int| 0 <= k < lsize(l) implies #[trigger] l.elem(cc, k) == l.offset + k by {
        lemma_prod_zero(l.shape@, l.shape@.len() as int);
        lemma_rix(l, cc, k);
        let ix = rix(l, cc, k);
        lemma_sdot(ix, l.stride@, 0);
    }
}
pub proof fn lemma_rank_flip(a: Seq<int>, s: Seq<usize>, b: Seq<int>, t: Seq<usize>, m: int)
    requires a.len() == s.len(), b.len() == a.len(), t.len() == a.len(), 0 <= m <= a.len(),
        forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[a.len() - 1 - i], forall|i: int| 0 <= i < a.len() ==> #[trigger] t[i] == s[a.len() - 1 - i],
    ensures prod(t, m) == sprod(s, a.len() - m), rank_f(b, t, m) == rank_c(a, s, a.len() - m),
    decreases m,
{
    if m > 0 {
        lemma_rank_flip(a, s, b, t, m - 1);
        let j = a.len() - m;
        assert(b[m - 1] == a[j] && t[m - 1] == s[j]);
        assert(prod(t, m) == prod(t, m - 1) * t[m - 1]);
        assert(sprod(s, j) == s[j] * sprod(s, j + 1));
        assert(prod(t, m - 1) * t[m - 1] == s[j] * sprod(s, j + 1)) by (nonlinear_arith) requires prod(t, m - 1) == sprod(s, j + 1), t[m - 1] == s[j];
    }
}
/// the reversed layout walked column-major visits what the layout walked row-major visits
pub proof fn lemma_rev_elem(l: Layout, f: Layout)
    requires permuted(l, f, reversal(l.shape@.len() as int)), l.len_ok(),
    ensures lsize(f) == lsize(l), forall|k: int| 0 <= k < lsize(l) ==> #[trigger] f.elem(false, k) == l.elem(true, k),
{
    let s = l.shape@; let n = s.len() as int; let t = f.shape@; let p = reversal(n);
    lemma_perm_size(s, p);
    assert(t =~= pshape(s, p)) by { assert forall|i: int| 0 <= i < n implies t[i] == pshape(s, p)[i] by { let x = p[i]; } }
    lemma_permuted(l, f, p);
    assert forall|k: int| 0 <= k < lsize(l) implies #[trigger] f.elem(false, k) == l.elem(true, k) by {
        lemma_rix(l, true, k);
        let a = unrank(true, s, k);
        lemma_unrank(true, s, k);
        let b = Seq::new(n as nat, |i: int| a[n - 1 - i]);
        assert(in_shape(b, t)) by { assert forall|i: int| 0 <= i < n implies #[trigger] b[i] < t[i] by { assert(p[i] == n - 1 - i); assert(a[n - 1 - i] < s[n - 1 - i]); } }
        assert forall|i: int| 0 <= i < n implies #[trigger] t[i] == s[n - 1 - i] by { assert(p[i] == n - 1 - i); }
        lemma_rank_flip(ints(a), s, ints(b), t, n);
        assert(rk(false, b, t) == k);
        lemma_unrank_is(false, t, b);
        assert(in_range(ints(b), t)) by { assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] ints(b)[i] < t[i] by { assert(b[i] < t[i]); } }
        let r = relabel(ints(b), p);
        assert forall|i: int| 0 <= i < n implies r[i] == ints(a)[i] by {
            lemma_perm_onto(p, n, i);
            let q = p.index_of(i as usize);
            assert(p[q] == i && p[q] == n - 1 - q);
        }
        assert(r =~= ints(a));
        assert(f.addr(ints(b)) == l.addr(r));
    }
}
pub proof fn lemma_same_elem(l: Layout, f: Layout)
    requires permuted(l, f, iperm(l.shape@.len() as int)), l.len_ok(),
    ensures lsize(f) == lsize(l), forall|k: int| 0 <= k < lsize(l) ==> #[trigger] f.elem(false, k) == l.elem(false, k),
{
    let p = iperm(l.shape@.len() as int);
    assert(f.shape@ =~= l.shape@) by { assert forall|i: int| 0 <= i < l.shape@.len() implies f.shape@[i] == l.shape@[i] by { assert(p[i] == i); } }
    assert(f.stride@ =~= l.stride@) by { assert forall|i: int| 0 <= i < l.shape@.len() implies f.stride@[i] == l.stride@[i] by { assert(p[i] == i); } }
}
pub open spec fn turned(l: Layout, f: Layout, cc: bool) -> bool {
    tame(f) && lsize(f) == lsize(l) && f.shape@.len() == l.shape@.len() && forall|k: int| 0 <= k < lsize(l) ==> #[trigger] f.elem(false, k) == l.elem(cc, k)
}
pub proof fn lemma_turned(l: Layout, f: Layout, cc: bool)
    requires tame(l), l.len_ok(), permuted(l, f, if cc { reversal(l.shape@.len() as int) } else { iperm(l.shape@.len() as int) }),
    ensures turned(l, f, cc),
{
    if cc { lemma_rev_elem(l, f); lemma_perm_tame(l, f, reversal(l.shape@.len() as int)); } else { lemma_same_elem(l, f); lemma_perm_tame(l, f, iperm(l.shape@.len() as int)); }
}
/// rearranging the axes of destination and operand alike
pub open spec fn back(ix: Seq<int>, p: Seq<usize>) -> Seq<int> { Seq::new(p.len(), |i: int| ix[p[i] as int]) }
pub proof fn lemma_back(l: Layout, f: Layout, p: Seq<usize>, ix: Seq<int>)
    requires permuted(l, f, p), in_range(ix, l.shape@), l.len_ok(),
    ensures in_range(back(ix, p), f.shape@), relabel(back(ix, p), p) == ix, f.addr(back(ix, p)) == l.addr(ix),
{
    let n = l.shape@.len() as int; let b = back(ix, p);
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] b[i] < f.shape@[i] by { assert(p[i] < n); assert(0 <= ix[p[i] as int] < l.shape@[p[i] as int]); }
    let r = relabel(b, p);
    assert forall|i: int| 0 <= i < n implies r[i] == ix[i] by { lemma_perm_onto(p, n, i); let k = p.index_of(i as usize); assert(b[k] == ix[p[k] as int]); }
    assert(r =~= ix);
    lemma_permuted(l, f, p);
}
pub proof fn lemma_fwd(l: Layout, f: Layout, p: Seq<usize>, b: Seq<int>)
    requires permuted(l, f, p), in_range(b, f.shape@), l.len_ok(),
    ensures in_range(relabel(b, p), l.shape@), back(relabel(b, p), p) == b, f.addr(b) == l.addr(relabel(b, p)),
{
    let n = l.shape@.len() as int; let ix = relabel(b, p);
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] ix[i] < l.shape@[i] by { lemma_perm_onto(p, n, i); let k = p.index_of(i as usize); assert(0 <= b[k] < f.shape@[k]); assert(p[k] == i); }
    assert forall|i: int| 0 <= i < n implies back(ix, p)[i] == b[i] by { assert(p[i] < n); lemma_perm_onto(p, n, p[i] as int); assert(p[p.index_of(p[i])] == p[i]); }
    assert(back(ix, p) =~= b);
    lemma_permuted(l, f, p);
}
pub proof fn lemma_perm_within(l: Layout, f: Layout, p: Seq<usize>, len: int)
    requires permuted(l, f, p), l.len_ok(), within(l, len),
    ensures within(f, len),
{ assert forall|b: Seq<int>| in_range(b, f.shape@) implies 0 <= #[trigger] f.addr(b) < len by { lemma_fwd(l, f, p, b); assert(0 <= l.addr(relabel(b, p)) < len); } }
pub proof fn lemma_perm_unrepeated(l: Layout, f: Layout, p: Seq<usize>)
    requires permuted(l, f, p), unrepeated(l),
    ensures unrepeated(f),
{ assert forall|i: int| 0 <= i < f.shape@.len() implies #[trigger] f.stride@[i] != 0 || f.shape@[i] <= 1 by { assert(p[i] < l.shape@.len()); assert(l.stride@[p[i] as int] != 0 || l.shape@[p[i] as int] <= 1); } }
pub proof fn lemma_perm_mapped<C>(c0: Seq<C>, c: Seq<C>, l: Layout, f: Layout, p: Seq<usize>, v: spec_fn(Seq<int>) -> C, w: spec_fn(Seq<int>) -> C)
    requires permuted(l, f, p), l.len_ok(), mapped(c0, c, f, v), forall|ix: Seq<int>| in_range(ix, l.shape@) ==> v(back(ix, p)) == #[trigger] w(ix),
    ensures mapped(c0, c, l, w),
{
    assert forall|ix: Seq<int>| in_range(ix, l.shape@) implies c[#[trigger] l.addr(ix)] == w(ix) by { lemma_back(l, f, p, ix); assert(c[f.addr(back(ix, p))] == v(back(ix, p))); assert(v(back(ix, p)) == w(ix)); }
    assert forall|pos: int| 0 <= pos < c.len() && !#[trigger] addressed(l, pos) implies c[pos] == c0[pos] by {
        if addressed(f, pos) {
            let b = choose|b: Seq<int>| in_range(b, f.shape@) && #[trigger] f.addr(b) == pos;
            lemma_fwd(l, f, p, b);
            assert(in_range(relabel(b, p), l.shape@) && l.addr(relabel(b, p)) == pos);
        }
    }
}
pub proof fn lemma_perm_injective(l: Layout, f: Layout, p: Seq<usize>)
    requires permuted(l, f, p), l.len_ok(), injective(l), unrepeated(l),
    ensures injective(f),
{
    assert forall|i1: Seq<int>, i2: Seq<int>| in_range(i1, f.shape@) && in_range(i2, f.shape@) && (forall|k: int| 0 <= k < f.shape@.len() && f.stride@[k] == 0 ==> i1[k] == i2[k]) && #[trigger] f.addr(i1) == #[trigger] f.addr(i2) implies i1 =~= i2 by {
        lemma_fwd(l, f, p, i1); lemma_fwd(l, f, p, i2);
        let a = relabel(i1, p); let b = relabel(i2, p);
        assert forall|k: int| 0 <= k < l.shape@.len() && l.stride@[k] == 0 implies a[k] == b[k] by { assert(0 <= a[k] < l.shape@[k] && 0 <= b[k] < l.shape@[k]); assert(l.shape@[k] <= 1); }
        assert(l.addr(a) == l.addr(b));
        assert(a =~= b);
        assert(back(a, p) == back(b, p));
    }
}
pub open spec fn bterms(sh: Seq<usize>, st: Seq<isize>, k: int) -> Seq<int> {
    Seq::new(sh.len(), |j: int| if j != k && iabs(st[j] as int) <= iabs(st[k] as int) { reach(sh, st, j) } else { 0 })
}
pub proof fn lemma_bterms(sh: Seq<usize>, st: Seq<isize>, k: int, n: int)
    requires 0 <= n <= sh.len(), sh.len() == st.len(), 0 <= k < sh.len(),
    ensures below(sh, st, k, n) == isum(bterms(sh, st, k), n),
    decreases n,
{ if n > 0 { lemma_bterms(sh, st, k, n - 1); } }
/// the acceptance rule does not depend on the order of the axes
pub proof fn lemma_perm_accepted(l: Layout, f: Layout, p: Seq<usize>)
    requires permuted(l, f, p), l.accepted(), l.len_ok(), l.lo() == f.lo(), l.empty() == f.empty(),
    ensures f.accepted(),
{
    let n = l.shape@.len() as int;
    if !l.empty() {
        assert forall|k: int| 0 <= k < n && f.shape@[k] > 1 && #[trigger] f.stride@[k] != 0 implies iabs(f.stride@[k] as int) > below(f.shape@, f.stride@, k, n) by {
            let q = p[k] as int;
            assert(0 <= q < n && f.shape@[k] == l.shape@[q] && f.stride@[k] == l.stride@[q]);
            let v = bterms(f.shape@, f.stride@, k); let w = bterms(l.shape@, l.stride@, q);
            lemma_bterms(f.shape@, f.stride@, k, n); lemma_bterms(l.shape@, l.stride@, q, n);
            assert forall|i: int| 0 <= i < p.len() implies v[i] == w[#[trigger] p[i] as int] by { assert(p[i] < n); if i != k { assert(p[i] != p[k]); } }
            lemma_isum_perm(v, w, p);
        }
    }
}
pub proof fn lemma_perm_dest(l: Layout, f: Layout, p: Seq<usize>, len: int)
    requires permuted(l, f, p), operand(l, len),
    ensures operand(f, len), dest(l, len) ==> dest(f, len),
{
    lemma_perm_tame(l, f, p);
    lemma_perm_accepted(l, f, p);
    lemma_perm_within(l, f, p, len);
    if dest(l, len) { lemma_perm_unrepeated(l, f, p); lemma_perm_injective(l, f, p); }
}
