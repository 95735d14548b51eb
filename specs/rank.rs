// C08: position of an index in a row-major or column-major walk, the index at a position, and how both
// change when one digit changes. `c` selects row-major.
pub open spec fn ints(a: Seq<usize>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i] as int) }
pub open spec fn rk(c: bool, a: Seq<usize>, s: Seq<usize>) -> int {
    if c { rank_c(ints(a), s, 0) } else { rank_f(ints(a), s, s.len() as int) }
}
pub open spec fn dd(a: Seq<usize>, st: Seq<isize>) -> int { dot(ints(a), st, st.len() as int) }
/// step of the walk position per digit, and when the digit wraps
pub open spec fn wt(c: bool, s: Seq<usize>, p: int) -> int { if c { sprod(s, p + 1) } else { prod(s, p) } }
pub open spec fn wn(c: bool, s: Seq<usize>, p: int) -> int { if c { sprod(s, p) } else { prod(s, p + 1) } }
/// the slowest axis
pub open spec fn top(c: bool, n: int) -> int { if c { 0 } else { n - 1 } }
/// digits of a position, one past the last one included
pub open spec fn semi(c: bool, a: Seq<usize>, s: Seq<usize>) -> bool {
    a.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> if i == top(c, s.len() as int) { #[trigger] a[i] <= s[i] } else { a[i] < s[i] }
}
pub open spec fn span(s: Seq<usize>, st: Seq<isize>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { span(s, st, n - 1) + s[n - 1] * (if st[n - 1] < 0 { -(st[n - 1] as int) } else { st[n - 1] as int }) }
}

pub proof fn lemma_rank_f_upd(a: Seq<int>, s: Seq<usize>, p: int, v: int, n: int)
    requires a.len() == s.len(), 0 <= p < s.len(), 0 <= n <= s.len(),
    ensures rank_f(a.update(p, v), s, n) == rank_f(a, s, n) + if p < n { (v - a[p]) * prod(s, p) } else { 0 },
    decreases n,
{
    if n > 0 {
        lemma_rank_f_upd(a, s, p, v, n - 1);
        if p == n - 1 {
            assert(v * prod(s, p) == a[p] * prod(s, p) + (v - a[p]) * prod(s, p)) by (nonlinear_arith);
        }
    }
}
pub proof fn lemma_rank_c_upd(a: Seq<int>, s: Seq<usize>, p: int, v: int, k: int)
    requires a.len() == s.len(), 0 <= p < s.len(), 0 <= k <= s.len(),
    ensures rank_c(a.update(p, v), s, k) == rank_c(a, s, k) + if p >= k { (v - a[p]) * sprod(s, p + 1) } else { 0 },
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_rank_c_upd(a, s, p, v, k + 1);
        if p == k {
            assert(v * sprod(s, p + 1) == a[p] * sprod(s, p + 1) + (v - a[p]) * sprod(s, p + 1)) by (nonlinear_arith);
        }
    }
}
pub proof fn lemma_dot_upd(a: Seq<int>, st: Seq<isize>, p: int, v: int, n: int)
    requires a.len() == st.len(), 0 <= p < st.len(), 0 <= n <= st.len(),
    ensures dot(a.update(p, v), st, n) == dot(a, st, n) + if p < n { (v - a[p]) * st[p] } else { 0 },
    decreases n,
{
    if n > 0 {
        lemma_dot_upd(a, st, p, v, n - 1);
        if p == n - 1 {
            assert(v * st[p] == a[p] * st[p] + (v - a[p]) * st[p]) by (nonlinear_arith);
        }
    }
}
/// one digit changes
pub proof fn lemma_upd(c: bool, a: Seq<usize>, s: Seq<usize>, st: Seq<isize>, p: int, v: usize)
    requires a.len() == s.len(), s.len() == st.len(), 0 <= p < s.len(),
    ensures
        rk(c, a.update(p, v), s) == rk(c, a, s) + (v - a[p]) * wt(c, s, p),
        dd(a.update(p, v), st) == dd(a, st) + (v - a[p]) * st[p],
        wn(c, s, p) == s[p] * wt(c, s, p),
{
    assert(ints(a.update(p, v)) =~= ints(a).update(p, v as int));
    let n = s.len() as int;
    lemma_rank_c_upd(ints(a), s, p, v as int, 0);
    lemma_rank_f_upd(ints(a), s, p, v as int, n);
    lemma_dot_upd(ints(a), st, p, v as int, n);
    assert(prod(s, p) * s[p] == s[p] * prod(s, p)) by (nonlinear_arith);
}
/// the digit changes the iterators make, for every index at once
pub open spec fn walk_facts(c: bool, s: Seq<usize>, st: Seq<isize>) -> bool {
    forall|a: Seq<usize>, p: int, v: usize| #![trigger a.update(p, v)] a.len() == s.len() && 0 <= p < s.len() ==> step_fact(c, s, st, a, p, v, a.update(p, v))
}
pub open spec fn step_fact(c: bool, s: Seq<usize>, st: Seq<isize>, a: Seq<usize>, p: int, v: usize, b: Seq<usize>) -> bool {
    &&& v == a[p] + 1 ==> rk(c, b, s) == rk(c, a, s) + wt(c, s, p) && dd(b, st) == dd(a, st) + st[p]
    &&& v + 1 == a[p] ==> rk(c, b, s) == rk(c, a, s) - wt(c, s, p) && dd(b, st) == dd(a, st) - st[p]
    &&& v == 0 && a[p] == s[p] ==> rk(c, b, s) == rk(c, a, s) - wn(c, s, p) && dd(b, st) == dd(a, st) - s[p] * st[p]
    &&& v + 1 == s[p] && a[p] == 0 ==> rk(c, b, s) == rk(c, a, s) + wn(c, s, p) - wt(c, s, p) && dd(b, st) == dd(a, st) + (s[p] - 1) * st[p]
}
pub proof fn lemma_step(c: bool, s: Seq<usize>, st: Seq<isize>, a: Seq<usize>, p: int, v: usize)
    requires a.len() == s.len(), s.len() == st.len(), 0 <= p < s.len(),
    ensures step_fact(c, s, st, a, p, v, a.update(p, v)),
{
    lemma_upd(c, a, s, st, p, v);
    let w = wt(c, s, p); let t = st[p] as int; let d = v - a[p];
    if v == a[p] + 1 { assert(d * w == w && d * t == t) by (nonlinear_arith) requires d == 1; }
    if v + 1 == a[p] { assert(d * w == -w && d * t == -t) by (nonlinear_arith) requires d == -1; }
    if v == 0 && a[p] == s[p] {
        assert(d * w == -(s[p] * w) && d * t == -(s[p] * t)) by (nonlinear_arith) requires d == -(s[p] as int);
    }
    if v + 1 == s[p] && a[p] == 0 {
        assert(d * w == s[p] * w - w && d * t == (s[p] - 1) * t) by (nonlinear_arith) requires d == s[p] - 1;
    }
}

pub proof fn lemma_walk(c: bool, s: Seq<usize>, st: Seq<isize>)
    requires s.len() == st.len(),
    ensures walk_facts(c, s, st),
{
    assert forall|a: Seq<usize>, p: int, v: usize| #![trigger a.update(p, v)] a.len() == s.len() && 0 <= p < s.len() implies step_fact(c, s, st, a, p, v, a.update(p, v)) by {
        lemma_step(c, s, st, a, p, v);
    }
}

// ---- range of the positions reached
pub proof fn lemma_span(s: Seq<usize>, st: Seq<isize>, n: int)
    requires 0 <= n <= s.len(), s.len() == st.len(),
    ensures span(s, st, n) >= 0,
        forall|i: int| 0 <= i < n ==> -span(s, st, n) <= #[trigger] s[i] * st[i] <= span(s, st, n),
        forall|i: int| 0 <= i < n && s[i] > 0 ==> -span(s, st, n) <= #[trigger] st[i] <= span(s, st, n) && -span(s, st, n) <= (s[i] - 1) * st[i] <= span(s, st, n),
    decreases n,
{
    if n > 0 {
        lemma_span(s, st, n - 1);
        let x = s[n - 1] as int; let t = st[n - 1] as int; let m = if t < 0 { -t } else { t };
        assert(x * m >= 0) by (nonlinear_arith) requires x >= 0, m >= 0;
        assert(-(x * m) <= x * t <= x * m) by (nonlinear_arith) requires x >= 0, m == t || m == -t, m >= 0;
        if x > 0 {
            assert(-(x * m) <= t <= x * m) by (nonlinear_arith) requires x >= 1, m == t || m == -t, m >= 0;
            assert(-(x * m) <= (x - 1) * t <= x * m) by (nonlinear_arith) requires x >= 1, m == t || m == -t, m >= 0;
        }
    }
}
pub proof fn lemma_span_mono(s: Seq<usize>, st: Seq<isize>, i: int, n: int)
    requires 0 <= i <= n <= s.len(), s.len() == st.len(),
    ensures 0 <= span(s, st, i) <= span(s, st, n),
    decreases n,
{
    lemma_span(s, st, i);
    if i < n {
        lemma_span_mono(s, st, i, n - 1);
        let x = s[n - 1] as int; let t = st[n - 1] as int; let m = if t < 0 { -t } else { t };
        assert(x * m >= 0) by (nonlinear_arith) requires x >= 0, m >= 0;
    }
}
pub proof fn lemma_dot_span(a: Seq<int>, s: Seq<usize>, st: Seq<isize>, n: int)
    requires 0 <= n <= s.len(), s.len() == st.len(), a.len() == s.len(), forall|i: int| 0 <= i < n ==> 0 <= #[trigger] a[i] <= s[i],
    ensures -span(s, st, n) <= dot(a, st, n) <= span(s, st, n),
    decreases n,
{
    if n > 0 {
        lemma_dot_span(a, s, st, n - 1);
        let i = a[n - 1]; let x = s[n - 1] as int; let t = st[n - 1] as int; let m = if t < 0 { -t } else { t };
        assert(-(x * m) <= i * t <= x * m) by (nonlinear_arith) requires 0 <= i <= x, m == t || m == -t, m >= 0;
    }
}
pub proof fn lemma_dd_span(a: Seq<usize>, s: Seq<usize>, st: Seq<isize>)
    requires s.len() == st.len(), a.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] a[i] <= s[i],
    ensures -span(s, st, s.len() as int) <= dd(a, st) <= span(s, st, s.len() as int),
{
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] ints(a)[i] <= s[i] by { assert(a[i] <= s[i]); }
    lemma_dot_span(ints(a), s, st, s.len() as int);
}

/// the position of every index with digits up to the lengths stays between the spans
pub proof fn lemma_spans(s: Seq<usize>, st: Seq<isize>)
    requires s.len() == st.len(),
    ensures forall|a: Seq<usize>| #![trigger dd(a, st)] a.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] a[i] <= s[i])
        ==> -span(s, st, s.len() as int) <= dd(a, st) <= span(s, st, s.len() as int),
{
    assert forall|a: Seq<usize>| #![trigger dd(a, st)] a.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] a[i] <= s[i])
        implies -span(s, st, s.len() as int) <= dd(a, st) <= span(s, st, s.len() as int) by { lemma_dd_span(a, s, st); }
}

// ---- positions and indices correspond one to one
/// ranks of the first j digits lie below the j-th step
pub proof fn lemma_rank_f_range(a: Seq<int>, s: Seq<usize>, j: int)
    requires 0 <= j <= s.len(), a.len() == s.len(), forall|i: int| 0 <= i < j ==> 0 <= #[trigger] a[i] < s[i],
    ensures 0 <= rank_f(a, s, j) < prod(s, j),
    decreases j,
{
    if j > 0 {
        lemma_rank_f_range(a, s, j - 1);
        let w = prod(s, j - 1); let d = s[j - 1] as int; let x = a[j - 1];
        assert(0 <= x * w && x * w + w <= w * d) by (nonlinear_arith) requires 0 <= x < d, w >= 0;
    }
}
pub proof fn lemma_rank_c_range(a: Seq<int>, s: Seq<usize>, k: int)
    requires 0 <= k <= s.len(), a.len() == s.len(), forall|i: int| k <= i < s.len() ==> 0 <= #[trigger] a[i] < s[i],
    ensures 0 <= rank_c(a, s, k) < sprod(s, k),
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_rank_c_range(a, s, k + 1);
        let w = sprod(s, k + 1); let d = s[k] as int; let x = a[k];
        assert(0 <= x * w && x * w + w <= d * w) by (nonlinear_arith) requires 0 <= x < d, w >= 0;
    }
}
pub open spec fn in_shape(a: Seq<usize>, s: Seq<usize>) -> bool {
    a.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] a[i] < s[i]
}
pub proof fn lemma_sprod_all(s: Seq<usize>)
    ensures sprod(s, 0) == size_of_shape(s),
{
    lemma_prod_split(s, 0);
    assert(prod(s, 0) * sprod(s, 0) == sprod(s, 0)) by (nonlinear_arith) requires prod(s, 0) == 1;
}
/// the position of an index is below the size; digits one past the end are only those of the end position
pub proof fn lemma_rk_range(c: bool, a: Seq<usize>, s: Seq<usize>)
    requires in_shape(a, s),
    ensures 0 <= rk(c, a, s) < size_of_shape(s),
{
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] ints(a)[i] < s[i] by { assert(a[i] < s[i]); }
    lemma_sprod_all(s);
    lemma_rank_f_range(ints(a), s, s.len() as int);
    lemma_rank_c_range(ints(a), s, 0);
}
pub proof fn lemma_semi(c: bool, a: Seq<usize>, s: Seq<usize>)
    requires semi(c, a, s), s.len() > 0, rk(c, a, s) < size_of_shape(s),
    ensures in_shape(a, s),
{
    let n = s.len() as int;
    let t = top(c, n);
    lemma_sprod_all(s);
    assert forall|i: int| 0 <= i < n && i != t implies 0 <= #[trigger] ints(a)[i] < s[i] by { assert(a[i] < s[i]); }
    if c {
        assert forall|i: int| 1 <= i < n implies 0 <= #[trigger] ints(a)[i] < s[i] by { assert(i != t); }
        lemma_rank_c_range(ints(a), s, 1);
        if a[0] == s[0] { assert(rank_c(ints(a), s, 0) >= s[0] * sprod(s, 1)); }
    } else {
        assert forall|i: int| 0 <= i < n - 1 implies 0 <= #[trigger] ints(a)[i] < s[i] by { assert(i != t); }
        lemma_rank_f_range(ints(a), s, n - 1);
        if a[n - 1] == s[n - 1] {
            assert(s[n - 1] * prod(s, n - 1) == prod(s, n - 1) * s[n - 1]) by (nonlinear_arith);
        }
    }
    assert(a[t] <= s[t]);
    assert forall|i: int| 0 <= i < n implies #[trigger] a[i] < s[i] by { if i != t { assert(a[i] < s[i]); } }
}
pub proof fn lemma_rank_zero(a: Seq<int>, s: Seq<usize>, n: int)
    requires a.len() == s.len(), 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] a[i] == 0,
    ensures rank_f(a, s, n) == 0, rank_c(a, s, s.len() - n) == 0,
    decreases n,
{
    if n > 0 {
        lemma_rank_zero(a, s, n - 1);
        let w = prod(s, n - 1); let k = s.len() - n; let u = sprod(s, k + 1);
        assert(0 * w == 0 && 0 * u == 0) by (nonlinear_arith);
        assert(a[n - 1] == 0 && a[k] == 0);
    }
}
pub proof fn lemma_dot_zero(a: Seq<int>, st: Seq<isize>, n: int)
    requires a.len() == st.len(), 0 <= n <= st.len(), forall|i: int| 0 <= i < st.len() ==> #[trigger] a[i] == 0,
    ensures dot(a, st, n) == 0,
    decreases n,
{
    if n > 0 {
        lemma_dot_zero(a, st, n - 1);
        let t = st[n - 1] as int;
        assert(0 * t == 0) by (nonlinear_arith);
        assert(a[n - 1] == 0);
    }
}
pub proof fn lemma_zero(c: bool, a: Seq<usize>, s: Seq<usize>, st: Seq<isize>)
    requires a.len() == s.len(), s.len() == st.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] a[i] == 0,
    ensures rk(c, a, s) == 0, dd(a, st) == 0,
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] ints(a)[i] == 0 by { assert(a[i] == 0); }
    lemma_rank_zero(ints(a), s, s.len() as int);
    lemma_dot_zero(ints(a), st, s.len() as int);
}
/// two indices of the same position are the same index
pub proof fn lemma_rank_f_inj(a: Seq<int>, b: Seq<int>, s: Seq<usize>, n: int)
    requires a.len() == s.len(), b.len() == s.len(), 0 <= n <= s.len(),
        forall|i: int| 0 <= i < n ==> 0 <= #[trigger] a[i] < s[i], forall|i: int| 0 <= i < n ==> 0 <= #[trigger] b[i] < s[i],
        rank_f(a, s, n) == rank_f(b, s, n),
    ensures forall|i: int| 0 <= i < n ==> a[i] == b[i],
    decreases n,
{
    if n > 0 {
        lemma_rank_f_range(a, s, n - 1);
        lemma_rank_f_range(b, s, n - 1);
        let w = prod(s, n - 1); let x = a[n - 1]; let y = b[n - 1];
        assert(x == y) by (nonlinear_arith)
            requires x * w + rank_f(a, s, n - 1) == y * w + rank_f(b, s, n - 1), 0 <= rank_f(a, s, n - 1) < w, 0 <= rank_f(b, s, n - 1) < w;
        lemma_rank_f_inj(a, b, s, n - 1);
    }
}
pub proof fn lemma_rank_c_inj(a: Seq<int>, b: Seq<int>, s: Seq<usize>, k: int)
    requires a.len() == s.len(), b.len() == s.len(), 0 <= k <= s.len(),
        forall|i: int| k <= i < s.len() ==> 0 <= #[trigger] a[i] < s[i], forall|i: int| k <= i < s.len() ==> 0 <= #[trigger] b[i] < s[i],
        rank_c(a, s, k) == rank_c(b, s, k),
    ensures forall|i: int| k <= i < s.len() ==> a[i] == b[i],
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_rank_c_range(a, s, k + 1);
        lemma_rank_c_range(b, s, k + 1);
        let w = sprod(s, k + 1); let x = a[k]; let y = b[k];
        assert(x == y) by (nonlinear_arith)
            requires x * w + rank_c(a, s, k + 1) == y * w + rank_c(b, s, k + 1), 0 <= rank_c(a, s, k + 1) < w, 0 <= rank_c(b, s, k + 1) < w;
        lemma_rank_c_inj(a, b, s, k + 1);
    }
}
pub proof fn lemma_rk_inj(c: bool, a: Seq<usize>, b: Seq<usize>, s: Seq<usize>)
    requires in_shape(a, s), in_shape(b, s), rk(c, a, s) == rk(c, b, s),
    ensures a == b,
{
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] ints(a)[i] < s[i] by { assert(a[i] < s[i]); }
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] ints(b)[i] < s[i] by { assert(b[i] < s[i]); }
    if c { lemma_rank_c_inj(ints(a), ints(b), s, 0); } else { lemma_rank_f_inj(ints(a), ints(b), s, s.len() as int); }
    assert forall|i: int| 0 <= i < s.len() implies a[i] == b[i] by { assert(ints(a)[i] == ints(b)[i]); }
    assert(a =~= b);
}
/// every position below the size has an index
pub proof fn lemma_rk_surj(c: bool, s: Seq<usize>, k: int) -> (a: Seq<usize>)
    requires 0 <= k < size_of_shape(s),
    ensures in_shape(a, s), rk(c, a, s) == k,
{
    lemma_sprod_all(s);
    if c {
        let a = lemma_rank_c_surj(s, 0, k);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] a[i] < s[i] by { }
        a
    } else {
        lemma_rank_f_surj(s, s.len() as int, k)
    }
}
pub proof fn lemma_rank_f_surj(s: Seq<usize>, n: int, k: int) -> (a: Seq<usize>)
    requires 0 <= n <= s.len(), 0 <= k < prod(s, n),
    ensures a.len() == s.len(), forall|i: int| 0 <= i < n ==> #[trigger] a[i] < s[i], rank_f(ints(a), s, n) == k,
    decreases n,
{
    if n == 0 { Seq::new(s.len(), |i: int| 0usize) } else {
        let w = prod(s, n - 1); let d = s[n - 1] as int;
        lemma_prod_nonneg(s, n - 1);
        assert(w > 0) by (nonlinear_arith) requires w >= 0, 0 < w * d;
        lemma_fundamental_div_mod(k, w);
        lemma_mod_bound(k, w);
        let q = k / w; let r = k % w;
        assert(0 <= q < d) by (nonlinear_arith) requires k == w * q + r, 0 <= r < w, 0 <= k < w * d;
        let b = lemma_rank_f_surj(s, n - 1, r);
        let a = b.update(n - 1, q as usize);
        assert(ints(a) =~= ints(b).update(n - 1, q));
        lemma_rank_f_upd(ints(b), s, n - 1, q, n - 1);
        assert(q * w == w * q) by (nonlinear_arith);
        a
    }
}
pub proof fn lemma_rank_c_surj(s: Seq<usize>, j: int, k: int) -> (a: Seq<usize>)
    requires 0 <= j <= s.len(), 0 <= k < sprod(s, j),
    ensures a.len() == s.len(), forall|i: int| j <= i < s.len() ==> #[trigger] a[i] < s[i], rank_c(ints(a), s, j) == k,
    decreases s.len() - j,
{
    if j == s.len() { Seq::new(s.len(), |i: int| 0usize) } else {
        let w = sprod(s, j + 1); let d = s[j] as int;
        lemma_sprod_nonneg(s, j + 1);
        assert(w > 0) by (nonlinear_arith) requires w >= 0, 0 < d * w;
        lemma_fundamental_div_mod(k, w);
        lemma_mod_bound(k, w);
        let q = k / w; let r = k % w;
        assert(0 <= q < d) by (nonlinear_arith) requires k == w * q + r, 0 <= r < w, 0 <= k < d * w;
        let b = lemma_rank_c_surj(s, j + 1, r);
        let a = b.update(j, q as usize);
        assert(ints(a) =~= ints(b).update(j, q));
        lemma_rank_c_upd(ints(b), s, j, q, j + 1);
        assert(q * w == w * q) by (nonlinear_arith);
        a
    }
}
/// the index at position k of the walk
pub open spec fn unrank(c: bool, s: Seq<usize>, k: int) -> Seq<usize> {
    choose|a: Seq<usize>| in_shape(a, s) && rk(c, a, s) == k
}
pub proof fn lemma_unrank(c: bool, s: Seq<usize>, k: int)
    requires 0 <= k < size_of_shape(s),
    ensures in_shape(unrank(c, s, k), s), rk(c, unrank(c, s, k), s) == k,
{
    let a = lemma_rk_surj(c, s, k);
    assert(in_shape(a, s) && rk(c, a, s) == k);
}
pub proof fn lemma_unrank_is(c: bool, s: Seq<usize>, a: Seq<usize>)
    requires in_shape(a, s),
    ensures unrank(c, s, rk(c, a, s)) == a,
{
    lemma_rk_range(c, a, s);
    lemma_unrank(c, s, rk(c, a, s));
    lemma_rk_inj(c, unrank(c, s, rk(c, a, s)), a, s);
}
