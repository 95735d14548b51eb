// One axis of a layout removed or inserted.
/// r has the axes of l without axis a
pub open spec fn is_cut(l: Layout, r: Layout, a: int) -> bool {
    0 <= a < l.shape@.len() && l.shape@.len() == l.stride@.len() && r.shape@ == l.shape@.remove(a) && r.stride@ == l.stride@.remove(a)
}
/// r is l with the index of axis a fixed to v
pub open spec fn selected(l: Layout, r: Layout, a: int, v: int) -> bool {
    is_cut(l, r, a) && 0 <= v < l.shape@[a] && r.offset == l.offset + v * l.stride@[a]
}
pub proof fn lemma_cut(s: Seq<usize>, t: Seq<isize>, a: int, n: int)
    requires 0 <= a < n <= s.len(), s.len() == t.len(),
    ensures
        prod(s, n) == prod(s.remove(a), n - 1) * s[a],
        ext_pos(s, t, n) == ext_pos(s.remove(a), t.remove(a), n - 1) + cp(s[a] as int, t[a] as int),
        ext_neg(s, t, n) == ext_neg(s.remove(a), t.remove(a), n - 1) + cn(s[a] as int, t[a] as int),
    decreases n,
{
    let (s2, t2) = (s.remove(a), t.remove(a));
    if n - 1 > a {
        lemma_cut(s, t, a, n - 1);
        assert(s2[n - 2] == s[n - 1] && t2[n - 2] == t[n - 1]);
        assert(prod(s2, n - 2) * s[a] * s[n - 1] == prod(s2, n - 2) * s[n - 1] * s[a]) by (nonlinear_arith);
        assert(prod(s, n) == prod(s, n - 1) * s[n - 1]);
        assert(prod(s2, n - 1) == prod(s2, n - 2) * s[n - 1]);
    } else {
        lemma_same_prefix(s, t, s2, t2, n - 1);
    }
}
pub proof fn lemma_same_prefix(s: Seq<usize>, t: Seq<isize>, s2: Seq<usize>, t2: Seq<isize>, n: int)
    requires 0 <= n <= s.len(), n <= s2.len(), n <= t.len(), n <= t2.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == s2[i] && t[i] == t2[i],
    ensures prod(s, n) == prod(s2, n), ext_pos(s, t, n) == ext_pos(s2, t2, n), ext_neg(s, t, n) == ext_neg(s2, t2, n),
    decreases n,
{ if n > 0 { lemma_same_prefix(s, t, s2, t2, n - 1); assert(s[n - 1] == s2[n - 1]); } }
pub proof fn lemma_cut_dot(x: Seq<int>, t: Seq<isize>, a: int, n: int)
    requires 0 <= a < t.len(), x.len() == t.len(), 0 <= n <= t.len(),
    ensures dot(x, t, n) == if n <= a { dot(x.remove(a), t.remove(a), n) } else { dot(x.remove(a), t.remove(a), n - 1) + x[a] * t[a] },
    decreases n,
{
    if n > 0 {
        lemma_cut_dot(x, t, a, n - 1);
        if n - 1 > a { assert(x.remove(a)[n - 2] == x[n - 1] && t.remove(a)[n - 2] == t[n - 1]); }
        else if n - 1 < a { assert(x.remove(a)[n - 1] == x[n - 1] && t.remove(a)[n - 1] == t[n - 1]); }
    }
}
pub open spec fn low(s: Seq<usize>, t: Seq<isize>, a: int, k: int) -> int { if iabs(t[a] as int) <= iabs(t[k] as int) { reach(s, t, a) } else { 0 } }
pub proof fn lemma_cut_below(s: Seq<usize>, t: Seq<isize>, a: int, k: int, n: int)
    requires 0 <= a < s.len(), s.len() == t.len(), 0 <= k < s.len(), k != a, 0 <= n <= s.len(),
    ensures below(s, t, k, n) == if n <= a { below(s.remove(a), t.remove(a), if k < a { k } else { k - 1 }, n) } else { below(s.remove(a), t.remove(a), if k < a { k } else { k - 1 }, n - 1) + low(s, t, a, k) },
    decreases n,
{
    let (s2, t2) = (s.remove(a), t.remove(a));
    let k2 = if k < a { k } else { k - 1 };
    assert(t2[k2] == t[k]);
    if n > 0 {
        lemma_cut_below(s, t, a, k, n - 1);
        if n - 1 > a { assert(s2[n - 2] == s[n - 1] && t2[n - 2] == t[n - 1]); }
        else if n - 1 < a { assert(s2[n - 1] == s[n - 1] && t2[n - 1] == t[n - 1]); }
    }
}
pub proof fn lemma_cut_strides(s: Seq<usize>, t: Seq<isize>, a: int)
    requires 0 <= a < s.len(), s.len() == t.len(),
    ensures
        strides_ok(s, t) ==> strides_ok(s.remove(a), t.remove(a)),
        s[a] <= 1 && strides_ok(s.remove(a), t.remove(a)) ==> strides_ok(s, t),
{
    let (s2, t2) = (s.remove(a), t.remove(a));
    let n = s.len() as int;
    lemma_reach(s, t, a);
    if strides_ok(s, t) {
        assert forall|k2: int| 0 <= k2 < s2.len() && s2[k2] > 1 && #[trigger] t2[k2] != 0 implies iabs(t2[k2] as int) > below(s2, t2, k2, s2.len() as int) by {
            let k = if k2 < a { k2 } else { k2 + 1 };
            assert(s2[k2] == s[k] && t2[k2] == t[k]);
            lemma_cut_below(s, t, a, k, n);
        }
    }
    if s[a] <= 1 && strides_ok(s2, t2) {
        assert forall|k: int| 0 <= k < s.len() && s[k] > 1 && #[trigger] t[k] != 0 implies iabs(t[k] as int) > below(s, t, k, n) by {
            let k2 = if k < a { k } else { k - 1 };
            assert(s2[k2] == s[k] && t2[k2] == t[k]);
            lemma_cut_below(s, t, a, k, n);
        }
    }
}
pub proof fn lemma_cut_nonempty(s: Seq<usize>, a: int)
    requires 0 <= a < s.len(),
    ensures nonempty(s) <==> s[a] > 0 && nonempty(s.remove(a)),
{
    let s2 = s.remove(a);
    assert(forall|i: int| 0 <= i < a ==> s2[i] == s[i]);
    assert(forall|i: int| a <= i < s2.len() ==> s2[i] == s[i + 1]);
    if nonempty(s) { assert forall|i: int| 0 <= i < s2.len() implies #[trigger] s2[i] > 0 by { if i < a { assert(s[i] > 0); } else { assert(s[i + 1] > 0); } } }
    if s[a] > 0 && nonempty(s2) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] > 0 by { if i < a { assert(s2[i] > 0); } else if i > a { assert(s2[i - 1] > 0); } } }
}
pub proof fn lemma_cut_index(l: Layout, r: Layout, a: int)
    requires is_cut(l, r, a),
    ensures
        forall|x: Seq<int>, v: int| in_range(x, r.shape@) && 0 <= v < l.shape@[a] ==> in_range(#[trigger] x.insert(a, v), l.shape@) && l.addr(x.insert(a, v)) - l.offset == r.addr(x) - r.offset + v * l.stride@[a],
        forall|y: Seq<int>| in_range(y, l.shape@) ==> in_range(#[trigger] y.remove(a), r.shape@) && y == y.remove(a).insert(a, y[a]) && l.addr(y) - l.offset == r.addr(y.remove(a)) - r.offset + y[a] * l.stride@[a],
{
    let n = l.shape@.len() as int;
    assert forall|x: Seq<int>, v: int| in_range(x, r.shape@) && 0 <= v < l.shape@[a] implies in_range(#[trigger] x.insert(a, v), l.shape@) && l.addr(x.insert(a, v)) - l.offset == r.addr(x) - r.offset + v * l.stride@[a] by {
        let y = x.insert(a, v);
        assert(y.remove(a) =~= x);
        lemma_cut_dot(y, l.stride@, a, n);
        assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] y[i] < l.shape@[i] by { if i < a { assert(0 <= x[i] < r.shape@[i]); } else if i > a { assert(0 <= x[i - 1] < r.shape@[i - 1]); } }
    }
    assert forall|y: Seq<int>| in_range(y, l.shape@) implies in_range(#[trigger] y.remove(a), r.shape@) && y == y.remove(a).insert(a, y[a]) && l.addr(y) - l.offset == r.addr(y.remove(a)) - r.offset + y[a] * l.stride@[a] by {
        let x = y.remove(a);
        assert(x.insert(a, y[a]) =~= y);
        lemma_cut_dot(y, l.stride@, a, n);
        assert forall|i: int| 0 <= i < x.len() implies 0 <= #[trigger] x[i] < r.shape@[i] by { if i < a { assert(0 <= y[i] < l.shape@[i]); } else { assert(0 <= y[i + 1] < l.shape@[i + 1]); } }
    }
}
pub proof fn lemma_term(d: int, s: int, v: int)
    requires 0 <= v < d,
    ensures cn(d, s) <= v * s <= cp(d, s), cn(d, s) <= 0 <= cp(d, s),
{
    if s > 0 { assert(0 <= v * s <= s * (d - 1)) by (nonlinear_arith) requires 0 <= v < d, s > 0; }
    else { assert(s * (d - 1) <= v * s <= 0) by (nonlinear_arith) requires 0 <= v < d, s <= 0; }
}
/// what a cut keeps; `grow`: conversely, what inserting an axis of length 1 keeps
pub proof fn lemma_cut_machine(l: Layout, r: Layout, a: int)
    requires is_cut(l, r, a), l.shape@[a] > 0, l.fits(), l.size_fits(), r.offset + ext_pos(r.shape@, r.stride@, r.shape@.len() as int) < isize::MAX,
    ensures r.machine(), ext_neg(l.shape@, l.stride@, l.shape@.len() as int) == ext_neg(r.shape@, r.stride@, r.shape@.len() as int) + cn(l.shape@[a] as int, l.stride@[a] as int),
        ext_pos(l.shape@, l.stride@, l.shape@.len() as int) == ext_pos(r.shape@, r.stride@, r.shape@.len() as int) + cp(l.shape@[a] as int, l.stride@[a] as int),
{
    let n = l.shape@.len() as int;
    lemma_cut(l.shape@, l.stride@, a, n);
    lemma_term(l.shape@[a] as int, l.stride@[a] as int, 0);
    assert(forall|i: int| 0 <= i < a ==> r.shape@[i] == l.shape@[i] && r.stride@[i] == l.stride@[i]);
    assert(forall|i: int| a <= i < n - 1 ==> r.shape@[i] == l.shape@[i + 1] && r.stride@[i] == l.stride@[i + 1]);
    assert forall|k: int| 0 <= k <= n - 1 implies #[trigger] prod(r.shape@, k) <= isize::MAX by {
        if k <= a { lemma_same_prefix(l.shape@, l.stride@, r.shape@, r.stride@, k); assert(prod(l.shape@, k) <= isize::MAX); }
        else {
            lemma_cut(l.shape@, l.stride@, a, k + 1);
            assert(prod(l.shape@, k + 1) <= isize::MAX);
            let (p, q) = (prod(r.shape@, k), l.shape@[a] as int);
            assert(p <= isize::MAX) by (nonlinear_arith) requires p * q <= isize::MAX, q >= 1;
        }
    }
}
pub proof fn lemma_selected(l: Layout, r: Layout, a: int, v: int)
    requires selected(l, r, a, v), l.good(),
    ensures r.good(), r.lo() >= l.lo(), r.hi() <= l.hi(),
        forall|x: Seq<int>| in_range(x, r.shape@) ==> in_range(#[trigger] x.insert(a, v), l.shape@) && l.addr(x.insert(a, v)) == r.addr(x),
{
    lemma_term(l.shape@[a] as int, l.stride@[a] as int, v);
    lemma_cut(l.shape@, l.stride@, a, l.shape@.len() as int);
    lemma_cut_machine(l, r, a);
    lemma_cut_index(l, r, a);
    lemma_cut_strides(l.shape@, l.stride@, a);
    lemma_cut_nonempty(l.shape@, a);
    assert forall|x: Seq<int>| in_range(x, r.shape@) implies in_range(#[trigger] x.insert(a, v), l.shape@) && l.addr(x.insert(a, v)) == r.addr(x) by { }
}
/// r is l with one more axis of length 1
pub proof fn lemma_inserted(l: Layout, r: Layout, a: int)
    requires is_cut(r, l, a), r.shape@[a] == 1, r.stride@[a] > isize::MIN, r.offset == l.offset, l.good(), r.shape@.len() < isize::MAX,
    ensures r.good(), r.lo() == l.lo(), r.hi() == l.hi(),
        forall|y: Seq<int>| in_range(y, r.shape@) ==> in_range(#[trigger] y.remove(a), l.shape@) && y[a] == 0 && l.addr(y.remove(a)) == r.addr(y),
{
    let n = r.shape@.len() as int;
    lemma_cut(r.shape@, r.stride@, a, n);
    lemma_term(1, r.stride@[a] as int, 0);
    assert(cn(1, r.stride@[a] as int) == 0 && cp(1, r.stride@[a] as int) == 0) by { let s = r.stride@[a] as int; assert(s * (1 - 1) == 0); }
    lemma_cut_index(r, l, a);
    lemma_cut_strides(r.shape@, r.stride@, a);
    lemma_cut_nonempty(r.shape@, a);
    assert(forall|i: int| 0 <= i < a ==> r.shape@[i] == l.shape@[i] && r.stride@[i] == l.stride@[i]);
    assert(forall|i: int| a < i < n ==> r.shape@[i] == l.shape@[i - 1] && r.stride@[i] == l.stride@[i - 1]);
    assert forall|k: int| 0 <= k <= n implies #[trigger] prod(r.shape@, k) <= isize::MAX by {
        if k <= a { lemma_same_prefix(r.shape@, r.stride@, l.shape@, l.stride@, k); assert(prod(l.shape@, k) <= isize::MAX); }
        else { lemma_cut(r.shape@, r.stride@, a, k); assert(prod(l.shape@, k - 1) <= isize::MAX); }
    }
    assert forall|y: Seq<int>| in_range(y, r.shape@) implies in_range(#[trigger] y.remove(a), l.shape@) && y[a] == 0 && l.addr(y.remove(a)) == r.addr(y) by {
        assert(0 <= y[a] < r.shape@[a]);
        assert(y[a] * r.stride@[a] == 0) by (nonlinear_arith) requires y[a] == 0;
    }
}
pub fn vx_lsame(l: Layout) -> (r: Result<Layout>)
    ensures r is Ok, r->Ok_0 == l,
{ Ok(l) }
impl Layout {
    //@fn rstsr-common/src/layout/indexer.rs :: impl IndexerSmallerOneAPI for Layout<D> :: dim_select
    //@opt arg:axis
    //@calls .into_dim=vx_lsame
    //@requires
        self.good(),
    //@ensures
        r is Ok <==> axis_ok(vx_axis as int, self.shape@.len() as int) && axis_ok(index as int, self.shape@[axis_norm(vx_axis as int, self.shape@.len() as int)] as int),
        r is Ok ==> ({
            let l = r->Ok_0; let a = axis_norm(vx_axis as int, self.shape@.len() as int); let v = axis_norm(index as int, self.shape@[a] as int);
            &&& l.good()
            &&& selected(*self, l, a, v)
            &&& forall|x: Seq<int>| in_range(x, l.shape@) ==> in_range(#[trigger] x.insert(a, v), self.shape@) && l.addr(x) == self.addr(x.insert(a, v))
        }),
    //@at start
        let ghost n = self.shape@.len() as int;
        let ghost a = axis_norm(vx_axis as int, n);
        proof { lemma_ext_mono(self.shape@, self.stride@, 0, n); }
        let ghost v = axis_norm(index as int, self.shape@[a] as int);
    //@loop 0
            invariant
                self.good(), n == self.shape@.len(), a == axis_norm(vx_axis as int, n), axis_ok(vx_axis as int, n), shape@ == self.shape@, stride@ == self.stride@, 0 <= a < n, axis == a, v == axis_norm(index as int, self.shape@[a] as int), vx_n0 == n, 0 <= vx_i0 <= n,
                vx_i0 <= a ==> offset == self.offset && shape_new@ =~= self.shape@.take(vx_i0 as int) && stride_new@ =~= self.stride@.take(vx_i0 as int),
                vx_i0 > a ==> 0 <= v < self.shape@[a] && offset == self.offset + v * self.stride@[a] && shape_new@ =~= self.shape@.take(vx_i0 as int).remove(a) && stride_new@ =~= self.stride@.take(vx_i0 as int).remove(a),
            decreases n - vx_i0,
    //@at loop 0 top
            proof {
                if vx_i0 == a && axis_ok(index as int, self.shape@[a] as int) {
                    lemma_term(self.shape@[a] as int, self.stride@[a] as int, v);
                    lemma_cut(self.shape@, self.stride@, a, n);
                    lemma_ext_mono(self.shape@.remove(a), self.stride@.remove(a), 0, n - 1);
                    assert(self.stride@[a] * v == v * self.stride@[a]) by (nonlinear_arith);
                }
            }
    //@at let offset #1
        proof {
            assert(self.shape@.take(n) =~= self.shape@ && self.stride@.take(n) =~= self.stride@);
            lemma_cut(self.shape@, self.stride@, a, n);
            lemma_term(self.shape@[a] as int, self.stride@[a] as int, v);
            lemma_ext_mono(self.shape@.remove(a), self.stride@.remove(a), 0, n - 1);
            let g = Layout { shape: shape_new, stride: stride_new, offset };
            lemma_selected(*self, g, a, v);
        }
    //@end
    //@fn rstsr-common/src/layout/indexer.rs :: impl IndexerSmallerOneAPI for Layout<D> :: dim_eliminate
    //@calls .into_dim=vx_lsame
    //@requires
        self.good(),
    //@ensures
        r is Ok <==> axis_ok(axis as int, self.shape@.len() as int) && self.shape@[axis_norm(axis as int, self.shape@.len() as int)] == 1,
        r is Ok ==> ({
            let l = r->Ok_0; let a = axis_norm(axis as int, self.shape@.len() as int);
            &&& l.good()
            &&& selected(*self, l, a, 0)
            &&& forall|x: Seq<int>| in_range(x, l.shape@) ==> in_range(#[trigger] x.insert(a, 0), self.shape@) && l.addr(x) == self.addr(x.insert(a, 0))
        }),
    //@at before let layout
        proof {
            let n = self.shape@.len() as int;
            let g = Layout { shape, stride, offset };
            assert(0 * self.stride@[axis as int] == 0);
            assert(is_cut(*self, g, axis as int));
            lemma_selected(*self, g, axis as int, 0);
        }
    //@end
    //@fn rstsr-common/src/layout/indexer.rs :: impl IndexerSmallerOneAPI for Layout<D> :: dim_chop
    //@calls .into_dim=vx_lsame
    //@requires
        self.good(),
        // an axis of length 0: the layout without it must be one itself
        axis_ok(axis as int, self.shape@.len() as int) && self.shape@[axis_norm(axis as int, self.shape@.len() as int)] == 0 ==> prods_fit(self.shape@.remove(axis_norm(axis as int, self.shape@.len() as int))),
    //@ensures
        r is Ok ==> axis_ok(axis as int, self.shape@.len() as int) && is_cut(*self, r->Ok_0, axis_norm(axis as int, self.shape@.len() as int)) && r->Ok_0.offset == self.offset && r->Ok_0.machine() && r->Ok_0.accepted(),
        axis_ok(axis as int, self.shape@.len() as int) && self.shape@[axis_norm(axis as int, self.shape@.len() as int)] > 0 ==> r is Ok && r->Ok_0.good() && selected(*self, r->Ok_0, axis_norm(axis as int, self.shape@.len() as int), 0),
    //@at before let layout
        proof {
            let n = self.shape@.len() as int;
            let g = Layout { shape, stride, offset };
            assert(0 * self.stride@[axis as int] == 0);
            assert(is_cut(*self, g, axis as int));
            if self.shape@[axis as int] > 0 { lemma_selected(*self, g, axis as int, 0); }
            else {
                lemma_cut(self.shape@, self.stride@, axis as int, n);
                assert(cn(0, self.stride@[axis as int] as int) == 0 && cp(0, self.stride@[axis as int] as int) == 0);
                assert(forall|i: int| 0 <= i < axis ==> g.shape@[i] == self.shape@[i] && g.stride@[i] == self.stride@[i]);
                assert(forall|i: int| axis <= i < n - 1 ==> g.shape@[i] == self.shape@[i + 1] && g.stride@[i] == self.stride@[i + 1]);
            }
        }
    //@end
    //@fn rstsr-common/src/layout/indexer.rs :: impl IndexerLargerOneAPI for Layout<D> :: dim_insert
    //@calls .into_dim=vx_lsame
    //@requires
        self.good(), self.shape@.len() + 1 < isize::MAX,
    //@ensures
        r is Ok <==> axis_ok(axis as int, self.shape@.len() as int + 1),
        r is Ok ==> ({
            let l = r->Ok_0; let a = axis_norm(axis as int, self.shape@.len() as int + 1);
            &&& l.good()
            &&& is_cut(l, *self, a) && l.shape@[a] == 1 && l.offset == self.offset
            &&& forall|y: Seq<int>| in_range(y, l.shape@) ==> in_range(#[trigger] y.remove(a), self.shape@) && y[a] == 0 && l.addr(y) == self.addr(y.remove(a))
        }),
    //@at before let layout
        proof {
            let g = Layout { shape, stride, offset };
            assert(shape@.remove(axis as int) =~= self.shape@ && stride@.remove(axis as int) =~= self.stride@);
            lemma_inserted(*self, g, axis as int);
        }
    //@end
}
