// C04: a list of indexers.
//@types Slice<isize>=Slice ; SliceI=Slice
#[derive(Clone, Copy)]
//@struct rstsr-common/src/layout/indexer.rs :: Indexer

pub open spec fn takes_axis(x: Indexer) -> bool { x is Slice || x is Select }
/// number of source axes the first n indexers consume
pub open spec fn axes_of(e: Seq<Indexer>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { axes_of(e, n - 1) + if takes_axis(e[n - 1]) { 1int } else { 0int } } }
pub open spec fn full() -> Indexer { Indexer::Slice(Slice { start: None, stop: None, step: None }) }
pub open spec fn fulls(m: int) -> Seq<Indexer> { Seq::new(m as nat, |i: int| full()) }
/// the ellipsis, written or at the end, stands for whole axes
pub open spec fn expand(e: Seq<Indexer>, nd: int) -> Seq<Indexer> {
    let m = nd - axes_of(e, e.len() as int);
    if exists|p: int| 0 <= p < e.len() && #[trigger] e[p] is Ellipsis {
        let p = choose|p: int| 0 <= p < e.len() && #[trigger] e[p] is Ellipsis;
        e.take(p) + fulls(m) + e.skip(p + 1)
    } else { e + fulls(m) }
}
pub open spec fn one_ellipsis(e: Seq<Indexer>) -> bool {
    forall|p: int, q: int| 0 <= p < e.len() && 0 <= q < e.len() && #[trigger] e[p] is Ellipsis && #[trigger] e[q] is Ellipsis ==> p == q
}
pub open spec fn ok_at(e: Seq<Indexer>, sh: Seq<usize>, p: int) -> bool {
    match e[p] {
        Indexer::Slice(s) => step_of(s) != 0,
        Indexer::Select(v) => axis_ok(v as int, sh[axes_of(e, p)] as int),
        Indexer::Insert => true,
        Indexer::Ellipsis => false,
    }
}
/// every slice steps, every integer designates a position
pub open spec fn all_ok(e: Seq<Indexer>, sh: Seq<usize>) -> bool { forall|p: int| 0 <= p < e.len() ==> #[trigger] ok_at(e, sh, p) }
pub open spec fn indexable(e: Seq<Indexer>, sh: Seq<usize>) -> bool {
    one_ellipsis(e) && axes_of(e, e.len() as int) <= sh.len() && all_ok(expand(e, sh.len() as int), sh)
}
/// the source index an index of the result designates
pub open spec fn source_of(e: Seq<Indexer>, sh: Seq<usize>, x: Seq<int>) -> Seq<int>
    decreases e.len(),
{
    if e.len() == 0 { Seq::empty() } else {
        match e[0] {
            Indexer::Slice(s) => seq![pos_of(s, sh[0] as int, x[0])] + source_of(e.skip(1), sh.skip(1), x.skip(1)),
            Indexer::Select(v) => seq![axis_norm(v as int, sh[0] as int)] + source_of(e.skip(1), sh.skip(1), x),
            Indexer::Insert => source_of(e.skip(1), sh, x.skip(1)),
            Indexer::Ellipsis => Seq::empty(),
        }
    }
}
/// the result has one axis per slice, with exactly the taken positions, and one axis of length 1 per new axis
pub open spec fn shape_of(e: Seq<Indexer>, sh: Seq<usize>, rs: Seq<usize>) -> bool
    decreases e.len(),
{
    if e.len() == 0 { rs.len() == 0 } else {
        match e[0] {
            Indexer::Slice(s) => rs.len() > 0 && takes_exactly(s, sh[0] as int, rs[0] as int) && shape_of(e.skip(1), sh.skip(1), rs.skip(1)),
            Indexer::Select(v) => shape_of(e.skip(1), sh.skip(1), rs),
            Indexer::Insert => rs.len() > 0 && rs[0] == 1 && shape_of(e.skip(1), sh, rs.skip(1)),
            Indexer::Ellipsis => false,
        }
    }
}
pub open spec fn takes_exactly(s: Slice, n: int, m: int) -> bool { forall|k: int| 0 <= k < m <==> #[trigger] taken(s, n, k) }
/// l shows the axes of l0 below c untouched, and those from c on through e
pub open spec fn sliced(l0: Layout, l: Layout, e: Seq<Indexer>, c: int) -> bool {
    &&& l.good() && l.shape@.len() >= c && l0.shape@.len() >= c && c >= 0
    &&& l0.shape@.len() == l0.stride@.len()
    &&& l.shape@.take(c) == l0.shape@.take(c) && l.stride@.take(c) == l0.stride@.take(c)
    &&& shape_of(e, l0.shape@.skip(c), l.shape@.skip(c))
    &&& forall|z: Seq<int>| in_range(z, l.shape@) ==> #[trigger] shows(l0, l, e, c, z)
}
pub open spec fn shows(l0: Layout, l: Layout, e: Seq<Indexer>, c: int, z: Seq<int>) -> bool {
    let y = z.take(c) + source_of(e, l0.shape@.skip(c), z.skip(c));
    in_range(y, l0.shape@) && l.addr(z) == l0.addr(y)
}
pub open spec fn narrowed_at(l: Layout, l2: Layout, s: Slice, a: int) -> bool {
    &&& 0 <= a < l.shape@.len() && l2.shape@.len() == l.shape@.len() && l2.stride@.len() == l.stride@.len() && l.stride@.len() == l.shape@.len()
    &&& forall|i: int| 0 <= i < l.shape@.len() && i != a ==> l2.shape@[i] == l.shape@[i] && l2.stride@[i] == l.stride@[i]
    &&& takes_exactly(s, l.shape@[a] as int, l2.shape@[a] as int)
    &&& forall|idx: Seq<int>| in_range(idx, l2.shape@) ==> in_range(#[trigger] idx.update(a, pos_of(s, l.shape@[a] as int, idx[a])), l.shape@)
        && l2.addr(idx) == l.addr(idx.update(a, pos_of(s, l.shape@[a] as int, idx[a])))
}
pub proof fn lemma_slice_step(l0: Layout, l: Layout, l2: Layout, e: Seq<Indexer>, s: Slice, c: int)
    requires sliced(l0, l, e, c), l2.good(), c > 0, narrowed_at(l, l2, s, c - 1),
    ensures sliced(l0, l2, seq![Indexer::Slice(s)] + e, c - 1),
{
    let f = seq![Indexer::Slice(s)] + e;
    let a = c - 1;
    assert(f.skip(1) =~= e);
    assert(l.shape@.take(c)[a] == l0.shape@.take(c)[a]);
    assert(l2.shape@.take(a) =~= l0.shape@.take(a)) by { assert forall|i: int| 0 <= i < a implies l2.shape@[i] == l0.shape@[i] by { assert(l.shape@.take(c)[i] == l0.shape@.take(c)[i]); } }
    assert(l2.stride@.take(a) =~= l0.stride@.take(a)) by { assert forall|i: int| 0 <= i < a implies l2.stride@[i] == l0.stride@[i] by { assert(l.stride@.take(c)[i] == l0.stride@.take(c)[i]); } }
    assert(l0.shape@.skip(a).skip(1) =~= l0.shape@.skip(c));
    assert(l2.shape@.skip(a).skip(1) =~= l.shape@.skip(c));
    assert forall|z: Seq<int>| in_range(z, l2.shape@) implies #[trigger] shows(l0, l2, f, a, z) by {
        let v = pos_of(s, l.shape@[a] as int, z[a]);
        let z2 = z.update(a, v);
        assert(in_range(z2, l.shape@) && shows(l0, l, e, c, z2));
        assert(z.skip(a).skip(1) =~= z2.skip(c));
        assert(z.skip(a)[0] == z[a]);
        assert(z2.take(c) + source_of(e, l0.shape@.skip(c), z2.skip(c)) =~= z.take(a) + source_of(f, l0.shape@.skip(a), z.skip(a)));
    }
}
pub proof fn lemma_select_step(l0: Layout, l: Layout, l2: Layout, e: Seq<Indexer>, v: isize, c: int)
    requires sliced(l0, l, e, c), l2.good(), c > 0, l.shape@.len() == l.stride@.len(), selected(l, l2, c - 1, axis_norm(v as int, l.shape@[c - 1] as int)),
        forall|x: Seq<int>| in_range(x, l2.shape@) ==> in_range(#[trigger] x.insert(c - 1, axis_norm(v as int, l.shape@[c - 1] as int)), l.shape@) && l2.addr(x) == l.addr(x.insert(c - 1, axis_norm(v as int, l.shape@[c - 1] as int))),
    ensures sliced(l0, l2, seq![Indexer::Select(v)] + e, c - 1),
{
    let f = seq![Indexer::Select(v)] + e;
    let a = c - 1;
    assert(f.skip(1) =~= e);
    assert(l.shape@.take(c)[a] == l0.shape@.take(c)[a]);
    let w = axis_norm(v as int, l.shape@[a] as int);
    assert(l2.shape@.take(a) =~= l0.shape@.take(a)) by { assert forall|i: int| 0 <= i < a implies l2.shape@[i] == l0.shape@[i] by { assert(l.shape@.take(c)[i] == l0.shape@.take(c)[i]); } }
    assert(l2.stride@.take(a) =~= l0.stride@.take(a)) by { assert forall|i: int| 0 <= i < a implies l2.stride@[i] == l0.stride@[i] by { assert(l.stride@.take(c)[i] == l0.stride@.take(c)[i]); } }
    assert(l0.shape@.skip(a).skip(1) =~= l0.shape@.skip(c));
    assert(l2.shape@.skip(a) =~= l.shape@.skip(c));
    assert forall|z: Seq<int>| in_range(z, l2.shape@) implies #[trigger] shows(l0, l2, f, a, z) by {
        let z2 = z.insert(a, w);
        assert(in_range(z2, l.shape@) && shows(l0, l, e, c, z2));
        assert(z.skip(a) =~= z2.skip(c));
        assert(z2.take(c) + source_of(e, l0.shape@.skip(c), z2.skip(c)) =~= z.take(a) + source_of(f, l0.shape@.skip(a), z.skip(a)));
    }
}
pub proof fn lemma_insert_step(l0: Layout, l: Layout, l2: Layout, e: Seq<Indexer>, c: int)
    requires sliced(l0, l, e, c), l2.good(), l.shape@.len() == l.stride@.len(), is_cut(l2, l, c), l2.shape@[c] == 1,
        forall|y: Seq<int>| in_range(y, l2.shape@) ==> in_range(#[trigger] y.remove(c), l.shape@) && y[c] == 0 && l2.addr(y) == l.addr(y.remove(c)),
    ensures sliced(l0, l2, seq![Indexer::Insert] + e, c),
{
    let f = seq![Indexer::Insert] + e;
    assert(f.skip(1) =~= e);
    assert(l2.shape@.take(c) =~= l0.shape@.take(c)) by { assert forall|i: int| 0 <= i < c implies l2.shape@[i] == l0.shape@[i] by { assert(l.shape@.take(c)[i] == l0.shape@.take(c)[i]); assert(l2.shape@.remove(c)[i] == l2.shape@[i]); } }
    assert(l2.stride@.take(c) =~= l0.stride@.take(c)) by { assert forall|i: int| 0 <= i < c implies l2.stride@[i] == l0.stride@[i] by { assert(l.stride@.take(c)[i] == l0.stride@.take(c)[i]); assert(l2.stride@.remove(c)[i] == l2.stride@[i]); } }
    assert(l2.shape@.skip(c).skip(1) =~= l2.shape@.remove(c).skip(c));
    assert forall|z: Seq<int>| in_range(z, l2.shape@) implies #[trigger] shows(l0, l2, f, c, z) by {
        let z2 = z.remove(c);
        assert(in_range(z2, l.shape@) && shows(l0, l, e, c, z2));
        assert(z.skip(c).skip(1) =~= z2.skip(c));
        assert(z2.take(c) =~= z.take(c));
        assert(source_of(f, l0.shape@.skip(c), z.skip(c)) == source_of(e, l0.shape@.skip(c), z2.skip(c)));
    }
}
pub proof fn lemma_good_len(l: Layout)
    requires l.good(),
    ensures l.shape@.len() == l.stride@.len(),
{}
pub proof fn lemma_sliced_start(l0: Layout, l: Layout, e: Seq<Indexer>)
    requires l0.good(), l.shape@ == l0.shape@, l.stride@ == l0.stride@, l.offset == l0.offset, e.len() == 0,
    ensures sliced(l0, l, e, l0.shape@.len() as int),
{
    assert(l.good());
    let n = l0.shape@.len() as int;
    assert forall|z: Seq<int>| in_range(z, l.shape@) implies #[trigger] shows(l0, l, e, n, z) by {
        assert(z.take(n) + source_of(e, l0.shape@.skip(n), z.skip(n)) =~= z);
    }
}
pub proof fn lemma_sliced_end(l0: Layout, l: Layout, e: Seq<Indexer>)
    requires sliced(l0, l, e, 0),
    ensures
        shape_of(e, l0.shape@, l.shape@),
        forall|x: Seq<int>| in_range(x, l.shape@) ==> in_range(#[trigger] source_of(e, l0.shape@, x), l0.shape@) && l.addr(x) == l0.addr(source_of(e, l0.shape@, x)),
{
    assert(l0.shape@.skip(0) =~= l0.shape@ && l.shape@.skip(0) =~= l.shape@);
    assert forall|x: Seq<int>| in_range(x, l.shape@) implies in_range(#[trigger] source_of(e, l0.shape@, x), l0.shape@) && l.addr(x) == l0.addr(source_of(e, l0.shape@, x)) by {
        assert(shows(l0, l, e, 0, x));
        assert(x.skip(0) =~= x);
        assert(x.take(0) + source_of(e, l0.shape@, x) =~= source_of(e, l0.shape@, x));
    }
}
pub proof fn lemma_axes_cat(a: Seq<Indexer>, b: Seq<Indexer>, n: int)
    requires 0 <= n <= b.len(),
    ensures axes_of(a + b, a.len() + n) == axes_of(a, a.len() as int) + axes_of(b, n),
    decreases n,
{
    if n > 0 { lemma_axes_cat(a, b, n - 1); assert((a + b)[a.len() + n - 1] == b[n - 1]); }
    else { lemma_axes_pre(a, b, a.len() as int); }
}
pub proof fn lemma_axes_pre(a: Seq<Indexer>, b: Seq<Indexer>, n: int)
    requires 0 <= n <= a.len(),
    ensures axes_of(a + b, n) == axes_of(a, n),
    decreases n,
{ if n > 0 { lemma_axes_pre(a, b, n - 1); assert((a + b)[n - 1] == a[n - 1]); } }
pub proof fn lemma_axes_fulls(m: int, n: int)
    requires 0 <= n <= m,
    ensures axes_of(fulls(m), n) == n,
    decreases n,
{ if n > 0 { lemma_axes_fulls(m, n - 1); assert(fulls(m)[n - 1] == full()); } }
pub proof fn lemma_axes_mono(e: Seq<Indexer>, i: int, n: int)
    requires 0 <= i <= n <= e.len(),
    ensures 0 <= axes_of(e, i) <= axes_of(e, n) <= n,
    decreases n,
{ if n > i { lemma_axes_mono(e, i, n - 1); } else if n > 0 { lemma_axes_mono(e, i - 1, n - 1); } }
/// the expanded list consumes every axis and has no ellipsis
pub proof fn lemma_expand(e: Seq<Indexer>, nd: int)
    requires one_ellipsis(e), axes_of(e, e.len() as int) <= nd,
    ensures ({
        let f = expand(e, nd);
        &&& axes_of(f, f.len() as int) == nd
        &&& f.len() <= e.len() + nd
        &&& forall|p: int| 0 <= p < f.len() ==> #[trigger] f[p] == full() || (!(f[p] is Ellipsis) && e.contains(f[p]))
    }),
{
    let f = expand(e, nd);
    let m = nd - axes_of(e, e.len() as int);
    lemma_axes_mono(e, 0, e.len() as int);
    lemma_axes_fulls(m, m);
    if exists|p: int| 0 <= p < e.len() && #[trigger] e[p] is Ellipsis {
        let p = choose|p: int| 0 <= p < e.len() && #[trigger] e[p] is Ellipsis;
        let (x, y) = (e.take(p), e.skip(p + 1));
        lemma_axes_cat(x, fulls(m), m);
        lemma_axes_cat(x + fulls(m), y, y.len() as int);
        let d = seq![e[p]];
        assert(axes_of(d, 1) == axes_of(d, 0) + 0);
        lemma_axes_cat(x, d, 1);
        lemma_axes_cat(x + d, y, y.len() as int);
        assert((x + d) + y =~= e);
        assert forall|q: int| 0 <= q < f.len() implies #[trigger] f[q] == full() || (!(f[q] is Ellipsis) && e.contains(f[q])) by {
            if q < p { assert(f[q] == e[q]); } else if q < p + m { assert(f[q] == fulls(m)[q - p]); } else { assert(f[q] == e[q - m + 1]); }
        }
    } else {
        lemma_axes_cat(e, fulls(m), m);
        assert forall|q: int| 0 <= q < f.len() implies #[trigger] f[q] == full() || (!(f[q] is Ellipsis) && e.contains(f[q])) by {
            if q < e.len() { assert(f[q] == e[q]); } else { assert(f[q] == fulls(m)[q - e.len()]); }
        }
    }
}
pub open spec fn ellipsis_in(o: Option<usize>, xs: Seq<Indexer>, n: int) -> bool {
    match o {
        None => forall|p: int| 0 <= p < n ==> !(#[trigger] xs[p] is Ellipsis),
        Some(q) => q < n && xs[q as int] is Ellipsis && forall|p: int| 0 <= p < n && #[trigger] xs[p] is Ellipsis ==> p == q,
    }
}
/// steps for which the index arithmetic stays in machine range
pub open spec fn steps_fit(l: Layout, x: Indexer) -> bool {
    match x {
        Indexer::Slice(s) => -0x4000_0000_0000_0000 < step_of(s) < 0x4000_0000_0000_0000 && forall|i: int| 0 <= i < l.stride@.len() ==> isize::MIN < #[trigger] l.stride@[i] * step_of(s) <= isize::MAX,
        _ => true,
    }
}
impl Layout {
    //@fn rstsr-common/src/layout/indexer.rs :: impl IndexerDynamicAPI for Layout<D> :: dim_slice
    //@opt arg:indexers
    //@param indexers=&Vec<Indexer>
    //@calls .into=Indexer::Slice ; SliceI::new=Slice::new
    //@requires
        self.good(), 2 * self.shape@.len() + vx_indexers@.len() < isize::MAX - 1,
        forall|i: int| 0 <= i < self.shape@.len() ==> #[trigger] self.shape@[i] < 0x2000_0000_0000_0000,
        forall|i: int| 0 <= i < self.stride@.len() ==> isize::MIN < #[trigger] self.stride@[i],
        forall|p: int| 0 <= p < vx_indexers@.len() ==> steps_fit(*self, #[trigger] vx_indexers@[p]),
    //@ensures
        r is Ok <==> indexable(vx_indexers@, self.shape@),
        r is Ok ==> ({
            let l = r->Ok_0; let e = expand(vx_indexers@, self.shape@.len() as int);
            &&& l.good()
            &&& shape_of(e, self.shape@, l.shape@)
            &&& forall|x: Seq<int>| in_range(x, l.shape@) ==> in_range(#[trigger] source_of(e, self.shape@, x), self.shape@) && l.addr(x) == self.addr(source_of(e, self.shape@, x))
        }),
    //@at start
        hide(Layout::good); hide(in_range);
        let ghost xs = vx_indexers@;
        let ghost nd = self.shape@.len() as int;
        let ghost e = expand(xs, nd);
        proof {
            lemma_axes_mono(xs, 0, xs.len() as int);
            reveal(Layout::good);
            assert(Layout { shape: self.shape, stride: self.stride, offset: self.offset } == *self);
        }
    //@loop 0
            invariant
                indexers@ == xs, xs == vx_indexers@, vx_n0 == xs.len(), 0 <= vx_i0 <= vx_n0, counter_slice + counter_select == axes_of(xs, vx_i0 as int), counter_slice <= vx_i0, counter_select <= vx_i0, vx_n0 < isize::MAX,
                ellipsis_in(idx_ellipsis, xs, vx_i0 as int), nd == self.shape@.len(),
            decreases vx_n0 - vx_i0,
    //@loop 1
            invariant
                1 <= vx_i1 <= vx_n1, vx_n1 == n_ellipsis, indexers@.len() <= isize::MAX - vx_n1 + vx_i1, idx_ellipsis < xs.len(), indexers@ == xs.take(idx_ellipsis as int) + fulls(vx_i1 as int) + xs.skip(idx_ellipsis + 1),
            decreases vx_n1 - vx_i1,
    //@at loop 1 bottom
            proof { assert(indexers@ =~= xs.take(idx_ellipsis as int) + fulls(vx_i1 as int) + xs.skip(idx_ellipsis + 1)); }
    //@loop 2
            invariant
                0 <= vx_i2 <= vx_n2, vx_n2 == n_ellipsis, indexers@ == xs + fulls(vx_i2 as int),
            decreases vx_n2 - vx_i2,
    //@at loop 2 bottom
            proof { assert(indexers@ =~= xs + fulls(vx_i2 as int)); }
    //@loop 3
            invariant
                nd == self.shape@.len(), 2 * nd + xs.len() < isize::MAX - 1, indexers@ == e, e == expand(xs, nd), xs == vx_indexers@, self.shape@.len() == self.stride@.len(),
                one_ellipsis(xs), axes_of(xs, xs.len() as int) <= nd,
                forall|p: int| 0 <= p < e.len() ==> !(#[trigger] e[p] is Ellipsis) && steps_fit(*self, e[p]),
                forall|i: int| 0 <= i < self.shape@.len() ==> #[trigger] self.shape@[i] < 0x2000_0000_0000_0000,
                forall|p: int| vx_i3 <= p < e.len() ==> ok_at(e, self.shape@, p), vx_n3 == 0, 0 <= vx_i3 <= e.len(), e.len() <= xs.len() + nd, cur_dim == axes_of(e, vx_i3 as int), cur_dim >= 0,
                layout.shape@.len() <= nd + e.len() - vx_i3,
                sliced(*self, layout, e.skip(vx_i3 as int), cur_dim as int),
            decreases vx_i3,
    //@at loop 0 top
            proof {
                lemma_axes_mono(xs, 0, vx_i0 + 1);
                if xs[vx_i0 as int] is Ellipsis && idx_ellipsis is Some { assert(!one_ellipsis(xs)); }
            }
    //@at loop 3 top
            let ghost p = vx_i3 - 1;
            let ghost l1 = layout;
            proof {
                lemma_axes_mono(e, 0, p); lemma_axes_mono(e, p, e.len() as int);
                assert(e.skip(p) =~= seq![e[p]] + e.skip(p + 1));
                lemma_good_len(layout);
                if takes_axis(e[p]) {
                    let a = cur_dim - 1;
                    assert(layout.shape@.take(a + 1)[a] == self.shape@.take(a + 1)[a]);
                    assert(layout.stride@.take(a + 1)[a] == self.stride@.take(a + 1)[a]);
                    assert(layout.shape@[a] == self.shape@[a] && layout.stride@[a] == self.stride@[a]);
                    assert(ok_at(e, self.shape@, p) || !all_ok(e, self.shape@));
                }
            }
    //@at after layout = layout.dim_narrow(cur_dim, * slice)?
            proof {
                lemma_good_len(layout);
                assert(narrowed_at(l1, layout, *slice, cur_dim as int)) by {
                    assert(takes_exactly(*slice, l1.shape@[cur_dim as int] as int, layout.shape@[cur_dim as int] as int));
                }
                lemma_slice_step(*self, l1, layout, e.skip(p + 1), *slice, cur_dim + 1);
            }
    //@at after layout = layout.dim_select(cur_dim, * index)?
            proof { lemma_select_step(*self, l1, layout, e.skip(p + 1), *index, cur_dim + 1); }
    //@at after layout = layout.dim_insert(cur_dim)?
            proof { lemma_insert_step(*self, l1, layout, e.skip(p + 1), cur_dim as int); }
    //@at before return Ok(layout)
        proof { assert(e.skip(0) =~= e); lemma_sliced_end(*self, layout, e); }
    //@at before let mut cur_dim
        proof {
            lemma_expand(xs, nd);
            if exists|p: int| 0 <= p < xs.len() && #[trigger] xs[p] is Ellipsis { assert(fulls(0) =~= Seq::<Indexer>::empty()); assert(xs.take(idx_ellipsis->Some_0 as int) + fulls(n_ellipsis as int) + xs.skip(idx_ellipsis->Some_0 + 1) =~= indexers@); }
            assert(indexers@ =~= e);
            lemma_sliced_start(*self, layout, e.skip(e.len() as int));
        }
    //@end
}
