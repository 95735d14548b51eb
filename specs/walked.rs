// Effect of writing along a walk of the destination.
/// every element of the layout lies inside a storage of the given length
pub open spec fn within(l: Layout, len: int) -> bool { forall|ix: Seq<int>| in_range(ix, l.shape@) ==> 0 <= #[trigger] l.addr(ix) < len }
/// no axis of the destination repeats elements
pub open spec fn unrepeated(l: Layout) -> bool { forall|i: int| 0 <= i < l.shape@.len() ==> #[trigger] l.stride@[i] != 0 || l.shape@[i] <= 1 }
pub open spec fn operand(l: Layout, len: int) -> bool { ready(l) && tame(l) && within(l, len) }
pub open spec fn dest(l: Layout, len: int) -> bool { operand(l, len) && unrepeated(l) && injective(l) }
pub open spec fn untouched<C>(c0: Seq<C>, c: Seq<C>, l: Layout) -> bool {
    c.len() == c0.len() && forall|pos: int| 0 <= pos < c.len() && !#[trigger] addressed(l, pos) ==> c[pos] == c0[pos]
}
pub open spec fn addressed(l: Layout, pos: int) -> bool { exists|ix: Seq<int>| in_range(ix, l.shape@) && #[trigger] l.addr(ix) == pos }
/// c holds w(ix) at every multi-index ix of l, and is otherwise c0
pub open spec fn mapped<C>(c0: Seq<C>, c: Seq<C>, l: Layout, w: spec_fn(Seq<int>) -> C) -> bool {
    &&& untouched(c0, c, l)
    &&& forall|ix: Seq<int>| in_range(ix, l.shape@) ==> c[#[trigger] l.addr(ix)] == w(ix)
}
pub open spec fn hit(f: Layout, m: int, pos: int) -> bool { exists|k: int| 0 <= k < m && #[trigger] f.elem(false, k) == pos }
pub open spec fn stepval<C>(s: Seq<usize>, p: Seq<usize>, w: spec_fn(Seq<int>) -> C, k: int) -> C { w(widx(s, p, k)) }
/// state after m steps of the walk f of l
pub open spec fn done<C>(c0: Seq<C>, c: Seq<C>, l: Layout, f: Layout, p: Seq<usize>, w: spec_fn(Seq<int>) -> C, m: int) -> bool {
    &&& c.len() == c0.len()
    &&& forall|k: int| 0 <= k < m ==> c[#[trigger] f.elem(false, k)] == stepval(l.shape@, p, w, k)
    &&& forall|pos: int| 0 <= pos < c.len() && !#[trigger] hit(f, m, pos) ==> c[pos] == c0[pos]
}
pub open spec fn walk_of(l: Layout, f: Layout, p: Seq<usize>, len: int) -> bool {
    &&& walks_all(l, f, p) && tame(f) && machine_of(f) && within(l, len) && f.shape@ == pshape(l.shape@, p) && lsize(f) == lsize(l) && l.empty() == f.empty()
}
/// the position of a step lies inside the storage
pub proof fn lemma_step_in(l: Layout, f: Layout, p: Seq<usize>, len: int, k: int)
    requires walk_of(l, f, p, len), 0 <= k < lsize(f),
    ensures 0 <= f.elem(false, k) < len, f.elem(false, k) == l.addr(widx(l.shape@, p, k)), in_range(widx(l.shape@, p, k), l.shape@),
{ assert(in_range(widx(l.shape@, p, k), l.shape@)); }
pub proof fn lemma_walk_of(l: Layout, f: Layout, p: Seq<usize>, len: int)
    requires operand(l, len), permuted(l, f, p),
    ensures walk_of(l, f, p, len),
{ lemma_walks(l, f, p); lemma_perm_tame(l, f, p); }
pub proof fn lemma_distinct_steps(l: Layout, f: Layout, p: Seq<usize>, len: int)
    requires walk_of(l, f, p, len), unrepeated(l), injective(l),
    ensures forall|i: int, j: int| 0 <= i < lsize(l) && 0 <= j < lsize(l) && #[trigger] f.elem(false, i) == #[trigger] f.elem(false, j) ==> i == j,
{
    assert forall|i: int, j: int| 0 <= i < lsize(l) && 0 <= j < lsize(l) && #[trigger] f.elem(false, i) == #[trigger] f.elem(false, j) implies i == j by {
        let a = widx(l.shape@, p, i); let b = widx(l.shape@, p, j);
        lemma_step_in(l, f, p, len, i); lemma_step_in(l, f, p, len, j);
        assert forall|k: int| 0 <= k < l.shape@.len() && l.stride@[k] == 0 implies a[k] == b[k] by { assert(0 <= a[k] < l.shape@[k] && 0 <= b[k] < l.shape@[k]); }
        assert(l.addr(a) == l.addr(b));
        assert(a =~= b);
        assert(kpos(l.shape@, p, widx(l.shape@, p, i)) == i && kpos(l.shape@, p, widx(l.shape@, p, j)) == j);
    }
}
pub proof fn lemma_done_start<C>(c0: Seq<C>, l: Layout, f: Layout, p: Seq<usize>, w: spec_fn(Seq<int>) -> C)
    ensures done(c0, c0, l, f, p, w, 0),
{ }
/// one write
pub proof fn lemma_done_step<C>(c0: Seq<C>, c: Seq<C>, l: Layout, f: Layout, p: Seq<usize>, w: spec_fn(Seq<int>) -> C, m: int)
    requires done(c0, c, l, f, p, w, m), walk_of(l, f, p, c0.len() as int), unrepeated(l), injective(l), 0 <= m < lsize(f),
    ensures 0 <= f.elem(false, m) < c.len(), c[f.elem(false, m)] == c0[f.elem(false, m)], done(c0, c.update(f.elem(false, m), stepval(l.shape@, p, w, m)), l, f, p, w, m + 1),
{
    let pos = f.elem(false, m);
    lemma_step_in(l, f, p, c0.len() as int, m);
    lemma_distinct_steps(l, f, p, c0.len() as int);
    assert(!hit(f, m, pos)) by { if hit(f, m, pos) { let k = choose|k: int| 0 <= k < m && #[trigger] f.elem(false, k) == pos; assert(k == m); } }
    let d = c.update(pos, stepval(l.shape@, p, w, m));
    assert forall|k: int| 0 <= k < m + 1 implies d[#[trigger] f.elem(false, k)] == stepval(l.shape@, p, w, k) by {
        lemma_step_in(l, f, p, c0.len() as int, k);
        if k < m { assert(f.elem(false, k) != pos); }
    }
    assert forall|q: int| 0 <= q < d.len() && !#[trigger] hit(f, m + 1, q) implies d[q] == c0[q] by {
        assert(!hit(f, m, q)) by { if hit(f, m, q) { let k = choose|k: int| 0 <= k < m && #[trigger] f.elem(false, k) == q; assert(0 <= k < m + 1 && f.elem(false, k) == q); } }
        assert(q != pos);
    }
}
pub proof fn lemma_done_end<C>(c0: Seq<C>, c: Seq<C>, l: Layout, f: Layout, p: Seq<usize>, w: spec_fn(Seq<int>) -> C)
    requires done(c0, c, l, f, p, w, lsize(f)), walk_of(l, f, p, c0.len() as int),
    ensures mapped(c0, c, l, w),
{
    assert forall|pos: int| 0 <= pos < c.len() && !#[trigger] addressed(l, pos) implies c[pos] == c0[pos] by {
        assert(!hit(f, lsize(f), pos)) by {
            if hit(f, lsize(f), pos) {
                let k = choose|k: int| 0 <= k < lsize(f) && #[trigger] f.elem(false, k) == pos;
                lemma_step_in(l, f, p, c0.len() as int, k);
            }
        }
    }
    assert forall|ix: Seq<int>| in_range(ix, l.shape@) implies c[#[trigger] l.addr(ix)] == w(ix) by {
        let k = kpos(l.shape@, p, ix);
        assert(0 <= k < lsize(l) && f.elem(false, k) == l.addr(ix) && widx(l.shape@, p, k) == ix);
        assert(c[f.elem(false, k)] == stepval(l.shape@, p, w, k));
    }
}
/// the leading axes of f form one block of S consecutive positions for every step of k
pub open spec fn blocks(f: Layout, k: Layout, d: int, s: int) -> bool {
    dropped(f, k, d) && f_contig_to(f.shape@, f.stride@, d) && s == prod(f.shape@, d) && tame(k) && s >= 1 && lsize(f) == s * lsize(k) && !f.empty() && f.len_ok() && k.shape@.len() == f.shape@.len() - d
}
pub proof fn lemma_blocks(f: Layout, k: Layout, d: int)
    requires tame(f), dropped(f, k, d), f_contig_to(f.shape@, f.stride@, d), !f.empty(),
    ensures blocks(f, k, d, prod(f.shape@, d)),
{ lemma_dropped_tame(f, k, d); }
pub proof fn lemma_in_block(f: Layout, k: Layout, d: int, s: int, o: int, i: int)
    requires blocks(f, k, d, s), 0 <= o < lsize(k), 0 <= i < s,
    ensures f.elem(false, o * s + i) == k.elem(false, o) + i, 0 <= o * s + i < lsize(f),
{ lemma_block(f, k, d, o, i); }
pub open spec fn msize(s: Seq<usize>) -> int { size_of_shape(s) }
/// three layouts of one shape, rearranged alike
pub open spec fn walk3(lc: Layout, la: Layout, lb: Layout, fc: Layout, fa: Layout, fb: Layout, p: Seq<usize>, nc: int, na: int, nb: int) -> bool {
    walk_of(lc, fc, p, nc) && walk_of(la, fa, p, na) && walk_of(lb, fb, p, nb) && lc.shape@ == la.shape@ && lc.shape@ == lb.shape@
}
pub open spec fn walk2(lc: Layout, la: Layout, fc: Layout, fa: Layout, p: Seq<usize>, nc: int, na: int) -> bool {
    walk_of(lc, fc, p, nc) && walk_of(la, fa, p, na) && lc.shape@ == la.shape@
}

pub proof fn lemma_debc(g: Layout, f: Layout, n: int)
    requires debroadcast(g, f), unrepeated(g), g.len_ok(), !g.empty(), 0 <= n <= g.shape@.len(),
    ensures f.shape@ == g.shape@, 0 <= span(f.shape@, f.stride@, n) <= span(g.shape@, g.stride@, n),
        ext_neg(f.shape@, f.stride@, n) == ext_neg(g.shape@, g.stride@, n), ext_pos(f.shape@, f.stride@, n) == ext_pos(g.shape@, g.stride@, n),
        forall|ix: Seq<int>| in_range(ix, g.shape@) ==> #[trigger] dot(ix, f.stride@, n) == dot(ix, g.stride@, n),
    decreases n,
{
    assert forall|i: int| 0 <= i < g.shape@.len() implies f.shape@[i] == g.shape@[i] by { assert(g.stride@[i] != 0 || g.shape@[i] <= 1); assert(g.shape@[i] > 0); assert(f.shape@[i] == bc_len(g, i)); }
    assert(f.shape@ =~= g.shape@);
    if n > 0 {
        lemma_debc(g, f, n - 1);
        let i = n - 1; let x = g.shape@[i] as int; let t = g.stride@[i] as int; let u = f.stride@[i] as int;
        assert(f.shape@[i] == bc_len(g, i) && f.stride@[i] == bc_step(g, i));
        assert(x > 0);
        let mt = if t < 0 { -t } else { t };
        assert(x * mt >= 0 && x * 0 == 0 && t * 0 == 0 && 0 * 0 == 0) by (nonlinear_arith) requires x > 0, mt >= 0;
        assert forall|ix: Seq<int>| in_range(ix, g.shape@) implies #[trigger] dot(ix, f.stride@, n) == dot(ix, g.stride@, n) by {
            assert(0 <= ix[i] < x);
            assert(dot(ix, f.stride@, n - 1) == dot(ix, g.stride@, n - 1));
            if x == 1 { assert(ix[i] * u == 0 && ix[i] * t == 0) by (nonlinear_arith) requires ix[i] == 0; }
        }
    }
}
/// the walk that visits repeated axes once, of a destination that has none
pub proof fn lemma_walk_once(l: Layout, f: Layout, len: int) -> (p: Seq<usize>)
    requires operand(l, len), unrepeated(l), unary_of(l, f, TensorIterOrder::G),
    ensures walk_of(l, f, p, len),
{
    let n = l.shape@.len() as int;
    if l.empty() {
        lemma_iperm(l, f);
        lemma_walk_of(l, f, iperm(n), len);
        iperm(n)
    } else {
        let p = choose|p: Seq<usize>| #[trigger] once(l, f, p);
        let g = choose|g: Layout| #[trigger] permuted(l, g, p) && debroadcast(g, f);
        lemma_walk_of(l, g, p, len);
        assert(unrepeated(g)) by {
            assert forall|i: int| 0 <= i < g.shape@.len() implies #[trigger] g.stride@[i] != 0 || g.shape@[i] <= 1 by { assert(g.stride@[i] == l.stride@[p[i] as int] && g.shape@[i] == l.shape@[p[i] as int]); assert(p[i] < n); }
        }
        lemma_debc(g, f, n);
        assert forall|k: int| 0 <= k < lsize(g) implies #[trigger] f.elem(false, k) == g.elem(false, k) by {
            lemma_unrank(false, g.shape@, k);
            let a = unrank(false, g.shape@, k);
            assert(in_range(ints(a), g.shape@)) by { assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] ints(a)[i] < g.shape@[i] by { assert(a[i] < g.shape@[i]); } }
        }
        assert forall|k: int| 0 <= k < lsize(l) implies in_range(#[trigger] widx(l.shape@, p, k), l.shape@) && f.elem(false, k) == l.addr(widx(l.shape@, p, k)) && kpos(l.shape@, p, widx(l.shape@, p, k)) == k by {
            assert(g.elem(false, k) == l.addr(widx(l.shape@, p, k)));
        }
        assert forall|ix: Seq<int>| in_range(ix, l.shape@) implies 0 <= #[trigger] kpos(l.shape@, p, ix) < lsize(l) && f.elem(false, kpos(l.shape@, p, ix)) == l.addr(ix) && widx(l.shape@, p, kpos(l.shape@, p, ix)) == ix by {
            assert(g.elem(false, kpos(l.shape@, p, ix)) == l.addr(ix));
        }
        assert forall|i: int| 0 <= i < f.stride@.len() implies #[trigger] f.stride@[i] > isize::MIN by { assert(f.shape@[i] == bc_len(g, i) && f.stride@[i] == bc_step(g, i)); assert(g.stride@[i] > isize::MIN); }
        p
    }
}
pub struct MaybeUninit<T>(T);
pub open spec fn refs_of(r: Seq<&Layout>, ls: Seq<Layout>, n: int) -> bool { r.len() == n && n <= ls.len() && forall|j: int| 0 <= j < n ==> *#[trigger] r[j] == ls[j] }
