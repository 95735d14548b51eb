// C08: state of a layout iterator
impl Layout {
    /// machine range of the iterators: the spans of all axes, the lengths and the size are representable and
    /// no position is negative
    pub open spec fn roomy(&self) -> bool {
        &&& self.len_ok() && self.size_fits()
        &&& forall|i: int| 0 <= i < self.shape@.len() ==> #[trigger] self.shape@[i] <= isize::MAX
        &&& self.offset + span(self.shape@, self.stride@, self.shape@.len() as int) <= isize::MAX
        &&& !self.empty() ==> self.lo() >= 0
    }
    /// position of the k-th element of the walk
    pub open spec fn elem(&self, c: bool, k: int) -> int { self.offset + dd(unrank(c, self.shape@, k), self.stride@) }
    pub proof fn lemma_roomy_part(&self, a: Seq<usize>)
        requires self.roomy(), a.len() == self.shape@.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] <= self.shape@[i],
        ensures self.part_fits(idx_ints(a)), idx_ints(a) == ints(a),
    {
        let ix = ints(a); let s = self.shape@; let st = self.stride@; let n = s.len() as int;
        assert(idx_ints(a) =~= ix);
        lemma_span(s, st, n);
        assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] ix[i] <= s[i] by { assert(a[i] <= s[i]); }
        assert forall|k: int| 0 <= k <= n implies isize::MIN <= self.offset + #[trigger] dot(ix, st, k) <= isize::MAX by {
            lemma_dot_span(ix, s, st, k);
            lemma_span_mono(s, st, k, n);
        }
        assert forall|k: int| 0 <= k < n implies isize::MIN <= #[trigger] ix[k] * st[k] <= isize::MAX && 0 <= ix[k] <= isize::MAX by {
            assert(s[k] <= isize::MAX);
            let x = s[k] as int; let i = ix[k]; let t = st[k] as int; let p = span(s, st, n);
            assert(-p <= s[k] * st[k] <= p);
            assert(-p <= i * t <= p) by (nonlinear_arith) requires 0 <= i <= x, -p <= x * t <= p;
        }
    }
    pub proof fn lemma_elem_nonneg(&self, a: Seq<usize>)
        requires self.roomy(), in_shape(a, self.shape@),
        ensures 0 <= self.offset + dd(a, self.stride@) <= isize::MAX, self.addr(ints(a)) == self.offset + dd(a, self.stride@), in_range(ints(a), self.shape@),
    {
        let s = self.shape@; let n = s.len() as int;
        assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] ints(a)[i] < s[i] by { assert(a[i] < s[i]); }
        assert(nonempty(s)) by { assert forall|i: int| 0 <= i < n implies #[trigger] s[i] > 0 by { assert(a[i] < s[i]); } }
        lemma_dot_bounds(ints(a), s, self.stride@, n);
        lemma_dd_span(a, s, self.stride@);
    }
}
/// `off` and `a` are position and index number k of the walk (one past the last included)
pub open spec fn at(c: bool, l: Layout, a: Seq<usize>, off: int, k: int) -> bool {
    &&& semi(c, a, l.shape@)
    &&& off == l.offset + dd(a, l.stride@)
    &&& l.shape@.len() > 0 ==> rk(c, a, l.shape@) == k
}
pub proof fn lemma_at_elem(c: bool, l: Layout, a: Seq<usize>, off: int, k: int)
    requires l.roomy(), at(c, l, a, off, k), 0 <= k < size_of_shape(l.shape@),
    ensures in_shape(a, l.shape@), a == unrank(c, l.shape@, k), off == l.elem(c, k), 0 <= off <= isize::MAX,
{
    let s = l.shape@;
    if s.len() > 0 { lemma_semi(c, a, s); lemma_unrank_is(c, s, a); } else {
        assert(in_shape(a, s));
        lemma_unrank_is(c, s, a);
        assert(rk(c, a, s) == 0);
        assert(k == 0);
    }
    lemma_elem_nonneg_h(l, a);
}
pub proof fn lemma_elem_nonneg_h(l: Layout, a: Seq<usize>)
    requires l.roomy(), in_shape(a, l.shape@),
    ensures 0 <= l.offset + dd(a, l.stride@) <= isize::MAX,
{ l.lemma_elem_nonneg(a); }
pub proof fn lemma_size_pos(s: Seq<usize>)
    requires size_of_shape(s) > 0,
    ensures nonempty(s), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] > 0,
{
    lemma_prod_zero(s, s.len() as int);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] > 0 by {
        if s[i] == 0 { assert(exists|j: int| 0 <= j < s.len() && s[j] == 0); }
    }
}
/// facts used by the index updates of the iterators
pub open spec fn iter_facts(c: bool, l: Layout) -> bool {
    let n = l.shape@.len() as int; let p = span(l.shape@, l.stride@, n);
    &&& p >= 0 && l.offset + p <= isize::MAX
    &&& forall|i: int| 0 <= i < n ==> #[trigger] l.shape@[i] > 0
    &&& forall|i: int| 0 <= i < n ==> -p <= #[trigger] l.shape@[i] * l.stride@[i] <= p
    &&& forall|i: int| 0 <= i < n ==> -p <= #[trigger] l.stride@[i] <= p && -p <= (l.shape@[i] - 1) * l.stride@[i] <= p
    &&& forall|a: Seq<usize>| #![trigger dd(a, l.stride@)] a.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] a[i] <= l.shape@[i])
                ==> -p <= dd(a, l.stride@) <= p
}
pub proof fn lemma_iter_facts(c: bool, l: Layout)
    requires l.roomy(), size_of_shape(l.shape@) > 0,
    ensures walk_facts(c, l.shape@, l.stride@), nonempty(l.shape@), iter_facts(c, l),
{
    lemma_walk(c, l.shape@, l.stride@);
    lemma_size_pos(l.shape@);
    lemma_span(l.shape@, l.stride@, l.shape@.len() as int);
    lemma_spans(l.shape@, l.stride@);
}
/// walk position per carry: the product of the lengths of the i fastest axes
pub open spec fn cw(c: bool, s: Seq<usize>, i: int) -> int { if c { sprod(s, s.len() - i) } else { prod(s, i) } }
pub fn vx_to_usize(x: isize) -> (r: Result<usize>)
    ensures x >= 0 ==> r is Ok && r->Ok_0 == x, x < 0 ==> r is Err,
{ if x < 0 { Err(Error::TryFromIntError) } else { Ok(x as usize) } }
pub proof fn lemma_roomy_part_h(l: Layout, a: Seq<usize>)
    requires l.roomy(), a.len() == l.shape@.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] <= l.shape@[i],
    ensures l.part_fits(idx_ints(a)), idx_ints(a) == ints(a),
{ l.lemma_roomy_part(a); }
pub fn vx_asref(v: &Vec<usize>) -> (r: &[usize])
    ensures r@ == v@,
{ v.as_slice() }
pub open spec fn same_lay(a: Layout, b: Layout) -> bool { a.shape@ == b.shape@ && a.stride@ == b.stride@ && a.offset == b.offset }
pub open spec fn same_elem(a: Layout, b: Layout) -> bool { same_lay(a, b) && forall|c: bool, k: int| #[trigger] a.elem(c, k) == b.elem(c, k) }
/// the recorded calls are those of the column-major walk, in order
pub open spec fn rec1(f: Seq<usize>, la: Layout) -> bool { forall|k: int| 0 <= k < f.len() ==> #[trigger] f[k] == la.elem(false, k) }
pub open spec fn rec2(f: Seq<(usize, usize)>, la: Layout, lb: Layout) -> bool { forall|k: int| 0 <= k < f.len() ==> (#[trigger] f[k]).0 == la.elem(false, k) && f[k].1 == lb.elem(false, k) }
pub open spec fn rec3(f: Seq<(usize, usize, usize)>, la: Layout, lb: Layout, lc: Layout) -> bool {
    forall|k: int| 0 <= k < f.len() ==> (#[trigger] f[k]).0 == la.elem(false, k) && f[k].1 == lb.elem(false, k) && f[k].2 == lc.elem(false, k)
}
pub open spec fn lsize(l: Layout) -> int { size_of_shape(l.shape@) }

