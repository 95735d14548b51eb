// C04: slices, integers and new axes address exactly the selected elements.
//@types T=isize ; SliceI=Slice ; Slice<T>=Slice
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@struct rstsr-common/src/layout/slice.rs :: Slice

pub open spec fn clip(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
/// first position taken, and the exclusive end, by the usual rules
pub open spec fn py_start(o: Option<isize>, n: int, step: int) -> int {
    let (lo, hi) = if step > 0 { (0int, n) } else { (-1int, n - 1) };
    match o { None => if step > 0 { 0 } else { n - 1 }, Some(x) => clip(if x < 0 { x + n } else { x as int }, lo, hi) }
}
pub open spec fn py_stop(o: Option<isize>, n: int, step: int) -> int {
    let (lo, hi) = if step > 0 { (0int, n) } else { (-1int, n - 1) };
    match o { None => if step > 0 { n } else { -1 }, Some(x) => clip(if x < 0 { x + n } else { x as int }, lo, hi) }
}
pub open spec fn step_of(s: Slice) -> int { match s.step { None => 1, Some(x) => x as int } }
/// k-th position of the slice, and whether it is taken
pub open spec fn pos_of(s: Slice, n: int, k: int) -> int { py_start(s.start, n, step_of(s)) + k * step_of(s) }
pub open spec fn taken(s: Slice, n: int, k: int) -> bool {
    k >= 0 && if step_of(s) > 0 { pos_of(s, n, k) < py_stop(s.stop, n, step_of(s)) } else { pos_of(s, n, k) > py_stop(s.stop, n, step_of(s)) }
}

impl Slice {
    //@fn rstsr-common/src/layout/slice.rs :: impl Slice<T> :: start
    //@ensures
        r == self.start,
    //@end
    //@fn rstsr-common/src/layout/slice.rs :: impl Slice<T> :: stop
    //@ensures
        r == self.stop,
    //@end
    //@fn rstsr-common/src/layout/slice.rs :: impl Slice<T> :: step
    //@ensures
        r == self.step,
    //@end
    //@fn rstsr-common/src/layout/slice.rs :: impl Slice<T> :: new
    //@opt drop:into
    //@param start=Option<isize>
    //@param stop=Option<isize>
    //@param step=Option<isize>
    //@ensures
        r.start == start, r.stop == stop, r.step == step,
    //@end
}

//@include axes.rs
pub proof fn lemma_taken(slice: Slice, n: int, start: int, stop: int, m: int)
    requires
        n > 0, step_of(slice) != 0,
        ({
            let st = step_of(slice); let s = py_start(slice.start, n, st); let e = py_stop(slice.stop, n, st);
            if st > 0 {
                (if s >= e { start == 0 && stop == 0 } else { start == s && stop == e }) && m == (stop - start + st - 1) / st
            } else {
                (if s <= e { start == 0 && stop == 0 } else { start == s && stop == e }) && m == (start - stop - st - 1) / (-st)
            }
        }),
    ensures
        m >= 0,
        forall|k: int| 0 <= k < m <==> #[trigger] taken(slice, n, k),
        m == 0 ==> start == 0,
        m > 0 ==> start == py_start(slice.start, n, step_of(slice)) && 0 <= start < n && 0 <= start + (m - 1) * step_of(slice) < n,
{
    let st = step_of(slice); let t = iabs(st);
    let d = iabs(stop - start);
    assert(m == (d + t - 1) / t);
    assert(m * t <= d + t - 1 < (m + 1) * t && m >= 0) by (nonlinear_arith) requires m == (d + t - 1) / t, t > 0, d >= 0;
    assert forall|k: int| 0 <= k < m <==> #[trigger] taken(slice, n, k) by {
        if k >= 0 {
            assert(k * t >= 0) by (nonlinear_arith) requires k >= 0, t > 0;
            if k < m { assert(k * t <= (m - 1) * t && (m - 1) * t == m * t - t) by (nonlinear_arith) requires k < m, t > 0; }
            else { assert(k * t >= m * t && (m + 1) * t == m * t + t) by (nonlinear_arith) requires k >= m, t > 0; }
            assert(k * st == if st > 0 { k * t } else { -(k * t) }) by (nonlinear_arith) requires t == if st > 0 { st } else { -st };
        }
    }
    if m > 0 { assert(taken(slice, n, 0)); assert(taken(slice, n, m - 1)); assert(0 * st == 0);
        let k = m - 1;
        assert(k * t >= 0) by (nonlinear_arith) requires k >= 0, t > 0;
        assert(k * st == if st > 0 { k * t } else { -(k * t) }) by (nonlinear_arith) requires t == if st > 0 { st } else { -st };
    } else { assert(!taken(slice, n, 0)); assert(0 * st == 0); }
}
pub proof fn lemma_narrow_final(l: Layout, r: Layout, a: int, start: int, slice: Slice)
    requires
        narrows(l, r, a, start, step_of(slice)), l.good(), r.stride@[a] > isize::MIN,
        r.shape@[a] > 0 ==> start == py_start(slice.start, l.shape@[a] as int, step_of(slice)),
    ensures
        r.good(),
        forall|idx: Seq<int>| in_range(idx, r.shape@) ==> in_range(#[trigger] idx.update(a, pos_of(slice, l.shape@[a] as int, idx[a])), l.shape@)
            && r.addr(idx) == l.addr(idx.update(a, pos_of(slice, l.shape@[a] as int, idx[a]))),
{
    lemma_narrow(l, r, a, start, step_of(slice));
    assert forall|idx: Seq<int>| in_range(idx, r.shape@) implies in_range(#[trigger] idx.update(a, pos_of(slice, l.shape@[a] as int, idx[a])), l.shape@)
        && r.addr(idx) == l.addr(idx.update(a, pos_of(slice, l.shape@[a] as int, idx[a]))) by {
        assert(0 <= idx[a] < r.shape@[a]);
        let j = idx.update(a, start + idx[a] * step_of(slice));
        assert(in_range(j, l.shape@));
    }
}

pub proof fn lemma_no_index(idx: Seq<int>, sh: Seq<usize>, a: int)
    requires 0 <= a < sh.len(), sh[a] == 0,
    ensures !in_range(idx, sh),
{ if in_range(idx, sh) { let x = idx[a]; assert(0 <= x < sh[a]); } }
/// taking every position is the identity; no position of an empty axis is taken
pub proof fn lemma_whole(l: Layout, a: int, slice: Slice)
    requires 0 <= a < l.shape@.len(), slice.start is None, slice.stop is None, slice.step is None,
    ensures
        forall|k: int| 0 <= k < l.shape@[a] <==> #[trigger] taken(slice, l.shape@[a] as int, k),
        forall|idx: Seq<int>| in_range(idx, l.shape@) ==> #[trigger] idx.update(a, pos_of(slice, l.shape@[a] as int, idx[a])) == idx,
{
    assert forall|idx: Seq<int>| in_range(idx, l.shape@) implies #[trigger] idx.update(a, pos_of(slice, l.shape@[a] as int, idx[a])) == idx by {
        assert(idx.update(a, pos_of(slice, l.shape@[a] as int, idx[a])) =~= idx);
    }
}
pub proof fn lemma_none(l: Layout, a: int, slice: Slice)
    requires 0 <= a < l.shape@.len(), l.shape@[a] == 0, step_of(slice) != 0,
    ensures
        forall|k: int| !#[trigger] taken(slice, 0, k),
        forall|idx: Seq<int>| !in_range(idx, l.shape@),
{
    let st = step_of(slice);
    assert forall|k: int| !#[trigger] taken(slice, 0, k) by {
        if k >= 0 { assert(st > 0 ==> k * st >= 0) by (nonlinear_arith) requires k >= 0; assert(st < 0 ==> k * st <= 0) by (nonlinear_arith) requires k >= 0; }
    }
    assert forall|idx: Seq<int>| !in_range(idx, l.shape@) by { lemma_no_index(idx, l.shape@, a); }
}

impl Layout {
    //@fn rstsr-common/src/layout/indexer.rs :: impl IndexerPreserveAPI for Layout<D> :: dim_narrow
    //@requires
        self.good(),
        -0x4000_0000_0000_0000 < step_of(slice) < 0x4000_0000_0000_0000,
        axis_ok(axis as int, self.shape@.len() as int) ==> self.shape@[axis_norm(axis as int, self.shape@.len() as int)] < 0x2000_0000_0000_0000
            && isize::MIN < self.stride@[axis_norm(axis as int, self.shape@.len() as int)] * step_of(slice) <= isize::MAX,
    //@ensures
        r is Err <==> !axis_ok(axis as int, self.shape@.len() as int) || step_of(slice) == 0,
        r is Ok ==> ({
            let l = r->Ok_0; let a = axis_norm(axis as int, self.shape@.len() as int); let n = self.shape@[a] as int;
            &&& l.good()
            &&& l.shape@.len() == self.shape@.len()
            &&& forall|i: int| 0 <= i < self.shape@.len() && i != a ==> l.shape@[i] == self.shape@[i]
            // exactly the taken positions ...
            &&& forall|k: int| 0 <= k < l.shape@[a] <==> #[trigger] taken(slice, n, k)
            // ... address the designated source elements
            &&& forall|idx: Seq<int>| in_range(idx, l.shape@) ==> in_range(#[trigger] idx.update(a, pos_of(slice, n, idx[a])), self.shape@)
                && l.addr(idx) == self.addr(idx.update(a, pos_of(slice, n, idx[a])))
            &&& l.stride@.len() == self.stride@.len() && (forall|i: int| 0 <= i < self.shape@.len() && i != a ==> l.stride@[i] == self.stride@[i])
            &&& n > 0 ==> l.stride@[a] == self.stride@[a] * step_of(slice)
            &&& l.shape@[a] > 0 ==> l.offset == self.offset + self.stride@[a] * py_start(slice.start, n, step_of(slice))
        }),
    //@at start
        hide(strides_ok); hide(prods_fit); hide(injective); hide(ext_pos); hide(ext_neg); hide(dot);
    //@at before let offset #0
        proof { lemma_axis_shift(*self, axis as int, start as int); }
    //@at before return Self::new(shape #0
        proof {
            let r0 = Layout { shape, stride, offset };
            lemma_taken(slice, len_prev as int, start as int, stop as int, shape@[axis as int] as int);
            lemma_narrow_final(*self, r0, axis as int, start as int, slice);
        }
    //@at before let offset #1
        proof { lemma_axis_shift(*self, axis as int, start as int); let x = -(stop - start + step + 1); let y = step as int; assert(-(x / y) == x / (-y)) by (nonlinear_arith) requires y < 0, x >= 0; }
    //@at before return Self::new(shape #1
        proof {
            let r0 = Layout { shape, stride, offset };
            lemma_taken(slice, len_prev as int, start as int, stop as int, shape@[axis as int] as int);
            lemma_narrow_final(*self, r0, axis as int, start as int, slice);
        }
    //@at before return Ok(self.clone()) #0
        proof { lemma_whole(*self, axis as int, slice); }
    //@at before return Ok(self.clone()) #1
        proof { lemma_none(*self, axis as int, slice); }
    //@end
}
