// tril / triu: which positions of a buffer are cleared.
pub uninterp spec fn zero_of<T>() -> T;
#[verifier::external_body]
pub fn vx_zero<T>() -> (r: T)
    ensures r == zero_of::<T>(),
{ unimplemented!() }
pub assume_specification [isize::saturating_add] (x: isize, y: isize) -> (r: isize)
    ensures r == if x + y > isize::MAX { isize::MAX as int } else if x + y < isize::MIN { isize::MIN as int } else { x + y };
pub fn vx_maxi(a: isize, b: isize) -> (r: isize)
    ensures r == if a >= b { a } else { b },
{ if a >= b { a } else { b } }
pub fn vx_minu(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b },
{ if a <= b { a } else { b } }
pub open spec fn two(i: int, j: int) -> Seq<int> { seq![i, j] }
/// element (i, j) is cleared: strictly above the k-th diagonal (tril), strictly below it (triu)
pub open spec fn cleared(lower: bool, k: int, i: int, j: int) -> bool { if lower { j > i + k } else { j < i + k } }
/// position p is that of a cleared element, among those before (r, c) in row order
pub open spec fn hit(l: Layout, lower: bool, k: int, r: int, c: int, p: int) -> bool {
    exists|i: int, j: int| in_range(#[trigger] two(i, j), l.shape@) && cleared(lower, k, i, j) && (i < r || (i == r && j < c)) && l.addr(two(i, j)) == p
}
pub open spec fn masked<T>(fin: Seq<T>, old: Seq<T>, l: Layout, lower: bool, k: int, r: int, c: int) -> bool {
    fin.len() == old.len() && forall|p: int| 0 <= p < fin.len() ==> #[trigger] fin[p] == if hit(l, lower, k, r, c, p) { zero_of::<T>() } else { old[p] }
}
pub open spec fn mask_ok(l: Layout, len: int) -> bool {
    l.fits() && l.shape@.len() == 2 && (nonempty(l.shape@) ==> l.lo() >= 0 && l.hi() < len)
}
pub proof fn lemma_two(l: Layout, len: int, i: usize, j: usize)
    requires mask_ok(l, len), i < l.shape@[0], j < l.shape@[1],
    ensures 0 <= l.addr(two(i as int, j as int)) < len, in_range(two(i as int, j as int), l.shape@),
        forall|s: Seq<usize>| s.len() == 2 && s[0] == i && s[1] == j ==> #[trigger] idx_ints(s) == two(i as int, j as int) && l.part_fits(idx_ints(s)),
{
    let x = two(i as int, j as int);
    assert(in_range(x, l.shape@));
    lemma_dot_bounds(x, l.shape@, l.stride@, 2);
    l.lemma_part_fits(x);
    assert forall|s: Seq<usize>| s.len() == 2 && s[0] == i && s[1] == j implies #[trigger] idx_ints(s) == x && l.part_fits(idx_ints(s)) by { assert(idx_ints(s) =~= x); }
}
pub proof fn lemma_mask_step<T>(fin: Seq<T>, prev: Seq<T>, old: Seq<T>, l: Layout, lower: bool, k: int, r: int, c: int)
    requires masked(prev, old, l, lower, k, r, c), in_range(two(r, c), l.shape@), cleared(lower, k, r, c), 0 <= l.addr(two(r, c)) < prev.len(),
        fin == prev.update(l.addr(two(r, c)), zero_of::<T>()),
    ensures masked(fin, old, l, lower, k, r, c + 1),
{
    assert forall|p: int| 0 <= p < fin.len() implies #[trigger] fin[p] == if hit(l, lower, k, r, c + 1, p) { zero_of::<T>() } else { old[p] } by {
        let q = prev[p];
        if p == l.addr(two(r, c)) { assert(hit(l, lower, k, r, c + 1, p)); }
        else if hit(l, lower, k, r, c + 1, p) {
            let (i, j) = choose|i: int, j: int| in_range(#[trigger] two(i, j), l.shape@) && cleared(lower, k, i, j) && (i < r || (i == r && j < c + 1)) && l.addr(two(i, j)) == p;
            assert(i < r || j < c);
            assert(hit(l, lower, k, r, c, p));
        } else if hit(l, lower, k, r, c, p) {
            let (i, j) = choose|i: int, j: int| in_range(#[trigger] two(i, j), l.shape@) && cleared(lower, k, i, j) && (i < r || (i == r && j < c)) && l.addr(two(i, j)) == p;
            assert(hit(l, lower, k, r, c + 1, p));
        }
    }
}
/// the cleared columns of a row may be left out of the walk where nothing is cleared
pub proof fn lemma_mask_skip<T>(fin: Seq<T>, old: Seq<T>, l: Layout, lower: bool, k: int, r: int, c: int, r2: int, c2: int)
    requires masked(fin, old, l, lower, k, r, c),
        forall|i: int, j: int| in_range(#[trigger] two(i, j), l.shape@) && cleared(lower, k, i, j) ==> ((i < r || (i == r && j < c)) <==> (i < r2 || (i == r2 && j < c2))),
    ensures masked(fin, old, l, lower, k, r2, c2),
{
    assert forall|p: int| 0 <= p < fin.len() implies #[trigger] fin[p] == if hit(l, lower, k, r2, c2, p) { zero_of::<T>() } else { old[p] } by {
        let q = fin[p];
        if hit(l, lower, k, r2, c2, p) {
            let (i, j) = choose|i: int, j: int| in_range(#[trigger] two(i, j), l.shape@) && cleared(lower, k, i, j) && (i < r2 || (i == r2 && j < c2)) && l.addr(two(i, j)) == p;
            assert(hit(l, lower, k, r, c, p));
        }
        if hit(l, lower, k, r, c, p) {
            let (i, j) = choose|i: int, j: int| in_range(#[trigger] two(i, j), l.shape@) && cleared(lower, k, i, j) && (i < r || (i == r && j < c)) && l.addr(two(i, j)) == p;
            assert(hit(l, lower, k, r2, c2, p));
        }
    }
}


//@fn rstsr-native-impl/src/cpu_serial/op_tri.rs :: tril_ix2_cpu_serial
//@types T=T ; Layout<Ix2>=Layout
//@calls T::zero=vx_zero ; .max=vx_maxi ; .min=vx_minu
//@generics <T>
//@requires
        mask_ok(*layout, old(raw)@.len() as int),
//@ensures
        r is Ok,
        masked(final(raw)@, old(raw)@, *layout, true, k as int, layout.shape@[0] as int, 0),
//@at start
        let ghost rw0 = raw@;
        let ghost nr = layout.shape@[0]; let ghost nc = layout.shape@[1];
        proof { assert(raw.len() == raw@.len()); assert(nr <= isize::MAX && nc <= isize::MAX); assert(two(0, 0).len() == 2); }
//@loop 0
            invariant
                mask_ok(*layout, rw0.len() as int), nr == layout.shape@[0], nc == layout.shape@[1], nrow == nr, ncol == nc, nr <= isize::MAX, nc <= isize::MAX,
                vx_n0 == nr, 0 <= vx_i0 <= nr, masked(raw@, rw0, *layout, true, k as int, vx_i0 as int, 0),
            decreases vx_n0 - vx_i0,
//@at loop 1 before
            proof { lemma_mask_skip(raw@, rw0, *layout, true, k as int, i as int, 0, i as int, j_start as int); }
//@loop 1
            invariant
                mask_ok(*layout, rw0.len() as int), nr == layout.shape@[0], nc == layout.shape@[1], nrow == nr, ncol == nc, nr <= isize::MAX, nc <= isize::MAX,
                0 <= i < nr, j_start == (if i + 1 + k < 0 { 0 } else if i + 1 + k > isize::MAX { isize::MAX as int } else { i + 1 + k }), vx_n1 == nc, j_start <= vx_i1, j_start <= nc ==> vx_i1 <= nc, j_start > nc ==> vx_i1 == j_start,
                masked(raw@, rw0, *layout, true, k as int, i as int, vx_i1 as int),
            decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost pr = raw@;
            proof { assert(raw.len() == raw@.len()); lemma_two(*layout, raw@.len() as int, i, vx_i1); }
//@at loop 1 bottom
            proof { lemma_mask_step(raw@, pr, rw0, *layout, true, k as int, i as int, j as int); }
//@at loop 1 after
            proof { lemma_mask_skip(raw@, rw0, *layout, true, k as int, i as int, vx_i1 as int, i + 1, 0); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/op_tri.rs :: triu_ix2_cpu_serial
//@types T=T ; Layout<Ix2>=Layout
//@calls T::zero=vx_zero ; .max=vx_maxi ; .min=vx_minu
//@generics <T>
//@requires
        mask_ok(*layout, old(raw)@.len() as int),
//@ensures
        r is Ok,
        masked(final(raw)@, old(raw)@, *layout, false, k as int, layout.shape@[0] as int, 0),
//@at start
        let ghost rw0 = raw@;
        let ghost nr = layout.shape@[0]; let ghost nc = layout.shape@[1];
        proof { assert(raw.len() == raw@.len()); assert(nr <= isize::MAX && nc <= isize::MAX); assert(two(0, 0).len() == 2); }
//@loop 0
            invariant
                mask_ok(*layout, rw0.len() as int), nr == layout.shape@[0], nc == layout.shape@[1], nrow == nr, ncol == nc, nr <= isize::MAX, nc <= isize::MAX,
                vx_n0 == nr, 0 <= vx_i0 <= nr, masked(raw@, rw0, *layout, false, k as int, vx_i0 as int, 0),
            decreases vx_n0 - vx_i0,
//@loop 1
            invariant
                mask_ok(*layout, rw0.len() as int), nr == layout.shape@[0], nc == layout.shape@[1], nrow == nr, ncol == nc, nr <= isize::MAX, nc <= isize::MAX,
                0 <= i < nr, j_end == (if i + k < 0 { 0 } else if i + k > nc { nc as int } else { i + k }), vx_n1 == j_end, 0 <= vx_i1 <= j_end,
                masked(raw@, rw0, *layout, false, k as int, i as int, vx_i1 as int),
            decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost pr = raw@;
            proof { assert(raw.len() == raw@.len()); lemma_two(*layout, raw@.len() as int, i, vx_i1); }
//@at loop 1 bottom
            proof { lemma_mask_step(raw@, pr, rw0, *layout, false, k as int, i as int, j as int); }
//@at loop 1 after
            proof { lemma_mask_skip(raw@, rw0, *layout, false, k as int, i as int, vx_i1 as int, i + 1, 0); }
//@end
