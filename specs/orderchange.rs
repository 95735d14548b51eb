// Order change of a matrix.
//@const rstsr-native-impl/src/cpu_serial/transpose.rs :: BLOCK_SIZE
/// number of steps of `(0..len).step_by(step)`
pub fn vx_steps(len: usize, step: usize) -> (r: usize)
    requires step > 0,
    ensures len == 0 ==> r == 0, len > 0 ==> r > 0 && (r - 1) * step < len <= r * step,
{
    if len == 0 { 0 } else {
        let q = (len - 1) / step;
        proof {
            assert(q * step <= len - 1 && len - 1 < (q + 1) * step) by (nonlinear_arith) requires q == (len - 1) as int / step as int, step > 0, len > 0;
            assert(q <= len - 1) by (nonlinear_arith) requires q * step <= len - 1, step >= 1, q >= 0;
        }
        q + 1
    }
}
pub fn vx_minu(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b },
{ if a <= b { a } else { b } }
pub open spec fn addr2(l: Layout, x: int, y: int) -> int { l.offset + x * l.stride@[0] + y * l.stride@[1] }
pub open spec fn inside(l: Layout, x: int, y: int) -> bool { 0 <= x < l.shape@[0] && 0 <= y < l.shape@[1] }
/// elements already copied inside the block [jb, je) x [ib, ie) and before it
pub open spec fn copied(jb: int, je: int, ib: int, ie: int, j: int, i: int, x: int, y: int) -> bool {
    y < jb || (jb <= y < je && x < ib) || (jb <= y < j && ib <= x < ie) || (y == j && ib <= x < i)
}
pub open spec fn hit2(l: Layout, jb: int, je: int, ib: int, ie: int, j: int, i: int, pos: int) -> bool {
    exists|x: int, y: int| inside(l, x, y) && #[trigger] copied(jb, je, ib, ie, j, i, x, y) && addr2(l, x, y) == pos
}
pub open spec fn turning<T>(c0: Seq<T>, c: Seq<T>, l: Layout, a: Seq<T>, la: Layout, jb: int, je: int, ib: int, ie: int, j: int, i: int) -> bool {
    &&& c.len() == c0.len()
    &&& forall|x: int, y: int| inside(l, x, y) && copied(jb, je, ib, ie, j, i, x, y) ==> c[#[trigger] addr2(l, x, y)] == a[addr2(la, x, y)]
    &&& forall|pos: int| 0 <= pos < c.len() && !#[trigger] hit2(l, jb, je, ib, ie, j, i, pos) ==> c[pos] == c0[pos]
}
/// two stages with the same set of copied elements
pub proof fn lemma_stage<T>(c0: Seq<T>, c: Seq<T>, l: Layout, a: Seq<T>, la: Layout, jb: int, je: int, ib: int, ie: int, j: int, i: int, jb2: int, je2: int, ib2: int, ie2: int, j2: int, i2: int)
    requires turning(c0, c, l, a, la, jb, je, ib, ie, j, i), 
        forall|x: int, y: int| inside(l, x, y) ==> (#[trigger] copied(jb, je, ib, ie, j, i, x, y) <==> copied(jb2, je2, ib2, ie2, j2, i2, x, y)),
    ensures turning(c0, c, l, a, la, jb2, je2, ib2, ie2, j2, i2),
{
    assert forall|x: int, y: int| inside(l, x, y) && copied(jb2, je2, ib2, ie2, j2, i2, x, y) implies c[#[trigger] addr2(l, x, y)] == a[addr2(la, x, y)] by { assert(copied(jb, je, ib, ie, j, i, x, y)); }
    assert forall|pos: int| 0 <= pos < c.len() && !#[trigger] hit2(l, jb2, je2, ib2, ie2, j2, i2, pos) implies c[pos] == c0[pos] by {
        if hit2(l, jb, je, ib, ie, j, i, pos) {
            let (x, y) = choose|x: int, y: int| inside(l, x, y) && #[trigger] copied(jb, je, ib, ie, j, i, x, y) && addr2(l, x, y) == pos;
            assert(copied(jb2, je2, ib2, ie2, j2, i2, x, y));
        }
    }
}
pub proof fn lemma_addr2(l: Layout, x: int, y: int)
    requires l.shape@.len() == 2, l.len_ok(),
    ensures l.addr(seq![x, y]) == addr2(l, x, y), inside(l, x, y) <==> in_range(seq![x, y], l.shape@),
{
    let q = seq![x, y];
    reveal_with_fuel(dot, 3);
    assert(q[0] == x && q[1] == y);
    if inside(l, x, y) { assert forall|i: int| 0 <= i < 2 implies 0 <= #[trigger] q[i] < l.shape@[i] by { } }
    if in_range(q, l.shape@) { assert(0 <= q[0] < l.shape@[0] && 0 <= q[1] < l.shape@[1]); }
}
pub proof fn lemma_inj2(l: Layout, x: int, y: int, u: int, v: int)
    requires l.shape@.len() == 2, l.len_ok(), unrepeated(l), injective(l), inside(l, x, y), inside(l, u, v), addr2(l, x, y) == addr2(l, u, v),
    ensures x == u, y == v,
{
    lemma_addr2(l, x, y); lemma_addr2(l, u, v);
    let a = seq![x, y]; let b = seq![u, v];
    assert forall|k: int| 0 <= k < l.shape@.len() && l.stride@[k] == 0 implies a[k] == b[k] by { assert(0 <= a[k] < l.shape@[k] && 0 <= b[k] < l.shape@[k]); assert(l.shape@[k] <= 1); }
    assert(l.addr(a) == l.addr(b));
    assert(a =~= b);
    assert(a[0] == b[0] && a[1] == b[1]);
}
pub proof fn lemma_turn_step<T>(c0: Seq<T>, c: Seq<T>, l: Layout, a: Seq<T>, la: Layout, jb: int, je: int, ib: int, ie: int, j: int, i: int)
    requires turning(c0, c, l, a, la, jb, je, ib, ie, j, i), dest(l, c0.len() as int), l.shape@.len() == 2, jb <= j < je, ib <= i < ie, inside(l, i, j),
    ensures 0 <= addr2(l, i, j) < c.len(), turning(c0, c.update(addr2(l, i, j), a[addr2(la, i, j)]), l, a, la, jb, je, ib, ie, j, i + 1),
{
    lemma_addr2(l, i, j);
    let pos = addr2(l, i, j); let d = c.update(pos, a[addr2(la, i, j)]);
    assert forall|x: int, y: int| inside(l, x, y) && copied(jb, je, ib, ie, j, i + 1, x, y) implies d[#[trigger] addr2(l, x, y)] == a[addr2(la, x, y)] by {
        lemma_addr2(l, x, y);
        if addr2(l, x, y) == pos { lemma_inj2(l, x, y, i, j); } else { assert(copied(jb, je, ib, ie, j, i, x, y)); assert(c[addr2(l, x, y)] == a[addr2(la, x, y)]); }
    }
    assert forall|q: int| 0 <= q < d.len() && !#[trigger] hit2(l, jb, je, ib, ie, j, i + 1, q) implies d[q] == c0[q] by {
        if hit2(l, jb, je, ib, ie, j, i, q) {
            let (x, y) = choose|x: int, y: int| inside(l, x, y) && #[trigger] copied(jb, je, ib, ie, j, i, x, y) && addr2(l, x, y) == q;
            assert(copied(jb, je, ib, ie, j, i + 1, x, y));
        }
        if q == pos { assert(copied(jb, je, ib, ie, j, i + 1, i, j)); }
    }
}
pub proof fn lemma_turn_end<T>(c0: Seq<T>, c: Seq<T>, l: Layout, a: Seq<T>, la: Layout, jb: int, je: int, ib: int, ie: int, j: int, i: int)
    requires turning(c0, c, l, a, la, jb, je, ib, ie, j, i), l.shape@.len() == 2, la.shape@ == l.shape@, l.len_ok(), la.len_ok(),
        forall|x: int, y: int| inside(l, x, y) ==> #[trigger] copied(jb, je, ib, ie, j, i, x, y),
    ensures mapped(c0, c, l, at_a(a, la)),
{
    assert forall|ix: Seq<int>| in_range(ix, l.shape@) implies c[#[trigger] l.addr(ix)] == at_a(a, la)(ix) by {
        assert(ix =~= seq![ix[0], ix[1]]);
        assert(0 <= ix[0] < l.shape@[0] && 0 <= ix[1] < l.shape@[1]);
        lemma_addr2(l, ix[0], ix[1]); lemma_addr2(la, ix[0], ix[1]);
        assert(copied(jb, je, ib, ie, j, i, ix[0], ix[1]));
        assert(c[addr2(l, ix[0], ix[1])] == a[addr2(la, ix[0], ix[1])]);
    }
    assert forall|pos: int| 0 <= pos < c.len() && !#[trigger] addressed(l, pos) implies c[pos] == c0[pos] by {
        if hit2(l, jb, je, ib, ie, j, i, pos) {
            let (x, y) = choose|x: int, y: int| inside(l, x, y) && #[trigger] copied(jb, je, ib, ie, j, i, x, y) && addr2(l, x, y) == pos;
            lemma_addr2(l, x, y);
        }
    }
}
/// partial sums of the address fit in machine arithmetic
pub proof fn lemma_addr2_fits(l: Layout, x: int, y: int, len: int)
    requires l.shape@.len() == 2, operand(l, len), l.roomy(), inside(l, x, y),
    ensures 0 <= addr2(l, x, y) < len, -isize::MAX <= x * l.stride@[0] <= isize::MAX, -isize::MAX <= y * l.stride@[1] <= isize::MAX,
        0 <= l.offset + x * l.stride@[0] < len, 0 <= l.offset + y * l.stride@[1] < len, l.offset < len,
{
    let s0 = l.stride@[0] as int; let s1 = l.stride@[1] as int;
    lemma_addr2(l, x, y); lemma_addr2(l, x, 0); lemma_addr2(l, 0, y); lemma_addr2(l, 0, 0);
    assert(0 * s0 == 0 && 0 * s1 == 0) by (nonlinear_arith);
    lemma_span(l.shape@, l.stride@, 2);
    reveal_with_fuel(span, 3);
    let a0 = if s0 < 0 { -s0 } else { s0 }; let a1 = if s1 < 0 { -s1 } else { s1 };
    let n0 = l.shape@[0] as int; let n1 = l.shape@[1] as int;
    assert(-(n0 * a0) <= x * s0 <= n0 * a0) by (nonlinear_arith) requires 0 <= x < n0, a0 == (if s0 < 0 { -s0 } else { s0 });
    assert(-(n1 * a1) <= y * s1 <= n1 * a1) by (nonlinear_arith) requires 0 <= y < n1, a1 == (if s1 < 0 { -s1 } else { s1 });
    assert(n0 * a0 >= 0 && n1 * a1 >= 0) by (nonlinear_arith) requires n0 >= 0, n1 >= 0, a0 >= 0, a1 >= 0;
}
//@fn rstsr-native-impl/src/cpu_serial/transpose.rs :: orderchange_out_r2c_ix2_cpu_serial
//@types T=T ; Layout<Ix2>=Layout
//@generics <T>
//@calls .clone=& vx_clone ; .min=vx_minu
//@requires
    dest(*lc, old(c)@.len() as int), operand(*la, a@.len() as int), lc.shape@.len() == 2, la.shape@.len() == 2, old(c)@.len() <= isize::MAX, a@.len() <= isize::MAX,
//@ensures
    r is Ok <==> lc.shape@ == la.shape@ && lc.stride@[0] == 1 && la.stride@[1] == 1,
    r is Ok ==> mapped(old(c)@, final(c)@, *lc, at_a(a@, *la)),
    r is Err ==> final(c)@ == old(c)@,
//@at start
    let ghost c0 = c@; let ghost l = *lc; let ghost l2 = *la;
//@at let ncol
    let ghost nc = ncol as int; let ghost nr = nrow as int;
    proof { assert(sc@ =~= sa@); }
//@at let ldc
    proof { lemma_wide_fits(l.shape@); assert(l.shape@[0] <= isize::MAX && l.shape@[1] <= isize::MAX); }
//@loop 0
        invariant dest(l, c0.len() as int), operand(l2, a@.len() as int), l.shape@.len() == 2, l2.shape@ == l.shape@, nc == ncol, nr == nrow, nr == l.shape@[0], nc == l.shape@[1], nc <= isize::MAX, nr <= isize::MAX, lda == l2.stride@[0], ldc == l.stride@[1], l.stride@[0] == 1, l2.stride@[1] == 1, l.offset <= isize::MAX ==> offset_c == l.offset, l2.offset <= isize::MAX ==> offset_a == l2.offset, c0.len() <= isize::MAX, a@.len() <= isize::MAX,
            vx_i0 <= vx_n0, vx_lo0 == 0, vx_k0 == BLOCK_SIZE, vx_n0 == 0 <==> nc == 0, vx_n0 > 0 ==> (vx_n0 - 1) * 64 < nc <= vx_n0 * 64,
            turning(c0, c@, l, a@, l2, vx_i0 * 64, vx_i0 * 64, 0, 0, vx_i0 * 64, 0),
        decreases vx_n0 - vx_i0,
//@at loop 0 top
            let ghost jb = vx_i0 * 64;
            proof { assert(jb < nc); }
//@at let j_start #1
            let ghost je = j_end as int;
            proof {
                assert(j_start == jb && jb < je <= nc && je <= jb + 64 && (je == nc || je == jb + 64));
                lemma_stage(c0, c@, l, a@, l2, jb, jb, 0, 0, jb, 0, jb, je, 0, 0, jb, 0);
            }
//@loop 1
        invariant dest(l, c0.len() as int), operand(l2, a@.len() as int), l.shape@.len() == 2, l2.shape@ == l.shape@, nc == ncol, nr == nrow, nr == l.shape@[0], nc == l.shape@[1], nc <= isize::MAX, nr <= isize::MAX, lda == l2.stride@[0], ldc == l.stride@[1], l.stride@[0] == 1, l2.stride@[1] == 1, l.offset <= isize::MAX ==> offset_c == l.offset, l2.offset <= isize::MAX ==> offset_a == l2.offset, c0.len() <= isize::MAX, a@.len() <= isize::MAX,
            vx_i1 <= vx_n1, vx_lo1 == 0, vx_k1 == BLOCK_SIZE, vx_n1 == 0 <==> nr == 0, vx_n1 > 0 ==> (vx_n1 - 1) * 64 < nr <= vx_n1 * 64,
            j_start == jb, j_end == je, 0 <= jb < je <= nc, 
            turning(c0, c@, l, a@, l2, jb, je, vx_i1 * 64, vx_i1 * 64, jb, vx_i1 * 64),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost ib = vx_i1 * 64;
            proof { assert(ib < nr); }
//@at let i_start #1
            let ghost ie = i_end as int;
            proof {
                assert(i_start == ib && ib < ie <= nr && ie <= ib + 64 && (ie == nr || ie == ib + 64));
                lemma_stage(c0, c@, l, a@, l2, jb, je, ib, ib, jb, ib, jb, je, ib, ie, jb, ib);
            }
//@loop 2
        invariant dest(l, c0.len() as int), operand(l2, a@.len() as int), l.shape@.len() == 2, l2.shape@ == l.shape@, nc == ncol, nr == nrow, nr == l.shape@[0], nc == l.shape@[1], nc <= isize::MAX, nr <= isize::MAX, lda == l2.stride@[0], ldc == l.stride@[1], l.stride@[0] == 1, l2.stride@[1] == 1, l.offset <= isize::MAX ==> offset_c == l.offset, l2.offset <= isize::MAX ==> offset_a == l2.offset, c0.len() <= isize::MAX, a@.len() <= isize::MAX,
            j_start == jb, j_end == je, 0 <= jb < je <= nc, i_start == ib, i_end == ie, 0 <= ib < ie <= nr, vx_n2 == je, jb <= vx_i2 <= vx_n2,
            turning(c0, c@, l, a@, l2, jb, je, ib, ie, vx_i2 as int, ib),
        decreases vx_n2 - vx_i2,
//@loop 3
        invariant dest(l, c0.len() as int), operand(l2, a@.len() as int), l.shape@.len() == 2, l2.shape@ == l.shape@, nc == ncol, nr == nrow, nr == l.shape@[0], nc == l.shape@[1], nc <= isize::MAX, nr <= isize::MAX, lda == l2.stride@[0], ldc == l.stride@[1], l.stride@[0] == 1, l2.stride@[1] == 1, l.offset <= isize::MAX ==> offset_c == l.offset, l2.offset <= isize::MAX ==> offset_a == l2.offset, c0.len() <= isize::MAX, a@.len() <= isize::MAX,
            j_start == jb, j_end == je, 0 <= jb < je <= nc, i_start == ib, i_end == ie, 0 <= ib < ie <= nr, jb <= j < je, vx_n3 == ie, ib <= vx_i3 <= vx_n3,
            turning(c0, c@, l, a@, l2, jb, je, ib, ie, j as int, vx_i3 as int),
        decreases vx_n3 - vx_i3,
//@at loop 3 top
            proof {
                let i = vx_i3 as int;
                assert(inside(l, i, j as int) && inside(l2, i, j as int));
                lemma_turn_step(c0, c@, l, a@, l2, jb, je, ib, ie, j as int, i);
                lemma_addr2_fits(l, i, j as int, c0.len() as int); lemma_addr2_fits(l2, i, j as int, a@.len() as int);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 3 after
            proof { lemma_stage(c0, c@, l, a@, l2, jb, je, ib, ie, j as int, ie, jb, je, ib, ie, j + 1, ib); }
//@at loop 2 after
            proof {
                assert(vx_i1 * 64 == ib + 64);
                lemma_stage(c0, c@, l, a@, l2, jb, je, ib, ie, je, ib, jb, je, ib + 64, ib + 64, jb, ib + 64);
            }
//@at loop 1 after
            proof {
                assert(vx_i1 * 64 >= nr);
                assert(vx_i0 * 64 == jb + 64);
                lemma_stage(c0, c@, l, a@, l2, jb, je, vx_i1 * 64, vx_i1 * 64, jb, vx_i1 * 64, jb + 64, jb + 64, 0, 0, jb + 64, 0);
            }
//@at loop 0 after
            proof { assert(vx_i0 * 64 >= nc); lemma_turn_end(c0, c@, l, a@, l2, vx_i0 * 64, vx_i0 * 64, 0, 0, vx_i0 * 64, 0); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/transpose.rs :: orderchange_out_c2r_ix2_cpu_serial
//@types T=T ; Layout<Ix2>=Layout
//@generics <T>
//@requires
    dest(*lc, old(c)@.len() as int), operand(*la, a@.len() as int), lc.shape@.len() == 2, la.shape@.len() == 2, old(c)@.len() <= isize::MAX, a@.len() <= isize::MAX,
//@ensures
    r is Ok <==> lc.shape@ == la.shape@ && lc.stride@[1] == 1 && la.stride@[0] == 1,
    r is Ok ==> mapped(old(c)@, final(c)@, *lc, at_a(a@, *la)),
    r is Err ==> final(c)@ == old(c)@,
//@at start
    let ghost c0 = c@; let ghost l = *lc; let ghost l2 = *la;
//@at let la
    let ghost p = reversal(2); let ghost f = lc; let ghost f2 = la;
    proof {
        lemma_perm_dest(l, f, p, c0.len() as int); lemma_perm_dest(l2, f2, p, a@.len() as int);
        assert(p[0] == 1 && p[1] == 0);
        assert(f.shape@[0] == l.shape@[1] && f.shape@[1] == l.shape@[0] && f2.shape@[0] == l2.shape@[1] && f2.shape@[1] == l2.shape@[0]);
        assert(f.stride@[0] == l.stride@[1] && f2.stride@[1] == l2.stride@[0]);
        if f.shape@ == f2.shape@ { assert(l.shape@ =~= l2.shape@); }
        if l.shape@ == l2.shape@ {
            assert(f.shape@ =~= f2.shape@);
            assert forall|ix: Seq<int>| in_range(ix, l.shape@) implies at_a(a@, f2)(back(ix, p)) == #[trigger] at_a(a@, l2)(ix) by { lemma_back(l2, f2, p, ix); }
            assert forall|c1: Seq<T>| #[trigger] mapped(c0, c1, f, at_a(a@, f2)) implies mapped(c0, c1, l, at_a(a@, l2)) by { lemma_perm_mapped(c0, c1, l, f, p, at_a(a@, f2), at_a(a@, l2)); }
        }
    }
//@end
