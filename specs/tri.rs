// Triangular index maps.
/// affine positions of a matrix / a vector inside a buffer
pub ghost struct M2 { pub off: int, pub s0: int, pub s1: int }
pub ghost struct M1 { pub off: int, pub s: int }
pub open spec fn at2(m: M2, r: int, c: int) -> int { m.off + r * m.s0 + c * m.s1 }
pub open spec fn at1(m: M1, k: int) -> int { m.off + k * m.s }
pub open spec fn m2_of(l: Layout) -> M2 { M2 { off: l.offset as int, s0: l.stride@[0] as int, s1: l.stride@[1] as int } }
pub open spec fn m1_of(l: Layout) -> M1 { M1 { off: l.offset as int, s: l.stride@[0] as int } }
pub open spec fn inside2(m: M2, n: int, len: int) -> bool {
    forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> 0 <= #[trigger] at2(m, r, c) < len
}
pub open spec fn inside1(m: M1, n: int, len: int) -> bool {
    forall|k: int| 0 <= k < n ==> 0 <= #[trigger] at1(m, k) < len
}
pub open spec fn distinct2(m: M2, n: int) -> bool {
    forall|r: int, c: int, r2: int, c2: int| 0 <= r < n && 0 <= c < n && 0 <= r2 < n && 0 <= c2 < n
        && #[trigger] at2(m, r, c) == #[trigger] at2(m, r2, c2) ==> r == r2 && c == c2
}
pub open spec fn distinct1(m: M1, n: int) -> bool {
    forall|k: int, k2: int| 0 <= k < n && 0 <= k2 < n && #[trigger] at1(m, k) == #[trigger] at1(m, k2) ==> k == k2
}
/// number of stored elements in the rows before r of the lower (upper) triangle
pub open spec fn tri(r: int) -> int
    decreases r,
{ if r <= 0 { 0 } else { tri(r - 1) + r } }
pub open spec fn uro(n: int, r: int) -> int
    decreases r,
{ if r <= 0 { 0 } else { uro(n, r - 1) + (n - r + 1) } }
/// place of element (p, q) of the triangle in row order
pub open spec fn pidx(lower: bool, n: int, p: int, q: int) -> int { if lower { tri(p) + q } else { uro(n, p) + (q - p) } }
pub open spec fn in_tri(lower: bool, n: int, p: int, q: int) -> bool { if lower { 0 <= q <= p < n } else { 0 <= p <= q < n } }
pub open spec fn npack(n: int) -> int { tri(n) }
pub proof fn lemma_tri_mono(p: int, q: int)
    requires 0 <= p <= q,
    ensures 0 <= tri(p) <= tri(q),
    decreases q,
{ if p < q { lemma_tri_mono(p, q - 1); } else if p > 0 { lemma_tri_mono(p - 1, p - 1); } }
pub proof fn lemma_uro_mono(n: int, p: int, q: int)
    requires 0 <= p <= q <= n,
    ensures 0 <= uro(n, p) <= uro(n, q),
    decreases q,
{ if p < q { lemma_uro_mono(n, p, q - 1); } else if p > 0 { lemma_uro_mono(n, p - 1, p - 1); } }
pub proof fn lemma_uro_closed(n: int, r: int)
    requires 0 <= r <= n,
    ensures uro(n, r) == r * n - tri(r) + r,
    decreases r,
{
    if r > 0 {
        lemma_uro_closed(n, r - 1);
        assert(r * n == (r - 1) * n + n) by (nonlinear_arith);
    } else { assert(0 * n == 0) by (nonlinear_arith); }
}
pub proof fn lemma_tri_closed(r: int)
    requires 0 <= r,
    ensures 2 * tri(r) == r * (r + 1),
    decreases r,
{
    if r > 0 { lemma_tri_closed(r - 1); assert(r * (r + 1) == (r - 1) * r + 2 * r) by (nonlinear_arith); }
    else { assert(0 * (0 + 1int) == 0) by (nonlinear_arith); }
}
/// the map of the triangle onto 0..npack is into, and strictly increasing along rows
pub proof fn lemma_pidx(lower: bool, n: int, p: int, q: int)
    requires in_tri(lower, n, p, q),
    ensures 0 <= pidx(lower, n, p, q) < npack(n),
{
    if lower { lemma_tri_mono(p, p); lemma_tri_mono(p + 1, n); assert(tri(p + 1) == tri(p) + p + 1); }
    else {
        lemma_uro_mono(n, p, p); lemma_uro_mono(n, p + 1, n); assert(uro(n, p + 1) == uro(n, p) + (n - p));
        lemma_uro_closed(n, n); lemma_tri_closed(n);
        assert(n * (n + 1) == n * n + n) by (nonlinear_arith);
    }
}
pub proof fn lemma_pidx_lt(lower: bool, n: int, p: int, q: int, p2: int, q2: int)
    requires in_tri(lower, n, p, q), in_tri(lower, n, p2, q2), p < p2 || (p == p2 && q < q2),
    ensures pidx(lower, n, p, q) < pidx(lower, n, p2, q2),
{
    if p < p2 {
        if lower { lemma_tri_mono(p + 1, p2); assert(tri(p + 1) == tri(p) + p + 1); }
        else { lemma_uro_mono(n, p + 1, p2); assert(uro(n, p + 1) == uro(n, p) + (n - p)); }
    }
}
pub proof fn lemma_layout2(l: Layout, n: int, len: int)
    requires l.fits(), l.shape@.len() == 2, l.shape@[0] == n, l.shape@[1] == n, n > 0 ==> l.lo() >= 0 && l.hi() < len,
    ensures inside2(m2_of(l), n, len),
{
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies 0 <= #[trigger] at2(m2_of(l), r, c) < len by {
        let idx = seq![r, c];
        assert(in_range(idx, l.shape@));
        lemma_dot_bounds(idx, l.shape@, l.stride@, 2);
        reveal_with_fuel(dot, 3);
    }
}
pub proof fn lemma_layout1(l: Layout, n: int, len: int)
    requires l.fits(), l.shape@.len() == 1, l.shape@[0] == n, n > 0 ==> l.lo() >= 0 && l.hi() < len,
    ensures inside1(m1_of(l), n, len),
{
    assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] at1(m1_of(l), k) < len by {
        let idx = seq![k];
        assert(in_range(idx, l.shape@));
        lemma_dot_bounds(idx, l.shape@, l.stride@, 1);
        reveal_with_fuel(dot, 2);
    }
}
pub proof fn lemma_at2(l: Layout, n: int, i: usize, j: usize)
    requires l.fits(), l.shape@.len() == 2, l.shape@[0] == n, l.shape@[1] == n, 0 <= i < n, 0 <= j < n,
    ensures forall|s: Seq<usize>| s.len() == 2 && s[0] == i && s[1] == j ==> in_range(#[trigger] idx_ints(s), l.shape@) && l.addr(idx_ints(s)) == at2(m2_of(l), i as int, j as int) && l.part_fits(idx_ints(s)),
{
    reveal_with_fuel(dot, 3);
    assert forall|s: Seq<usize>| s.len() == 2 && s[0] == i && s[1] == j implies in_range(#[trigger] idx_ints(s), l.shape@) && l.addr(idx_ints(s)) == at2(m2_of(l), i as int, j as int) && l.part_fits(idx_ints(s)) by { l.lemma_part_fits(idx_ints(s)); }
}
pub proof fn lemma_at1(l: Layout, n: int, k: usize)
    requires l.fits(), l.shape@.len() == 1, l.shape@[0] == n, 0 <= k < n,
    ensures forall|s: Seq<usize>| s.len() == 1 && s[0] == k ==> in_range(#[trigger] idx_ints(s), l.shape@) && l.addr(idx_ints(s)) == at1(m1_of(l), k as int) && l.part_fits(idx_ints(s)),
{
    reveal_with_fuel(dot, 2);
    assert forall|s: Seq<usize>| s.len() == 1 && s[0] == k implies in_range(#[trigger] idx_ints(s), l.shape@) && l.addr(idx_ints(s)) == at1(m1_of(l), k as int) && l.part_fits(idx_ints(s)) by { l.lemma_part_fits(idx_ints(s)); }
}

// ---- packing
/// the elements of the triangle visited before (i, j) in row order have been written; the rest is unchanged
pub open spec fn pack_inv(a: Seq<E>, a0: Seq<E>, b: Seq<E>, ma: M1, mb: M2, n: int, lower: bool, i: int, j: int) -> bool {
    &&& a.len() == a0.len()
    &&& forall|p: int, q: int| in_tri(lower, n, p, q) && (p < i || (p == i && q < j)) ==>
            a[at1(ma, pidx(lower, n, p, q))] == b[#[trigger] at2(mb, p, q)]
    &&& forall|x: int| 0 <= x < a.len() && (forall|k: int| 0 <= k < npack(n) ==> #[trigger] at1(ma, k) != x) ==> #[trigger] a[x] == a0[x]
}
pub open spec fn packed(a: Seq<E>, a0: Seq<E>, b: Seq<E>, ma: M1, mb: M2, n: int, lower: bool) -> bool {
    pack_inv(a, a0, b, ma, mb, n, lower, n, 0)
}
pub proof fn lemma_pack_step(ap: Seq<E>, a: Seq<E>, a0: Seq<E>, b: Seq<E>, ma: M1, mb: M2, n: int, lower: bool, i: int, j: int)
    requires
        pack_inv(ap, a0, b, ma, mb, n, lower, i, j), in_tri(lower, n, i, j),
        distinct1(ma, npack(n)), inside1(ma, npack(n), a0.len() as int),
        a == ap.update(at1(ma, pidx(lower, n, i, j)), b[at2(mb, i, j)]),
    ensures pack_inv(a, a0, b, ma, mb, n, lower, i, j + 1),
{
    let k = pidx(lower, n, i, j);
    lemma_pidx(lower, n, i, j);
    assert forall|p: int, q: int| in_tri(lower, n, p, q) && (p < i || (p == i && q < j + 1)) implies
            a[at1(ma, pidx(lower, n, p, q))] == b[#[trigger] at2(mb, p, q)] by {
        lemma_pidx(lower, n, p, q);
        if p == i && q == j { } else {
            lemma_pidx_lt(lower, n, p, q, i, j);
            assert(at1(ma, pidx(lower, n, p, q)) != at1(ma, k));
        }
    }
    assert forall|x: int| 0 <= x < a.len() && (forall|k: int| 0 <= k < npack(n) ==> #[trigger] at1(ma, k) != x) implies #[trigger] a[x] == a0[x] by {
        assert(at1(ma, k) != x);
        assert(ap[x] == a0[x]);
    }
}
/// end of a row = start of the next
pub proof fn lemma_pack_row(a: Seq<E>, a0: Seq<E>, b: Seq<E>, ma: M1, mb: M2, n: int, lower: bool, i: int)
    requires pack_inv(a, a0, b, ma, mb, n, lower, i, if lower { i + 1 } else { n }), 0 <= i < n,
    ensures pack_inv(a, a0, b, ma, mb, n, lower, i + 1, if lower { 0 } else { i + 1 }),
{
    assert forall|p: int, q: int| in_tri(lower, n, p, q) && (p < i + 1 || (p == i + 1 && q < if lower { 0 } else { i + 1 })) implies
        a[at1(ma, pidx(lower, n, p, q))] == b[#[trigger] at2(mb, p, q)] by { assert(p <= i); }
}

// ---- unpacking
/// which elements have been written when the loops stand at (i, j)
pub open spec fn seen(symm: FlagSymm, lower: bool, r: int, c: int, i: int, j: int) -> bool {
    if symm is N { r < i || (r == i && c < j) } else {
        let p = if (r >= c) == lower { r } else { c };
        let q = if (r >= c) == lower { c } else { r };
        p < i || (p == i && q < j)
    }
}
/// what the requested symmetry prescribes at (r, c)
pub open spec fn unpack_val(b: Seq<E>, mb: M1, n: int, symm: FlagSymm, lower: bool, r: int, c: int) -> E {
    let p = if (r >= c) == lower { r } else { c };
    let q = if (r >= c) == lower { c } else { r };
    let v = b[at1(mb, pidx(lower, n, p, q))];
    if r == c {
        match symm { FlagSymm::He => e_conj(v), FlagSymm::Ay | FlagSymm::Ah => e_zero(), _ => v }
    } else if r == p { v } else { mirror(symm, v) }
}
pub open spec fn mirror(symm: FlagSymm, v: E) -> E {
    match symm {
        FlagSymm::Sy => v, FlagSymm::He => e_conj(v), FlagSymm::Ay => e_neg(v), FlagSymm::Ah => e_neg(e_conj(v)), FlagSymm::N => e_zero(),
    }
}
pub open spec fn unpack_inv(a: Seq<E>, a0: Seq<E>, b: Seq<E>, ma: M2, mb: M1, n: int, symm: FlagSymm, lower: bool, i: int, j: int) -> bool {
    &&& a.len() == a0.len()
    &&& forall|r: int, c: int| 0 <= r < n && 0 <= c < n && seen(symm, lower, r, c, i, j) ==>
            a[#[trigger] at2(ma, r, c)] == unpack_val(b, mb, n, symm, lower, r, c)
    &&& forall|x: int| 0 <= x < a.len() && (forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] at2(ma, r, c) != x) ==> #[trigger] a[x] == a0[x]
}
pub open spec fn unpacked(a: Seq<E>, a0: Seq<E>, b: Seq<E>, ma: M2, mb: M1, n: int, symm: FlagSymm, lower: bool) -> bool {
    unpack_inv(a, a0, b, ma, mb, n, symm, lower, n, 0)
}
/// one element written (the diagonal, or any element of the non-symmetric kind)
pub proof fn lemma_unpack_one(ap: Seq<E>, a: Seq<E>, a0: Seq<E>, b: Seq<E>, ma: M2, mb: M1, n: int, symm: FlagSymm, lower: bool, i: int, j: int)
    requires
        unpack_inv(ap, a0, b, ma, mb, n, symm, lower, i, j), 0 <= i < n, 0 <= j < n, i == j || symm is N,
        distinct2(ma, n), inside2(ma, n, a0.len() as int),
        a == ap.update(at2(ma, i, j), unpack_val(b, mb, n, symm, lower, i, j)),
    ensures unpack_inv(a, a0, b, ma, mb, n, symm, lower, i, j + 1),
{
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n && seen(symm, lower, r, c, i, j + 1) implies
            a[#[trigger] at2(ma, r, c)] == unpack_val(b, mb, n, symm, lower, r, c) by {
        if r == i && c == j { } else {
            assert(at2(ma, r, c) != at2(ma, i, j));
            assert(seen(symm, lower, r, c, i, j));
        }
    }
    assert forall|x: int| 0 <= x < a.len() && (forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] at2(ma, r, c) != x) implies #[trigger] a[x] == a0[x] by {
        assert(at2(ma, i, j) != x);
        assert(ap[x] == a0[x]);
    }
}
/// an element and its mirror image written
pub proof fn lemma_unpack_pair(ap: Seq<E>, a: Seq<E>, a0: Seq<E>, b: Seq<E>, ma: M2, mb: M1, n: int, symm: FlagSymm, lower: bool, i: int, j: int)
    requires
        unpack_inv(ap, a0, b, ma, mb, n, symm, lower, i, j), in_tri(lower, n, i, j), !(symm is N), i == j ==> symm is Sy || symm is He,
        distinct2(ma, n), inside2(ma, n, a0.len() as int),
        a == ap.update(at2(ma, i, j), b[at1(mb, pidx(lower, n, i, j))]).update(at2(ma, j, i), mirror(symm, b[at1(mb, pidx(lower, n, i, j))])),
    ensures unpack_inv(a, a0, b, ma, mb, n, symm, lower, i, j + 1),
{
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n && seen(symm, lower, r, c, i, j + 1) implies
            a[#[trigger] at2(ma, r, c)] == unpack_val(b, mb, n, symm, lower, r, c) by {
        if r == j && c == i { }
        else if r == i && c == j { assert(at2(ma, j, i) != at2(ma, i, j)); }
        else {
            assert(at2(ma, r, c) != at2(ma, i, j));
            assert(at2(ma, r, c) != at2(ma, j, i));
            assert(seen(symm, lower, r, c, i, j));
        }
    }
    assert forall|x: int| 0 <= x < a.len() && (forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] at2(ma, r, c) != x) implies #[trigger] a[x] == a0[x] by {
        assert(at2(ma, i, j) != x);
        assert(at2(ma, j, i) != x);
        assert(ap[x] == a0[x]);
    }
}
/// end of row i
pub proof fn lemma_unpack_row(a: Seq<E>, a0: Seq<E>, b: Seq<E>, ma: M2, mb: M1, n: int, symm: FlagSymm, lower: bool, i: int, j: int)
    requires
        unpack_inv(a, a0, b, ma, mb, n, symm, lower, i, j), 0 <= i < n,
        j == if symm is N || !lower { n } else { i + 1 },
    ensures
        unpack_inv(a, a0, b, ma, mb, n, symm, lower, i + 1, 0),
        unpack_inv(a, a0, b, ma, mb, n, symm, lower, i + 1, if symm is N || lower { 0 } else { i + 1 }),
{
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n && seen(symm, lower, r, c, i + 1, if symm is N || lower { 0 } else { i + 1 }) implies
        a[#[trigger] at2(ma, r, c)] == unpack_val(b, mb, n, symm, lower, r, c) by { assert(seen(symm, lower, r, c, i, j)); }
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n && seen(symm, lower, r, c, i + 1, 0) implies
        a[#[trigger] at2(ma, r, c)] == unpack_val(b, mb, n, symm, lower, r, c) by { assert(seen(symm, lower, r, c, i, j)); }
}
/// unpacking what was packed gives the triangle back
pub proof fn lemma_roundtrip(t: Seq<E>, t0: Seq<E>, m: Seq<E>, mm: M2, mt: M1, a: Seq<E>, a0: Seq<E>, ma: M2, n: int, symm: FlagSymm, lower: bool)
    requires
        packed(t, t0, m, mt, mm, n, lower), unpacked(a, a0, t, ma, mt, n, symm, lower),
    ensures
        // off the diagonal for every symmetry, on it where the symmetry keeps the diagonal
        forall|p: int, q: int| in_tri(lower, n, p, q) && (p != q || symm is Sy || symm is N) ==> a[#[trigger] at2(ma, p, q)] == m[at2(mm, p, q)],
{
    assert forall|p: int, q: int| in_tri(lower, n, p, q) && (p != q || symm is Sy || symm is N) implies a[#[trigger] at2(ma, p, q)] == m[at2(mm, p, q)] by {
        assert(seen(symm, lower, p, q, n, 0));
        assert(unpack_val(t, mt, n, symm, lower, p, q) == t[at1(mt, pidx(lower, n, p, q))]);
        assert(m[at2(mm, p, q)] == t[at1(mt, pidx(lower, n, p, q))]);
    }
}

/// a row-major n x n block
pub proof fn lemma_rowcol(r: int, c: int, n: int)
    requires 0 <= r < n, 0 <= c < n,
    ensures 0 <= r * n, r * n + c < n * n, at2(M2 { off: 0, s0: n, s1: 1 }, r, c) == r * n + c,
{
    assert(0 <= r * n && r * n + c < n * n) by (nonlinear_arith) requires 0 <= r < n, 0 <= c < n;
    assert(c * 1 == c);
}
pub proof fn lemma_contig2(n: int, len: int)
    requires n * n <= len,
    ensures inside2(M2 { off: 0, s0: n, s1: 1 }, n, len), distinct2(M2 { off: 0, s0: n, s1: 1 }, n),
{
    let m = M2 { off: 0, s0: n, s1: 1 };
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies 0 <= #[trigger] at2(m, r, c) < len by { lemma_rowcol(r, c, n); }
    assert forall|r: int, c: int, r2: int, c2: int| 0 <= r < n && 0 <= c < n && 0 <= r2 < n && 0 <= c2 < n
        && #[trigger] at2(m, r, c) == #[trigger] at2(m, r2, c2) implies r == r2 && c == c2 by {
        lemma_rowcol(r, c, n); lemma_rowcol(r2, c2, n);
        assert(r == r2 && c == c2) by (nonlinear_arith) requires r * n + c == r2 * n + c2, 0 <= c < n, 0 <= c2 < n, 0 <= r, 0 <= r2;
    }
}

/// the loops of the contiguous kernels run on the tails a[offset_a..], b[offset_b..]
pub proof fn lemma_pack_shift(a: Seq<E>, va: Seq<E>, vb: Seq<E>, oa: int, ob: int, n: int, lower: bool)
    requires
        0 <= oa, oa + npack(n) <= va.len(), 0 <= ob, ob + n * n <= vb.len(), 0 <= n,
        pack_inv(a, va.subrange(oa, va.len() as int), vb.subrange(ob, vb.len() as int), M1 { off: 0, s: 1 }, M2 { off: 0, s0: n, s1: 1 }, n, lower, n, 0)
        || pack_inv(a, va.subrange(oa, va.len() as int), vb.subrange(ob, vb.len() as int), M1 { off: 0, s: 1 }, M2 { off: 0, s0: n, s1: 1 }, n, lower, n, n),
    ensures packed(va.subrange(0, oa) + a, va, vb, M1 { off: oa, s: 1 }, M2 { off: ob, s0: n, s1: 1 }, n, lower),
{
    let f = va.subrange(0, oa) + a;
    let m1 = M1 { off: 0, s: 1 }; let m2 = M2 { off: 0, s0: n, s1: 1 };
    let k1 = M1 { off: oa, s: 1 }; let k2 = M2 { off: ob, s0: n, s1: 1 };
    lemma_tri_mono(0, n);
    assert(n * n >= 0) by (nonlinear_arith);
    assert(f.len() == va.len());
    assert forall|p: int, q: int| in_tri(lower, n, p, q) && (p < n || (p == n && q < 0)) implies f[at1(k1, pidx(lower, n, p, q))] == vb[#[trigger] at2(k2, p, q)] by {
        lemma_pidx(lower, n, p, q);
        lemma_rowcol(p, q, n);
        assert(at2(k2, p, q) == ob + at2(m2, p, q));
        assert(at1(k1, pidx(lower, n, p, q)) == oa + at1(m1, pidx(lower, n, p, q)));
        assert(a[at1(m1, pidx(lower, n, p, q))] == vb.subrange(ob, vb.len() as int)[at2(m2, p, q)]);
    }
    assert forall|x: int| 0 <= x < f.len() && (forall|k: int| 0 <= k < npack(n) ==> #[trigger] at1(k1, k) != x) implies #[trigger] f[x] == va[x] by {
        if x >= oa {
            assert forall|k: int| 0 <= k < npack(n) implies #[trigger] at1(m1, k) != x - oa by { assert(at1(k1, k) != x); }
            assert(a[x - oa] == va.subrange(oa, va.len() as int)[x - oa]);
        }
    }
}
pub proof fn lemma_unpack_shift(a: Seq<E>, va: Seq<E>, vb: Seq<E>, oa: int, ob: int, n: int, symm: FlagSymm, lower: bool)
    requires
        0 <= oa, oa + n * n <= va.len(), 0 <= ob, ob + npack(n) <= vb.len(), 0 <= n,
        unpack_inv(a, va.subrange(oa, va.len() as int), vb.subrange(ob, vb.len() as int), M2 { off: 0, s0: n, s1: 1 }, M1 { off: 0, s: 1 }, n, symm, lower, n, 0)
        || unpack_inv(a, va.subrange(oa, va.len() as int), vb.subrange(ob, vb.len() as int), M2 { off: 0, s0: n, s1: 1 }, M1 { off: 0, s: 1 }, n, symm, lower, n, n),
    ensures unpacked(va.subrange(0, oa) + a, va, vb, M2 { off: oa, s0: n, s1: 1 }, M1 { off: ob, s: 1 }, n, symm, lower),
{
    let f = va.subrange(0, oa) + a;
    let m1 = M1 { off: 0, s: 1 }; let m2 = M2 { off: 0, s0: n, s1: 1 };
    let k1 = M1 { off: ob, s: 1 }; let k2 = M2 { off: oa, s0: n, s1: 1 };
    lemma_tri_mono(0, n);
    assert(n * n >= 0) by (nonlinear_arith);
    assert(f.len() == va.len());
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n && seen(symm, lower, r, c, n, 0) implies f[#[trigger] at2(k2, r, c)] == unpack_val(vb, k1, n, symm, lower, r, c) by {
        lemma_rowcol(r, c, n);
        let p = if (r >= c) == lower { r } else { c };
        let q = if (r >= c) == lower { c } else { r };
        lemma_pidx(lower, n, p, q);
        assert(at2(k2, r, c) == oa + at2(m2, r, c));
        assert(at1(k1, pidx(lower, n, p, q)) == ob + at1(m1, pidx(lower, n, p, q)));
        assert(seen(symm, lower, r, c, n, n));
        assert(a[at2(m2, r, c)] == unpack_val(vb.subrange(ob, vb.len() as int), m1, n, symm, lower, r, c));
    }
    assert forall|x: int| 0 <= x < f.len() && (forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] at2(k2, r, c) != x) implies #[trigger] f[x] == va[x] by {
        if x >= oa {
            assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] at2(m2, r, c) != x - oa by { assert(at2(k2, r, c) != x); }
            assert(a[x - oa] == va.subrange(oa, va.len() as int)[x - oa]);
        }
    }
}
