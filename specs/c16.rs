// C16: triangular packing and unpacking.
//@include prelude.rs
//@assume_bodies
//@include newlayout.rs
//@include indexing.rs
//@verify_bodies
//@include elem.rs
//@struct rstsr-common/src/flags.rs :: FlagSymm
//@types MaybeUninit<T>=E ; T=E ; Layout<Ix1>=Layout ; Layout<Ix2>=Layout ; T::zero=E::zero
//@include tri.rs

//@fn rstsr-native-impl/src/cpu_serial/op_tri.rs :: inner_pack_tril_c_contig
//@requires
        offset_a + npack(n as int) <= old(a)@.len(), offset_b + n * n <= b@.len(),
//@ensures
        packed(final(a)@, old(a)@, b@, M1 { off: offset_a as int, s: 1 }, M2 { off: offset_b as int, s0: n as int, s1: 1 }, n as int, true),
//@at start
        let ghost va = a@;
        let ghost vb = b@;
        let ghost fa = final(a)@;
        let ghost oa = offset_a as int;
        let ghost ob = offset_b as int;
        proof { assert(a.len() == a@.len() && b.len() == b@.len()); lemma_tri_mono(0, n as int); assert(n * n >= 0) by (nonlinear_arith); }
//@at let b #0
        proof {
            assert(fa =~= va.subrange(0, oa) + final(a)@);
            assert(fa.subrange(oa, va.len() as int) =~= final(a)@);
            assert(0 * n == 0) by (nonlinear_arith);
        }
//@loop 0
            invariant
                vx_n0 == n, 0 <= vx_i0 <= n, 0 <= oa, 0 <= ob, n <= isize::MAX ==> true,
                oa + npack(n as int) <= va.len(), ob + n * n <= vb.len(), va.len() <= usize::MAX, vb.len() <= usize::MAX,
                fa.len() == va.len(), fa.subrange(0, oa) == va.subrange(0, oa),
                0 <= tri(vx_i0 as int) <= npack(n as int), 0 <= vx_i0 * n <= n * n,
                a@ == va.subrange(oa + tri(vx_i0 as int), va.len() as int),
                final(a)@.len() == a@.len(), fa.subrange(oa + tri(vx_i0 as int), va.len() as int) == final(a)@,
                b@ == vb.subrange(ob + vx_i0 * n, vb.len() as int),
                forall|p: int, q: int| 0 <= q <= p < vx_i0 ==> fa[oa + tri(p) + q] == vb[ob + #[trigger] at2(M2 { off: 0, s0: n as int, s1: 1 }, p, q)],
            decreases n - vx_i0,
//@at before let (a_prev #0
            let ghost f0 = final(a)@;
            let ghost t = tri(i as int);
            proof {
                lemma_tri_mono(i + 1, n as int);
                assert(tri(i + 1) == t + i + 1);
                assert((i + 1) * n <= n * n && (i + 1) * n == i * n + n) by (nonlinear_arith) requires 0 <= i < n;
            }
//@at let b_prev #0
            let ghost fp = final(a_prev)@;
            proof { assert(f0 =~= fp + final(a_next)@); }
//@loop 1
            invariant
                0 <= i < n, a_prev@.len() == i + 1, b_prev@.len() == n, vx_n1 == i + 1, 0 <= vx_i1 <= i + 1,
                final(a_prev)@ == fp,
                forall|q: int| 0 <= q < vx_i1 ==> #[trigger] a_prev@[q] == b_prev@[q],
            decreases vx_n1 - vx_i1,
//@at loop 1 after
            proof {
                assert(a@ =~= va.subrange(oa + tri(i + 1), va.len() as int));
                assert(b@ =~= vb.subrange(ob + (i + 1) * n, vb.len() as int));
                assert(fp == a_prev@);
                assert(f0 == fa.subrange(oa + t, va.len() as int));
                assert(fa.subrange(oa + tri(i + 1), va.len() as int) =~= final(a)@) by {
                    assert forall|k: int| 0 <= k < final(a)@.len() implies final(a)@[k] == fa[oa + tri(i + 1) + k] by { assert(f0[i + 1 + k] == final(a)@[k]); }
                }
                assert forall|p: int, q: int| 0 <= q <= p < i + 1 implies fa[oa + tri(p) + q] == vb[ob + #[trigger] at2(M2 { off: 0, s0: n as int, s1: 1 }, p, q)] by {
                    if p == i {
                        assert(f0[q] == fp[q]);
                        assert(fa[oa + t + q] == f0[q]);
                        assert(b_prev@[q] == vb[ob + i * n + q]);
                        lemma_rowcol(p, q, n as int);
                    }
                }
            }
//@at bottom
        proof {
            assert(final(a)@ == a@);
            let k1 = M1 { off: oa, s: 1 }; let k2 = M2 { off: ob, s0: n as int, s1: 1 };
            assert forall|p: int, q: int| in_tri(true, n as int, p, q) && (p < n || (p == n && q < 0)) implies fa[at1(k1, pidx(true, n as int, p, q))] == vb[#[trigger] at2(k2, p, q)] by {
                assert(at2(k2, p, q) == ob + at2(M2 { off: 0, s0: n as int, s1: 1 }, p, q));
            }
            assert forall|x: int| 0 <= x < fa.len() && (forall|k: int| 0 <= k < npack(n as int) ==> #[trigger] at1(k1, k) != x) implies #[trigger] fa[x] == va[x] by {
                if x < oa { assert(fa.subrange(0, oa)[x] == va.subrange(0, oa)[x]); }
                else if x < oa + npack(n as int) { assert(at1(k1, x - oa) == x); }
                else { assert(final(a)@[x - oa - tri(n as int)] == a@[x - oa - tri(n as int)]); }
            }
        }
//@end
//@fn rstsr-native-impl/src/cpu_serial/op_tri.rs :: inner_pack_tril_general
//@requires
        la.fits(), la.shape@.len() == 1, la.shape@[0] == npack(n as int), n > 0 ==> la.lo() >= 0 && la.hi() < old(a)@.len(),
        lb.fits(), lb.shape@.len() == 2, lb.shape@[0] == n, lb.shape@[1] == n, n > 0 ==> lb.lo() >= 0 && lb.hi() < b@.len(),
        n > 1 ==> la.stride@[0] != 0,
//@ensures
        packed(final(a)@, old(a)@, b@, m1_of(*la), m2_of(*lb), n as int, true),
//@at start
        proof { assert(a.len() == a@.len() && b.len() == b@.len()); lemma_tri_mono(0, n as int); assert(n * n >= 0) by (nonlinear_arith); }
//@at start
        let ghost a0 = a@;
        let ghost ma = m1_of(*la); let ghost mb = m2_of(*lb);
        proof {
            lemma_tri_closed(n as int);
            if n == 1 { assert(tri(1) == 1) by { reveal_with_fuel(tri, 3); } }
            lemma_layout1(*la, npack(n as int), a@.len() as int); lemma_layout2(*lb, n as int, b@.len() as int);
            assert(npack(n as int) >= n) by { lemma_tri_mono(0, n as int); if n > 0 { lemma_tri_mono(0, n - 1); } }
            assert forall|k: int, k2: int| 0 <= k < npack(n as int) && 0 <= k2 < npack(n as int) && #[trigger] at1(ma, k) == #[trigger] at1(ma, k2) implies k == k2 by {
                if n > 1 { assert(k * ma.s == k2 * ma.s); assert(k == k2) by (nonlinear_arith) requires k * ma.s == k2 * ma.s, ma.s != 0; }
            }
        }
//@loop 0
            invariant
                la.fits(), la.shape@.len() == 1, la.shape@[0] == npack(n as int), lb.fits(), lb.shape@.len() == 2, lb.shape@[0] == n, lb.shape@[1] == n, ma == m1_of(*la), mb == m2_of(*lb), inside2(mb, n as int, b@.len() as int), distinct1(ma, npack(n as int)), inside1(ma, npack(n as int), a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX,
                vx_n0 == n, 0 <= vx_i0 <= n, idx_a == tri(vx_i0 as int),
                pack_inv(a@, a0, b@, ma, mb, n as int, true, vx_i0 as int, 0),
            decreases n - vx_i0,
//@loop 1
            invariant
                la.fits(), la.shape@.len() == 1, la.shape@[0] == npack(n as int), lb.fits(), lb.shape@.len() == 2, lb.shape@[0] == n, lb.shape@[1] == n, ma == m1_of(*la), mb == m2_of(*lb), inside2(mb, n as int, b@.len() as int), distinct1(ma, npack(n as int)), inside1(ma, npack(n as int), a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX,
                0 <= i < n, vx_n1 == i + 1, 0 <= vx_i1 <= i + 1, vx_i0 == i + 1, vx_n0 == n, idx_a == pidx(true, n as int, i as int, vx_i1 as int),
                pack_inv(a@, a0, b@, ma, mb, n as int, true, i as int, vx_i1 as int),
            decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost ap = a@;
            proof {
                lemma_pidx(true, n as int, i as int, vx_i1 as int);
                lemma_at2(*lb, n as int, i, vx_i1); lemma_at1(*la, npack(n as int), idx_a);
                assert(0 <= at2(mb, i as int, vx_i1 as int) < b@.len()); assert(0 <= at1(ma, idx_a as int) < a@.len());
            }
//@at loop 1 bottom
            proof { lemma_pack_step(ap, a@, a0, b@, ma, mb, n as int, true, i as int, j as int); }
//@at loop 1 after
            proof { lemma_pack_row(a@, a0, b@, ma, mb, n as int, true, i as int); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/op_tri.rs :: inner_pack_triu_c_contig
//@requires
        offset_a + npack(n as int) <= old(a)@.len(), offset_b + n * n <= b@.len(),
//@ensures
        packed(final(a)@, old(a)@, b@, M1 { off: offset_a as int, s: 1 }, M2 { off: offset_b as int, s0: n as int, s1: 1 }, n as int, false),
//@at start
        proof { assert(a.len() == a@.len() && b.len() == b@.len()); lemma_tri_mono(0, n as int); assert(n * n >= 0) by (nonlinear_arith); }
        let ghost va = a@; let ghost vb = b@;
//@at let idx_a #0
        let ghost a0 = a@;
        let ghost ma = M1 { off: 0, s: 1 }; let ghost mb = M2 { off: 0, s0: n as int, s1: 1 };
        proof {
            assert(inside1(ma, npack(n as int), a@.len() as int)); assert(distinct1(ma, npack(n as int)));
            lemma_tri_mono(0, n as int);
        }
//@loop 0
            invariant
                ma == (M1 { off: 0, s: 1 }), mb == (M2 { off: 0, s0: n as int, s1: 1 }), n * n <= b@.len(), distinct1(ma, npack(n as int)), inside1(ma, npack(n as int), a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX,
                vx_n0 == n, 0 <= vx_i0 <= n, idx_a == uro(n as int, vx_i0 as int),
                pack_inv(a@, a0, b@, ma, mb, n as int, false, vx_i0 as int, vx_i0 as int),
            decreases n - vx_i0,
//@loop 1
            invariant
                ma == (M1 { off: 0, s: 1 }), mb == (M2 { off: 0, s0: n as int, s1: 1 }), n * n <= b@.len(), distinct1(ma, npack(n as int)), inside1(ma, npack(n as int), a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX,
                0 <= i < n, vx_n1 == n, i <= vx_i1 <= n, vx_i0 == i + 1, vx_n0 == n, idx_a == pidx(false, n as int, i as int, vx_i1 as int),
                pack_inv(a@, a0, b@, ma, mb, n as int, false, i as int, vx_i1 as int),
            decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost ap = a@;
            proof {
                lemma_pidx(false, n as int, i as int, vx_i1 as int);
                assert(at2(mb, i as int, vx_i1 as int) == i * n + vx_i1) by { assert(vx_i1 * 1 == vx_i1); }
                assert(0 <= at1(ma, idx_a as int) < a@.len());
                assert(i * n + vx_i1 < n * n && 0 <= i * n) by (nonlinear_arith) requires 0 <= i < n, 0 <= vx_i1 < n;
            }
//@at loop 1 bottom
            proof { lemma_pack_step(ap, a@, a0, b@, ma, mb, n as int, false, i as int, j as int); }
//@at loop 1 after
            proof { lemma_pack_row(a@, a0, b@, ma, mb, n as int, false, i as int); }
//@at bottom
        proof { lemma_pack_shift(a@, va, vb, offset_a as int, offset_b as int, n as int, false); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/op_tri.rs :: inner_pack_triu_general
//@requires
        la.fits(), la.shape@.len() == 1, la.shape@[0] == npack(n as int), n > 0 ==> la.lo() >= 0 && la.hi() < old(a)@.len(),
        lb.fits(), lb.shape@.len() == 2, lb.shape@[0] == n, lb.shape@[1] == n, n > 0 ==> lb.lo() >= 0 && lb.hi() < b@.len(),
        n > 1 ==> la.stride@[0] != 0,
//@ensures
        packed(final(a)@, old(a)@, b@, m1_of(*la), m2_of(*lb), n as int, false),
//@at start
        proof { assert(a.len() == a@.len() && b.len() == b@.len()); lemma_tri_mono(0, n as int); assert(n * n >= 0) by (nonlinear_arith); }
//@at start
        let ghost a0 = a@;
        let ghost ma = m1_of(*la); let ghost mb = m2_of(*lb);
        proof {
            lemma_tri_closed(n as int);
            if n == 1 { assert(tri(1) == 1) by { reveal_with_fuel(tri, 3); } }
            lemma_layout1(*la, npack(n as int), a@.len() as int); lemma_layout2(*lb, n as int, b@.len() as int);
            assert(npack(n as int) >= n) by { lemma_tri_mono(0, n as int); if n > 0 { lemma_tri_mono(0, n - 1); } }
            assert forall|k: int, k2: int| 0 <= k < npack(n as int) && 0 <= k2 < npack(n as int) && #[trigger] at1(ma, k) == #[trigger] at1(ma, k2) implies k == k2 by {
                if n > 1 { assert(k * ma.s == k2 * ma.s); assert(k == k2) by (nonlinear_arith) requires k * ma.s == k2 * ma.s, ma.s != 0; }
            }
        }
//@loop 0
            invariant
                la.fits(), la.shape@.len() == 1, la.shape@[0] == npack(n as int), lb.fits(), lb.shape@.len() == 2, lb.shape@[0] == n, lb.shape@[1] == n, ma == m1_of(*la), mb == m2_of(*lb), inside2(mb, n as int, b@.len() as int), distinct1(ma, npack(n as int)), inside1(ma, npack(n as int), a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX,
                vx_n0 == n, 0 <= vx_i0 <= n, idx_a == uro(n as int, vx_i0 as int),
                pack_inv(a@, a0, b@, ma, mb, n as int, false, vx_i0 as int, vx_i0 as int),
            decreases n - vx_i0,
//@loop 1
            invariant
                la.fits(), la.shape@.len() == 1, la.shape@[0] == npack(n as int), lb.fits(), lb.shape@.len() == 2, lb.shape@[0] == n, lb.shape@[1] == n, ma == m1_of(*la), mb == m2_of(*lb), inside2(mb, n as int, b@.len() as int), distinct1(ma, npack(n as int)), inside1(ma, npack(n as int), a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX,
                0 <= i < n, vx_n1 == n, i <= vx_i1 <= n, vx_i0 == i + 1, vx_n0 == n, idx_a == pidx(false, n as int, i as int, vx_i1 as int),
                pack_inv(a@, a0, b@, ma, mb, n as int, false, i as int, vx_i1 as int),
            decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost ap = a@;
            proof {
                lemma_pidx(false, n as int, i as int, vx_i1 as int);
                lemma_at2(*lb, n as int, i, vx_i1); lemma_at1(*la, npack(n as int), idx_a);
                assert(0 <= at2(mb, i as int, vx_i1 as int) < b@.len()); assert(0 <= at1(ma, idx_a as int) < a@.len());
            }
//@at loop 1 bottom
            proof { lemma_pack_step(ap, a@, a0, b@, ma, mb, n as int, false, i as int, j as int); }
//@at loop 1 after
            proof { lemma_pack_row(a@, a0, b@, ma, mb, n as int, false, i as int); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/op_tri.rs :: inner_unpack_tril_c_contig
//@requires
        offset_b + npack(n as int) <= b@.len(), offset_a + n * n <= old(a)@.len(),
//@ensures
        unpacked(final(a)@, old(a)@, b@, M2 { off: offset_a as int, s0: n as int, s1: 1 }, M1 { off: offset_b as int, s: 1 }, n as int, symm, true),
//@at start
        proof { assert(a.len() == a@.len() && b.len() == b@.len()); lemma_tri_mono(0, n as int); assert(n * n >= 0) by (nonlinear_arith); }
        let ghost va = a@; let ghost vb = b@;
//@at let idx_b #0
        let ghost a0 = a@;
        let ghost ma = M2 { off: 0, s0: n as int, s1: 1 }; let ghost mb = M1 { off: 0, s: 1 };
        proof {
            lemma_tri_mono(0, n as int);
            lemma_contig2(n as int, a@.len() as int);
        }
//@loop 0
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Sy,  vx_n0 == n, 0 <= vx_i0 <= n, idx_b == tri(vx_i0 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, vx_i0 as int, 0),
            decreases n - vx_i0,
//@loop 1
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Sy,  0 <= i < n, vx_i0 == i + 1, vx_n0 == n, vx_n1 == i + 1, 0 <= vx_i1 <= i + 1,
                idx_b == pidx(true, n as int, i as int, vx_i1 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, i as int, vx_i1 as int),
            decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost ap1 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, vx_i1 as int);
                lemma_rowcol(i as int, vx_i1 as int, n as int); lemma_rowcol(vx_i1 as int, i as int, n as int);
            }
//@at loop 1 bottom
            proof { lemma_unpack_pair(ap1, a@, a0, b@, ma, mb, n as int, symm, true, i as int, j as int); }
//@at loop 1 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, true, i as int, i + 1); }
//@loop 2
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is He,  vx_n2 == n, 0 <= vx_i2 <= n, idx_b == tri(vx_i2 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, vx_i2 as int, 0),
            decreases n - vx_i2,
//@loop 3
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is He,  0 <= i < n, vx_i2 == i + 1, vx_n2 == n, vx_n3 == i + 1, 0 <= vx_i3 <= i + 1,
                idx_b == pidx(true, n as int, i as int, vx_i3 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, i as int, vx_i3 as int),
            decreases vx_n3 - vx_i3,
//@at loop 3 top
            let ghost ap3 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, vx_i3 as int);
                lemma_rowcol(i as int, vx_i3 as int, n as int); lemma_rowcol(vx_i3 as int, i as int, n as int);
            }
//@at loop 3 bottom
            proof { lemma_unpack_pair(ap3, a@, a0, b@, ma, mb, n as int, symm, true, i as int, j as int); }
//@at loop 3 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, true, i as int, i + 1); }
//@loop 4
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ay,  vx_n4 == n, 0 <= vx_i4 <= n, idx_b == tri(vx_i4 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, vx_i4 as int, 0),
            decreases n - vx_i4,
//@loop 5
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ay,  0 <= i < n, vx_i4 == i + 1, vx_n4 == n, vx_n5 == i, 0 <= vx_i5 <= i,
                idx_b == pidx(true, n as int, i as int, vx_i5 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, i as int, vx_i5 as int),
            decreases vx_n5 - vx_i5,
//@at loop 5 top
            let ghost ap5 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, vx_i5 as int);
                lemma_rowcol(i as int, vx_i5 as int, n as int); lemma_rowcol(vx_i5 as int, i as int, n as int);
            }
//@at loop 5 bottom
            proof { lemma_unpack_pair(ap5, a@, a0, b@, ma, mb, n as int, symm, true, i as int, j as int); }
//@at before a [ i * n + i ] #0
            let ghost ap105 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, i as int);
                lemma_rowcol(i as int, i as int, n as int); lemma_rowcol(i as int, i as int, n as int);
            }
//@at loop 4 bottom
            proof { lemma_unpack_one(ap105, a@, a0, b@, ma, mb, n as int, symm, true, i as int, i as int); lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, true, i as int, i + 1); }
//@loop 6
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ah,  vx_n6 == n, 0 <= vx_i6 <= n, idx_b == tri(vx_i6 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, vx_i6 as int, 0),
            decreases n - vx_i6,
//@loop 7
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ah,  0 <= i < n, vx_i6 == i + 1, vx_n6 == n, vx_n7 == i, 0 <= vx_i7 <= i,
                idx_b == pidx(true, n as int, i as int, vx_i7 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, i as int, vx_i7 as int),
            decreases vx_n7 - vx_i7,
//@at loop 7 top
            let ghost ap7 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, vx_i7 as int);
                lemma_rowcol(i as int, vx_i7 as int, n as int); lemma_rowcol(vx_i7 as int, i as int, n as int);
            }
//@at loop 7 bottom
            proof { lemma_unpack_pair(ap7, a@, a0, b@, ma, mb, n as int, symm, true, i as int, j as int); }
//@at before a [ i * n + i ] #1
            let ghost ap107 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, i as int);
                lemma_rowcol(i as int, i as int, n as int); lemma_rowcol(i as int, i as int, n as int);
            }
//@at loop 6 bottom
            proof { lemma_unpack_one(ap107, a@, a0, b@, ma, mb, n as int, symm, true, i as int, i as int); lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, true, i as int, i + 1); }
//@loop 8
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is N,  vx_n8 == n, 0 <= vx_i8 <= n, idx_b == tri(vx_i8 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, vx_i8 as int, 0),
            decreases n - vx_i8,
//@loop 9
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is N,  0 <= i < n, vx_i8 == i + 1, vx_n8 == n, vx_n9 == i + 1, 0 <= vx_i9 <= i + 1,
                idx_b == pidx(true, n as int, i as int, vx_i9 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, i as int, vx_i9 as int),
            decreases vx_n9 - vx_i9,
//@at loop 9 top
            let ghost ap9 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, vx_i9 as int);
                lemma_rowcol(i as int, vx_i9 as int, n as int); lemma_rowcol(vx_i9 as int, i as int, n as int);
            }
//@at loop 9 bottom
            proof { lemma_unpack_one(ap9, a@, a0, b@, ma, mb, n as int, symm, true, i as int, j as int); }
//@loop 10
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is N,  0 <= i < n, vx_i8 == i + 1, vx_n8 == n, vx_n10 == n, i + 1 <= vx_i10 <= n,
                idx_b == tri(i + 1),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, i as int, vx_i10 as int),
            decreases vx_n10 - vx_i10,
//@at loop 10 top
            let ghost ap10 = a@;
            proof {
                lemma_rowcol(i as int, vx_i10 as int, n as int); lemma_rowcol(vx_i10 as int, i as int, n as int);
            }
//@at loop 10 bottom
            proof { lemma_unpack_one(ap10, a@, a0, b@, ma, mb, n as int, symm, true, i as int, j as int); }
//@at loop 10 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, true, i as int, n as int); }
//@at bottom
        proof { lemma_unpack_shift(a@, va, vb, offset_a as int, offset_b as int, n as int, symm, true); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/op_tri.rs :: inner_unpack_tril_general
//@requires
        la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, n > 0 ==> la.lo() >= 0 && la.hi() < old(a)@.len(),
        lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), n > 0 ==> lb.lo() >= 0 && lb.hi() < b@.len(),
        distinct2(m2_of(*la), n as int),
//@ensures
        unpacked(final(a)@, old(a)@, b@, m2_of(*la), m1_of(*lb), n as int, symm, true),
//@at start
        proof { assert(a.len() == a@.len() && b.len() == b@.len()); lemma_tri_mono(0, n as int); assert(n * n >= 0) by (nonlinear_arith); }
//@at start
        let ghost a0 = a@;
        let ghost ma = m2_of(*la); let ghost mb = m1_of(*lb);
        proof {
            lemma_tri_mono(0, n as int); if n > 0 { lemma_tri_mono(0, n - 1); }
            lemma_layout1(*lb, npack(n as int), b@.len() as int); lemma_layout2(*la, n as int, a@.len() as int);
        }
//@loop 0
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Sy,  vx_n0 == n, 0 <= vx_i0 <= n, idx_b == tri(vx_i0 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, vx_i0 as int, 0),
            decreases n - vx_i0,
//@loop 1
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Sy,  0 <= i < n, vx_i0 == i + 1, vx_n0 == n, vx_n1 == i + 1, 0 <= vx_i1 <= i + 1,
                idx_b == pidx(true, n as int, i as int, vx_i1 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, i as int, vx_i1 as int),
            decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost ap1 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, vx_i1 as int);
                lemma_at2(*la, n as int, i, vx_i1); lemma_at2(*la, n as int, vx_i1, i); lemma_at1(*lb, npack(n as int), idx_b);
                assert(0 <= at2(ma, i as int, vx_i1 as int) < a@.len()); assert(0 <= at2(ma, vx_i1 as int, i as int) < a@.len()); assert(0 <= at1(mb, idx_b as int) < b@.len());
            }
//@at loop 1 bottom
            proof { lemma_unpack_pair(ap1, a@, a0, b@, ma, mb, n as int, symm, true, i as int, j as int); }
//@at loop 1 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, true, i as int, i + 1); }
//@loop 2
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is He,  vx_n2 == n, 0 <= vx_i2 <= n, idx_b == tri(vx_i2 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, vx_i2 as int, 0),
            decreases n - vx_i2,
//@loop 3
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is He,  0 <= i < n, vx_i2 == i + 1, vx_n2 == n, vx_n3 == i + 1, 0 <= vx_i3 <= i + 1,
                idx_b == pidx(true, n as int, i as int, vx_i3 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, i as int, vx_i3 as int),
            decreases vx_n3 - vx_i3,
//@at loop 3 top
            let ghost ap3 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, vx_i3 as int);
                lemma_at2(*la, n as int, i, vx_i3); lemma_at2(*la, n as int, vx_i3, i); lemma_at1(*lb, npack(n as int), idx_b);
                assert(0 <= at2(ma, i as int, vx_i3 as int) < a@.len()); assert(0 <= at2(ma, vx_i3 as int, i as int) < a@.len()); assert(0 <= at1(mb, idx_b as int) < b@.len());
            }
//@at loop 3 bottom
            proof { lemma_unpack_pair(ap3, a@, a0, b@, ma, mb, n as int, symm, true, i as int, j as int); }
//@at loop 3 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, true, i as int, i + 1); }
//@loop 4
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ay,  vx_n4 == n, 0 <= vx_i4 <= n, idx_b == tri(vx_i4 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, vx_i4 as int, 0),
            decreases n - vx_i4,
//@loop 5
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ay,  0 <= i < n, vx_i4 == i + 1, vx_n4 == n, vx_n5 == i, 0 <= vx_i5 <= i,
                idx_b == pidx(true, n as int, i as int, vx_i5 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, i as int, vx_i5 as int),
            decreases vx_n5 - vx_i5,
//@at loop 5 top
            let ghost ap5 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, vx_i5 as int);
                lemma_at2(*la, n as int, i, vx_i5); lemma_at2(*la, n as int, vx_i5, i); lemma_at1(*lb, npack(n as int), idx_b);
                assert(0 <= at2(ma, i as int, vx_i5 as int) < a@.len()); assert(0 <= at2(ma, vx_i5 as int, i as int) < a@.len()); assert(0 <= at1(mb, idx_b as int) < b@.len());
            }
//@at loop 5 bottom
            proof { lemma_unpack_pair(ap5, a@, a0, b@, ma, mb, n as int, symm, true, i as int, j as int); }
//@at before let loc_a_ii #0
            let ghost ap105 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, i as int);
                lemma_at2(*la, n as int, i, i); lemma_at2(*la, n as int, i, i);
                assert(0 <= at2(ma, i as int, i as int) < a@.len()); assert(0 <= at2(ma, i as int, i as int) < a@.len());
            }
//@at loop 4 bottom
            proof { lemma_unpack_one(ap105, a@, a0, b@, ma, mb, n as int, symm, true, i as int, i as int); lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, true, i as int, i + 1); }
//@loop 6
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ah,  vx_n6 == n, 0 <= vx_i6 <= n, idx_b == tri(vx_i6 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, vx_i6 as int, 0),
            decreases n - vx_i6,
//@loop 7
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ah,  0 <= i < n, vx_i6 == i + 1, vx_n6 == n, vx_n7 == i, 0 <= vx_i7 <= i,
                idx_b == pidx(true, n as int, i as int, vx_i7 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, i as int, vx_i7 as int),
            decreases vx_n7 - vx_i7,
//@at loop 7 top
            let ghost ap7 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, vx_i7 as int);
                lemma_at2(*la, n as int, i, vx_i7); lemma_at2(*la, n as int, vx_i7, i); lemma_at1(*lb, npack(n as int), idx_b);
                assert(0 <= at2(ma, i as int, vx_i7 as int) < a@.len()); assert(0 <= at2(ma, vx_i7 as int, i as int) < a@.len()); assert(0 <= at1(mb, idx_b as int) < b@.len());
            }
//@at loop 7 bottom
            proof { lemma_unpack_pair(ap7, a@, a0, b@, ma, mb, n as int, symm, true, i as int, j as int); }
//@at before let loc_a_ii #1
            let ghost ap107 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, i as int);
                lemma_at2(*la, n as int, i, i); lemma_at2(*la, n as int, i, i);
                assert(0 <= at2(ma, i as int, i as int) < a@.len()); assert(0 <= at2(ma, i as int, i as int) < a@.len());
            }
//@at loop 6 bottom
            proof { lemma_unpack_one(ap107, a@, a0, b@, ma, mb, n as int, symm, true, i as int, i as int); lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, true, i as int, i + 1); }
//@loop 8
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is N,  vx_n8 == n, 0 <= vx_i8 <= n, idx_b == tri(vx_i8 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, vx_i8 as int, 0),
            decreases n - vx_i8,
//@loop 9
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is N,  0 <= i < n, vx_i8 == i + 1, vx_n8 == n, vx_n9 == i + 1, 0 <= vx_i9 <= i + 1,
                idx_b == pidx(true, n as int, i as int, vx_i9 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, i as int, vx_i9 as int),
            decreases vx_n9 - vx_i9,
//@at loop 9 top
            let ghost ap9 = a@;
            proof {
                lemma_pidx(true, n as int, i as int, vx_i9 as int);
                lemma_at2(*la, n as int, i, vx_i9); lemma_at2(*la, n as int, vx_i9, i); lemma_at1(*lb, npack(n as int), idx_b);
                assert(0 <= at2(ma, i as int, vx_i9 as int) < a@.len()); assert(0 <= at2(ma, vx_i9 as int, i as int) < a@.len()); assert(0 <= at1(mb, idx_b as int) < b@.len());
            }
//@at loop 9 bottom
            proof { lemma_unpack_one(ap9, a@, a0, b@, ma, mb, n as int, symm, true, i as int, j as int); }
//@loop 10
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is N,  0 <= i < n, vx_i8 == i + 1, vx_n8 == n, vx_n10 == n, i + 1 <= vx_i10 <= n,
                idx_b == tri(i + 1),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, true, i as int, vx_i10 as int),
            decreases vx_n10 - vx_i10,
//@at loop 10 top
            let ghost ap10 = a@;
            proof {
                lemma_at2(*la, n as int, i, vx_i10); lemma_at2(*la, n as int, vx_i10, i);
                assert(0 <= at2(ma, i as int, vx_i10 as int) < a@.len()); assert(0 <= at2(ma, vx_i10 as int, i as int) < a@.len());
            }
//@at loop 10 bottom
            proof { lemma_unpack_one(ap10, a@, a0, b@, ma, mb, n as int, symm, true, i as int, j as int); }
//@at loop 10 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, true, i as int, n as int); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/op_tri.rs :: inner_unpack_triu_c_contig
//@requires
        offset_b + npack(n as int) <= b@.len(), offset_a + n * n <= old(a)@.len(),
//@ensures
        unpacked(final(a)@, old(a)@, b@, M2 { off: offset_a as int, s0: n as int, s1: 1 }, M1 { off: offset_b as int, s: 1 }, n as int, symm, false),
//@at start
        proof { assert(a.len() == a@.len() && b.len() == b@.len()); lemma_tri_mono(0, n as int); assert(n * n >= 0) by (nonlinear_arith); }
        let ghost va = a@; let ghost vb = b@;
//@at let idx_b #0
        let ghost a0 = a@;
        let ghost ma = M2 { off: 0, s0: n as int, s1: 1 }; let ghost mb = M1 { off: 0, s: 1 };
        proof {
            lemma_tri_mono(0, n as int);
            lemma_contig2(n as int, a@.len() as int);
        }
//@loop 0
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Sy,  vx_n0 == n, 0 <= vx_i0 <= n, idx_b == uro(n as int, vx_i0 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, vx_i0 as int, vx_i0 as int),
            decreases n - vx_i0,
//@loop 1
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Sy,  0 <= i < n, vx_i0 == i + 1, vx_n0 == n, vx_n1 == n, i <= vx_i1 <= n,
                idx_b == pidx(false, n as int, i as int, vx_i1 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, i as int, vx_i1 as int),
            decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost ap1 = a@;
            proof {
                lemma_pidx(false, n as int, i as int, vx_i1 as int);
                lemma_rowcol(i as int, vx_i1 as int, n as int); lemma_rowcol(vx_i1 as int, i as int, n as int);
            }
//@at loop 1 bottom
            proof { lemma_unpack_pair(ap1, a@, a0, b@, ma, mb, n as int, symm, false, i as int, j as int); }
//@at loop 1 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, false, i as int, n as int); }
//@loop 2
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is He,  vx_n2 == n, 0 <= vx_i2 <= n, idx_b == uro(n as int, vx_i2 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, vx_i2 as int, vx_i2 as int),
            decreases n - vx_i2,
//@loop 3
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is He,  0 <= i < n, vx_i2 == i + 1, vx_n2 == n, vx_n3 == n, i <= vx_i3 <= n,
                idx_b == pidx(false, n as int, i as int, vx_i3 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, i as int, vx_i3 as int),
            decreases vx_n3 - vx_i3,
//@at loop 3 top
            let ghost ap3 = a@;
            proof {
                lemma_pidx(false, n as int, i as int, vx_i3 as int);
                lemma_rowcol(i as int, vx_i3 as int, n as int); lemma_rowcol(vx_i3 as int, i as int, n as int);
            }
//@at loop 3 bottom
            proof { lemma_unpack_pair(ap3, a@, a0, b@, ma, mb, n as int, symm, false, i as int, j as int); }
//@at loop 3 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, false, i as int, n as int); }
//@loop 4
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ay,  vx_n4 == n, 0 <= vx_i4 <= n, idx_b == uro(n as int, vx_i4 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, vx_i4 as int, vx_i4 as int),
            decreases n - vx_i4,
//@at loop 4 top
            let ghost ap105 = a@;
            proof {
                let i = vx_i4;
                lemma_pidx(false, n as int, i as int, i as int);
                lemma_rowcol(i as int, i as int, n as int); lemma_rowcol(i as int, i as int, n as int);
            }
//@at loop 5 before
            proof { lemma_unpack_one(ap105, a@, a0, b@, ma, mb, n as int, symm, false, i as int, i as int); }
//@loop 5
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ay,  0 <= i < n, vx_i4 == i + 1, vx_n4 == n, vx_n5 == n, i + 1 <= vx_i5 <= n,
                idx_b == pidx(false, n as int, i as int, vx_i5 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, i as int, vx_i5 as int),
            decreases vx_n5 - vx_i5,
//@at loop 5 top
            let ghost ap5 = a@;
            proof {
                lemma_pidx(false, n as int, i as int, vx_i5 as int);
                lemma_rowcol(i as int, vx_i5 as int, n as int); lemma_rowcol(vx_i5 as int, i as int, n as int);
            }
//@at loop 5 bottom
            proof { lemma_unpack_pair(ap5, a@, a0, b@, ma, mb, n as int, symm, false, i as int, j as int); }
//@at loop 5 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, false, i as int, n as int); }
//@loop 6
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ah,  vx_n6 == n, 0 <= vx_i6 <= n, idx_b == uro(n as int, vx_i6 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, vx_i6 as int, vx_i6 as int),
            decreases n - vx_i6,
//@at loop 6 top
            let ghost ap107 = a@;
            proof {
                let i = vx_i6;
                lemma_pidx(false, n as int, i as int, i as int);
                lemma_rowcol(i as int, i as int, n as int); lemma_rowcol(i as int, i as int, n as int);
            }
//@at loop 7 before
            proof { lemma_unpack_one(ap107, a@, a0, b@, ma, mb, n as int, symm, false, i as int, i as int); }
//@loop 7
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ah,  0 <= i < n, vx_i6 == i + 1, vx_n6 == n, vx_n7 == n, i + 1 <= vx_i7 <= n,
                idx_b == pidx(false, n as int, i as int, vx_i7 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, i as int, vx_i7 as int),
            decreases vx_n7 - vx_i7,
//@at loop 7 top
            let ghost ap7 = a@;
            proof {
                lemma_pidx(false, n as int, i as int, vx_i7 as int);
                lemma_rowcol(i as int, vx_i7 as int, n as int); lemma_rowcol(vx_i7 as int, i as int, n as int);
            }
//@at loop 7 bottom
            proof { lemma_unpack_pair(ap7, a@, a0, b@, ma, mb, n as int, symm, false, i as int, j as int); }
//@at loop 7 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, false, i as int, n as int); }
//@loop 8
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is N,  vx_n8 == n, 0 <= vx_i8 <= n, idx_b == uro(n as int, vx_i8 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, vx_i8 as int, 0),
            decreases n - vx_i8,
//@loop 9
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is N,  0 <= i < n, vx_i8 == i + 1, vx_n8 == n, vx_n9 == i, 0 <= vx_i9 <= i,
                idx_b == uro(n as int, i as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, i as int, vx_i9 as int),
            decreases vx_n9 - vx_i9,
//@at loop 9 top
            let ghost ap9 = a@;
            proof {
                lemma_rowcol(i as int, vx_i9 as int, n as int); lemma_rowcol(vx_i9 as int, i as int, n as int);
            }
//@at loop 9 bottom
            proof { lemma_unpack_one(ap9, a@, a0, b@, ma, mb, n as int, symm, false, i as int, j as int); }
//@loop 10
            invariant
                ma == (M2 { off: 0, s0: n as int, s1: 1 }), mb == (M1 { off: 0, s: 1 }), npack(n as int) <= b@.len(), n * n <= a0.len(), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is N,  0 <= i < n, vx_i8 == i + 1, vx_n8 == n, vx_n10 == n, i <= vx_i10 <= n,
                idx_b == pidx(false, n as int, i as int, vx_i10 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, i as int, vx_i10 as int),
            decreases vx_n10 - vx_i10,
//@at loop 10 top
            let ghost ap10 = a@;
            proof {
                lemma_pidx(false, n as int, i as int, vx_i10 as int);
                lemma_rowcol(i as int, vx_i10 as int, n as int); lemma_rowcol(vx_i10 as int, i as int, n as int);
            }
//@at loop 10 bottom
            proof { lemma_unpack_one(ap10, a@, a0, b@, ma, mb, n as int, symm, false, i as int, j as int); }
//@at loop 10 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, false, i as int, n as int); }
//@at bottom
        proof { lemma_unpack_shift(a@, va, vb, offset_a as int, offset_b as int, n as int, symm, false); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/op_tri.rs :: inner_unpack_triu_general
//@requires
        la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, n > 0 ==> la.lo() >= 0 && la.hi() < old(a)@.len(),
        lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), n > 0 ==> lb.lo() >= 0 && lb.hi() < b@.len(),
        distinct2(m2_of(*la), n as int),
//@ensures
        unpacked(final(a)@, old(a)@, b@, m2_of(*la), m1_of(*lb), n as int, symm, false),
//@at start
        proof { assert(a.len() == a@.len() && b.len() == b@.len()); lemma_tri_mono(0, n as int); assert(n * n >= 0) by (nonlinear_arith); }
//@at start
        let ghost a0 = a@;
        let ghost ma = m2_of(*la); let ghost mb = m1_of(*lb);
        proof {
            lemma_tri_mono(0, n as int); if n > 0 { lemma_tri_mono(0, n - 1); }
            lemma_layout1(*lb, npack(n as int), b@.len() as int); lemma_layout2(*la, n as int, a@.len() as int);
        }
//@loop 0
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Sy,  vx_n0 == n, 0 <= vx_i0 <= n, idx_b == uro(n as int, vx_i0 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, vx_i0 as int, vx_i0 as int),
            decreases n - vx_i0,
//@loop 1
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Sy,  0 <= i < n, vx_i0 == i + 1, vx_n0 == n, vx_n1 == n, i <= vx_i1 <= n,
                idx_b == pidx(false, n as int, i as int, vx_i1 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, i as int, vx_i1 as int),
            decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost ap1 = a@;
            proof {
                lemma_pidx(false, n as int, i as int, vx_i1 as int);
                lemma_at2(*la, n as int, i, vx_i1); lemma_at2(*la, n as int, vx_i1, i); lemma_at1(*lb, npack(n as int), idx_b);
                assert(0 <= at2(ma, i as int, vx_i1 as int) < a@.len()); assert(0 <= at2(ma, vx_i1 as int, i as int) < a@.len()); assert(0 <= at1(mb, idx_b as int) < b@.len());
            }
//@at loop 1 bottom
            proof { lemma_unpack_pair(ap1, a@, a0, b@, ma, mb, n as int, symm, false, i as int, j as int); }
//@at loop 1 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, false, i as int, n as int); }
//@loop 2
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is He,  vx_n2 == n, 0 <= vx_i2 <= n, idx_b == uro(n as int, vx_i2 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, vx_i2 as int, vx_i2 as int),
            decreases n - vx_i2,
//@loop 3
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is He,  0 <= i < n, vx_i2 == i + 1, vx_n2 == n, vx_n3 == n, i <= vx_i3 <= n,
                idx_b == pidx(false, n as int, i as int, vx_i3 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, i as int, vx_i3 as int),
            decreases vx_n3 - vx_i3,
//@at loop 3 top
            let ghost ap3 = a@;
            proof {
                lemma_pidx(false, n as int, i as int, vx_i3 as int);
                lemma_at2(*la, n as int, i, vx_i3); lemma_at2(*la, n as int, vx_i3, i); lemma_at1(*lb, npack(n as int), idx_b);
                assert(0 <= at2(ma, i as int, vx_i3 as int) < a@.len()); assert(0 <= at2(ma, vx_i3 as int, i as int) < a@.len()); assert(0 <= at1(mb, idx_b as int) < b@.len());
            }
//@at loop 3 bottom
            proof { lemma_unpack_pair(ap3, a@, a0, b@, ma, mb, n as int, symm, false, i as int, j as int); }
//@at loop 3 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, false, i as int, n as int); }
//@loop 4
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ay,  vx_n4 == n, 0 <= vx_i4 <= n, idx_b == uro(n as int, vx_i4 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, vx_i4 as int, vx_i4 as int),
            decreases n - vx_i4,
//@at loop 4 top
            let ghost ap105 = a@;
            proof {
                let i = vx_i4;
                lemma_pidx(false, n as int, i as int, i as int);
                lemma_at2(*la, n as int, i, i); lemma_at2(*la, n as int, i, i);
                assert(0 <= at2(ma, i as int, i as int) < a@.len()); assert(0 <= at2(ma, i as int, i as int) < a@.len());
            }
//@at loop 5 before
            proof { lemma_unpack_one(ap105, a@, a0, b@, ma, mb, n as int, symm, false, i as int, i as int); }
//@loop 5
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ay,  0 <= i < n, vx_i4 == i + 1, vx_n4 == n, vx_n5 == n, i + 1 <= vx_i5 <= n,
                idx_b == pidx(false, n as int, i as int, vx_i5 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, i as int, vx_i5 as int),
            decreases vx_n5 - vx_i5,
//@at loop 5 top
            let ghost ap5 = a@;
            proof {
                lemma_pidx(false, n as int, i as int, vx_i5 as int);
                lemma_at2(*la, n as int, i, vx_i5); lemma_at2(*la, n as int, vx_i5, i); lemma_at1(*lb, npack(n as int), idx_b);
                assert(0 <= at2(ma, i as int, vx_i5 as int) < a@.len()); assert(0 <= at2(ma, vx_i5 as int, i as int) < a@.len()); assert(0 <= at1(mb, idx_b as int) < b@.len());
            }
//@at loop 5 bottom
            proof { lemma_unpack_pair(ap5, a@, a0, b@, ma, mb, n as int, symm, false, i as int, j as int); }
//@at loop 5 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, false, i as int, n as int); }
//@loop 6
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ah,  vx_n6 == n, 0 <= vx_i6 <= n, idx_b == uro(n as int, vx_i6 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, vx_i6 as int, vx_i6 as int),
            decreases n - vx_i6,
//@at loop 6 top
            let ghost ap107 = a@;
            proof {
                let i = vx_i6;
                lemma_pidx(false, n as int, i as int, i as int);
                lemma_at2(*la, n as int, i, i); lemma_at2(*la, n as int, i, i);
                assert(0 <= at2(ma, i as int, i as int) < a@.len()); assert(0 <= at2(ma, i as int, i as int) < a@.len());
            }
//@at loop 7 before
            proof { lemma_unpack_one(ap107, a@, a0, b@, ma, mb, n as int, symm, false, i as int, i as int); }
//@loop 7
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is Ah,  0 <= i < n, vx_i6 == i + 1, vx_n6 == n, vx_n7 == n, i + 1 <= vx_i7 <= n,
                idx_b == pidx(false, n as int, i as int, vx_i7 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, i as int, vx_i7 as int),
            decreases vx_n7 - vx_i7,
//@at loop 7 top
            let ghost ap7 = a@;
            proof {
                lemma_pidx(false, n as int, i as int, vx_i7 as int);
                lemma_at2(*la, n as int, i, vx_i7); lemma_at2(*la, n as int, vx_i7, i); lemma_at1(*lb, npack(n as int), idx_b);
                assert(0 <= at2(ma, i as int, vx_i7 as int) < a@.len()); assert(0 <= at2(ma, vx_i7 as int, i as int) < a@.len()); assert(0 <= at1(mb, idx_b as int) < b@.len());
            }
//@at loop 7 bottom
            proof { lemma_unpack_pair(ap7, a@, a0, b@, ma, mb, n as int, symm, false, i as int, j as int); }
//@at loop 7 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, false, i as int, n as int); }
//@loop 8
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is N,  vx_n8 == n, 0 <= vx_i8 <= n, idx_b == uro(n as int, vx_i8 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, vx_i8 as int, 0),
            decreases n - vx_i8,
//@loop 9
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is N,  0 <= i < n, vx_i8 == i + 1, vx_n8 == n, vx_n9 == i, 0 <= vx_i9 <= i,
                idx_b == uro(n as int, i as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, i as int, vx_i9 as int),
            decreases vx_n9 - vx_i9,
//@at loop 9 top
            let ghost ap9 = a@;
            proof {
                lemma_at2(*la, n as int, i, vx_i9); lemma_at2(*la, n as int, vx_i9, i);
                assert(0 <= at2(ma, i as int, vx_i9 as int) < a@.len()); assert(0 <= at2(ma, vx_i9 as int, i as int) < a@.len());
            }
//@at loop 9 bottom
            proof { lemma_unpack_one(ap9, a@, a0, b@, ma, mb, n as int, symm, false, i as int, j as int); }
//@loop 10
            invariant
                la.fits(), la.shape@.len() == 2, la.shape@[0] == n, la.shape@[1] == n, lb.fits(), lb.shape@.len() == 1, lb.shape@[0] == npack(n as int), ma == m2_of(*la), mb == m1_of(*lb), inside1(mb, npack(n as int), b@.len() as int), distinct2(ma, n as int), inside2(ma, n as int, a0.len() as int), b@.len() <= usize::MAX, a0.len() <= usize::MAX, npack(n as int) <= usize::MAX, 
                symm is N,  0 <= i < n, vx_i8 == i + 1, vx_n8 == n, vx_n10 == n, i <= vx_i10 <= n,
                idx_b == pidx(false, n as int, i as int, vx_i10 as int),
                unpack_inv(a@, a0, b@, ma, mb, n as int, symm, false, i as int, vx_i10 as int),
            decreases vx_n10 - vx_i10,
//@at loop 10 top
            let ghost ap10 = a@;
            proof {
                lemma_pidx(false, n as int, i as int, vx_i10 as int);
                lemma_at2(*la, n as int, i, vx_i10); lemma_at2(*la, n as int, vx_i10, i); lemma_at1(*lb, npack(n as int), idx_b);
                assert(0 <= at2(ma, i as int, vx_i10 as int) < a@.len()); assert(0 <= at2(ma, vx_i10 as int, i as int) < a@.len()); assert(0 <= at1(mb, idx_b as int) < b@.len());
            }
//@at loop 10 bottom
            proof { lemma_unpack_one(ap10, a@, a0, b@, ma, mb, n as int, symm, false, i as int, j as int); }
//@at loop 10 after
            proof { lemma_unpack_row(a@, a0, b@, ma, mb, n as int, symm, false, i as int, n as int); }
//@end
}
fn main() {}
