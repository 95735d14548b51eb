// Element-wise kernels. The operation is a callback that sees the destination element and the operand elements only;
// it is represented by an arbitrary fixed function of these (a callback with state of its own is outside the contract).
pub uninterp spec fn op3<C, A, B>(c: C, a: A, b: B) -> C;
#[verifier::external_body]
pub fn vx_f3<C, A, B>(c: &mut C, a: &A, b: &B)
    ensures *final(c) == op3(*old(c), *a, *b),
{ unimplemented!() }
pub uninterp spec fn op2<C, A>(c: C, a: A) -> C;
#[verifier::external_body]
pub fn vx_f2<C, A>(c: &mut C, a: &A)
    ensures *final(c) == op2(*old(c), *a),
{ unimplemented!() }
pub uninterp spec fn op1<C>(c: C) -> C;
#[verifier::external_body]
pub fn vx_f1<C>(c: &mut C)
    ensures *final(c) == op1(*old(c)),
{ unimplemented!() }
pub open spec fn val3r<C, A, B>(c: Seq<C>, lc: Layout, a: Seq<A>, la: Layout, b: B) -> spec_fn(Seq<int>) -> C { |ix: Seq<int>| op3(c[lc.addr(ix)], a[la.addr(ix)], b) }
pub open spec fn val3l<C, A, B>(c: Seq<C>, lc: Layout, a: A, b: Seq<B>, lb: Layout) -> spec_fn(Seq<int>) -> C { |ix: Seq<int>| op3(c[lc.addr(ix)], a, b[lb.addr(ix)]) }
pub open spec fn val2<C, A>(c: Seq<C>, lc: Layout, a: Seq<A>, la: Layout) -> spec_fn(Seq<int>) -> C { |ix: Seq<int>| op2(c[lc.addr(ix)], a[la.addr(ix)]) }
pub open spec fn val2n<C, A>(c: Seq<C>, lc: Layout, a: A) -> spec_fn(Seq<int>) -> C { |ix: Seq<int>| op2(c[lc.addr(ix)], a) }
pub open spec fn val1<C>(c: Seq<C>, lc: Layout) -> spec_fn(Seq<int>) -> C { |ix: Seq<int>| op1(c[lc.addr(ix)]) }
//@const rstsr-native-impl/src/cpu_serial/op_with_func.rs :: CONTIG_SWITCH
pub open spec fn val3<C, A, B>(c: Seq<C>, lc: Layout, a: Seq<A>, la: Layout, b: Seq<B>, lb: Layout) -> spec_fn(Seq<int>) -> C {
    |ix: Seq<int>| op3(c[lc.addr(ix)], a[la.addr(ix)], b[lb.addr(ix)])
}
//@fn rstsr-native-impl/src/cpu_serial/op_with_func.rs :: op_mutc_refa_refb_func_cpu_serial
//@opt dispatch:layout_col_major_dim_dispatch_3 drop:f
//@generics <TA, TB, TC>
//@calls f=vx_f3
//@requires
    dest(*lc, old(c)@.len() as int), operand(*la, a@.len() as int), operand(*lb, b@.len() as int),
//@ensures
    r is Ok <==> lc.shape@ == la.shape@ && lc.shape@ == lb.shape@,
    r is Ok ==> mapped(old(c)@, final(c)@, *lc, val3(old(c)@, *lc, a@, *la, b@, *lb)),
    r is Err ==> final(c)@ == old(c)@,
//@at start
    let ghost lc0 = *lc; let ghost la0 = *la; let ghost lb0 = *lb; let ghost c0 = c@;
    let ghost w = val3(c0, lc0, a@, la0, b@, lb0);
//@at let layouts_full
    let ghost ls = seq![lc, la, lb];
    let ghost p = choose|p: Seq<usize>| #[trigger] aligned(ls, layouts_full@, p);
    let ghost fc = layouts_full@[0]; let ghost fa = layouts_full@[1]; let ghost fb = layouts_full@[2];
    proof {
        assert(permuted(*ls[0], layouts_full@[0], p) && permuted(*ls[1], layouts_full@[1], p) && permuted(*ls[2], layouts_full@[2], p));
        lemma_walk_of(lc0, fc, p, c0.len() as int); lemma_walk_of(la0, fa, p, a@.len() as int); lemma_walk_of(lb0, fb, p, b@.len() as int);
        assert(ls[0].shape@ == ls[1].shape@ && ls[0].shape@ == ls[2].shape@);
        lemma_done_start(c0, lc0, fc, p, w);
    }
//@loop 0
        invariant vx_n0 == layouts_full@.len(), vx_i0 <= vx_n0, refs_of(vx_acc0@, layouts_full@, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at let layouts_full_ref
    proof { let q = layouts_full_ref@; assert(*q[0] == fc && *q[1] == fa && *q[2] == fb); }
//@at before let lc = #0
        let ghost d = choose|d: int| #[trigger] contig_split(layouts_full_ref@, layouts_contig@, d) && 0 < d <= fc.shape@.len() && size_contig == prod(fc.shape@, d);
        let ghost kc = layouts_contig@[0]; let ghost ka = layouts_contig@[1]; let ghost kb = layouts_contig@[2];
        proof {
            assert(contig_any(layouts_full_ref@, layouts_contig@, size_contig as int));
            assert(dropped(fc, layouts_contig@[0], d) && dropped(fa, layouts_contig@[1], d) && dropped(fb, layouts_contig@[2], d));
            lemma_blocks(fc, kc, d); lemma_blocks(fa, ka, d); lemma_blocks(fb, kb, d);
        }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, walk3(lc0, la0, lb0, fc, fa, fb, p, c0.len() as int, a@.len() as int, b@.len() as int), unrepeated(lc0), injective(lc0),
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int), blocks(fb, kb, d, size_contig as int), 
            vx_n1 == lsize(kc), rec3(vx_rec@, kc, ka, kb), w == val3(c0, lc0, a@, la0, b@, lb0),
            done(c0, c@, lc0, fc, p, w, vx_i1 * size_contig),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost o = vx_i1 as int;
            proof { assert(o * size_contig + 0 == o * size_contig); }
//@loop 2
        invariant vx_n2 == size_contig, vx_i2 <= vx_n2, walk3(lc0, la0, lb0, fc, fa, fb, p, c0.len() as int, a@.len() as int, b@.len() as int), unrepeated(lc0), injective(lc0),
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int), blocks(fb, kb, d, size_contig as int), 
            0 <= o < lsize(kc), idx_c == kc.elem(false, o), idx_a == ka.elem(false, o), idx_b == kb.elem(false, o), w == val3(c0, lc0, a@, la0, b@, lb0),
            done(c0, c@, lc0, fc, p, w, o * size_contig + vx_i2),
        decreases vx_n2 - vx_i2,
//@at loop 2 top
            let ghost m = o * size_contig + vx_i2;
            proof {
                lemma_in_block(fc, kc, d, size_contig as int, o, vx_i2 as int); lemma_in_block(fa, ka, d, size_contig as int, o, vx_i2 as int); lemma_in_block(fb, kb, d, size_contig as int, o, vx_i2 as int);
                lemma_done_step(c0, c@, lc0, fc, p, w, m);
                lemma_step_in(lc0, fc, p, c0.len() as int, m); lemma_step_in(la0, fa, p, a@.len() as int, m); lemma_step_in(lb0, fb, p, b@.len() as int, m);
                assert(c.len() == c@.len() && a.len() == a@.len() && b.len() == b@.len());
            }
//@at loop 2 after
            proof { assert(o * size_contig + size_contig == (o + 1) * size_contig) by (nonlinear_arith); }
//@at loop 1 after
            proof { assert(lsize(kc) * size_contig == size_contig * lsize(kc)) by (nonlinear_arith); lemma_done_end(c0, c@, lc0, fc, p, w); }
//@loop 3
        invariant vx_n3 == vx_rec@.len(), vx_i3 <= vx_n3, walk3(lc0, la0, lb0, fc, fa, fb, p, c0.len() as int, a@.len() as int, b@.len() as int), unrepeated(lc0), injective(lc0),
            vx_n3 == lsize(fc), rec3(vx_rec@, fc, fa, fb), w == val3(c0, lc0, a@, la0, b@, lb0),
            done(c0, c@, lc0, fc, p, w, vx_i3 as int),
        decreases vx_n3 - vx_i3,
//@at loop 3 top
            let ghost m = vx_i3 as int;
            proof {
                lemma_done_step(c0, c@, lc0, fc, p, w, m);
                lemma_step_in(lc0, fc, p, c0.len() as int, m); lemma_step_in(la0, fa, p, a@.len() as int, m); lemma_step_in(lb0, fb, p, b@.len() as int, m);
                assert(c.len() == c@.len() && a.len() == a@.len() && b.len() == b@.len());
            }
//@at loop 3 after
            proof { lemma_done_end(c0, c@, lc0, fc, p, w); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/op_with_func.rs :: op_mutc_refa_numb_func_cpu_serial
//@opt dispatch:layout_col_major_dim_dispatch_2 drop:f
//@generics <TA, TB, TC>
//@calls f=vx_f3
//@requires
    dest(*lc, old(c)@.len() as int), operand(*la, a@.len() as int),
//@ensures
    r is Ok <==> lc.shape@ == la.shape@,
    r is Ok ==> mapped(old(c)@, final(c)@, *lc, val3r(old(c)@, *lc, a@, *la, b)),
    r is Err ==> final(c)@ == old(c)@,
//@at start
    let ghost ld0 = *lc; let ghost ls0 = *la; let ghost c0 = c@;
    let ghost w = val3r(c0, ld0, a@, ls0, b);
//@at let layouts_full
    let ghost ls = seq![lc, la];
    let ghost p = choose|p: Seq<usize>| #[trigger] aligned(ls, layouts_full@, p);
    let ghost fc = layouts_full@[0]; let ghost fa = layouts_full@[1];
    proof {
        assert(permuted(*ls[0], layouts_full@[0], p) && permuted(*ls[1], layouts_full@[1], p));
        lemma_walk_of(ld0, fc, p, c0.len() as int); lemma_walk_of(ls0, fa, p, a@.len() as int);
        assert(ls[0].shape@ == ls[1].shape@);
        lemma_done_start(c0, ld0, fc, p, w);
    }
//@loop 0
        invariant vx_n0 == layouts_full@.len(), vx_i0 <= vx_n0, refs_of(vx_acc0@, layouts_full@, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at let layouts_full_ref
    proof { let q = layouts_full_ref@; assert(*q[0] == fc && *q[1] == fa); }
//@at before let lc = #0
        let ghost d = choose|d: int| #[trigger] contig_split(layouts_full_ref@, layouts_contig@, d) && 0 < d <= fc.shape@.len() && size_contig == prod(fc.shape@, d);
        let ghost kc = layouts_contig@[0]; let ghost ka = layouts_contig@[1];
        proof {
            assert(contig_any(layouts_full_ref@, layouts_contig@, size_contig as int));
            assert(dropped(fc, layouts_contig@[0], d) && dropped(fa, layouts_contig@[1], d));
            lemma_blocks(fc, kc, d); lemma_blocks(fa, ka, d);
        }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            vx_n1 == lsize(kc), rec2(vx_rec@, kc, ka), w == val3r(c0, ld0, a@, ls0, b),
            done(c0, c@, ld0, fc, p, w, vx_i1 * size_contig),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost o = vx_i1 as int;
            proof { assert(o * size_contig + 0 == o * size_contig); }
//@loop 2
        invariant vx_n2 == size_contig, vx_i2 <= vx_n2, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            0 <= o < lsize(kc), idx_c == kc.elem(false, o), idx_a == ka.elem(false, o), w == val3r(c0, ld0, a@, ls0, b),
            done(c0, c@, ld0, fc, p, w, o * size_contig + vx_i2),
        decreases vx_n2 - vx_i2,
//@at loop 2 top
            let ghost m = o * size_contig + vx_i2;
            proof {
                lemma_in_block(fc, kc, d, size_contig as int, o, vx_i2 as int); lemma_in_block(fa, ka, d, size_contig as int, o, vx_i2 as int);
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, a@.len() as int, m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 2 after
            proof { assert(o * size_contig + size_contig == (o + 1) * size_contig) by (nonlinear_arith); }
//@at loop 1 after
            proof { assert(lsize(kc) * size_contig == size_contig * lsize(kc)) by (nonlinear_arith); lemma_done_end(c0, c@, ld0, fc, p, w); }
//@loop 3
        invariant vx_n3 == vx_rec@.len(), vx_i3 <= vx_n3, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            vx_n3 == lsize(fc), rec2(vx_rec@, fc, fa), w == val3r(c0, ld0, a@, ls0, b),
            done(c0, c@, ld0, fc, p, w, vx_i3 as int),
        decreases vx_n3 - vx_i3,
//@at loop 3 top
            let ghost m = vx_i3 as int;
            proof {
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, a@.len() as int, m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 3 after
            proof { lemma_done_end(c0, c@, ld0, fc, p, w); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/op_with_func.rs :: op_mutc_numa_refb_func_cpu_serial
//@opt dispatch:layout_col_major_dim_dispatch_2 drop:f
//@generics <TA, TB, TC>
//@calls f=vx_f3
//@requires
    dest(*lc, old(c)@.len() as int), operand(*lb, b@.len() as int),
//@ensures
    r is Ok <==> lc.shape@ == lb.shape@,
    r is Ok ==> mapped(old(c)@, final(c)@, *lc, val3l(old(c)@, *lc, a, b@, *lb)),
    r is Err ==> final(c)@ == old(c)@,
//@at start
    let ghost ld0 = *lc; let ghost ls0 = *lb; let ghost c0 = c@;
    let ghost w = val3l(c0, ld0, a, b@, ls0);
//@at let layouts_full
    let ghost ls = seq![lc, lb];
    let ghost p = choose|p: Seq<usize>| #[trigger] aligned(ls, layouts_full@, p);
    let ghost fc = layouts_full@[0]; let ghost fa = layouts_full@[1];
    proof {
        assert(permuted(*ls[0], layouts_full@[0], p) && permuted(*ls[1], layouts_full@[1], p));
        lemma_walk_of(ld0, fc, p, c0.len() as int); lemma_walk_of(ls0, fa, p, b@.len() as int);
        assert(ls[0].shape@ == ls[1].shape@);
        lemma_done_start(c0, ld0, fc, p, w);
    }
//@loop 0
        invariant vx_n0 == layouts_full@.len(), vx_i0 <= vx_n0, refs_of(vx_acc0@, layouts_full@, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at let layouts_full_ref
    proof { let q = layouts_full_ref@; assert(*q[0] == fc && *q[1] == fa); }
//@at before let lc = #0
        let ghost d = choose|d: int| #[trigger] contig_split(layouts_full_ref@, layouts_contig@, d) && 0 < d <= fc.shape@.len() && size_contig == prod(fc.shape@, d);
        let ghost kc = layouts_contig@[0]; let ghost ka = layouts_contig@[1];
        proof {
            assert(contig_any(layouts_full_ref@, layouts_contig@, size_contig as int));
            assert(dropped(fc, layouts_contig@[0], d) && dropped(fa, layouts_contig@[1], d));
            lemma_blocks(fc, kc, d); lemma_blocks(fa, ka, d);
        }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, walk2(ld0, ls0, fc, fa, p, c0.len() as int, b@.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            vx_n1 == lsize(kc), rec2(vx_rec@, kc, ka), w == val3l(c0, ld0, a, b@, ls0),
            done(c0, c@, ld0, fc, p, w, vx_i1 * size_contig),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost o = vx_i1 as int;
            proof { assert(o * size_contig + 0 == o * size_contig); }
//@loop 2
        invariant vx_n2 == size_contig, vx_i2 <= vx_n2, walk2(ld0, ls0, fc, fa, p, c0.len() as int, b@.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            0 <= o < lsize(kc), idx_c == kc.elem(false, o), idx_b == ka.elem(false, o), w == val3l(c0, ld0, a, b@, ls0),
            done(c0, c@, ld0, fc, p, w, o * size_contig + vx_i2),
        decreases vx_n2 - vx_i2,
//@at loop 2 top
            let ghost m = o * size_contig + vx_i2;
            proof {
                lemma_in_block(fc, kc, d, size_contig as int, o, vx_i2 as int); lemma_in_block(fa, ka, d, size_contig as int, o, vx_i2 as int);
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, b@.len() as int, m);
                assert(c.len() == c@.len() && b.len() == b@.len());
            }
//@at loop 2 after
            proof { assert(o * size_contig + size_contig == (o + 1) * size_contig) by (nonlinear_arith); }
//@at loop 1 after
            proof { assert(lsize(kc) * size_contig == size_contig * lsize(kc)) by (nonlinear_arith); lemma_done_end(c0, c@, ld0, fc, p, w); }
//@loop 3
        invariant vx_n3 == vx_rec@.len(), vx_i3 <= vx_n3, walk2(ld0, ls0, fc, fa, p, c0.len() as int, b@.len() as int), unrepeated(ld0), injective(ld0),
            vx_n3 == lsize(fc), rec2(vx_rec@, fc, fa), w == val3l(c0, ld0, a, b@, ls0),
            done(c0, c@, ld0, fc, p, w, vx_i3 as int),
        decreases vx_n3 - vx_i3,
//@at loop 3 top
            let ghost m = vx_i3 as int;
            proof {
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, b@.len() as int, m);
                assert(c.len() == c@.len() && b.len() == b@.len());
            }
//@at loop 3 after
            proof { lemma_done_end(c0, c@, ld0, fc, p, w); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/op_with_func.rs :: op_muta_refb_func_cpu_serial
//@opt dispatch:layout_col_major_dim_dispatch_2 drop:f
//@generics <TA, TB>
//@calls f=vx_f2
//@requires
    dest(*la, old(a)@.len() as int), operand(*lb, b@.len() as int),
//@ensures
    r is Ok <==> la.shape@ == lb.shape@,
    r is Ok ==> mapped(old(a)@, final(a)@, *la, val2(old(a)@, *la, b@, *lb)),
    r is Err ==> final(a)@ == old(a)@,
//@at start
    let ghost ld0 = *la; let ghost ls0 = *lb; let ghost c0 = a@;
    let ghost w = val2(c0, ld0, b@, ls0);
//@at let layouts_full
    let ghost ls = seq![la, lb];
    let ghost p = choose|p: Seq<usize>| #[trigger] aligned(ls, layouts_full@, p);
    let ghost fc = layouts_full@[0]; let ghost fa = layouts_full@[1];
    proof {
        assert(permuted(*ls[0], layouts_full@[0], p) && permuted(*ls[1], layouts_full@[1], p));
        lemma_walk_of(ld0, fc, p, c0.len() as int); lemma_walk_of(ls0, fa, p, b@.len() as int);
        assert(ls[0].shape@ == ls[1].shape@);
        lemma_done_start(c0, ld0, fc, p, w);
    }
//@loop 0
        invariant vx_n0 == layouts_full@.len(), vx_i0 <= vx_n0, refs_of(vx_acc0@, layouts_full@, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at let layouts_full_ref
    proof { let q = layouts_full_ref@; assert(*q[0] == fc && *q[1] == fa); }
//@at before let la = #0
        let ghost d = choose|d: int| #[trigger] contig_split(layouts_full_ref@, layouts_contig@, d) && 0 < d <= fc.shape@.len() && size_contig == prod(fc.shape@, d);
        let ghost kc = layouts_contig@[0]; let ghost ka = layouts_contig@[1];
        proof {
            assert(contig_any(layouts_full_ref@, layouts_contig@, size_contig as int));
            assert(dropped(fc, layouts_contig@[0], d) && dropped(fa, layouts_contig@[1], d));
            lemma_blocks(fc, kc, d); lemma_blocks(fa, ka, d);
        }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, walk2(ld0, ls0, fc, fa, p, c0.len() as int, b@.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            vx_n1 == lsize(kc), rec2(vx_rec@, kc, ka), w == val2(c0, ld0, b@, ls0),
            done(c0, a@, ld0, fc, p, w, vx_i1 * size_contig),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost o = vx_i1 as int;
            proof { assert(o * size_contig + 0 == o * size_contig); }
//@loop 2
        invariant vx_n2 == size_contig, vx_i2 <= vx_n2, walk2(ld0, ls0, fc, fa, p, c0.len() as int, b@.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            0 <= o < lsize(kc), idx_a == kc.elem(false, o), idx_b == ka.elem(false, o), w == val2(c0, ld0, b@, ls0),
            done(c0, a@, ld0, fc, p, w, o * size_contig + vx_i2),
        decreases vx_n2 - vx_i2,
//@at loop 2 top
            let ghost m = o * size_contig + vx_i2;
            proof {
                lemma_in_block(fc, kc, d, size_contig as int, o, vx_i2 as int); lemma_in_block(fa, ka, d, size_contig as int, o, vx_i2 as int);
                lemma_done_step(c0, a@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, b@.len() as int, m);
                assert(a.len() == a@.len() && b.len() == b@.len());
            }
//@at loop 2 after
            proof { assert(o * size_contig + size_contig == (o + 1) * size_contig) by (nonlinear_arith); }
//@at loop 1 after
            proof { assert(lsize(kc) * size_contig == size_contig * lsize(kc)) by (nonlinear_arith); lemma_done_end(c0, a@, ld0, fc, p, w); }
//@loop 3
        invariant vx_n3 == vx_rec@.len(), vx_i3 <= vx_n3, walk2(ld0, ls0, fc, fa, p, c0.len() as int, b@.len() as int), unrepeated(ld0), injective(ld0),
            vx_n3 == lsize(fc), rec2(vx_rec@, fc, fa), w == val2(c0, ld0, b@, ls0),
            done(c0, a@, ld0, fc, p, w, vx_i3 as int),
        decreases vx_n3 - vx_i3,
//@at loop 3 top
            let ghost m = vx_i3 as int;
            proof {
                lemma_done_step(c0, a@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, b@.len() as int, m);
                assert(a.len() == a@.len() && b.len() == b@.len());
            }
//@at loop 3 after
            proof { lemma_done_end(c0, a@, ld0, fc, p, w); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/op_with_func.rs :: op_muta_numb_func_cpu_serial
//@opt dispatch:layout_col_major_dim_dispatch_1 drop:f
//@generics <TA, TB>
//@calls f=vx_f2
//@requires
    dest(*la, old(a)@.len() as int),
//@ensures
    r is Ok, mapped(old(a)@, final(a)@, *la, val2n(old(a)@, *la, b)),
//@at start
    let ghost ld0 = *la; let ghost c0 = a@;
    let ghost w = val2n(c0, ld0, b);
//@at let layout
    let ghost fc = layout;
    let ghost p = lemma_walk_once(ld0, fc, c0.len() as int);
    proof { lemma_done_start(c0, ld0, fc, p, w); let q = seq![&layout]; assert(*q[0] == fc); }
//@at before let la = #0
        let ghost fr = seq![&layout];
        let ghost d = choose|d: int| #[trigger] contig_split(fr, layout_contig@, d) && 0 < d <= fc.shape@.len() && size_contig == prod(fc.shape@, d);
        let ghost kc = layout_contig@[0];
        proof {
            assert([&layout]@ =~= fr);
            assert(contig_any(fr, layout_contig@, size_contig as int));
            assert(dropped(fc, layout_contig@[0], d)); assert(*fr[0] == fc);
            lemma_blocks(fc, kc, d);
        }
//@loop 0
        invariant vx_n0 == vx_rec@.len(), vx_i0 <= vx_n0, walk_of(ld0, fc, p, c0.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int),
            vx_n0 == lsize(kc), rec1(vx_rec@, kc), w == val2n(c0, ld0, b),
            done(c0, a@, ld0, fc, p, w, vx_i0 * size_contig),
        decreases vx_n0 - vx_i0,
//@at loop 0 top
            let ghost o = vx_i0 as int;
            proof { assert(o * size_contig + 0 == o * size_contig); }
//@loop 1
        invariant vx_n1 == size_contig, vx_i1 <= vx_n1, walk_of(ld0, fc, p, c0.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int),
            0 <= o < lsize(kc), idx_a == kc.elem(false, o), w == val2n(c0, ld0, b),
            done(c0, a@, ld0, fc, p, w, o * size_contig + vx_i1),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost m = o * size_contig + vx_i1;
            proof {
                lemma_in_block(fc, kc, d, size_contig as int, o, vx_i1 as int);
                lemma_done_step(c0, a@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m);
                assert(a.len() == a@.len());
            }
//@at loop 1 after
            proof { assert(o * size_contig + size_contig == (o + 1) * size_contig) by (nonlinear_arith); }
//@at loop 0 after
            proof { assert(lsize(kc) * size_contig == size_contig * lsize(kc)) by (nonlinear_arith); lemma_done_end(c0, a@, ld0, fc, p, w); }
//@loop 2
        invariant vx_n2 == vx_rec@.len(), vx_i2 <= vx_n2, walk_of(ld0, fc, p, c0.len() as int), unrepeated(ld0), injective(ld0),
            vx_n2 == lsize(fc), rec1(vx_rec@, fc), w == val2n(c0, ld0, b),
            done(c0, a@, ld0, fc, p, w, vx_i2 as int),
        decreases vx_n2 - vx_i2,
//@at loop 2 top
            let ghost m = vx_i2 as int;
            proof {
                lemma_done_step(c0, a@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m);
                assert(a.len() == a@.len());
            }
//@at loop 2 after
            proof { lemma_done_end(c0, a@, ld0, fc, p, w); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/op_with_func.rs :: op_muta_func_cpu_serial
//@opt dispatch:layout_col_major_dim_dispatch_1 drop:f
//@generics <T>
//@calls f=vx_f1
//@requires
    dest(*la, old(a)@.len() as int),
//@ensures
    r is Ok, mapped(old(a)@, final(a)@, *la, val1(old(a)@, *la)),
//@at start
    let ghost ld0 = *la; let ghost c0 = a@;
    let ghost w = val1(c0, ld0);
//@at let layout
    let ghost fc = layout;
    let ghost p = lemma_walk_once(ld0, fc, c0.len() as int);
    proof { lemma_done_start(c0, ld0, fc, p, w); let q = seq![&layout]; assert(*q[0] == fc); }
//@at before let la = #0
        let ghost fr = seq![&layout];
        let ghost d = choose|d: int| #[trigger] contig_split(fr, layout_contig@, d) && 0 < d <= fc.shape@.len() && size_contig == prod(fc.shape@, d);
        let ghost kc = layout_contig@[0];
        proof {
            assert([&layout]@ =~= fr);
            assert(contig_any(fr, layout_contig@, size_contig as int));
            assert(dropped(fc, layout_contig@[0], d)); assert(*fr[0] == fc);
            lemma_blocks(fc, kc, d);
        }
//@loop 0
        invariant vx_n0 == vx_rec@.len(), vx_i0 <= vx_n0, walk_of(ld0, fc, p, c0.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int),
            vx_n0 == lsize(kc), rec1(vx_rec@, kc), w == val1(c0, ld0),
            done(c0, a@, ld0, fc, p, w, vx_i0 * size_contig),
        decreases vx_n0 - vx_i0,
//@at loop 0 top
            let ghost o = vx_i0 as int;
            proof { assert(o * size_contig + 0 == o * size_contig); }
//@loop 1
        invariant vx_n1 == size_contig, vx_i1 <= vx_n1, walk_of(ld0, fc, p, c0.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int),
            0 <= o < lsize(kc), idx_a == kc.elem(false, o), w == val1(c0, ld0),
            done(c0, a@, ld0, fc, p, w, o * size_contig + vx_i1),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost m = o * size_contig + vx_i1;
            proof {
                lemma_in_block(fc, kc, d, size_contig as int, o, vx_i1 as int);
                lemma_done_step(c0, a@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m);
                assert(a.len() == a@.len());
            }
//@at loop 1 after
            proof { assert(o * size_contig + size_contig == (o + 1) * size_contig) by (nonlinear_arith); }
//@at loop 0 after
            proof { assert(lsize(kc) * size_contig == size_contig * lsize(kc)) by (nonlinear_arith); lemma_done_end(c0, a@, ld0, fc, p, w); }
//@loop 2
        invariant vx_n2 == vx_rec@.len(), vx_i2 <= vx_n2, walk_of(ld0, fc, p, c0.len() as int), unrepeated(ld0), injective(ld0),
            vx_n2 == lsize(fc), rec1(vx_rec@, fc), w == val1(c0, ld0),
            done(c0, a@, ld0, fc, p, w, vx_i2 as int),
        decreases vx_n2 - vx_i2,
//@at loop 2 top
            let ghost m = vx_i2 as int;
            proof {
                lemma_done_step(c0, a@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m);
                assert(a.len() == a@.len());
            }
//@at loop 2 after
            proof { lemma_done_end(c0, a@, ld0, fc, p, w); }
//@end
