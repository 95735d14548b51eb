// Assignment and fill kernels: every element of the destination receives the (cloned, converted) element of the source
// at the same multi-index; for `assign_arbitary` the element of the same rank in the given order.
/// a clone is equal to the original
#[verifier::external_body]
pub fn vx_clone<T>(x: &T) -> (r: T)
    ensures r == *x,
{ unimplemented!() }
pub uninterp spec fn cast<A, C>(a: A) -> C;
#[verifier::external_body]
pub fn vx_cast<A, C>(a: A) -> (r: C)
    ensures r == cast::<A, C>(a),
{ unimplemented!() }
pub uninterp spec fn init_of<T>(x: T) -> MaybeUninit<T>;
#[verifier::external_body]
pub fn vx_write<T>(c: &mut MaybeUninit<T>, x: T)
    ensures *final(c) == init_of(x),
{ unimplemented!() }
/// the bounds check of `x[lo..hi]`
pub fn vx_span(len: usize, lo: usize, hi: usize) -> (r: usize)
    requires lo <= hi <= len,
    ensures r == hi - lo,
{ hi - lo }
pub open spec fn at_a<T>(a: Seq<T>, la: Layout) -> spec_fn(Seq<int>) -> T { |ix: Seq<int>| a[la.addr(ix)] }
pub open spec fn at_u<T>(a: Seq<T>, la: Layout) -> spec_fn(Seq<int>) -> MaybeUninit<T> { |ix: Seq<int>| init_of(a[la.addr(ix)]) }
pub open spec fn at_p<TC, TA>(a: Seq<TA>, la: Layout) -> spec_fn(Seq<int>) -> TC { |ix: Seq<int>| cast::<TA, TC>(a[la.addr(ix)]) }
pub open spec fn at_up<TC, TA>(a: Seq<TA>, la: Layout) -> spec_fn(Seq<int>) -> MaybeUninit<TC> { |ix: Seq<int>| init_of(cast::<TA, TC>(a[la.addr(ix)])) }
//@const rstsr-native-impl/src/cpu_serial/assignment.rs :: CONTIG_SWITCH
pub open spec fn konst<T>(x: T) -> spec_fn(Seq<int>) -> T { |ix: Seq<int>| x }
//@fn rstsr-native-impl/src/cpu_serial/assignment.rs :: assign_cpu_serial
//@types T=T ; MaybeUninit<T>=MaybeUninit<T>
//@opt dispatch:layout_col_major_dim_dispatch_2
//@generics <T>
//@calls .clone=&* vx_clone ; .into_cast=vx_cast ; .write=&mut* vx_write
//@requires
    dest(*lc, old(c)@.len() as int), operand(*la, a@.len() as int),
//@ensures
    r is Ok <==> lc.shape@ == la.shape@,
    r is Ok ==> mapped(old(c)@, final(c)@, *lc, at_a(a@, *la)),
    r is Err ==> final(c)@ == old(c)@,
//@at start
    let ghost ld0 = *lc; let ghost ls0 = *la; let ghost c0 = c@;
    let ghost w = at_a(a@, ls0);
//@at let layouts_full
    let ghost ls = seq![lc, la];
    let ghost p = choose|p: Seq<usize>| #[trigger] aligned(ls, layouts_full@, p);
    let ghost fc = layouts_full@[0]; let ghost fa = layouts_full@[1];
    proof {
        assert(permuted(*ls[0], layouts_full@[0], p) && permuted(*ls[1], layouts_full@[1], p));
        lemma_walk_of(ld0, fc, p, c0.len() as int); lemma_walk_of(ls0, fa, p, a@.len() as int);
        assert(ls[0].shape@ == ls[1].shape@);
        lemma_done_start(c0, ld0, fc, p, w);
    }
//@loop 0
        invariant vx_n0 == layouts_full@.len(), vx_i0 <= vx_n0, refs_of(vx_acc0@, layouts_full@, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at let layouts_full_ref
    proof { let q = layouts_full_ref@; assert(*q[0] == fc && *q[1] == fa); }
//@at before let lc = #0
        let ghost d = choose|d: int| #[trigger] contig_split(layouts_full_ref@, layouts_contig@, d) && 0 < d <= fc.shape@.len() && size_contig == prod(fc.shape@, d);
        let ghost kc = layouts_contig@[0]; let ghost ka = layouts_contig@[1];
        proof {
            assert(contig_any(layouts_full_ref@, layouts_contig@, size_contig as int));
            assert(dropped(fc, layouts_contig@[0], d) && dropped(fa, layouts_contig@[1], d));
            lemma_blocks(fc, kc, d); lemma_blocks(fa, ka, d);
        }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            vx_n1 == lsize(kc), rec2(vx_rec@, kc, ka), w == at_a(a@, ls0),
            done(c0, c@, ld0, fc, p, w, vx_i1 * size_contig),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost o = vx_i1 as int;
            proof {
                assert(o * size_contig + 0 == o * size_contig);
                lemma_in_block(fc, kc, d, size_contig as int, o, 0); lemma_in_block(fa, ka, d, size_contig as int, o, 0);
                lemma_in_block(fc, kc, d, size_contig as int, o, size_contig - 1); lemma_in_block(fa, ka, d, size_contig as int, o, size_contig - 1);
                lemma_step_in(ld0, fc, p, c0.len() as int, o * size_contig); lemma_step_in(ls0, fa, p, a@.len() as int, o * size_contig);
                lemma_step_in(ld0, fc, p, c0.len() as int, o * size_contig + size_contig - 1); lemma_step_in(ls0, fa, p, a@.len() as int, o * size_contig + size_contig - 1);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@loop 2
        invariant vx_n2 == size_contig, vx_i2 <= vx_n2, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            vx_o2 == idx_c, vx_o2_1 == idx_a,
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            0 <= o < lsize(kc), idx_c == kc.elem(false, o), idx_a == ka.elem(false, o), w == at_a(a@, ls0),
            done(c0, c@, ld0, fc, p, w, o * size_contig + vx_i2),
        decreases vx_n2 - vx_i2,
//@at loop 2 top
            let ghost m = o * size_contig + vx_i2;
            proof {
                lemma_in_block(fc, kc, d, size_contig as int, o, vx_i2 as int); lemma_in_block(fa, ka, d, size_contig as int, o, vx_i2 as int);
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, a@.len() as int, m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 2 after
            proof { assert(o * size_contig + size_contig == (o + 1) * size_contig) by (nonlinear_arith); }
//@at loop 1 after
            proof { assert(lsize(kc) * size_contig == size_contig * lsize(kc)) by (nonlinear_arith); lemma_done_end(c0, c@, ld0, fc, p, w); }
//@loop 3
        invariant vx_n3 == vx_rec@.len(), vx_i3 <= vx_n3, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            vx_n3 == lsize(fc), rec2(vx_rec@, fc, fa), w == at_a(a@, ls0),
            done(c0, c@, ld0, fc, p, w, vx_i3 as int),
        decreases vx_n3 - vx_i3,
//@at loop 3 top
            let ghost m = vx_i3 as int;
            proof {
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, a@.len() as int, m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 3 after
            proof { lemma_done_end(c0, c@, ld0, fc, p, w); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/assignment.rs :: assign_uninit_cpu_serial
//@types T=T ; MaybeUninit<T>=MaybeUninit<T>
//@opt dispatch:layout_col_major_dim_dispatch_2
//@generics <T>
//@calls .clone=&* vx_clone ; .into_cast=vx_cast ; .write=&mut* vx_write
//@requires
    dest(*lc, old(c)@.len() as int), operand(*la, a@.len() as int),
//@ensures
    r is Ok <==> lc.shape@ == la.shape@,
    r is Ok ==> mapped(old(c)@, final(c)@, *lc, at_u(a@, *la)),
    r is Err ==> final(c)@ == old(c)@,
//@at start
    let ghost ld0 = *lc; let ghost ls0 = *la; let ghost c0 = c@;
    let ghost w = at_u(a@, ls0);
//@at let layouts_full
    let ghost ls = seq![lc, la];
    let ghost p = choose|p: Seq<usize>| #[trigger] aligned(ls, layouts_full@, p);
    let ghost fc = layouts_full@[0]; let ghost fa = layouts_full@[1];
    proof {
        assert(permuted(*ls[0], layouts_full@[0], p) && permuted(*ls[1], layouts_full@[1], p));
        lemma_walk_of(ld0, fc, p, c0.len() as int); lemma_walk_of(ls0, fa, p, a@.len() as int);
        assert(ls[0].shape@ == ls[1].shape@);
        lemma_done_start(c0, ld0, fc, p, w);
    }
//@loop 0
        invariant vx_n0 == layouts_full@.len(), vx_i0 <= vx_n0, refs_of(vx_acc0@, layouts_full@, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at let layouts_full_ref
    proof { let q = layouts_full_ref@; assert(*q[0] == fc && *q[1] == fa); }
//@at before let lc = #0
        let ghost d = choose|d: int| #[trigger] contig_split(layouts_full_ref@, layouts_contig@, d) && 0 < d <= fc.shape@.len() && size_contig == prod(fc.shape@, d);
        let ghost kc = layouts_contig@[0]; let ghost ka = layouts_contig@[1];
        proof {
            assert(contig_any(layouts_full_ref@, layouts_contig@, size_contig as int));
            assert(dropped(fc, layouts_contig@[0], d) && dropped(fa, layouts_contig@[1], d));
            lemma_blocks(fc, kc, d); lemma_blocks(fa, ka, d);
        }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            vx_n1 == lsize(kc), rec2(vx_rec@, kc, ka), w == at_u(a@, ls0),
            done(c0, c@, ld0, fc, p, w, vx_i1 * size_contig),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost o = vx_i1 as int;
            proof {
                assert(o * size_contig + 0 == o * size_contig);
                lemma_in_block(fc, kc, d, size_contig as int, o, 0); lemma_in_block(fa, ka, d, size_contig as int, o, 0);
                lemma_in_block(fc, kc, d, size_contig as int, o, size_contig - 1); lemma_in_block(fa, ka, d, size_contig as int, o, size_contig - 1);
                lemma_step_in(ld0, fc, p, c0.len() as int, o * size_contig); lemma_step_in(ls0, fa, p, a@.len() as int, o * size_contig);
                lemma_step_in(ld0, fc, p, c0.len() as int, o * size_contig + size_contig - 1); lemma_step_in(ls0, fa, p, a@.len() as int, o * size_contig + size_contig - 1);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@loop 2
        invariant vx_n2 == size_contig, vx_i2 <= vx_n2, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            vx_o2 == idx_c, vx_o2_1 == idx_a,
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            0 <= o < lsize(kc), idx_c == kc.elem(false, o), idx_a == ka.elem(false, o), w == at_u(a@, ls0),
            done(c0, c@, ld0, fc, p, w, o * size_contig + vx_i2),
        decreases vx_n2 - vx_i2,
//@at loop 2 top
            let ghost m = o * size_contig + vx_i2;
            proof {
                lemma_in_block(fc, kc, d, size_contig as int, o, vx_i2 as int); lemma_in_block(fa, ka, d, size_contig as int, o, vx_i2 as int);
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, a@.len() as int, m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 2 after
            proof { assert(o * size_contig + size_contig == (o + 1) * size_contig) by (nonlinear_arith); }
//@at loop 1 after
            proof { assert(lsize(kc) * size_contig == size_contig * lsize(kc)) by (nonlinear_arith); lemma_done_end(c0, c@, ld0, fc, p, w); }
//@loop 3
        invariant vx_n3 == vx_rec@.len(), vx_i3 <= vx_n3, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            vx_n3 == lsize(fc), rec2(vx_rec@, fc, fa), w == at_u(a@, ls0),
            done(c0, c@, ld0, fc, p, w, vx_i3 as int),
        decreases vx_n3 - vx_i3,
//@at loop 3 top
            let ghost m = vx_i3 as int;
            proof {
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, a@.len() as int, m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 3 after
            proof { lemma_done_end(c0, c@, ld0, fc, p, w); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/assignment.rs :: assign_promote_cpu_serial
//@types T=T ; MaybeUninit<T>=MaybeUninit<T>
//@opt dispatch:layout_col_major_dim_dispatch_2
//@generics <TC, TA>
//@calls .clone=&* vx_clone ; .into_cast=vx_cast ; .write=&mut* vx_write
//@requires
    dest(*lc, old(c)@.len() as int), operand(*la, a@.len() as int),
//@ensures
    r is Ok <==> lc.shape@ == la.shape@,
    r is Ok ==> mapped(old(c)@, final(c)@, *lc, at_p(a@, *la)),
    r is Err ==> final(c)@ == old(c)@,
//@at start
    let ghost ld0 = *lc; let ghost ls0 = *la; let ghost c0 = c@;
    let ghost w = at_p(a@, ls0);
//@at let layouts_full
    let ghost ls = seq![lc, la];
    let ghost p = choose|p: Seq<usize>| #[trigger] aligned(ls, layouts_full@, p);
    let ghost fc = layouts_full@[0]; let ghost fa = layouts_full@[1];
    proof {
        assert(permuted(*ls[0], layouts_full@[0], p) && permuted(*ls[1], layouts_full@[1], p));
        lemma_walk_of(ld0, fc, p, c0.len() as int); lemma_walk_of(ls0, fa, p, a@.len() as int);
        assert(ls[0].shape@ == ls[1].shape@);
        lemma_done_start(c0, ld0, fc, p, w);
    }
//@loop 0
        invariant vx_n0 == layouts_full@.len(), vx_i0 <= vx_n0, refs_of(vx_acc0@, layouts_full@, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at let layouts_full_ref
    proof { let q = layouts_full_ref@; assert(*q[0] == fc && *q[1] == fa); }
//@at before let lc = #0
        let ghost d = choose|d: int| #[trigger] contig_split(layouts_full_ref@, layouts_contig@, d) && 0 < d <= fc.shape@.len() && size_contig == prod(fc.shape@, d);
        let ghost kc = layouts_contig@[0]; let ghost ka = layouts_contig@[1];
        proof {
            assert(contig_any(layouts_full_ref@, layouts_contig@, size_contig as int));
            assert(dropped(fc, layouts_contig@[0], d) && dropped(fa, layouts_contig@[1], d));
            lemma_blocks(fc, kc, d); lemma_blocks(fa, ka, d);
        }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            vx_n1 == lsize(kc), rec2(vx_rec@, kc, ka), w == at_p(a@, ls0),
            done(c0, c@, ld0, fc, p, w, vx_i1 * size_contig),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost o = vx_i1 as int;
            proof {
                assert(o * size_contig + 0 == o * size_contig);
                lemma_in_block(fc, kc, d, size_contig as int, o, 0); lemma_in_block(fa, ka, d, size_contig as int, o, 0);
                lemma_in_block(fc, kc, d, size_contig as int, o, size_contig - 1); lemma_in_block(fa, ka, d, size_contig as int, o, size_contig - 1);
                lemma_step_in(ld0, fc, p, c0.len() as int, o * size_contig); lemma_step_in(ls0, fa, p, a@.len() as int, o * size_contig);
                lemma_step_in(ld0, fc, p, c0.len() as int, o * size_contig + size_contig - 1); lemma_step_in(ls0, fa, p, a@.len() as int, o * size_contig + size_contig - 1);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@loop 2
        invariant vx_n2 == size_contig, vx_i2 <= vx_n2, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            vx_o2 == idx_c, vx_o2_1 == idx_a,
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            0 <= o < lsize(kc), idx_c == kc.elem(false, o), idx_a == ka.elem(false, o), w == at_p(a@, ls0),
            done(c0, c@, ld0, fc, p, w, o * size_contig + vx_i2),
        decreases vx_n2 - vx_i2,
//@at loop 2 top
            let ghost m = o * size_contig + vx_i2;
            proof {
                lemma_in_block(fc, kc, d, size_contig as int, o, vx_i2 as int); lemma_in_block(fa, ka, d, size_contig as int, o, vx_i2 as int);
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, a@.len() as int, m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 2 after
            proof { assert(o * size_contig + size_contig == (o + 1) * size_contig) by (nonlinear_arith); }
//@at loop 1 after
            proof { assert(lsize(kc) * size_contig == size_contig * lsize(kc)) by (nonlinear_arith); lemma_done_end(c0, c@, ld0, fc, p, w); }
//@loop 3
        invariant vx_n3 == vx_rec@.len(), vx_i3 <= vx_n3, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            vx_n3 == lsize(fc), rec2(vx_rec@, fc, fa), w == at_p(a@, ls0),
            done(c0, c@, ld0, fc, p, w, vx_i3 as int),
        decreases vx_n3 - vx_i3,
//@at loop 3 top
            let ghost m = vx_i3 as int;
            proof {
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, a@.len() as int, m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 3 after
            proof { lemma_done_end(c0, c@, ld0, fc, p, w); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/assignment.rs :: assign_uninit_promote_cpu_serial
//@types T=T ; MaybeUninit<T>=MaybeUninit<T>
//@opt dispatch:layout_col_major_dim_dispatch_2
//@generics <TC, TA>
//@calls .clone=&* vx_clone ; .into_cast=vx_cast ; .write=&mut* vx_write
//@requires
    dest(*lc, old(c)@.len() as int), operand(*la, a@.len() as int),
//@ensures
    r is Ok <==> lc.shape@ == la.shape@,
    r is Ok ==> mapped(old(c)@, final(c)@, *lc, at_up(a@, *la)),
    r is Err ==> final(c)@ == old(c)@,
//@at start
    let ghost ld0 = *lc; let ghost ls0 = *la; let ghost c0 = c@;
    let ghost w = at_up(a@, ls0);
//@at let layouts_full
    let ghost ls = seq![lc, la];
    let ghost p = choose|p: Seq<usize>| #[trigger] aligned(ls, layouts_full@, p);
    let ghost fc = layouts_full@[0]; let ghost fa = layouts_full@[1];
    proof {
        assert(permuted(*ls[0], layouts_full@[0], p) && permuted(*ls[1], layouts_full@[1], p));
        lemma_walk_of(ld0, fc, p, c0.len() as int); lemma_walk_of(ls0, fa, p, a@.len() as int);
        assert(ls[0].shape@ == ls[1].shape@);
        lemma_done_start(c0, ld0, fc, p, w);
    }
//@loop 0
        invariant vx_n0 == layouts_full@.len(), vx_i0 <= vx_n0, refs_of(vx_acc0@, layouts_full@, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at let layouts_full_ref
    proof { let q = layouts_full_ref@; assert(*q[0] == fc && *q[1] == fa); }
//@at before let lc = #0
        let ghost d = choose|d: int| #[trigger] contig_split(layouts_full_ref@, layouts_contig@, d) && 0 < d <= fc.shape@.len() && size_contig == prod(fc.shape@, d);
        let ghost kc = layouts_contig@[0]; let ghost ka = layouts_contig@[1];
        proof {
            assert(contig_any(layouts_full_ref@, layouts_contig@, size_contig as int));
            assert(dropped(fc, layouts_contig@[0], d) && dropped(fa, layouts_contig@[1], d));
            lemma_blocks(fc, kc, d); lemma_blocks(fa, ka, d);
        }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            vx_n1 == lsize(kc), rec2(vx_rec@, kc, ka), w == at_up(a@, ls0),
            done(c0, c@, ld0, fc, p, w, vx_i1 * size_contig),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost o = vx_i1 as int;
            proof {
                assert(o * size_contig + 0 == o * size_contig);
                lemma_in_block(fc, kc, d, size_contig as int, o, 0); lemma_in_block(fa, ka, d, size_contig as int, o, 0);
                lemma_in_block(fc, kc, d, size_contig as int, o, size_contig - 1); lemma_in_block(fa, ka, d, size_contig as int, o, size_contig - 1);
                lemma_step_in(ld0, fc, p, c0.len() as int, o * size_contig); lemma_step_in(ls0, fa, p, a@.len() as int, o * size_contig);
                lemma_step_in(ld0, fc, p, c0.len() as int, o * size_contig + size_contig - 1); lemma_step_in(ls0, fa, p, a@.len() as int, o * size_contig + size_contig - 1);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@loop 2
        invariant vx_n2 == size_contig, vx_i2 <= vx_n2, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            vx_o2 == idx_c, vx_o2_1 == idx_a,
            blocks(fc, kc, d, size_contig as int), blocks(fa, ka, d, size_contig as int),
            0 <= o < lsize(kc), idx_c == kc.elem(false, o), idx_a == ka.elem(false, o), w == at_up(a@, ls0),
            done(c0, c@, ld0, fc, p, w, o * size_contig + vx_i2),
        decreases vx_n2 - vx_i2,
//@at loop 2 top
            let ghost m = o * size_contig + vx_i2;
            proof {
                lemma_in_block(fc, kc, d, size_contig as int, o, vx_i2 as int); lemma_in_block(fa, ka, d, size_contig as int, o, vx_i2 as int);
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, a@.len() as int, m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 2 after
            proof { assert(o * size_contig + size_contig == (o + 1) * size_contig) by (nonlinear_arith); }
//@at loop 1 after
            proof { assert(lsize(kc) * size_contig == size_contig * lsize(kc)) by (nonlinear_arith); lemma_done_end(c0, c@, ld0, fc, p, w); }
//@loop 3
        invariant vx_n3 == vx_rec@.len(), vx_i3 <= vx_n3, walk2(ld0, ls0, fc, fa, p, c0.len() as int, a@.len() as int), unrepeated(ld0), injective(ld0),
            vx_n3 == lsize(fc), rec2(vx_rec@, fc, fa), w == at_up(a@, ls0),
            done(c0, c@, ld0, fc, p, w, vx_i3 as int),
        decreases vx_n3 - vx_i3,
//@at loop 3 top
            let ghost m = vx_i3 as int;
            proof {
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m); lemma_step_in(ls0, fa, p, a@.len() as int, m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 3 after
            proof { lemma_done_end(c0, c@, ld0, fc, p, w); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/assignment.rs :: fill_promote_cpu_serial
//@opt dispatch:layout_col_major_dim_dispatch_1
//@generics <TC, TA>
//@calls .clone=& vx_clone ; .into_cast=vx_cast
//@requires
    dest(*lc, old(c)@.len() as int),
//@ensures
    r is Ok, mapped(old(c)@, final(c)@, *lc, konst(cast::<TA, TC>(fill))),
//@at start
    let ghost ld0 = *lc; let ghost c0 = c@; let ghost fv = cast::<TA, TC>(fill);
    let ghost w = konst(fv);
//@at let layouts_full
    let ghost fc = layouts_full@[0];
    let ghost p = lemma_walk_once(ld0, fc, c0.len() as int);
    proof { lemma_done_start(c0, ld0, fc, p, w); }
//@loop 0
        invariant vx_n0 == layouts_full@.len(), vx_i0 <= vx_n0, refs_of(vx_acc0@, layouts_full@, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at let layouts_full_ref
    proof { let q = layouts_full_ref@; assert(*q[0] == fc); }
//@at before if size_contig
    let ghost d = if size_contig == 0 { 0int } else { choose|d: int| #[trigger] contig_split(layouts_full_ref@, layouts_contig@, d) && 0 < d <= fc.shape@.len() && size_contig == prod(fc.shape@, d) };
    let ghost kc = layouts_contig@[0];
    proof {
        if size_contig > 0 {
            assert(contig_any(layouts_full_ref@, layouts_contig@, size_contig as int));
            assert(dropped(fc, layouts_contig@[0], d));
            lemma_blocks(fc, kc, d);
        }
    }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, walk_of(ld0, fc, p, c0.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int), fill == fv,
            vx_n1 == lsize(kc), rec1(vx_rec@, kc), w == konst(fv),
            done(c0, c@, ld0, fc, p, w, vx_i1 * size_contig),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost o = vx_i1 as int;
            proof { assert(o * size_contig + 0 == o * size_contig); }
//@loop 2
        invariant vx_n2 == size_contig, vx_i2 <= vx_n2, walk_of(ld0, fc, p, c0.len() as int), unrepeated(ld0), injective(ld0),
            blocks(fc, kc, d, size_contig as int), fill == fv,
            0 <= o < lsize(kc), idx_c == kc.elem(false, o), w == konst(fv),
            done(c0, c@, ld0, fc, p, w, o * size_contig + vx_i2),
        decreases vx_n2 - vx_i2,
//@at loop 2 top
            let ghost m = o * size_contig + vx_i2;
            proof {
                lemma_in_block(fc, kc, d, size_contig as int, o, vx_i2 as int);
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m);
                assert(c.len() == c@.len());
            }
//@at loop 2 after
            proof { assert(o * size_contig + size_contig == (o + 1) * size_contig) by (nonlinear_arith); }
//@at loop 1 after
            proof { assert(lsize(kc) * size_contig == size_contig * lsize(kc)) by (nonlinear_arith); lemma_done_end(c0, c@, ld0, fc, p, w); }
//@loop 3
        invariant vx_n3 == vx_rec@.len(), vx_i3 <= vx_n3, walk_of(ld0, fc, p, c0.len() as int), unrepeated(ld0), injective(ld0),
            vx_n3 == lsize(fc), rec1(vx_rec@, fc), w == konst(fv), fill == fv,
            done(c0, c@, ld0, fc, p, w, vx_i3 as int),
        decreases vx_n3 - vx_i3,
//@at loop 3 top
            let ghost m = vx_i3 as int;
            proof {
                lemma_done_step(c0, c@, ld0, fc, p, w, m);
                lemma_step_in(ld0, fc, p, c0.len() as int, m);
                assert(c.len() == c@.len());
            }
//@at loop 3 after
            proof { lemma_done_end(c0, c@, ld0, fc, p, w); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/assignment.rs :: fill_cpu_serial
//@generics <T>
//@types T=T
//@requires
    dest(*lc, old(c)@.len() as int),
//@ensures
    r is Ok, mapped(old(c)@, final(c)@, *lc, konst(cast::<T, T>(fill))),
//@end
