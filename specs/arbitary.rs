pub open spec fn rk_a<T>(a: Seq<T>, la: Layout, cc: bool) -> spec_fn(int) -> T { |k: int| a[la.elem(cc, k)] }
pub open spec fn rk_u<T>(a: Seq<T>, la: Layout, cc: bool) -> spec_fn(int) -> MaybeUninit<T> { |k: int| init_of(a[la.elem(cc, k)]) }
pub open spec fn rk_p<TC, TA>(a: Seq<TA>, la: Layout, cc: bool) -> spec_fn(int) -> TC { |k: int| cast::<TA, TC>(a[la.elem(cc, k)]) }
pub open spec fn rk_up<TC, TA>(a: Seq<TA>, la: Layout, cc: bool) -> spec_fn(int) -> MaybeUninit<TC> { |k: int| init_of(cast::<TA, TC>(a[la.elem(cc, k)])) }
//@fn rstsr-native-impl/src/cpu_serial/assignment.rs :: assign_arbitary_cpu_serial
//@types T=T ; MaybeUninit<T>=MaybeUninit<T> ; Layout<DC>=Layout ; Layout<DA>=Layout
//@opt dispatch:layout_col_major_dim_dispatch_2diff
//@generics <T>
//@calls .clone=&* vx_clone ; .into_cast=vx_cast ; .write=&mut* vx_write
//@requires
    dest(*lc, old(c)@.len() as int), operand(*la, a@.len() as int), lsize(*lc) == lsize(*la),
    // an empty layout still starts inside (or at the end of) its storage
    lc.offset <= old(c)@.len(), la.offset <= a@.len(),
//@ensures
    r is Ok, ranked(old(c)@, final(c)@, *lc, order is C, rk_a(a@, *la, order is C)),
//@at start
    let ghost ld0 = *lc; let ghost ls0 = *la; let ghost c0 = c@; let ghost cc = order is C;
    let ghost w = rk_a(a@, ls0, cc);
    proof { assert(swept(c0, c@, ld0, cc, w, 0)); }
//@at let size
        proof {
            lemma_in_line(ld0, cc); lemma_in_line(ls0, cc);
            assert(c.len() == c@.len() && a.len() == a@.len());
            lemma_prod_nonneg(ld0.shape@, ld0.shape@.len() as int);
            if size > 0 {
                lemma_rix(ld0, cc, size - 1); lemma_rix(ls0, cc, size - 1);
                assert(ld0.elem(cc, size - 1) == ld0.offset + size - 1 && ls0.elem(cc, size - 1) == ls0.offset + size - 1);
            }
        }
//@loop 0
        invariant vx_n0 == size, vx_i0 <= vx_n0, size == lsize(ld0), size == lsize(ls0), dest(ld0, c0.len() as int), operand(ls0, a@.len() as int), vx_o0 == ld0.offset, vx_o0_1 == ls0.offset,
            forall|k: int| 0 <= k < lsize(ld0) ==> #[trigger] ld0.elem(cc, k) == ld0.offset + k, forall|k: int| 0 <= k < lsize(ls0) ==> #[trigger] ls0.elem(cc, k) == ls0.offset + k,
            w == rk_a(a@, ls0, cc), swept(c0, c@, ld0, cc, w, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at loop 0 top
            let ghost m = vx_i0 as int;
            proof {
                lemma_sweep_step(c0, c@, ld0, cc, w, m); lemma_rix(ld0, cc, m); lemma_rix(ls0, cc, m);
                assert(ld0.elem(cc, m) == ld0.offset + m && ls0.elem(cc, m) == ls0.offset + m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 0 after
            proof { lemma_sweep_end(c0, c@, ld0, cc, w); }
//@at let la #0
        let ghost fc = lc; let ghost fa = la;
        proof { lemma_turned(ld0, fc, cc); lemma_turned(ls0, fa, cc); }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, vx_n1 == lsize(fc), turned(ld0, fc, cc), turned(ls0, fa, cc), lsize(ld0) == lsize(ls0), dest(ld0, c0.len() as int), operand(ls0, a@.len() as int),
            rec2(vx_rec@, fc, fa), w == rk_a(a@, ls0, cc), swept(c0, c@, ld0, cc, w, vx_i1 as int),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost m = vx_i1 as int;
            proof {
                lemma_sweep_step(c0, c@, ld0, cc, w, m); lemma_rix(ld0, cc, m); lemma_rix(ls0, cc, m);
                assert(fc.elem(false, m) == ld0.elem(cc, m) && fa.elem(false, m) == ls0.elem(cc, m));
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 1 after
            proof { lemma_sweep_end(c0, c@, ld0, cc, w); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/assignment.rs :: assign_arbitary_uninit_cpu_serial
//@types T=T ; MaybeUninit<T>=MaybeUninit<T> ; Layout<DC>=Layout ; Layout<DA>=Layout
//@opt dispatch:layout_col_major_dim_dispatch_2diff
//@generics <T>
//@calls .clone=&* vx_clone ; .into_cast=vx_cast ; .write=&mut* vx_write
//@requires
    dest(*lc, old(c)@.len() as int), operand(*la, a@.len() as int), lsize(*lc) == lsize(*la),
    // an empty layout still starts inside (or at the end of) its storage
    lc.offset <= old(c)@.len(), la.offset <= a@.len(),
//@ensures
    r is Ok, ranked(old(c)@, final(c)@, *lc, order is C, rk_u(a@, *la, order is C)),
//@at start
    let ghost ld0 = *lc; let ghost ls0 = *la; let ghost c0 = c@; let ghost cc = order is C;
    let ghost w = rk_u(a@, ls0, cc);
    proof { assert(swept(c0, c@, ld0, cc, w, 0)); }
//@at let size
        proof {
            lemma_in_line(ld0, cc); lemma_in_line(ls0, cc);
            assert(c.len() == c@.len() && a.len() == a@.len());
            lemma_prod_nonneg(ld0.shape@, ld0.shape@.len() as int);
            if size > 0 {
                lemma_rix(ld0, cc, size - 1); lemma_rix(ls0, cc, size - 1);
                assert(ld0.elem(cc, size - 1) == ld0.offset + size - 1 && ls0.elem(cc, size - 1) == ls0.offset + size - 1);
            }
        }
//@loop 0
        invariant vx_n0 == size, vx_i0 <= vx_n0, size == lsize(ld0), size == lsize(ls0), dest(ld0, c0.len() as int), operand(ls0, a@.len() as int), vx_o0 == ld0.offset, vx_o0_1 == ls0.offset,
            forall|k: int| 0 <= k < lsize(ld0) ==> #[trigger] ld0.elem(cc, k) == ld0.offset + k, forall|k: int| 0 <= k < lsize(ls0) ==> #[trigger] ls0.elem(cc, k) == ls0.offset + k,
            w == rk_u(a@, ls0, cc), swept(c0, c@, ld0, cc, w, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at loop 0 top
            let ghost m = vx_i0 as int;
            proof {
                lemma_sweep_step(c0, c@, ld0, cc, w, m); lemma_rix(ld0, cc, m); lemma_rix(ls0, cc, m);
                assert(ld0.elem(cc, m) == ld0.offset + m && ls0.elem(cc, m) == ls0.offset + m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 0 after
            proof { lemma_sweep_end(c0, c@, ld0, cc, w); }
//@at let la #0
        let ghost fc = lc; let ghost fa = la;
        proof { lemma_turned(ld0, fc, cc); lemma_turned(ls0, fa, cc); }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, vx_n1 == lsize(fc), turned(ld0, fc, cc), turned(ls0, fa, cc), lsize(ld0) == lsize(ls0), dest(ld0, c0.len() as int), operand(ls0, a@.len() as int),
            rec2(vx_rec@, fc, fa), w == rk_u(a@, ls0, cc), swept(c0, c@, ld0, cc, w, vx_i1 as int),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost m = vx_i1 as int;
            proof {
                lemma_sweep_step(c0, c@, ld0, cc, w, m); lemma_rix(ld0, cc, m); lemma_rix(ls0, cc, m);
                assert(fc.elem(false, m) == ld0.elem(cc, m) && fa.elem(false, m) == ls0.elem(cc, m));
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 1 after
            proof { lemma_sweep_end(c0, c@, ld0, cc, w); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/assignment.rs :: assign_arbitary_promote_cpu_serial
//@types T=T ; MaybeUninit<T>=MaybeUninit<T> ; Layout<DC>=Layout ; Layout<DA>=Layout
//@opt dispatch:layout_col_major_dim_dispatch_2diff
//@generics <TC, TA>
//@calls .clone=&* vx_clone ; .into_cast=vx_cast ; .write=&mut* vx_write
//@requires
    dest(*lc, old(c)@.len() as int), operand(*la, a@.len() as int), lsize(*lc) == lsize(*la),
    // an empty layout still starts inside (or at the end of) its storage
    lc.offset <= old(c)@.len(), la.offset <= a@.len(),
//@ensures
    r is Ok, ranked(old(c)@, final(c)@, *lc, order is C, rk_p(a@, *la, order is C)),
//@at start
    let ghost ld0 = *lc; let ghost ls0 = *la; let ghost c0 = c@; let ghost cc = order is C;
    let ghost w = rk_p(a@, ls0, cc);
    proof { assert(swept(c0, c@, ld0, cc, w, 0)); }
//@at let size
        proof {
            lemma_in_line(ld0, cc); lemma_in_line(ls0, cc);
            assert(c.len() == c@.len() && a.len() == a@.len());
            lemma_prod_nonneg(ld0.shape@, ld0.shape@.len() as int);
            if size > 0 {
                lemma_rix(ld0, cc, size - 1); lemma_rix(ls0, cc, size - 1);
                assert(ld0.elem(cc, size - 1) == ld0.offset + size - 1 && ls0.elem(cc, size - 1) == ls0.offset + size - 1);
            }
        }
//@loop 0
        invariant vx_n0 == size, vx_i0 <= vx_n0, size == lsize(ld0), size == lsize(ls0), dest(ld0, c0.len() as int), operand(ls0, a@.len() as int), vx_o0 == ld0.offset, vx_o0_1 == ls0.offset,
            forall|k: int| 0 <= k < lsize(ld0) ==> #[trigger] ld0.elem(cc, k) == ld0.offset + k, forall|k: int| 0 <= k < lsize(ls0) ==> #[trigger] ls0.elem(cc, k) == ls0.offset + k,
            w == rk_p(a@, ls0, cc), swept(c0, c@, ld0, cc, w, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at loop 0 top
            let ghost m = vx_i0 as int;
            proof {
                lemma_sweep_step(c0, c@, ld0, cc, w, m); lemma_rix(ld0, cc, m); lemma_rix(ls0, cc, m);
                assert(ld0.elem(cc, m) == ld0.offset + m && ls0.elem(cc, m) == ls0.offset + m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 0 after
            proof { lemma_sweep_end(c0, c@, ld0, cc, w); }
//@at let la #0
        let ghost fc = lc; let ghost fa = la;
        proof { lemma_turned(ld0, fc, cc); lemma_turned(ls0, fa, cc); }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, vx_n1 == lsize(fc), turned(ld0, fc, cc), turned(ls0, fa, cc), lsize(ld0) == lsize(ls0), dest(ld0, c0.len() as int), operand(ls0, a@.len() as int),
            rec2(vx_rec@, fc, fa), w == rk_p(a@, ls0, cc), swept(c0, c@, ld0, cc, w, vx_i1 as int),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost m = vx_i1 as int;
            proof {
                lemma_sweep_step(c0, c@, ld0, cc, w, m); lemma_rix(ld0, cc, m); lemma_rix(ls0, cc, m);
                assert(fc.elem(false, m) == ld0.elem(cc, m) && fa.elem(false, m) == ls0.elem(cc, m));
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 1 after
            proof { lemma_sweep_end(c0, c@, ld0, cc, w); }
//@end
//@fn rstsr-native-impl/src/cpu_serial/assignment.rs :: assign_arbitary_uninit_promote_cpu_serial
//@types T=T ; MaybeUninit<T>=MaybeUninit<T> ; Layout<DC>=Layout ; Layout<DA>=Layout
//@opt dispatch:layout_col_major_dim_dispatch_2diff
//@generics <TC, TA>
//@calls .clone=&* vx_clone ; .into_cast=vx_cast ; .write=&mut* vx_write
//@requires
    dest(*lc, old(c)@.len() as int), operand(*la, a@.len() as int), lsize(*lc) == lsize(*la),
    // an empty layout still starts inside (or at the end of) its storage
    lc.offset <= old(c)@.len(), la.offset <= a@.len(),
//@ensures
    r is Ok, ranked(old(c)@, final(c)@, *lc, order is C, rk_up(a@, *la, order is C)),
//@at start
    let ghost ld0 = *lc; let ghost ls0 = *la; let ghost c0 = c@; let ghost cc = order is C;
    let ghost w = rk_up(a@, ls0, cc);
    proof { assert(swept(c0, c@, ld0, cc, w, 0)); }
//@at let size
        proof {
            lemma_in_line(ld0, cc); lemma_in_line(ls0, cc);
            assert(c.len() == c@.len() && a.len() == a@.len());
            lemma_prod_nonneg(ld0.shape@, ld0.shape@.len() as int);
            if size > 0 {
                lemma_rix(ld0, cc, size - 1); lemma_rix(ls0, cc, size - 1);
                assert(ld0.elem(cc, size - 1) == ld0.offset + size - 1 && ls0.elem(cc, size - 1) == ls0.offset + size - 1);
            }
        }
//@loop 0
        invariant vx_n0 == size, vx_i0 <= vx_n0, size == lsize(ld0), size == lsize(ls0), dest(ld0, c0.len() as int), operand(ls0, a@.len() as int), vx_o0 == ld0.offset, vx_o0_1 == ls0.offset,
            forall|k: int| 0 <= k < lsize(ld0) ==> #[trigger] ld0.elem(cc, k) == ld0.offset + k, forall|k: int| 0 <= k < lsize(ls0) ==> #[trigger] ls0.elem(cc, k) == ls0.offset + k,
            w == rk_up(a@, ls0, cc), swept(c0, c@, ld0, cc, w, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at loop 0 top
            let ghost m = vx_i0 as int;
            proof {
                lemma_sweep_step(c0, c@, ld0, cc, w, m); lemma_rix(ld0, cc, m); lemma_rix(ls0, cc, m);
                assert(ld0.elem(cc, m) == ld0.offset + m && ls0.elem(cc, m) == ls0.offset + m);
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 0 after
            proof { lemma_sweep_end(c0, c@, ld0, cc, w); }
//@at let la #0
        let ghost fc = lc; let ghost fa = la;
        proof { lemma_turned(ld0, fc, cc); lemma_turned(ls0, fa, cc); }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, vx_n1 == lsize(fc), turned(ld0, fc, cc), turned(ls0, fa, cc), lsize(ld0) == lsize(ls0), dest(ld0, c0.len() as int), operand(ls0, a@.len() as int),
            rec2(vx_rec@, fc, fa), w == rk_up(a@, ls0, cc), swept(c0, c@, ld0, cc, w, vx_i1 as int),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
            let ghost m = vx_i1 as int;
            proof {
                lemma_sweep_step(c0, c@, ld0, cc, w, m); lemma_rix(ld0, cc, m); lemma_rix(ls0, cc, m);
                assert(fc.elem(false, m) == ld0.elem(cc, m) && fa.elem(false, m) == ls0.elem(cc, m));
                assert(c.len() == c@.len() && a.len() == a@.len());
            }
//@at loop 1 after
            proof { lemma_sweep_end(c0, c@, ld0, cc, w); }
//@end
