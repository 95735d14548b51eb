// Reductions over every element of a layout.
/// the elements of the layout, column-major
pub open spec fn vals<T>(a: Seq<T>, l: Layout) -> Seq<T> { Seq::new(lsize(l) as nat, |k: int| a[l.elem(false, k)]) }
pub open spec fn vals2<A, B>(a: Seq<A>, la: Layout, b: Seq<B>, lb: Layout) -> Seq<(A, B)> { Seq::new(lsize(la) as nat, |k: int| (a[la.elem(false, k)], b[lb.elem(false, k)])) }
pub open spec fn shuffle(n: int, g: Seq<int>) -> bool {
    g.len() == n && (forall|k: int| 0 <= k < n ==> 0 <= #[trigger] g[k] < n) && (forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] g[i] == #[trigger] g[j] ==> i == j)
}
pub proof fn lemma_shuffle_bag<T>(s: Seq<T>, t: Seq<T>, g: Seq<int>)
    requires shuffle(s.len() as int, g), t.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] t[k] == s[g[k]],
    ensures bag(s) == bag(t),
    decreases s.len(),
{
    let n = s.len() as int;
    if n == 0 { assert(s =~= t); } else {
        let x = g[n - 1];
        let s1 = s.remove(x); let t1 = t.drop_last();
        let g1 = Seq::new((n - 1) as nat, |k: int| if g[k] > x { g[k] - 1 } else { g[k] });
        assert(shuffle(n - 1, g1)) by {
            assert forall|k: int| 0 <= k < n - 1 implies 0 <= #[trigger] g1[k] < n - 1 by { assert(g[k] != x || k == n - 1); assert(0 <= g[k] < n); }
            assert forall|i: int, j: int| 0 <= i < n - 1 && 0 <= j < n - 1 && #[trigger] g1[i] == #[trigger] g1[j] implies i == j by { assert(g[i] != x && g[j] != x) by { assert(g[i] == x ==> i == n - 1); assert(g[j] == x ==> j == n - 1); } assert(g[i] == g[j]); }
        }
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] t1[k] == s1[g1[k]] by { assert(g[k] != x) by { assert(g[k] == x ==> k == n - 1); } assert(t[k] == s[g[k]]); }
        lemma_shuffle_bag(s1, t1, g1);
        assert(t =~= t1.push(t[n - 1]));
        lemma_bag_push(t1, t[n - 1]);
        let u = s.take(x); let v = s.skip(x + 1);
        assert(s =~= u.push(s[x]) + v && s1 =~= u + v);
        lemma_bag_cat(u.push(s[x]), v); lemma_bag_cat(u, v); lemma_bag_push(u, s[x]);
        assert(bag(s) =~= bag(s1).insert(s[x]));
    }
}
pub proof fn lemma_flip_invol(idx: Seq<int>, s: Seq<usize>, fl: Seq<bool>)
    requires idx.len() == s.len(), fl.len() == s.len(),
    ensures flip_idx(flip_idx(idx, s, fl), s, fl) == idx,
{ assert(flip_idx(flip_idx(idx, s, fl), s, fl) =~= idx); }
/// reversing axes keeps the layout within the machine range
pub proof fn lemma_flipped_tame(l: Layout, m: Layout, fl: Seq<bool>)
    requires flipped(l, m, fl), tame(l), l.machine(), !l.empty(),
    ensures tame(m), m.machine(), !m.empty(),
{
    let s = l.shape@; let n = s.len() as int;
    lemma_span_flip(s, l.stride@, m.stride@, n);
    assert forall|i: int| 0 <= i < m.stride@.len() implies #[trigger] m.stride@[i] > isize::MIN by { assert(i < fl.len()); assert(l.stride@[i] > isize::MIN); }
    lemma_ext_attained(s, m.stride@, n); lemma_ext_attained(s, l.stride@, n);
    lemma_ext_mono(s, l.stride@, 0, n); lemma_ext_mono(s, m.stride@, 0, n);
    let lo = idx_lo(s, m.stride@); let hi = idx_hi(s, m.stride@);
    assert(m.addr(lo) == l.addr(flip_idx(lo, s, fl)) && m.addr(hi) == l.addr(flip_idx(hi, s, fl)));
    lemma_dot_bounds(flip_idx(lo, s, fl), s, l.stride@, n); lemma_dot_bounds(flip_idx(hi, s, fl), s, l.stride@, n);
    assert(m.lo() == m.addr(lo) && m.hi() == m.addr(hi));
}
pub proof fn lemma_span_flip(s: Seq<usize>, st: Seq<isize>, u: Seq<isize>, n: int)
    requires 0 <= n <= s.len(), s.len() == st.len(), u.len() == st.len(), forall|i: int| 0 <= i < n ==> #[trigger] u[i] == st[i] || u[i] == -st[i],
    ensures span(s, st, n) == span(s, u, n),
    decreases n,
{ if n > 0 { lemma_span_flip(s, st, u, n - 1); let i = n - 1; assert(u[i] == st[i] || u[i] == -st[i]); } }

/// the walk of r is the walk of l in another order
pub open spec fn rewalk(l: Layout, r: Layout, g: Seq<int>) -> bool {
    shuffle(lsize(l), g) && lsize(r) == lsize(l) && forall|k: int| 0 <= k < lsize(l) ==> #[trigger] r.elem(false, k) == l.elem(false, g[k])
}
pub open spec fn perm_walk(s: Seq<usize>, p: Seq<usize>, fl: Seq<bool>) -> Seq<int> {
    Seq::new(size_of_shape(s) as nat, |k: int| rk(false, dints(flip_idx(widx(s, p, k), s, fl)), s))
}
pub open spec fn dints(ix: Seq<int>) -> Seq<usize> { Seq::new(ix.len(), |i: int| ix[i] as usize) }
pub proof fn lemma_dints(l: Layout, ix: Seq<int>)
    requires in_range(ix, l.shape@), l.len_ok(),
    ensures ints(dints(ix)) == ix, in_shape(dints(ix), l.shape@), 0 <= rk(false, dints(ix), l.shape@) < lsize(l), l.elem(false, rk(false, dints(ix), l.shape@)) == l.addr(ix),
{
    let a = dints(ix); let s = l.shape@;
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] a[i] < s[i] && a[i] == ix[i] by { assert(0 <= ix[i] < s[i]); }
    assert(ints(a) =~= ix);
    lemma_rk_range(false, a, s);
    lemma_unrank_is(false, s, a);
}
pub proof fn lemma_perm_walk(l: Layout, m: Layout, r: Layout, p: Seq<usize>, fl: Seq<bool>)
    requires flipped(l, m, fl), permuted(m, r, p), l.len_ok(), m.len_ok(), size_of_shape(l.shape@) >= 0,
    ensures rewalk(l, r, perm_walk(l.shape@, p, fl)),
{
    let s = l.shape@; let g = perm_walk(s, p, fl); let n = lsize(l);
    lemma_walks(m, r, p);
    assert(g.len() == n);
    assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] g[k] < n && r.elem(false, k) == l.elem(false, g[k]) by {
        let w = widx(s, p, k);
        assert(in_range(w, s) && r.elem(false, k) == m.addr(w));
        assert(in_range(flip_idx(w, s, fl), s) && m.addr(w) == l.addr(flip_idx(w, s, fl)));
        lemma_dints(l, flip_idx(w, s, fl));
    }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] g[i] == #[trigger] g[j] implies i == j by {
        let a = widx(s, p, i); let b = widx(s, p, j);
        assert(in_range(a, s) && in_range(b, s) && kpos(s, p, a) == i && kpos(s, p, b) == j);
        assert(in_range(flip_idx(a, s, fl), s) && in_range(flip_idx(b, s, fl), s));
        let x = flip_idx(a, s, fl); let y = flip_idx(b, s, fl);
        lemma_dints(l, x); lemma_dints(l, y);
        lemma_rk_inj(false, dints(x), dints(y), s);
        lemma_flip_invol(a, s, fl); lemma_flip_invol(b, s, fl);
        assert(dints(x) == dints(y));
        assert(x == y);
    }
}
pub proof fn lemma_rewalk_bag<T>(a: Seq<T>, l: Layout, r: Layout, g: Seq<int>)
    requires rewalk(l, r, g), lsize(l) >= 0,
    ensures bag(vals(a, l)) == bag(vals(a, r)),
{ lemma_shuffle_bag(vals(a, l), vals(a, r), g); }
/// a layout to be read along a walk that keeps every element
pub open spec fn reads(l: Layout, r: Layout, len: int) -> bool {
    tame(r) && machine_of(r) && lsize(r) == lsize(l) && lsize(l) >= 0 && r.empty() == l.empty() && forall|k: int| 0 <= k < lsize(r) ==> 0 <= #[trigger] r.elem(false, k) < len
}
pub proof fn lemma_reads<T>(a: Seq<T>, l: Layout, r: Layout)
    requires operand(l, a.len() as int), unary_of(l, r, TensorIterOrder::K),
    ensures reads(l, r, a.len() as int), bag(vals(a, l)) == bag(vals(a, r)),
{
    lemma_prod_nonneg(l.shape@, l.shape@.len() as int);
    if l.empty() {
        lemma_iperm(l, r);
        lemma_perm_tame(l, r, iperm(l.shape@.len() as int));
        lemma_prod_zero(l.shape@, l.shape@.len() as int);
        assert(vals(a, l) =~= vals(a, r));
    } else {
        let fl = negs(l.stride@, l.shape@.len() as int);
        let p = choose|p: Seq<usize>| #[trigger] arranged(l, r, p, fl);
        let m = choose|m: Layout| flipped(l, m, fl) && #[trigger] permuted(m, r, p);
        lemma_flipped_tame(l, m, fl);
        lemma_perm_tame(m, r, p);
        lemma_perm_walk(l, m, r, p, fl);
        let g = perm_walk(l.shape@, p, fl);
        lemma_rewalk_bag(a, l, r, g);
        assert forall|k: int| 0 <= k < lsize(r) implies 0 <= #[trigger] r.elem(false, k) < a.len() by { assert(0 <= g[k] < lsize(l)); lemma_rix(l, false, g[k]); assert(within(l, a.len() as int)); }
    }
}
//@const rstsr-native-impl/src/cpu_serial/reduction.rs :: CONTIG_SWITCH
//@fn rstsr-native-impl/src/cpu_serial/reduction.rs :: reduce_all_cpu_serial
//@types TI=TI ; TS=TS ; TO=TO
//@generics <TI, TS, TO>
//@opt noarg:init,f,f_sum,f_out subslice vals:acc dispatch:layout_col_major_dim_dispatch_1 iters:iter_a
//@calls init=vx_init::<TS, TI> ; f=vx_acc ; f_sum=vx_join::<TS, TI> ; f_out=vx_fin::<TS, TO, TI> ; .clone=&* vx_clone
//@requires
    operand(*la, a@.len() as int),
//@ensures
    r is Ok && out_of(r->Ok_0, bag(vals(a@, *la))),
//@at let layout
    let ghost fa = layout;
    let ghost s = vals(a@, fa);
    proof {
        lemma_reads(a@, *la, fa); assert([&layout]@ =~= seq![&layout]);
        assert(a.len() == a@.len());
        lemma_bag_push(Seq::<TI>::empty(), arbitrary()); assert(s.take(0) =~= Seq::<TI>::empty()); assert(s.take(s.len() as int) =~= s);
    }
//@at before let mut acc #0
        let ghost lv = seq![&layout];
        let ghost ka = layout_contig@[0];
        let ghost d = choose|d: int| #[trigger] contig_split(lv, layout_contig@, d) && 0 < d <= fa.shape@.len() && size_contig == prod(fa.shape@, d);
        proof {
            assert(contig_any(lv, layout_contig@, size_contig as int)); assert(*lv[0] == fa);
            assert(dropped(fa, layout_contig@[0], d));
            lemma_blocks(fa, ka, d);
            assert(size_contig * lsize(ka) == lsize(ka) * size_contig) by (nonlinear_arith);
        }
//@loop 0
        invariant vx_n0 == vx_rec@.len(), vx_i0 <= vx_n0, blocks(fa, ka, d, size_contig as int), reads(*la, fa, a@.len() as int), s == vals(a@, fa),
            vx_n0 == lsize(ka), rec1(vx_rec@, ka), a.len() == a@.len(), made_of(acc, bag(s.take(vx_i0 * size_contig))),
        decreases vx_n0 - vx_i0,
//@at loop 0 top
                            proof {
                                let o = vx_i0 as int; let z = size_contig as int;
                                lemma_in_block(fa, ka, d, z, o, 0); lemma_in_block(fa, ka, d, z, o, z - 1);
                                assert((o + 1) * z == o * z + z) by (nonlinear_arith);
                                assert(0 <= fa.elem(false, o * z) && fa.elem(false, o * z + z - 1) < a@.len());
                                let e = fa.elem(false, o * z);
                                let u = a@.subrange(e, e + z); let v = s.subrange(o * z, o * z + z);
                                assert forall|i: int| 0 <= i < z implies #[trigger] u[i] == v[i] by { lemma_in_block(fa, ka, d, z, o, i); }
                                assert(u =~= v);
                                lemma_bag_take(s, o * z, o * z + z);
                            }
//@loop 1
        invariant
            fa.roomy(), same_elem(vx_it1.layout, fa), vx_it1.inv(), vx_it1.iter_end == lsize(fa), reads(*la, fa, a@.len() as int), s == vals(a@, fa), a.len() == a@.len(),
            made_of(vx_acc1, bag(s.take(vx_it1.iter_start as int))),
        ensures
            vx_it1.iter_start == vx_it1.iter_end,
        decreases vx_it1.iter_end - vx_it1.iter_start,
//@at loop 1 top
            let ghost k = vx_it1.iter_start as int;
            proof { if k < lsize(fa) { lemma_bag_take(s, k, k + 1); assert(0 <= fa.elem(false, k) < a@.len()); } }
//@end
pub proof fn lemma_flip_id(ix: Seq<int>, s: Seq<usize>)
    requires ix.len() == s.len(),
    ensures flip_idx(ix, s, Seq::new(s.len(), |i: int| false)) == ix,
{ assert(flip_idx(ix, s, Seq::new(s.len(), |i: int| false)) =~= ix); }
/// two operands of one shape rearranged alike: the same pairs
pub proof fn lemma_reads2<A, B>(a: Seq<A>, la: Layout, fa: Layout, b: Seq<B>, lb: Layout, fb: Layout, p: Seq<usize>)
    requires operand(la, a.len() as int), operand(lb, b.len() as int), permuted(la, fa, p), permuted(lb, fb, p), la.shape@ == lb.shape@,
    ensures reads(la, fa, a.len() as int), reads(lb, fb, b.len() as int), bag(vals2(a, la, b, lb)) == bag(vals2(a, fa, b, fb)), lsize(fa) == lsize(fb), fa.shape@ == fb.shape@,
{
    let s = la.shape@; let fl = Seq::new(s.len(), |i: int| false);
    lemma_prod_nonneg(s, s.len() as int);
    lemma_perm_tame(la, fa, p); lemma_perm_tame(lb, fb, p);
    assert(flipped(la, la, fl)) by { assert forall|ix: Seq<int>| in_range(ix, s) implies in_range(#[trigger] flip_idx(ix, s, fl), s) && la.addr(ix) == la.addr(flip_idx(ix, s, fl)) by { lemma_flip_id(ix, s); } }
    assert(flipped(lb, lb, fl)) by { assert forall|ix: Seq<int>| in_range(ix, s) implies in_range(#[trigger] flip_idx(ix, s, fl), s) && lb.addr(ix) == lb.addr(flip_idx(ix, s, fl)) by { lemma_flip_id(ix, s); } }
    lemma_perm_walk(la, la, fa, p, fl); lemma_perm_walk(lb, lb, fb, p, fl);
    let g = perm_walk(s, p, fl);
    lemma_shuffle_bag(vals2(a, la, b, lb), vals2(a, fa, b, fb), g);
    assert forall|k: int| 0 <= k < lsize(fa) implies 0 <= #[trigger] fa.elem(false, k) < a.len() by { assert(0 <= g[k] < lsize(la)); lemma_rix(la, false, g[k]); assert(within(la, a.len() as int)); }
    assert forall|k: int| 0 <= k < lsize(fb) implies 0 <= #[trigger] fb.elem(false, k) < b.len() by { assert(0 <= g[k] < lsize(lb)); lemma_rix(lb, false, g[k]); assert(within(lb, b.len() as int)); }
}
//@fn rstsr-native-impl/src/cpu_serial/reduction.rs :: reduce_all_binary_cpu_serial
//@types TI1=TI1 ; TI2=TI2 ; TS=TS ; TO=TO
//@generics <TI1, TI2, TS, TO>
//@opt noarg:init,f,f_sum,f_out subslice vals:acc dispatch:layout_col_major_dim_dispatch_2 iters:iter_a,iter_b
//@calls init=vx_init::<TS, (TI1, TI2)> ; f=vx_acc ; f_sum=vx_join::<TS, (TI1, TI2)> ; f_out=vx_fin::<TS, TO, (TI1, TI2)> ; .clone=&* vx_clone
//@requires
    operand(*la, a@.len() as int), operand(*lb, b@.len() as int),
//@ensures
    r is Ok <==> la.shape@ == lb.shape@,
    r is Ok ==> out_of(r->Ok_0, bag(vals2(a@, *la, b@, *lb))),
//@at start
    let ghost la0 = *la; let ghost lb0 = *lb;
//@at let layouts_full
    let ghost ls = seq![la, lb];
    let ghost p = choose|p: Seq<usize>| #[trigger] aligned(ls, layouts_full@, p);
    let ghost fa = layouts_full@[0]; let ghost fb = layouts_full@[1];
    let ghost s = vals2(a@, fa, b@, fb);
    proof {
        assert(permuted(*ls[0], layouts_full@[0], p) && permuted(*ls[1], layouts_full@[1], p));
        assert(ls[0].shape@ == ls[1].shape@);
        lemma_reads2(a@, la0, fa, b@, lb0, fb, p);
        assert(a.len() == a@.len() && b.len() == b@.len());
        lemma_bag_push(Seq::<(TI1, TI2)>::empty(), arbitrary()); assert(s.take(0) =~= Seq::<(TI1, TI2)>::empty()); assert(s.take(s.len() as int) =~= s);
    }
//@loop 0
        invariant vx_n0 == layouts_full@.len(), vx_i0 <= vx_n0, refs_of(vx_acc0@, layouts_full@, vx_i0 as int),
        decreases vx_n0 - vx_i0,
//@at let layouts_full_ref
    proof { let q = layouts_full_ref@; assert(*q[0] == fa && *q[1] == fb); }
//@at before let mut acc #0
        let ghost d = choose|d: int| #[trigger] contig_split(layouts_full_ref@, layouts_contig@, d) && 0 < d <= fa.shape@.len() && size_contig == prod(fa.shape@, d);
        let ghost ka = layouts_contig@[0]; let ghost kb = layouts_contig@[1];
        proof {
            assert(contig_any(layouts_full_ref@, layouts_contig@, size_contig as int));
            assert(dropped(fa, layouts_contig@[0], d) && dropped(fb, layouts_contig@[1], d));
            lemma_blocks(fa, ka, d); lemma_blocks(fb, kb, d);
            assert(size_contig * lsize(ka) == lsize(ka) * size_contig) by (nonlinear_arith);
        }
//@loop 1
        invariant vx_n1 == vx_rec@.len(), vx_i1 <= vx_n1, blocks(fa, ka, d, size_contig as int), blocks(fb, kb, d, size_contig as int), reads(la0, fa, a@.len() as int), reads(lb0, fb, b@.len() as int), s == vals2(a@, fa, b@, fb),
            vx_n1 == lsize(ka), lsize(ka) == lsize(kb), rec2(vx_rec@, ka, kb), a.len() == a@.len(), b.len() == b@.len(), made_of(acc, bag(s.take(vx_i1 * size_contig))),
        decreases vx_n1 - vx_i1,
//@at loop 1 top
                            proof {
                                let o = vx_i1 as int; let z = size_contig as int;
                                lemma_in_block(fa, ka, d, z, o, 0); lemma_in_block(fa, ka, d, z, o, z - 1);
                                lemma_in_block(fb, kb, d, z, o, 0); lemma_in_block(fb, kb, d, z, o, z - 1);
                                assert((o + 1) * z == o * z + z) by (nonlinear_arith);
                                assert(0 <= fa.elem(false, o * z) && fa.elem(false, o * z + z - 1) < a@.len());
                                assert(0 <= fb.elem(false, o * z) && fb.elem(false, o * z + z - 1) < b@.len());
                                let e = fa.elem(false, o * z); let h = fb.elem(false, o * z);
                                let u = pairs(a@.subrange(e, e + z), b@.subrange(h, h + z)); let v = s.subrange(o * z, o * z + z);
                                assert forall|i: int| 0 <= i < z implies #[trigger] u[i] == v[i] by { lemma_in_block(fa, ka, d, z, o, i); lemma_in_block(fb, kb, d, z, o, i); }
                                assert(u =~= v);
                                lemma_bag_take(s, o * z, o * z + z);
                            }
//@loop 2
        invariant
            fa.roomy(), same_elem(vx_it2.layout, fa), vx_it2.inv(), vx_it2.iter_end == lsize(fa), reads(la0, fa, a@.len() as int), s == vals2(a@, fa, b@, fb), a.len() == a@.len(),
            fb.roomy(), same_elem(vx_it2_1.layout, fb), vx_it2_1.inv(), vx_it2_1.iter_end == lsize(fb), reads(lb0, fb, b@.len() as int), b.len() == b@.len(), lsize(fa) == lsize(fb),
            vx_it2_1.iter_start == vx_it2.iter_start,
            made_of(vx_acc2, bag(s.take(vx_it2.iter_start as int))),
        ensures
            vx_it2.iter_start == vx_it2.iter_end,
        decreases vx_it2.iter_end - vx_it2.iter_start,
//@at loop 2 top
            let ghost k = vx_it2.iter_start as int;
            proof { if k < lsize(fa) { lemma_bag_take(s, k, k + 1); assert(0 <= fa.elem(false, k) < a@.len() && 0 <= fb.elem(false, k) < b@.len()); } }
//@end
