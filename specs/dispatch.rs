// The traversal drivers. They are generic in a callback `f`; they are verified with the recorder as callback, which
// appends its argument to a list, so the contract gives the exact sequence of calls. (A function generic in a callback
// can only call it, so this determines the effect for every callback.)
//@fn rstsr-common/src/layout/iterator.rs :: layout_col_major_dim_dispatch_1
//@param f=&mut Vec<usize>
//@opt nomut:f iters:iter_a
//@requires
    la.roomy(), old(f)@.len() == 0,
//@ensures
    r is Ok, final(f)@.len() == lsize(*la),
    rec1(final(f)@, *la),
//@loop 0
        invariant_except_break
            true,
        invariant
            la.roomy(), same_elem(vx_it0.layout, *la), vx_it0.inv(), vx_it0.iter_end == lsize(*la), f@.len() == vx_it0.iter_start,
            rec1(f@, *la),
        ensures
            vx_it0.iter_start == vx_it0.iter_end,
        decreases vx_it0.iter_end - vx_it0.iter_start,
//@end
//@fn rstsr-common/src/layout/iterator.rs :: layout_col_major_dim_dispatch_2
//@param f=&mut Vec<(usize, usize)>
//@opt nomut:f iters:iter_a,iter_b
//@requires
    la.roomy(), lb.roomy(), lsize(*la) == lsize(*lb), old(f)@.len() == 0,
//@ensures
    la.shape@.len() == lb.shape@.len() <==> r is Ok,
    r is Ok ==> final(f)@.len() == lsize(*la),
    r is Ok ==> rec2(final(f)@, *la, *lb),
//@loop 0
        invariant
            la.roomy(), same_elem(vx_it0.layout, *la), vx_it0.inv(), vx_it0.iter_end == lsize(*la), f@.len() == vx_it0.iter_start,
            lb.roomy(), same_elem(vx_it0_1.layout, *lb), vx_it0_1.inv(), vx_it0_1.iter_end == lsize(*lb), f@.len() == vx_it0_1.iter_start, lsize(*la) == lsize(*lb),
            rec2(f@, *la, *lb),
        ensures
            vx_it0.iter_start == vx_it0.iter_end,
        decreases vx_it0.iter_end - vx_it0.iter_start,
//@end
//@fn rstsr-common/src/layout/iterator.rs :: layout_col_major_dim_dispatch_3
//@param f=&mut Vec<(usize, usize, usize)>
//@opt nomut:f iters:iter_a,iter_b,iter_c
//@requires
    la.roomy(), lb.roomy(), lc.roomy(), lsize(*la) == lsize(*lb), lsize(*la) == lsize(*lc), old(f)@.len() == 0,
//@ensures
    la.shape@.len() == lb.shape@.len() && la.shape@.len() == lc.shape@.len() <==> r is Ok,
    r is Ok ==> final(f)@.len() == lsize(*la),
    r is Ok ==> rec3(final(f)@, *la, *lb, *lc),
//@loop 0
        invariant
            la.roomy(), same_elem(vx_it0.layout, *la), vx_it0.inv(), vx_it0.iter_end == lsize(*la), f@.len() == vx_it0.iter_start,
            lb.roomy(), same_elem(vx_it0_1.layout, *lb), vx_it0_1.inv(), vx_it0_1.iter_end == lsize(*lb), f@.len() == vx_it0_1.iter_start, lsize(*la) == lsize(*lb),
            lc.roomy(), same_elem(vx_it0_2.layout, *lc), vx_it0_2.inv(), vx_it0_2.iter_end == lsize(*lc), f@.len() == vx_it0_2.iter_start, lsize(*la) == lsize(*lc),
            rec3(f@, *la, *lb, *lc),
        ensures
            vx_it0.iter_start == vx_it0.iter_end,
        decreases vx_it0.iter_end - vx_it0.iter_start,
//@end
//@fn rstsr-common/src/layout/iterator.rs :: layout_col_major_dim_dispatch_2diff
//@types DA=Vec<usize> ; DB=Vec<usize>
//@param f=&mut Vec<(usize, usize)>
//@opt nomut:f iters:iter_a,iter_b
//@requires
    la.roomy(), lb.roomy(), lsize(*la) == lsize(*lb), old(f)@.len() == 0,
//@ensures
    r is Ok,
    final(f)@.len() == lsize(*la),
    rec2(final(f)@, *la, *lb),
//@loop 0
        invariant
            la.roomy(), same_elem(vx_it0.layout, *la), vx_it0.inv(), vx_it0.iter_end == lsize(*la), f@.len() == vx_it0.iter_start,
            lb.roomy(), same_elem(vx_it0_1.layout, *lb), vx_it0_1.inv(), vx_it0_1.iter_end == lsize(*lb), f@.len() == vx_it0_1.iter_start, lsize(*la) == lsize(*lb),
            rec2(f@, *la, *lb),
        ensures
            vx_it0.iter_start == vx_it0.iter_end,
        decreases vx_it0.iter_end - vx_it0.iter_start,
//@end
