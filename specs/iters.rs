// C08: the layout iterators. The row-major contracts are the column-major ones with the order flag set.
//@degeneric IterLayoutColMajor IterLayoutRowMajor IterLayout IndexedIterLayout
//@struct rstsr-common/src/layout/iterator.rs :: IterLayoutColMajor
impl Clone for IterLayoutColMajor {
    fn clone(&self) -> (r: IterLayoutColMajor)
        ensures r.layout.shape@ == self.layout.shape@, r.layout.stride@ == self.layout.stride@, r.layout.offset == self.layout.offset,
            r.index_start@ == self.index_start@, r.iter_start == self.iter_start, r.offset_start == self.offset_start,
            r.index_end@ == self.index_end@, r.iter_end == self.iter_end, r.offset_end == self.offset_end,
    {
        IterLayoutColMajor { layout: self.layout.clone(), index_start: self.index_start.clone(), iter_start: self.iter_start, offset_start: self.offset_start,
            index_end: self.index_end.clone(), iter_end: self.iter_end, offset_end: self.offset_end }
    }
}
impl IterLayoutColMajor {
    pub open spec fn inv(&self) -> bool {
        &&& self.layout.roomy()
        &&& self.iter_start <= self.iter_end <= size_of_shape(self.layout.shape@)
        &&& size_of_shape(self.layout.shape@) == 0 ==> forall|i: int| 0 <= i < self.index_start@.len() ==> #[trigger] self.index_start@[i] == 0
        &&& self.index_start@.len() == self.layout.shape@.len() && self.index_end@.len() == self.layout.shape@.len()
        &&& self.iter_start < self.iter_end ==> at(false, self.layout, self.index_start@, self.offset_start as int, self.iter_start as int)
        &&& self.iter_start < self.iter_end ==> at(false, self.layout, self.index_end@, self.offset_end as int, self.iter_end as int)
    }
    //@calls .try_into=vx_to_usize ; .as_ref=& vx_asref

    //@fn rstsr-common/src/layout/iterator.rs :: impl IterLayoutColMajor<D> :: new
    //@opt keep_asref
    //@requires
        layout.roomy(),
    //@ensures
        r is Ok, r->Ok_0.inv(), r->Ok_0.iter_start == 0, r->Ok_0.iter_end == size_of_shape(layout.shape@),
        r->Ok_0.layout.shape@ == layout.shape@, r->Ok_0.layout.stride@ == layout.stride@, r->Ok_0.layout.offset == layout.offset,
    //@at start
        let ghost l0 = *layout;
        let ghost z = Seq::new(l0.shape@.len(), |i: int| 0usize);
        proof {
            let s = l0.shape@;
            lemma_zero(false, z, s, l0.stride@);
            lemma_roomy_part_h(l0, z);
            lemma_prod_zero(s, s.len() as int);
            if size_of_shape(s) > 0 { lemma_size_pos(s); }
        }
    //@at before let offset_start
        proof {
            assert(index_start@ =~= z);
            assert forall|i: int| 0 <= i < l0.shape@.len() implies #[trigger] index_end@[i] <= l0.shape@[i] by {
                if iter_end != 0 { assert(semi(false, index_end@, l0.shape@)); if i != top(false, l0.shape@.len() as int) { assert(index_end@[i] < l0.shape@[i]); } } else { assert(index_end@ =~= z); }
            }
            lemma_roomy_part_h(layout, index_end@);
        }
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl IterLayoutColMajor<D> :: split_at
    //@opt keep_asref
    //@requires
        self.inv(), self.iter_start + index <= self.iter_end,
    //@ensures
        r is Ok,
        ({ let (a, b) = r->Ok_0;
           &&& a.inv() && b.inv()
           &&& a.layout.shape@ == self.layout.shape@ && a.layout.stride@ == self.layout.stride@ && a.layout.offset == self.layout.offset
           &&& b.layout.shape@ == self.layout.shape@ && b.layout.stride@ == self.layout.stride@ && b.layout.offset == self.layout.offset
           &&& a.iter_start == self.iter_start && a.iter_end == self.iter_start + index
           &&& b.iter_start == self.iter_start + index && b.iter_end == self.iter_end }),
    //@at start
        let ghost l0 = self.layout;
        proof {
            let s = l0.shape@;
            lemma_prod_zero(s, s.len() as int);
            if size_of_shape(s) > 0 { lemma_size_pos(s); }
        }
    //@at before let offset_ins
        proof {
            let s = l0.shape@;
            if size_of_shape(s) == 0 {
                assert(iter_ins == 0);
                assert(index_ins@ == self.index_start@);
            }
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] index_ins@[i] <= s[i] by { if size_of_shape(s) > 0 {
                assert(semi(false, index_ins@, s)); if i != top(false, s.len() as int) { assert(index_ins@[i] < s[i]); } }
            }
            lemma_roomy_part_h(l0, index_ins@);
        }
    //@end

    //@fn rstsr-common/src/layout/iterator.rs :: impl IterLayoutColMajor<D> :: next_iter_index
    //@opt places:shape,stride
    //@requires
        old(self).inv(), old(self).iter_start < old(self).iter_end,
    //@ensures
        final(self).inv(),
        final(self).layout == old(self).layout, final(self).iter_start == old(self).iter_start + 1, final(self).iter_end == old(self).iter_end,
        final(self).index_end == old(self).index_end, final(self).offset_end == old(self).offset_end,
    //@at start
        let ghost l0 = self.layout;
        let ghost s = l0.shape@;
        let ghost st = l0.stride@;
        let ghost n = s.len() as int;
        proof { lemma_iter_facts(false, l0); lemma_sprod_all(s); }
        let ghost k = self.iter_start as int;
        proof { lemma_at_elem(false, l0, self.index_start@, self.offset_start as int, k); lemma_rk_range(false, self.index_start@, s); }
    //@loop 0
            invariant_except_break
                rk(false, index@, s) == k + 1 - cw(false, s, vx_i0 as int),
            invariant
                n == s.len(), n == st.len(), s.len() >= 5, shape@ == s, stride@ == st, vx_n0 == n, 0 <= vx_i0 <= n,
                cw(false, s, n) == size_of_shape(s),
                walk_facts(false, s, st), l0.roomy(), l0.shape@ == s, l0.stride@ == st, iter_facts(false, l0),
                offset == l0.offset + dd(index@, st),
                in_shape(index@, s), 0 <= k, 0 <= rk(false, index@, s),
            ensures
                rk(false, index@, s) == k + 1 || k + 1 >= size_of_shape(s),
            decreases n - vx_i0,
    //@at loop 0 bottom
            proof {
                lemma_sprod_all(s);
                lemma_rk_range(false, index@, s);
            }
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl IterLayoutColMajor<D> :: back_iter_index
    //@opt places:shape,stride
    //@requires
        old(self).inv(), old(self).iter_start < old(self).iter_end,
    //@ensures
        final(self).inv(),
        final(self).layout == old(self).layout, final(self).iter_end == old(self).iter_end - 1, final(self).iter_start == old(self).iter_start,
        final(self).index_start == old(self).index_start, final(self).offset_start == old(self).offset_start,
        at(false, final(self).layout, final(self).index_end@, final(self).offset_end as int, final(self).iter_end as int),
    //@at start
        let ghost l0 = self.layout;
        let ghost s = l0.shape@;
        let ghost st = l0.stride@;
        let ghost n = s.len() as int;
        proof { lemma_iter_facts(false, l0); lemma_sprod_all(s); }
        let ghost k = self.iter_end as int;
        let ghost a0 = self.index_end@;
        proof {
            if forall|i: int| 0 <= i < n ==> #[trigger] a0[i] == 0 { lemma_zero(false, a0, s, st); }
        }
    //@loop 0
            invariant_except_break
                rk(false, index@, s) == k - 1 + cw(false, s, vx_i0 as int),
                vx_i0 as int == n ==> rk(false, index@, s) < size_of_shape(s), forall|i: int| 0 <= i < n && i != top(false, n) ==> #[trigger] index@[i] < s[i],
            invariant
                n == s.len(), n == st.len(), s.len() >= 5, shape@ == s, stride@ == st, vx_n0 == n, 0 <= vx_i0 <= n,
                cw(false, s, n) == size_of_shape(s),
                walk_facts(false, s, st), l0.roomy(), l0.shape@ == s, l0.stride@ == st, iter_facts(false, l0),
                offset == l0.offset + dd(index@, st),
                semi(false, index@, s), 1 <= k,
            ensures
                rk(false, index@, s) == k - 1,
            decreases n - vx_i0,
    //@at loop 0 bottom
            proof {
                lemma_sprod_all(s);
                if vx_i0 as int == n {
                    assert forall|i: int| 0 <= i < n implies #[trigger] index@[i] < s[i] by { }
                    lemma_rk_range(false, index@, s);
                }
            }
    //@end

    //@fn rstsr-common/src/layout/iterator.rs :: impl Iterator for IterLayoutColMajor<D> :: next
    //@retty Option<usize>
    //@requires
        old(self).inv(),
    //@ensures
        final(self).inv(),
        final(self).layout == old(self).layout,
        old(self).iter_start >= old(self).iter_end ==> r is None && *final(self) == *old(self),
        old(self).iter_start < old(self).iter_end ==> r is Some && r->Some_0 == final(self).layout.elem(false, old(self).iter_start as int)
            && final(self).iter_start == old(self).iter_start + 1 && final(self).iter_end == old(self).iter_end,
        old(self).iter_start < old(self).iter_end ==> old(self).index_start@ == unrank(false, final(self).layout.shape@, old(self).iter_start as int),
    //@at before let offset
        proof { lemma_at_elem(false, self.layout, self.index_start@, self.offset_start as int, self.iter_start as int); }
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl DoubleEndedIterator for IterLayoutColMajor<D> :: next_back
    //@retty Option<usize>
    //@requires
        old(self).inv(),
    //@ensures
        final(self).inv(),
        final(self).layout == old(self).layout,
        old(self).iter_start >= old(self).iter_end ==> r is None && *final(self) == *old(self),
        old(self).iter_start < old(self).iter_end ==> r is Some && r->Some_0 == final(self).layout.elem(false, final(self).iter_end as int)
            && final(self).iter_end == old(self).iter_end - 1 && final(self).iter_start == old(self).iter_start
            && final(self).index_end@ == unrank(false, final(self).layout.shape@, final(self).iter_end as int),
    //@at before let offset
        proof { lemma_at_elem(false, self.layout, self.index_end@, self.offset_end as int, self.iter_end as int); }
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl ExactSizeIterator for IterLayoutColMajor<D> :: len
    //@requires
        self.inv(),
    //@ensures
        r == self.iter_end - self.iter_start,
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl IterSplitAtAPI for IterLayoutColMajor<D> :: split_at
    //@rename split_at_owned
    //@requires
        self.inv(), self.iter_start + index <= self.iter_end,
    //@ensures
        r.0.inv() && r.1.inv(),
        r.0.layout.shape@ == self.layout.shape@ && r.0.layout.stride@ == self.layout.stride@ && r.0.layout.offset == self.layout.offset,
        r.1.layout.shape@ == self.layout.shape@ && r.1.layout.stride@ == self.layout.stride@ && r.1.layout.offset == self.layout.offset,
        r.0.iter_start == self.iter_start && r.0.iter_end == self.iter_start + index,
        r.1.iter_start == self.iter_start + index && r.1.iter_end == self.iter_end,
    //@end
}

//@struct rstsr-common/src/layout/iterator.rs :: IterLayoutRowMajor
impl Clone for IterLayoutRowMajor {
    fn clone(&self) -> (r: IterLayoutRowMajor)
        ensures r.layout.shape@ == self.layout.shape@, r.layout.stride@ == self.layout.stride@, r.layout.offset == self.layout.offset,
            r.index_start@ == self.index_start@, r.iter_start == self.iter_start, r.offset_start == self.offset_start,
            r.index_end@ == self.index_end@, r.iter_end == self.iter_end, r.offset_end == self.offset_end,
    {
        IterLayoutRowMajor { layout: self.layout.clone(), index_start: self.index_start.clone(), iter_start: self.iter_start, offset_start: self.offset_start,
            index_end: self.index_end.clone(), iter_end: self.iter_end, offset_end: self.offset_end }
    }
}
impl IterLayoutRowMajor {
    pub open spec fn inv(&self) -> bool {
        &&& self.layout.roomy()
        &&& self.iter_start <= self.iter_end <= size_of_shape(self.layout.shape@)
        &&& size_of_shape(self.layout.shape@) == 0 ==> forall|i: int| 0 <= i < self.index_start@.len() ==> #[trigger] self.index_start@[i] == 0
        &&& self.index_start@.len() == self.layout.shape@.len() && self.index_end@.len() == self.layout.shape@.len()
        &&& self.iter_start < self.iter_end ==> at(true, self.layout, self.index_start@, self.offset_start as int, self.iter_start as int)
        &&& self.iter_start < self.iter_end ==> at(true, self.layout, self.index_end@, self.offset_end as int, self.iter_end as int)
    }
    //@calls .try_into=vx_to_usize ; .as_ref=& vx_asref

    //@fn rstsr-common/src/layout/iterator.rs :: impl IterLayoutRowMajor<D> :: new
    //@opt keep_asref
    //@requires
        layout.roomy(),
    //@ensures
        r is Ok, r->Ok_0.inv(), r->Ok_0.iter_start == 0, r->Ok_0.iter_end == size_of_shape(layout.shape@),
        r->Ok_0.layout.shape@ == layout.shape@, r->Ok_0.layout.stride@ == layout.stride@, r->Ok_0.layout.offset == layout.offset,
    //@at start
        let ghost l0 = *layout;
        let ghost z = Seq::new(l0.shape@.len(), |i: int| 0usize);
        proof {
            let s = l0.shape@;
            lemma_zero(true, z, s, l0.stride@);
            lemma_roomy_part_h(l0, z);
            lemma_prod_zero(s, s.len() as int);
            if size_of_shape(s) > 0 { lemma_size_pos(s); }
        }
    //@at before let offset_start
        proof {
            assert(index_start@ =~= z);
            assert forall|i: int| 0 <= i < l0.shape@.len() implies #[trigger] index_end@[i] <= l0.shape@[i] by {
                if iter_end != 0 { assert(semi(true, index_end@, l0.shape@)); if i != top(true, l0.shape@.len() as int) { assert(index_end@[i] < l0.shape@[i]); } } else { assert(index_end@ =~= z); }
            }
            lemma_roomy_part_h(layout, index_end@);
        }
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl IterLayoutRowMajor<D> :: split_at
    //@opt keep_asref
    //@requires
        self.inv(), self.iter_start + index <= self.iter_end,
    //@ensures
        r is Ok,
        ({ let (a, b) = r->Ok_0;
           &&& a.inv() && b.inv()
           &&& a.layout.shape@ == self.layout.shape@ && a.layout.stride@ == self.layout.stride@ && a.layout.offset == self.layout.offset
           &&& b.layout.shape@ == self.layout.shape@ && b.layout.stride@ == self.layout.stride@ && b.layout.offset == self.layout.offset
           &&& a.iter_start == self.iter_start && a.iter_end == self.iter_start + index
           &&& b.iter_start == self.iter_start + index && b.iter_end == self.iter_end }),
    //@at start
        let ghost l0 = self.layout;
        proof {
            let s = l0.shape@;
            lemma_prod_zero(s, s.len() as int);
            if size_of_shape(s) > 0 { lemma_size_pos(s); }
        }
    //@at before let offset_ins
        proof {
            let s = l0.shape@;
            if size_of_shape(s) == 0 {
                assert(iter_ins == 0);
                assert(index_ins@ == self.index_start@);
            }
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] index_ins@[i] <= s[i] by { if size_of_shape(s) > 0 {
                assert(semi(true, index_ins@, s)); if i != top(true, s.len() as int) { assert(index_ins@[i] < s[i]); } }
            }
            lemma_roomy_part_h(l0, index_ins@);
        }
    //@end

    //@fn rstsr-common/src/layout/iterator.rs :: impl IterLayoutRowMajor<D> :: next_iter_index
    //@opt places:shape,stride
    //@requires
        old(self).inv(), old(self).iter_start < old(self).iter_end,
    //@ensures
        final(self).inv(),
        final(self).layout == old(self).layout, final(self).iter_start == old(self).iter_start + 1, final(self).iter_end == old(self).iter_end,
        final(self).index_end == old(self).index_end, final(self).offset_end == old(self).offset_end,
    //@at start
        let ghost l0 = self.layout;
        let ghost s = l0.shape@;
        let ghost st = l0.stride@;
        let ghost n = s.len() as int;
        proof { lemma_iter_facts(true, l0); lemma_sprod_all(s); }
        let ghost k = self.iter_start as int;
        proof { lemma_at_elem(true, l0, self.index_start@, self.offset_start as int, k); lemma_rk_range(true, self.index_start@, s); }
    //@loop 0
            invariant_except_break
                rk(true, index@, s) == k + 1 - cw(true, s, n - vx_i0),
            invariant
                n == s.len(), n == st.len(), s.len() >= 5, shape@ == s, stride@ == st, vx_n0 == 0, 0 <= vx_i0 <= n,
                cw(true, s, n) == size_of_shape(s),
                walk_facts(true, s, st), l0.roomy(), l0.shape@ == s, l0.stride@ == st, iter_facts(true, l0),
                offset == l0.offset + dd(index@, st),
                in_shape(index@, s), 0 <= k, 0 <= rk(true, index@, s),
            ensures
                rk(true, index@, s) == k + 1 || k + 1 >= size_of_shape(s),
            decreases vx_i0,
    //@at loop 0 bottom
            proof {
                lemma_sprod_all(s);
                lemma_rk_range(true, index@, s);
            }
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl IterLayoutRowMajor<D> :: back_iter_index
    //@opt places:shape,stride
    //@requires
        old(self).inv(), old(self).iter_start < old(self).iter_end,
    //@ensures
        final(self).inv(),
        final(self).layout == old(self).layout, final(self).iter_end == old(self).iter_end - 1, final(self).iter_start == old(self).iter_start,
        final(self).index_start == old(self).index_start, final(self).offset_start == old(self).offset_start,
        at(true, final(self).layout, final(self).index_end@, final(self).offset_end as int, final(self).iter_end as int),
    //@at start
        let ghost l0 = self.layout;
        let ghost s = l0.shape@;
        let ghost st = l0.stride@;
        let ghost n = s.len() as int;
        proof { lemma_iter_facts(true, l0); lemma_sprod_all(s); }
        let ghost k = self.iter_end as int;
        let ghost a0 = self.index_end@;
        proof {
            if forall|i: int| 0 <= i < n ==> #[trigger] a0[i] == 0 { lemma_zero(true, a0, s, st); }
        }
    //@loop 0
            invariant_except_break
                rk(true, index@, s) == k - 1 + cw(true, s, n - vx_i0),
                n - vx_i0 == n ==> rk(true, index@, s) < size_of_shape(s), forall|i: int| 0 <= i < n && i != top(true, n) ==> #[trigger] index@[i] < s[i],
            invariant
                n == s.len(), n == st.len(), s.len() >= 5, shape@ == s, stride@ == st, vx_n0 == 0, 0 <= vx_i0 <= n,
                cw(true, s, n) == size_of_shape(s),
                walk_facts(true, s, st), l0.roomy(), l0.shape@ == s, l0.stride@ == st, iter_facts(true, l0),
                offset == l0.offset + dd(index@, st),
                semi(true, index@, s), 1 <= k,
            ensures
                rk(true, index@, s) == k - 1,
            decreases vx_i0,
    //@at loop 0 bottom
            proof {
                lemma_sprod_all(s);
                if n - vx_i0 == n {
                    assert forall|i: int| 0 <= i < n implies #[trigger] index@[i] < s[i] by { }
                    lemma_rk_range(true, index@, s);
                }
            }
    //@end

    //@fn rstsr-common/src/layout/iterator.rs :: impl Iterator for IterLayoutRowMajor<D> :: next
    //@retty Option<usize>
    //@requires
        old(self).inv(),
    //@ensures
        final(self).inv(),
        final(self).layout == old(self).layout,
        old(self).iter_start >= old(self).iter_end ==> r is None && *final(self) == *old(self),
        old(self).iter_start < old(self).iter_end ==> r is Some && r->Some_0 == final(self).layout.elem(true, old(self).iter_start as int)
            && final(self).iter_start == old(self).iter_start + 1 && final(self).iter_end == old(self).iter_end,
        old(self).iter_start < old(self).iter_end ==> old(self).index_start@ == unrank(true, final(self).layout.shape@, old(self).iter_start as int),
    //@at before let offset
        proof { lemma_at_elem(true, self.layout, self.index_start@, self.offset_start as int, self.iter_start as int); }
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl DoubleEndedIterator for IterLayoutRowMajor<D> :: next_back
    //@retty Option<usize>
    //@requires
        old(self).inv(),
    //@ensures
        final(self).inv(),
        final(self).layout == old(self).layout,
        old(self).iter_start >= old(self).iter_end ==> r is None && *final(self) == *old(self),
        old(self).iter_start < old(self).iter_end ==> r is Some && r->Some_0 == final(self).layout.elem(true, final(self).iter_end as int)
            && final(self).iter_end == old(self).iter_end - 1 && final(self).iter_start == old(self).iter_start
            && final(self).index_end@ == unrank(true, final(self).layout.shape@, final(self).iter_end as int),
    //@at before let offset
        proof { lemma_at_elem(true, self.layout, self.index_end@, self.offset_end as int, self.iter_end as int); }
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl ExactSizeIterator for IterLayoutRowMajor<D> :: len
    //@requires
        self.inv(),
    //@ensures
        r == self.iter_end - self.iter_start,
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl IterSplitAtAPI for IterLayoutRowMajor<D> :: split_at
    //@rename split_at_owned
    //@requires
        self.inv(), self.iter_start + index <= self.iter_end,
    //@ensures
        r.0.inv() && r.1.inv(),
        r.0.layout.shape@ == self.layout.shape@ && r.0.layout.stride@ == self.layout.stride@ && r.0.layout.offset == self.layout.offset,
        r.1.layout.shape@ == self.layout.shape@ && r.1.layout.stride@ == self.layout.stride@ && r.1.layout.offset == self.layout.offset,
        r.0.iter_start == self.iter_start && r.0.iter_end == self.iter_start + index,
        r.1.iter_start == self.iter_start + index && r.1.iter_end == self.iter_end,
    //@end
}
//@struct rstsr-common/src/layout/iterator.rs :: IterLayout
impl IterLayout {
    pub open spec fn c(&self) -> bool { self is RowMajor }
    pub open spec fn inv(&self) -> bool { match self { IterLayout::RowMajor(i) => i.inv(), IterLayout::ColMajor(i) => i.inv() } }
    pub open spec fn lay(&self) -> Layout { match self { IterLayout::RowMajor(i) => i.layout, IterLayout::ColMajor(i) => i.layout } }
    pub open spec fn start(&self) -> int { match self { IterLayout::RowMajor(i) => i.iter_start as int, IterLayout::ColMajor(i) => i.iter_start as int } }
    pub open spec fn end(&self) -> int { match self { IterLayout::RowMajor(i) => i.iter_end as int, IterLayout::ColMajor(i) => i.iter_end as int } }
    pub open spec fn ixs(&self) -> Seq<usize> { match self { IterLayout::RowMajor(i) => i.index_start@, IterLayout::ColMajor(i) => i.index_start@ } }
    pub open spec fn ixe(&self) -> Seq<usize> { match self { IterLayout::RowMajor(i) => i.index_end@, IterLayout::ColMajor(i) => i.index_end@ } }

    //@fn rstsr-common/src/layout/iterator.rs :: impl Iterator for IterLayout<D> :: next
    //@retty Option<usize>
    //@requires
        old(self).inv(),
    //@ensures
        final(self).inv(), final(self).lay() == old(self).lay(), final(self).c() == old(self).c(),
        old(self).start() >= old(self).end() ==> r is None && *final(self) == *old(self),
        old(self).start() < old(self).end() ==> r is Some && r->Some_0 == old(self).lay().elem(old(self).c(), old(self).start())
            && final(self).start() == old(self).start() + 1 && final(self).end() == old(self).end()
            && old(self).ixs() == unrank(old(self).c(), old(self).lay().shape@, old(self).start()),
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl DoubleEndedIterator for IterLayout<D> :: next_back
    //@retty Option<usize>
    //@requires
        old(self).inv(),
    //@ensures
        final(self).inv(), final(self).lay() == old(self).lay(), final(self).c() == old(self).c(),
        old(self).start() >= old(self).end() ==> r is None && *final(self) == *old(self),
        old(self).start() < old(self).end() ==> r is Some && r->Some_0 == old(self).lay().elem(old(self).c(), final(self).end())
            && final(self).end() == old(self).end() - 1 && final(self).start() == old(self).start()
            && final(self).ixe() == unrank(old(self).c(), old(self).lay().shape@, final(self).end()),
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl ExactSizeIterator for IterLayout<D> :: len
    //@requires
        self.inv(),
    //@ensures
        r == self.end() - self.start(),
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl IterSplitAtAPI for IterLayout<D> :: split_at
    //@methods split_at=split_at_owned
    //@rename split_at_owned
    //@requires
        self.inv(), self.start() + index <= self.end(),
    //@ensures
        r.0.inv() && r.1.inv(), r.0.c() == self.c() && r.1.c() == self.c(),
        r.0.lay().shape@ == self.lay().shape@ && r.0.lay().stride@ == self.lay().stride@ && r.0.lay().offset == self.lay().offset,
        r.1.lay().shape@ == self.lay().shape@ && r.1.lay().stride@ == self.lay().stride@ && r.1.lay().offset == self.lay().offset,
        r.0.start() == self.start() && r.0.end() == self.start() + index,
        r.1.start() == self.start() + index && r.1.end() == self.end(),
    //@end
}
//@struct rstsr-common/src/layout/iterator.rs :: IndexedIterLayout
impl IndexedIterLayout {
    //@fn rstsr-common/src/layout/iterator.rs :: impl Iterator for IndexedIterLayout<D> :: next
    //@opt optmap
    //@retty Option<(Vec<usize>, usize)>
    //@requires
        old(self).layout_iter.inv(),
    //@ensures
        final(self).layout_iter.inv(),
        ({ let a = old(self).layout_iter; let b = final(self).layout_iter;
           &&& b.lay() == a.lay() && b.c() == a.c()
           &&& a.start() >= a.end() ==> r is None && b == a
           &&& a.start() < a.end() ==> r is Some && r->Some_0.0@ == unrank(a.c(), a.lay().shape@, a.start()) && r->Some_0.1 == a.lay().elem(a.c(), a.start())
                && b.start() == a.start() + 1 && b.end() == a.end() }),
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl DoubleEndedIterator for IndexedIterLayout<D> :: next_back
    //@retty Option<(Vec<usize>, usize)>
    //@requires
        old(self).layout_iter.inv(),
    //@ensures
        final(self).layout_iter.inv(),
        ({ let a = old(self).layout_iter; let b = final(self).layout_iter;
           &&& b.lay() == a.lay() && b.c() == a.c()
           &&& a.start() >= a.end() ==> r is None && b == a
           &&& a.start() < a.end() ==> r is Some && r->Some_0.0@ == unrank(a.c(), a.lay().shape@, b.end()) && r->Some_0.1 == a.lay().elem(a.c(), b.end())
                && b.end() == a.end() - 1 && b.start() == a.start() }),
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl ExactSizeIterator for IndexedIterLayout<D> :: len
    //@requires
        self.layout_iter.inv(),
    //@ensures
        r == self.layout_iter.end() - self.layout_iter.start(),
    //@end
    //@fn rstsr-common/src/layout/iterator.rs :: impl IterSplitAtAPI for IndexedIterLayout<D> :: split_at
    //@methods split_at=split_at_owned
    //@rename split_at_owned
    //@requires
        self.layout_iter.inv(), self.layout_iter.start() + mid <= self.layout_iter.end(),
    //@ensures
        r.0.layout_iter.inv() && r.1.layout_iter.inv(), r.0.layout_iter.c() == self.layout_iter.c() && r.1.layout_iter.c() == self.layout_iter.c(),
        r.0.layout_iter.lay().shape@ == self.layout_iter.lay().shape@ && r.0.layout_iter.lay().stride@ == self.layout_iter.lay().stride@ && r.0.layout_iter.lay().offset == self.layout_iter.lay().offset,
        r.1.layout_iter.lay().shape@ == self.layout_iter.lay().shape@ && r.1.layout_iter.lay().stride@ == self.layout_iter.lay().stride@ && r.1.layout_iter.lay().offset == self.layout_iter.lay().offset,
        r.0.layout_iter.start() == self.layout_iter.start() && r.0.layout_iter.end() == self.layout_iter.start() + mid,
        r.1.layout_iter.start() == self.layout_iter.start() + mid && r.1.layout_iter.end() == self.layout_iter.end(),
    //@end
}
