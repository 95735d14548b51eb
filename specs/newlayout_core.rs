
impl Clone for Layout {
    fn clone(&self) -> (r: Layout)
        ensures r.shape@ == self.shape@, r.stride@ == self.stride@, r.offset == self.offset,
    { Layout { shape: self.shape.clone(), stride: self.stride.clone(), offset: self.offset } }
}
impl Layout {
    /// smallest address reached
    pub open spec fn lo(&self) -> int { self.offset + ext_neg(self.shape@, self.stride@, self.shape@.len() as int) }
    pub open spec fn hi(&self) -> int { self.offset + ext_pos(self.shape@, self.stride@, self.shape@.len() as int) }
    /// acceptance rule
    pub open spec fn accepted(&self) -> bool { self.empty() || (self.lo() >= 0 && strides_ok(self.shape@, self.stride@)) }
    /// machine range
    pub open spec fn machine(&self) -> bool { self.fits() && self.size_fits() }
    /// an accepted layout whose smallest address is not negative (also when it is empty)
    pub open spec fn good(&self) -> bool { self.machine() && self.accepted() && self.lo() >= 0 }

    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: new
    //@requires
        (Layout { shape, stride, offset }).machine(),
    //@ensures
        r is Ok <==> (Layout { shape, stride, offset }).accepted(),
        r is Ok ==> r->Ok_0 == (Layout { shape, stride, offset }),
        r is Ok ==> injective(r->Ok_0),
        r is Err ==> r->Err_0 is ValueOutOfRange || r->Err_0 is InvalidLayout,
    //@at before layout . check_strides
        proof {
            let n = layout.shape@.len() as int;
            if nonempty(layout.shape@) {
                lemma_ext_attained(layout.shape@, layout.stride@, n);
                assert(layout.addr(idx_lo(layout.shape@, layout.stride@)) == layout.lo());
            }
        }
    //@at start
        proof {
            let l = Layout { shape, stride, offset };
            let n = l.shape@.len() as int;
            if nonempty(l.shape@) {
                assert forall|idx: Seq<int>| in_range(idx, l.shape@) implies l.lo() <= #[trigger] l.addr(idx) by { lemma_dot_bounds(idx, l.shape@, l.stride@, n); }
                lemma_ext_attained(l.shape@, l.stride@, n);
                assert(l.addr(idx_lo(l.shape@, l.stride@)) == l.lo());
            } else {
                assert forall|i1: Seq<int>| !in_range(i1, l.shape@) by {
                    let i = choose|i: int| 0 <= i < l.shape@.len() && !(#[trigger] l.shape@[i] > 0);
                    if in_range(i1, l.shape@) { assert(0 <= i1[i] < l.shape@[i]); }
                }
            }
        }
    //@end
}
