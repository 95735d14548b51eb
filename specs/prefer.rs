impl Layout {
//@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: f_prefer
//@requires
        self.len_ok(), self.size_fits(),
//@loop 0
            invariant vx_n0 == self.shape@.len(), vx_i0 <= vx_n0, *stride == self.stride, *shape == self.shape, self.len_ok(),
            decreases vx_n0 - vx_i0,
//@end
//@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: c_prefer
//@requires
        self.len_ok(), self.size_fits(),
//@loop 0
            invariant vx_n0 == 0, vx_i0 <= self.shape@.len(), *stride == self.stride, *shape == self.shape, self.len_ok(),
            decreases vx_i0,
//@end
}
