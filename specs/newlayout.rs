// Construction of layouts: the acceptance rule (bounds and overlap checks proved in bounds.rs, overlap.rs).
//@include bounds.rs
//@include overlap.rs
//@include newlayout_core.rs
