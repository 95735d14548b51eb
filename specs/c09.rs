// C09: element-wise kernels.
//@include prelude.rs
//@include walk.rs
//@include overlap.rs
//@include rank.rs
//@assume_bodies
//@include bounds.rs
//@include newlayout_core.rs
//@include vecops.rs
//@include axes_index.rs
//@include indexing.rs
//@include contig.rs
//@include unravel.rs
//@include iter_state.rs
//@include iters.rs
//@include narrow.rs
//@verify_bodies
//@include permute.rs
//@include reverse_axes.rs
//@include transpose.rs
//@include dispatch.rs
//@include rearr.rs
//@include covers.rs
//@include walked.rs
//@include kernels.rs
}
fn main() {}
