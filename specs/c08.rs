// C08: layout iterators.
//@include prelude.rs
//@include walk.rs
//@include overlap.rs
//@include rank.rs
//@assume_bodies
//@include bounds.rs
//@include newlayout_core.rs
//@include indexing.rs
//@verify_bodies
//@include unravel.rs
//@include iter_state.rs
//@include iters.rs
}
fn main() {}
