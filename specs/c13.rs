// C13: creation.
//@include prelude.rs
//@assume_bodies
//@include newlayout.rs
//@include indexing.rs
//@verify_bodies
//@include trimask.rs
//@include arange.rs
}
fn main() {}
