// C18: contraction specifications.
//@include prelude.rs
//@assume_bodies
//@include axes_index.rs
//@verify_bodies
//@include tensordot.rs
}
fn main() {}
