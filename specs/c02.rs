//@include prelude.rs
//@include overlap.rs
}
fn main() {}
