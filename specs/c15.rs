//@include prelude.rs
//@include axes_index.rs
}
fn main() {}
