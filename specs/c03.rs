//@include prelude.rs
//@include walk.rs
//@include contig.rs
}
fn main() {}
