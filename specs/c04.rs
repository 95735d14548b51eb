//@include prelude.rs
//@include walk.rs
//@assume_bodies
//@include newlayout.rs
//@include contig.rs
//@verify_bodies
//@include vecops.rs
//@include narrow.rs
//@include prefer.rs
//@include select.rs
//@include dimslice.rs
}
fn main() {}
