//@include prelude.rs
//@assume_bodies
//@include walk.rs
//@include newlayout.rs
//@include contig.rs
//@include vecops.rs
//@include narrow.rs
//@include prefer.rs
//@include select.rs
//@verify_bodies
//@include packarr.rs
}
fn main() {}
