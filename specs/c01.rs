// C01: accepted layouts never reach outside their storage.
//@include prelude.rs
//@include bounds.rs
//@assume_bodies
//@include overlap.rs
//@verify_bodies
//@include newlayout_core.rs
//@include indexing.rs

// ---- tensors: a storage of some length and a layout
/// the storage of a device: only its number of elements matters here
#[verifier::external_body]
pub struct Storage { }
pub uninterp spec fn storage_len(s: Storage) -> nat;
impl Storage {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == storage_len(*self),
    { unimplemented!() }
}
//@types S=Storage ; Storage<R,T,B>=Storage
//@degeneric TensorBase
//@struct rstsr-core/src/tensorbase.rs :: TensorBase
impl TensorBase {
    //@fn rstsr-core/src/tensorbase.rs :: impl TensorAny<R, T, B, D> :: new_f
    //@requires
        layout.machine(),
    //@ensures
        // acceptance: no overlap on the axes with non-zero stride, and every address inside the storage
        layout.empty() ==> (r is Ok <==> layout.offset <= storage_len(storage)),
        !layout.empty() ==> (r is Ok <==> strides_ok(layout.shape@, layout.stride@) && layout.lo() >= 0 && layout.hi() < storage_len(storage)),
        r is Ok ==> r->Ok_0.layout == layout && r->Ok_0.storage == storage,
        r is Ok ==> forall|idx: Seq<int>| in_range(idx, layout.shape@) ==> 0 <= #[trigger] layout.addr(idx) < storage_len(storage),
        r is Ok ==> injective(layout),
        // a layout reaching outside of the storage is rejected
        (exists|idx: Seq<int>| in_range(idx, layout.shape@) && !(0 <= #[trigger] layout.addr(idx) < storage_len(storage))) ==> r is Err,
    //@at start
        proof {
            let n = layout.shape@.len() as int;
            if nonempty(layout.shape@) {
                assert forall|idx: Seq<int>| in_range(idx, layout.shape@) implies layout.lo() <= #[trigger] layout.addr(idx) <= layout.hi() by { lemma_dot_bounds(idx, layout.shape@, layout.stride@, n); }
                lemma_ext_attained(layout.shape@, layout.stride@, n);
                assert(layout.addr(idx_lo(layout.shape@, layout.stride@)) == layout.lo());
            } else {
                assert forall|i1: Seq<int>| !in_range(i1, layout.shape@) by {
                    let i = choose|i: int| 0 <= i < layout.shape@.len() && !(#[trigger] layout.shape@[i] > 0);
                    if in_range(i1, layout.shape@) { assert(0 <= i1[i] < layout.shape@[i]); }
                }
            }
        }
    //@end
}
}
fn main() {}
