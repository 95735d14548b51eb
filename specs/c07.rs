//@include prelude.rs
//@include vecops.rs

// C07: reshaping.
/// product of the given lengths, the entry -1 left out
pub open spec fn known(s: Seq<isize>, n: int) -> int
    decreases n,
{ if n <= 0 { 1 } else { known(s, n - 1) * if s[n - 1] == -1 { 1 } else { s[n - 1] as int } } }
pub open spec fn one_hole(s: Seq<isize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !(s[i] == -1 && s[j] == -1) }
pub open spec fn has_hole(s: Seq<isize>) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == -1 }
/// a request for a shape of the given size
pub open spec fn request_ok(s: Seq<isize>, size: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= -1
    &&& one_hole(s)
    &&& has_hole(s) ==> known(s, s.len() as int) != 0 && size % known(s, s.len() as int) == 0
}
pub open spec fn known_fits(s: Seq<isize>) -> bool { forall|k: int| 0 <= k <= s.len() ==> #[trigger] known(s, k) <= isize::MAX }
pub proof fn lemma_known_nonneg(s: Seq<isize>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= -1,
    ensures known(s, n) >= 0,
    decreases n,
{
    if n > 0 {
        lemma_known_nonneg(s, n - 1);
        let x = if s[n - 1] == -1 { 1 } else { s[n - 1] as int };
        assert(known(s, n - 1) * x >= 0) by (nonlinear_arith) requires known(s, n - 1) >= 0, x >= 0;
    }
}

//@fn rstsr-common/src/layout/reshape.rs :: reshape_substitute_negatives
//@param shape_out=&Vec<isize>
//@requires
    size_in <= isize::MAX,
//@ensures
    r is Ok ==> request_ok(shape_out@, size_in as int),
    request_ok(shape_out@, size_in as int) && (has_hole(shape_out@) ==> known_fits(shape_out@)) ==> r is Ok,
    r is Ok ==> r->Ok_0@.len() == shape_out@.len() && forall|i: int| 0 <= i < shape_out@.len() ==>
        #[trigger] r->Ok_0@[i] == if shape_out@[i] == -1 { size_in as int / known(shape_out@, shape_out@.len() as int) } else { shape_out@[i] as int },
//@at start
    let ghost s = shape_out@;
    let ghost n = s.len() as int;
//@loop 0
        invariant
            vx_n0 == n, vx_i0 <= n, shape@ == s, n == s.len(), s == shape_out@,
            forall|i: int| 0 <= i < vx_i0 ==> #[trigger] s[i] >= -1,
            idx_neg1 is None ==> forall|i: int| 0 <= i < vx_i0 ==> s[i] != -1,
            idx_neg1 is Some ==> idx_neg1->Some_0 < vx_i0 && s[idx_neg1->Some_0 as int] == -1 && forall|i: int| 0 <= i < vx_i0 && i != idx_neg1->Some_0 ==> s[i] != -1,
        decreases vx_n0 - vx_i0,
//@at loop 0 top
            proof {
                if s[vx_i0 as int] == -1 && idx_neg1 is Some { assert(!one_hole(s)) by { assert(s[idx_neg1->Some_0 as int] == -1 && s[vx_i0 as int] == -1); } }
            }
//@loop 1
            invariant
                vx_n1 == n, vx_i1 <= n, shape@ == s, n == s.len(),
                forall|i: int| 0 <= i < n ==> #[trigger] s[i] >= -1,
                vx_acc1 is Some ==> vx_acc1->Some_0 == known(s, vx_i1 as int),
                vx_acc1 is None ==> exists|k: int| 0 <= k <= vx_i1 && #[trigger] known(s, k) > isize::MAX,
            decreases vx_n1 - vx_i1,
//@at loop 1 top
            proof {
                lemma_known_nonneg(s, vx_i1 as int);
                lemma_known_nonneg(s, vx_i1 + 1);
                assert(known(s, vx_i1 + 1) == known(s, vx_i1 as int) * if s[vx_i1 as int] == -1 { 1 } else { s[vx_i1 as int] as int });
                assert(vx_acc1 is None ==> exists|k: int| 0 <= k <= vx_i1 + 1 && #[trigger] known(s, k) > isize::MAX);
            }
//@at after let size_neg #1
        proof {
            if size_neg > 0 {
                lemma_mod_bound(size_in as int, size_neg as int);
                assert(0int % (size_neg as int) == 0) by (nonlinear_arith) requires size_neg > 0;
            }
        }
//@at before let size_neg #1
        proof { lemma_known_nonneg(s, n); if size_neg is None { assert(!known_fits(s)); } assert(has_hole(s)); }
//@at before shape [
        proof { assert(size_in as int / size_neg as int <= size_in && 0 <= size_in as int / size_neg as int) by (nonlinear_arith) requires size_neg > 0, size_in >= 0; }
//@at after shape [
        proof {
            assert(one_hole(s));
            assert(has_hole(s));
            assert(size_neg == known(s, n));
            assert(size_in as int % size_neg as int == 0);
            assert(shape@[idx_neg1 as int] == size_in as int / size_neg as int);
            assert(request_ok(s, size_in as int));
            assert forall|i: int| 0 <= i < n implies #[trigger] shape@[i] == if s[i] == -1 { size_in as int / known(s, n) } else { s[i] as int } by {}
        }
//@at end
    proof { if !has_hole(s) { assert(shape@ == s); } }
//@loop 2
        invariant
            vx_n2 == shape@.len(), vx_i2 <= vx_n2, vx_acc2@.len() == vx_i2,
            forall|i: int| 0 <= i < shape@.len() ==> #[trigger] shape@[i] >= 0,
            forall|i: int| 0 <= i < vx_i2 ==> #[trigger] vx_acc2@[i] == shape@[i],
        decreases vx_n2 - vx_i2,
//@end
}
fn main() {}
