// C08: index at a position (dynamic rank)
pub trait DimUnravelAPI {
    spec fn sq(&self) -> Seq<usize>;
    fn unravel_index_f(&self, index: usize) -> (r: Vec<usize>)
        requires nonempty(self.sq()),
        ensures
            r@.len() == self.sq().len(),
            index <= size_of_shape(self.sq()) ==> semi(false, r@, self.sq()),
            self.sq().len() > 0 ==> rk(false, r@, self.sq()) == index;
    fn unravel_index_c(&self, index: usize) -> (r: Vec<usize>)
        requires nonempty(self.sq()),
        ensures
            r@.len() == self.sq().len(),
            index <= size_of_shape(self.sq()) ==> semi(true, r@, self.sq()),
            self.sq().len() > 0 ==> rk(true, r@, self.sq()) == index;
}
pub proof fn lemma_ints_upd(a: Seq<usize>, p: int, v: usize)
    requires 0 <= p < a.len(),
    ensures ints(a.update(p, v)) == ints(a).update(p, v as int),
{ assert(ints(a.update(p, v)) =~= ints(a).update(p, v as int)); }
/// the slowest digit of a position up to the size is at most its length
pub proof fn lemma_semi_of(c: bool, a: Seq<usize>, s: Seq<usize>)
    requires a.len() == s.len(), s.len() > 0, nonempty(s), forall|i: int| 0 <= i < s.len() && i != top(c, s.len() as int) ==> #[trigger] a[i] < s[i],
    ensures rk(c, a, s) <= size_of_shape(s) ==> semi(c, a, s),
{
    let n = s.len() as int; let t = top(c, n);
    lemma_sprod_all(s);
    assert forall|i: int| 0 <= i < n implies s[i] > 0 by { assert(s[i] > 0); }
    let w = if c { sprod(s, 1) } else { prod(s, n - 1) };
    let rest = if c { rank_c(ints(a), s, 1) } else { rank_f(ints(a), s, n - 1) };
    if c {
        assert forall|i: int| 1 <= i < n implies 0 <= #[trigger] ints(a)[i] < s[i] by { assert(a[i] < s[i]); }
        lemma_rank_c_range(ints(a), s, 1);
        lemma_sprod_pos(s, 1);
    } else {
        assert forall|i: int| 0 <= i < n - 1 implies 0 <= #[trigger] ints(a)[i] < s[i] by { assert(a[i] < s[i]); }
        lemma_rank_f_range(ints(a), s, n - 1);
        lemma_prod_pos(s, n - 1);
    }
    if rk(c, a, s) <= size_of_shape(s) {
        let x = a[t] as int; let d = s[t] as int;
        assert(x <= d) by (nonlinear_arith) requires x * w + rest <= d * w || x * w + rest <= w * d, rest >= 0, w >= 1;
        assert forall|i: int| 0 <= i < n implies if i == t { #[trigger] a[i] <= s[i] } else { a[i] < s[i] } by { }
    }
}
impl DimUnravelAPI for Vec<usize> {
    open spec fn sq(&self) -> Seq<usize> { self@ }
    //@fn rstsr-common/src/layout/shape.rs :: impl DimShapeAPI for IxD :: unravel_index_f
    //@opt private
    //@at start
        let ghost s = self@;
        let ghost k0 = index as int;
        let ghost n = s.len() as int;
    //@loop 0
            invariant
                s == self@, n == s.len(), n >= 1, nonempty(s), result@.len() == n,
                vx_n0 == n - 1, 0 <= vx_i0 <= n - 1,
                forall|j: int| 0 <= j < vx_i0 ==> #[trigger] result@[j] < s[j],
                rank_f(ints(result@), s, vx_i0 as int) + index * prod(s, vx_i0 as int) == k0,
            decreases n - 1 - vx_i0,
    //@at loop 0 before
            proof { assert(index * prod(s, 0) == index) by (nonlinear_arith) requires prod(s, 0) == 1; }
    //@at loop 0 top
            let ghost r0 = result@;
            let ghost x0 = index as int;
            proof { assert(s[vx_i0 as int] > 0); }
    //@at loop 0 bottom
            proof {
                let j = i as int; let d = s[j] as int;
                lemma_ints_upd(r0, j, result@[j]);
                lemma_rank_f_upd(ints(r0), s, j, result@[j] as int, j);
                lemma_fundamental_div_mod(x0, d);
                lemma_mod_bound(x0, d);
                let q = x0 / d; let m = x0 % d; let w = prod(s, j);
                assert(m * w + q * (w * d) == x0 * w) by (nonlinear_arith) requires x0 == d * q + m;
            }
    //@at before result [self . ndim () - 1]
            let ghost r1 = result@;
            let ghost x1 = index as int;
    //@at after result [self . ndim () - 1]
            proof {
                let t = n - 1;
                lemma_ints_upd(r1, t, result@[t]);
                lemma_rank_f_upd(ints(r1), s, n - 1, x1, n - 1);
                lemma_semi_of(false, result@, s);
            }
    //@end
    //@fn rstsr-common/src/layout/shape.rs :: impl DimShapeAPI for IxD :: unravel_index_c
    //@opt private
    //@at start
        let ghost s = self@;
        let ghost k0 = index as int;
        let ghost n = s.len() as int;
    //@loop 0
            invariant
                s == self@, n == s.len(), n >= 1, nonempty(s), result@.len() == n,
                vx_n0 == 1, 1 <= vx_i0 <= n,
                forall|j: int| vx_i0 <= j < n ==> #[trigger] result@[j] < s[j],
                rank_c(ints(result@), s, vx_i0 as int) + index * sprod(s, vx_i0 as int) == k0,
            decreases vx_i0,
    //@at loop 0 before
            proof { assert(index * sprod(s, n) == index) by (nonlinear_arith) requires sprod(s, n) == 1; }
    //@at loop 0 top
            let ghost r0 = result@;
            let ghost x0 = index as int;
            proof { assert(s[vx_i0 - 1] > 0); }
    //@at loop 0 bottom
            proof {
                let j = i as int; let d = s[j] as int;
                lemma_ints_upd(r0, j, result@[j]);
                lemma_rank_c_upd(ints(r0), s, j, result@[j] as int, j + 1);
                lemma_fundamental_div_mod(x0, d);
                lemma_mod_bound(x0, d);
                let q = x0 / d; let m = x0 % d; let w = sprod(s, j + 1);
                assert(m * w + q * (d * w) == x0 * w) by (nonlinear_arith) requires x0 == d * q + m;
            }
    //@at before result [0]
            let ghost r1 = result@;
            let ghost x1 = index as int;
    //@at after result [0]
            proof {
                let t = 0int;
                lemma_ints_upd(r1, t, result@[t]);
                lemma_rank_c_upd(ints(r1), s, 0, x1, 1);
                lemma_semi_of(true, result@, s);
            }
    //@end
}
