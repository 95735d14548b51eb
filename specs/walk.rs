// position of a multi-index in the column-major / row-major walk of a shape
pub open spec fn sprod(s: Seq<usize>, k: int) -> int
    decreases s.len() - k,
{
    if k >= s.len() || k < 0 { 1 } else { s[k] * sprod(s, k + 1) }
}
pub open spec fn rank_f(idx: Seq<int>, s: Seq<usize>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { rank_f(idx, s, n - 1) + idx[n - 1] * prod(s, n - 1) }
}
/// rank of the axes k.. in row-major order
pub open spec fn rank_c(idx: Seq<int>, s: Seq<usize>, k: int) -> int
    decreases s.len() - k,
{
    if k >= s.len() || k < 0 { 0 } else { idx[k] * sprod(s, k + 1) + rank_c(idx, s, k + 1) }
}
/// sum of idx*stride over the axes k..
pub open spec fn sdot(idx: Seq<int>, stride: Seq<isize>, k: int) -> int
    decreases stride.len() - k,
{
    if k >= stride.len() || k < 0 { 0 } else { idx[k] * stride[k] + sdot(idx, stride, k + 1) }
}
pub proof fn lemma_sdot(idx: Seq<int>, stride: Seq<isize>, k: int)
    requires 0 <= k <= stride.len(), idx.len() == stride.len(),
    ensures dot(idx, stride, k) + sdot(idx, stride, k) == dot(idx, stride, stride.len() as int),
    decreases stride.len() - k,
{
    if k < stride.len() { lemma_sdot(idx, stride, k + 1); }
}
pub proof fn lemma_sprod_pos(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> s[i] > 0,
    ensures sprod(s, k) >= 1,
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_sprod_pos(s, k + 1);
        assert(s[k] * sprod(s, k + 1) >= 1) by (nonlinear_arith) requires s[k] >= 1, sprod(s, k + 1) >= 1;
    }
}
pub proof fn lemma_prod_split(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len(),
    ensures prod(s, k) * sprod(s, k) == prod(s, s.len() as int),
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_prod_split(s, k + 1);
        assert(prod(s, k + 1) == prod(s, k) * s[k]);
        assert(prod(s, k) * (s[k] * sprod(s, k + 1)) == (prod(s, k) * s[k]) * sprod(s, k + 1)) by (nonlinear_arith);
    } else { assert(sprod(s, k) == 1); assert(prod(s, k) * 1 == prod(s, k)); }
}
pub proof fn lemma_prod_pos(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] > 0,
    ensures prod(s, k) >= 1,
    decreases k,
{
    if k > 0 {
        lemma_prod_pos(s, k - 1);
        assert(prod(s, k - 1) * s[k - 1] >= 1) by (nonlinear_arith) requires s[k - 1] >= 1, prod(s, k - 1) >= 1;
    }
}
/// suffix products of a non-empty shape are bounded by the size
pub proof fn lemma_sprod_le(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len(), nonempty(s),
    ensures 1 <= sprod(s, k) <= prod(s, s.len() as int),
{
    assert forall|i: int| k <= i < s.len() implies s[i] > 0 by { assert(s[i] > 0); }
    assert forall|i: int| 0 <= i < k implies s[i] > 0 by { assert(s[i] > 0); }
    lemma_sprod_pos(s, k);
    lemma_prod_pos(s, k);
    lemma_prod_split(s, k);
    assert(sprod(s, k) <= prod(s, k) * sprod(s, k)) by (nonlinear_arith) requires prod(s, k) >= 1, sprod(s, k) >= 1;
}

pub proof fn lemma_sprod_nonneg(s: Seq<usize>, k: int)
    requires 0 <= k,
    ensures sprod(s, k) >= 0,
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_sprod_nonneg(s, k + 1);
        assert(s[k] * sprod(s, k + 1) >= 0) by (nonlinear_arith) requires s[k] >= 0, sprod(s, k + 1) >= 0;
    }
}
pub proof fn lemma_prod_nonneg(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len(),
    ensures prod(s, k) >= 0,
    decreases k,
{
    if k > 0 {
        lemma_prod_nonneg(s, k - 1);
        assert(prod(s, k - 1) * s[k - 1] >= 0) by (nonlinear_arith) requires s[k - 1] >= 0, prod(s, k - 1) >= 0;
    }
}
