// arange over number types that convert to 128-bit integers.
pub uninterp spec fn int_of<T>(x: T) -> int;
/// the integers the type can hold: an interval (trusted: an integer type no wider than 64 bits)
pub uninterp spec fn low_of<T>() -> int;
pub uninterp spec fn high_of<T>() -> int;
pub uninterp spec fn converts<T>(x: T) -> bool;
#[verifier::external_body]
pub fn vx_to_i128<T>(x: &T) -> (r: Option<i128>)
    ensures
        r is Some <==> converts(*x),
        r is Some ==> r->0 == int_of(*x) && low_of::<T>() <= r->0 <= high_of::<T>() && -0x8000_0000_0000_0000 <= low_of::<T>() && high_of::<T>() < 0x1_0000_0000_0000_0000,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_from_i128<T>(x: i128) -> (r: Option<T>)
    ensures
        low_of::<T>() <= x <= high_of::<T>() ==> r is Some && int_of(r->0) == x,
{ unimplemented!() }
pub fn vx_to_usize(x: i128) -> (r: Option<usize>)
    ensures r is Some <==> 0 <= x <= usize::MAX, r is Some ==> r->0 == x,
{ if 0 <= x && x <= usize::MAX as i128 { Some(x as usize) } else { None } }
pub fn vx_max128(a: i128, b: i128) -> (r: i128)
    ensures r == if a >= b { a } else { b },
{ if a >= b { a } else { b } }
pub open spec fn at_k(s: int, st: int, k: int) -> int { s + k * st }
/// s + k * st has not reached e yet
pub open spec fn before_end(s: int, e: int, st: int, k: int) -> bool { if st > 0 { at_k(s, st, k) < e } else { at_k(s, st, k) > e } }
/// exactly the steps k = 0 .. n lie before the end
pub open spec fn counted(s: int, e: int, st: int, n: int) -> bool {
    0 <= n && forall|k: int| 0 <= k ==> (#[trigger] before_end(s, e, st, k) <==> k < n)
}
pub open spec fn spaced<T>(v: Seq<T>, s: int, st: int) -> bool {
    forall|k: int| 0 <= k < v.len() ==> int_of(#[trigger] v[k]) == at_k(s, st, k)
}
pub proof fn lemma_count_up(d: int, st: int, n: int)
    requires st > 0, n == (d + st - 1) / st,
    ensures forall|k: int| 0 <= k ==> (#[trigger] (k * st) < d <==> k < n), d <= 0 ==> n <= 0, d > 0 ==> 0 <= n <= d,
{
    assert(n * st <= d + st - 1 < n * st + st) by (nonlinear_arith) requires st > 0, n == (d + st - 1) / st;
    assert forall|k: int| 0 <= k implies (#[trigger] (k * st) < d <==> k < n) by {
        if k < n { assert(k * st <= (n - 1) * st) by (nonlinear_arith) requires k <= n - 1, st > 0; assert((n - 1) * st == n * st - st) by (nonlinear_arith); }
        else { assert(k * st >= n * st) by (nonlinear_arith) requires k >= n, st > 0; }
    }
    if d <= 0 { assert(n <= 0) by (nonlinear_arith) requires n * st <= d + st - 1, d <= 0, st > 0; }
    else { assert(n >= 0 && n <= d) by (nonlinear_arith) requires n * st <= d + st - 1, d + st - 1 < n * st + st, d > 0, st > 0; }
}
pub open spec fn big(d: int) -> int { if d < 0 { 0 } else { d } }
pub proof fn lemma_counted(s: int, e: int, st: int, m: int)
    requires st != 0, m == if st > 0 { (e - s + st - 1) / st } else { (s - e - st - 1) / -st },
    ensures counted(s, e, st, big(m)), big(m) <= if st > 0 { big(e - s) } else { big(s - e) },
{
    if st > 0 {
        lemma_count_up(e - s, st, m);
        assert forall|k: int| 0 <= k implies (#[trigger] before_end(s, e, st, k) <==> k < big(m)) by { assert((k * st) < e - s <==> k < m); }
    } else {
        lemma_count_up(s - e, -st, m);
        assert forall|k: int| 0 <= k implies (#[trigger] before_end(s, e, st, k) <==> k < big(m)) by { assert((k * -st) < s - e <==> k < m); assert(k * -st == -(k * st)) by (nonlinear_arith); }
    }
}
pub proof fn lemma_step_fits(s: int, e: int, st: int, n: int, k: int)
    requires counted(s, e, st, n), 0 <= k < n,
        -0x8000_0000_0000_0000 <= s < 0x1_0000_0000_0000_0000, -0x8000_0000_0000_0000 <= e < 0x1_0000_0000_0000_0000,
    ensures st >= 0 ==> s <= at_k(s, st, k) < e, st < 0 ==> e < at_k(s, st, k) <= s, -0x1_8000_0000_0000_0000 < k * st < 0x1_8000_0000_0000_0000,
{
    assert(before_end(s, e, st, k));
    if st > 0 { assert(k * st >= 0) by (nonlinear_arith) requires k >= 0, st > 0; } else { assert(k * st <= 0) by (nonlinear_arith) requires k >= 0, st <= 0; }
    if st == 0 { assert(at_k(s, st, n) == at_k(s, st, k)) by (nonlinear_arith) requires st == 0, at_k(s, st, n) == s + n * st, at_k(s, st, k) == s + k * st; assert(before_end(s, e, st, n) <==> n < n); }
}
//@calls T::from_i128=vx_from_i128
//@fn rstsr-native-impl/src/cpu_serial/creation.rs :: arange_by_primitive_isize_cpu_serial
//@types T=T
//@calls .max=vx_max128 ; .to_i128=& vx_to_i128 ; .to_usize=vx_to_usize
//@generics <T>
//@ensures
        r is Some ==> int_of(step) != 0 && counted(int_of(start), int_of(end), int_of(step), r->0@.len() as int) && spaced(r->0@, int_of(start), int_of(step)),
        converts(start) && converts(end) && converts(step) && int_of(step) != 0 && r is None ==> forall|n: int| #[trigger] counted(int_of(start), int_of(end), int_of(step), n) ==> n > usize::MAX,
//@at let n #0
        let ghost (gs, ge, gt) = (int_of(start), int_of(end), int_of(step));
        proof {
            assert(gs == start_ && ge == end_ && gt == step_);
            let m = if gt > 0 { (ge - gs + gt - 1) / gt } else { (gs - ge - gt - 1) / -gt };
            lemma_counted(gs, ge, gt, m);
            assert(big(n as int) == big(m));
            assert forall|k: int| #[trigger] counted(gs, ge, gt, k) implies k == big(m) by {
                assert(before_end(gs, ge, gt, k) <==> k < k); assert(before_end(gs, ge, gt, big(m)) <==> big(m) < k);
                if big(m) > k { assert(before_end(gs, ge, gt, k) <==> k < big(m)); }
            }
        }
//@at let n #1
        let ghost nn = n as int;
//@loop 0
            invariant
                vx_n2 == nn, 0 <= vx_i2 <= nn, counted(gs, ge, gt, nn), gs == start_, gt == step_, gt != 0, low_of::<T>() <= gs <= high_of::<T>(), low_of::<T>() <= ge <= high_of::<T>(),
                -0x8000_0000_0000_0000 <= low_of::<T>(), high_of::<T>() < 0x1_0000_0000_0000_0000,
                vx_acc2@.len() == vx_i2, spaced(vx_acc2@, gs, gt),
            decreases nn - vx_i2,
//@at loop 0 top
            proof { lemma_step_fits(gs, ge, gt, nn, vx_i2 as int); }
//@end
