// C10: reductions.
// The three callbacks of a reduction (initial value, element into accumulator, two accumulators) are arbitrary
// functions. `made_of(acc, m)` is the least relation that contains their results: acc has been put together from exactly
// the elements of the multiset m, each used once. Nothing about the callbacks is assumed.
use vstd::multiset::Multiset;
pub uninterp spec fn made_of<TS, TI>(acc: TS, m: Multiset<TI>) -> bool;
pub uninterp spec fn out_of<TO, TI>(o: TO, m: Multiset<TI>) -> bool;
#[verifier::external_body]
pub fn vx_init<TS, TI>() -> (r: TS)
    ensures made_of(r, Multiset::<TI>::empty()),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_acc<TS, TI>(acc: TS, x: TI) -> (r: TS)
    ensures forall|m: Multiset<TI>| made_of(acc, m) ==> made_of(r, #[trigger] m.insert(x)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_join<TS, TI>(a: TS, b: TS) -> (r: TS)
    ensures forall|m: Multiset<TI>, n: Multiset<TI>| made_of(a, m) && made_of(b, n) ==> made_of(r, #[trigger] m.add(n)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_fin<TS, TO, TI>(a: TS) -> (r: TO)
    ensures forall|m: Multiset<TI>| #[trigger] made_of(a, m) ==> out_of(r, m),
{ unimplemented!() }
/// a clone is equal to the original
#[verifier::external_body]
pub fn vx_clone<T>(x: &T) -> (r: T)
    ensures r == *x,
{ unimplemented!() }
pub fn vx_sub<T>(x: &[T], lo: usize, hi: usize) -> (r: &[T])
    requires lo <= hi <= x@.len(),
    ensures r@ == x@.subrange(lo as int, hi as int),
{ vstd::slice::slice_subrange(x, lo, hi) }
pub fn vx_sub_from<T>(x: &[T], lo: usize) -> (r: &[T])
    requires lo <= x@.len(),
    ensures r@ == x@.subrange(lo as int, x@.len() as int),
{ let n = x.len(); assert(n == x@.len()); vstd::slice::slice_subrange(x, lo, n) }

// ---- multisets of sequences
pub open spec fn bag<T>(s: Seq<T>) -> Multiset<T> { s.to_multiset() }
pub proof fn lemma_bag_cat<T>(a: Seq<T>, b: Seq<T>)
    ensures bag(a + b) == bag(a).add(bag(b)),
{ vstd::seq_lib::lemma_multiset_commutative(a, b); }
pub proof fn lemma_bag_push<T>(a: Seq<T>, x: T)
    ensures bag(a.push(x)) == bag(a).insert(x), bag(Seq::<T>::empty()) == Multiset::<T>::empty(),
{ a.to_multiset_ensures(); Seq::<T>::empty().to_multiset_ensures(); assert(bag(Seq::<T>::empty()) =~= Multiset::<T>::empty()); }
pub proof fn lemma_bag_take<T>(s: Seq<T>, m: int, n: int)
    requires 0 <= m <= n <= s.len(),
    ensures bag(s.take(n)) == bag(s.take(m)).add(bag(s.subrange(m, n))), n == m + 1 ==> bag(s.take(n)) == bag(s.take(m)).insert(s[m]),
{
    assert(s.take(n) =~= s.take(m) + s.subrange(m, n));
    lemma_bag_cat(s.take(m), s.subrange(m, n));
    if n == m + 1 { assert(s.take(n) =~= s.take(m).push(s[m])); lemma_bag_push(s.take(m), s[m]); }
}
/// every eighth element of s from j, of the first 8 * c
pub open spec fn lane<T>(s: Seq<T>, j: int, c: int) -> Seq<T> { Seq::new(c as nat, |i: int| s[8 * i + j]) }
pub proof fn lemma_lane<T>(s: Seq<T>, j: int, c: int)
    requires 0 <= j < 8, 0 <= c, 8 * (c + 1) <= s.len(),
    ensures bag(lane(s, j, c + 1)) == bag(lane(s, j, c)).insert(s[8 * c + j]),
{ assert(lane(s, j, c + 1) =~= lane(s, j, c).push(s[8 * c + j])); lemma_bag_push(lane(s, j, c), s[8 * c + j]); }
/// what the eight partial accumulators hold together
pub open spec fn lanes<T>(s: Seq<T>, c: int) -> Multiset<T> {
    Multiset::empty().add(bag(lane(s, 0, c)).add(bag(lane(s, 4, c)))).add(bag(lane(s, 1, c)).add(bag(lane(s, 5, c))))
        .add(bag(lane(s, 2, c)).add(bag(lane(s, 6, c)))).add(bag(lane(s, 3, c)).add(bag(lane(s, 7, c))))
}
pub proof fn lemma_lanes<T>(s: Seq<T>, c: int)
    requires 0 <= c, 8 * c <= s.len(),
    ensures lanes(s, c) == bag(s.take(8 * c)),
    decreases c,
{
    if c == 0 {
        assert forall|j: int| 0 <= j < 8 implies #[trigger] lane(s, j, 0) == Seq::<T>::empty() by { assert(lane(s, j, 0) =~= Seq::<T>::empty()); }
        lemma_bag_push(Seq::<T>::empty(), arbitrary());
        assert(s.take(0) =~= Seq::<T>::empty());
        assert(lane(s, 0, 0) == Seq::<T>::empty() && lane(s, 1, 0) == Seq::<T>::empty() && lane(s, 2, 0) == Seq::<T>::empty() && lane(s, 3, 0) == Seq::<T>::empty());
        assert(lane(s, 4, 0) == Seq::<T>::empty() && lane(s, 5, 0) == Seq::<T>::empty() && lane(s, 6, 0) == Seq::<T>::empty() && lane(s, 7, 0) == Seq::<T>::empty());
        assert(lanes(s, 0) =~= Multiset::<T>::empty());
    } else {
        let d = c - 1;
        lemma_lanes(s, d);
        lemma_lane(s, 0, d); lemma_lane(s, 1, d); lemma_lane(s, 2, d); lemma_lane(s, 3, d);
        lemma_lane(s, 4, d); lemma_lane(s, 5, d); lemma_lane(s, 6, d); lemma_lane(s, 7, d);
        let k = 8 * d;
        lemma_bag_take(s, k, k + 1); lemma_bag_take(s, k + 1, k + 2); lemma_bag_take(s, k + 2, k + 3); lemma_bag_take(s, k + 3, k + 4);
        lemma_bag_take(s, k + 4, k + 5); lemma_bag_take(s, k + 5, k + 6); lemma_bag_take(s, k + 6, k + 7); lemma_bag_take(s, k + 7, k + 8);
        assert(lanes(s, c) =~= lanes(s, d).insert(s[k]).insert(s[k + 1]).insert(s[k + 2]).insert(s[k + 3]).insert(s[k + 4]).insert(s[k + 5]).insert(s[k + 6]).insert(s[k + 7]));
    }
}
//@fn rstsr-native-impl/src/cpu_serial/reduction.rs :: unrolled_reduce
//@types TI=TI ; TS=TS
//@generics <TI, TS>
//@opt noarg:init,f,f_sum subslice vals:acc
//@calls init=vx_init::<TS, TI> ; f=vx_acc ; f_sum=vx_join::<TS, TI> ; .clone=&* vx_clone
//@ensures
    made_of(r, bag(xs@)),
//@at start
    let ghost s = xs@;
    let ghost mut c: int = 0;
    proof {
        lemma_lanes(s, 0); lemma_bag_push(Seq::<TI>::empty(), arbitrary());
        assert forall|j: int| #[trigger] lane(s, j, 0) == Seq::<TI>::empty() by { assert(lane(s, j, 0) =~= Seq::<TI>::empty()); }
        assert(bag(lane(s, 0, 0)) == Multiset::<TI>::empty() && bag(lane(s, 1, 0)) == Multiset::<TI>::empty() && bag(lane(s, 2, 0)) == Multiset::<TI>::empty() && bag(lane(s, 3, 0)) == Multiset::<TI>::empty());
        assert(bag(lane(s, 4, 0)) == Multiset::<TI>::empty() && bag(lane(s, 5, 0)) == Multiset::<TI>::empty() && bag(lane(s, 6, 0)) == Multiset::<TI>::empty() && bag(lane(s, 7, 0)) == Multiset::<TI>::empty());
        assert(xs@ =~= s.subrange(0, s.len() as int));
    }
//@loop 0
        invariant
            0 <= c, 8 * c <= s.len(), xs@ == s.subrange(8 * c, s.len() as int), made_of(acc, Multiset::<TI>::empty()),
            made_of(p0, bag(lane(s, 0, c))), made_of(p1, bag(lane(s, 1, c))), made_of(p2, bag(lane(s, 2, c))), made_of(p3, bag(lane(s, 3, c))),
            made_of(p4, bag(lane(s, 4, c))), made_of(p5, bag(lane(s, 5, c))), made_of(p6, bag(lane(s, 6, c))), made_of(p7, bag(lane(s, 7, c))),
        decreases s.len() - 8 * c,
//@at loop 0 top
        proof {
            assert(xs.len() == xs@.len());
            lemma_lane(s, 0, c); lemma_lane(s, 1, c); lemma_lane(s, 2, c); lemma_lane(s, 3, c); lemma_lane(s, 4, c); lemma_lane(s, 5, c); lemma_lane(s, 6, c); lemma_lane(s, 7, c);
            assert(xs@[0] == s[8 * c] && xs@[1] == s[8 * c + 1] && xs@[2] == s[8 * c + 2] && xs@[3] == s[8 * c + 3]);
            assert(xs@[4] == s[8 * c + 4] && xs@[5] == s[8 * c + 5] && xs@[6] == s[8 * c + 6] && xs@[7] == s[8 * c + 7]);
        }
//@at loop 0 bottom
        proof { c = c + 1; assert(xs@ =~= s.subrange(8 * c, s.len() as int)); }
//@at loop 0 after
    proof { assert(xs.len() == xs@.len()); lemma_lanes(s, c); assert(made_of(p0, bag(lane(s, 0, c)))); }
//@loop 1
        invariant
            vx_n0 == xs@.len(), vx_i0 <= vx_n0, vx_n0 < 8, 8 * c + vx_n0 == s.len(), 0 <= c, xs@ == s.subrange(8 * c, s.len() as int),
            made_of(acc, bag(s.take(8 * c + vx_i0))),
        ensures vx_i0 == vx_n0,
        decreases vx_n0 - vx_i0,
//@at loop 1 top
            proof { let k = 8 * c + vx_i0; lemma_bag_take(s, k, k + 1); assert(xs@[vx_i0 as int] == s[k]); }
//@at loop 1 after
        proof { assert(s.take(s.len() as int) =~= s); }
//@end
pub open spec fn pairs<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> { Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
//@fn rstsr-native-impl/src/cpu_serial/reduction.rs :: unrolled_binary_reduce
//@types TI1=TI1 ; TI2=TI2 ; TS=TS
//@generics <TI1, TI2, TS>
//@opt noarg:init,f,f_sum subslice vals:acc
//@calls init=vx_init::<TS, (TI1, TI2)> ; f=vx_acc ; f_sum=vx_join::<TS, (TI1, TI2)> ; .clone=&* vx_clone
//@ensures
    made_of(r, bag(pairs(xs1@, xs2@))),
//@at start
    let ghost s1 = xs1@; let ghost s2 = xs2@; let ghost s = pairs(s1, s2);
    let ghost mut c: int = 0;
    proof {
        lemma_lanes(s, 0); lemma_bag_push(Seq::<(TI1, TI2)>::empty(), arbitrary());
        assert forall|j: int| #[trigger] lane(s, j, 0) == Seq::<(TI1, TI2)>::empty() by { assert(lane(s, j, 0) =~= Seq::<(TI1, TI2)>::empty()); }
        assert(bag(lane(s, 0, 0)) == Multiset::<(TI1, TI2)>::empty() && bag(lane(s, 1, 0)) == Multiset::<(TI1, TI2)>::empty() && bag(lane(s, 2, 0)) == Multiset::<(TI1, TI2)>::empty() && bag(lane(s, 3, 0)) == Multiset::<(TI1, TI2)>::empty());
        assert(bag(lane(s, 4, 0)) == Multiset::<(TI1, TI2)>::empty() && bag(lane(s, 5, 0)) == Multiset::<(TI1, TI2)>::empty() && bag(lane(s, 6, 0)) == Multiset::<(TI1, TI2)>::empty() && bag(lane(s, 7, 0)) == Multiset::<(TI1, TI2)>::empty());
        assert(xs1@ =~= s1.subrange(0, s1.len() as int) && xs2@ =~= s2.subrange(0, s2.len() as int));
    }
//@loop 0
        invariant
            0 <= c, 8 * c <= s.len(), s == pairs(s1, s2), xs1@ == s1.subrange(8 * c, s1.len() as int), xs2@ == s2.subrange(8 * c, s2.len() as int), made_of(acc, Multiset::<(TI1, TI2)>::empty()),
            made_of(p0, bag(lane(s, 0, c))), made_of(p1, bag(lane(s, 1, c))), made_of(p2, bag(lane(s, 2, c))), made_of(p3, bag(lane(s, 3, c))),
            made_of(p4, bag(lane(s, 4, c))), made_of(p5, bag(lane(s, 5, c))), made_of(p6, bag(lane(s, 6, c))), made_of(p7, bag(lane(s, 7, c))),
        decreases s.len() - 8 * c,
//@at loop 0 top
        proof {
            assert(xs1.len() == xs1@.len() && xs2.len() == xs2@.len());
            lemma_lane(s, 0, c); lemma_lane(s, 1, c); lemma_lane(s, 2, c); lemma_lane(s, 3, c); lemma_lane(s, 4, c); lemma_lane(s, 5, c); lemma_lane(s, 6, c); lemma_lane(s, 7, c);
            assert((xs1@[0], xs2@[0]) == s[8 * c] && (xs1@[1], xs2@[1]) == s[8 * c + 1] && (xs1@[2], xs2@[2]) == s[8 * c + 2] && (xs1@[3], xs2@[3]) == s[8 * c + 3]);
            assert((xs1@[4], xs2@[4]) == s[8 * c + 4] && (xs1@[5], xs2@[5]) == s[8 * c + 5] && (xs1@[6], xs2@[6]) == s[8 * c + 6] && (xs1@[7], xs2@[7]) == s[8 * c + 7]);
        }
//@at loop 0 bottom
        proof { c = c + 1; assert(xs1@ =~= s1.subrange(8 * c, s1.len() as int) && xs2@ =~= s2.subrange(8 * c, s2.len() as int)); }
//@at loop 0 after
    proof { assert(xs1.len() == xs1@.len() && xs2.len() == xs2@.len()); lemma_lanes(s, c); assert(made_of(p0, bag(lane(s, 0, c)))); }
//@loop 1
        invariant
            vx_n0 == (if xs1@.len() < xs2@.len() { xs1@.len() } else { xs2@.len() }), vx_i0 <= vx_n0, vx_n0 < 8, 8 * c + vx_n0 == s.len(), 0 <= c, s == pairs(s1, s2),
            xs1@ == s1.subrange(8 * c, s1.len() as int), xs2@ == s2.subrange(8 * c, s2.len() as int),
            made_of(acc, bag(s.take(8 * c + vx_i0))),
        ensures vx_i0 == vx_n0,
        decreases vx_n0 - vx_i0,
//@at loop 1 top
            proof { let k = 8 * c + vx_i0; lemma_bag_take(s, k, k + 1); assert(xs1.len() == xs1@.len() && xs2.len() == xs2@.len()); assert((xs1@[vx_i0 as int], xs2@[vx_i0 as int]) == s[k]); }
//@at loop 1 after
        proof { assert(s.take(s.len() as int) =~= s); }
//@end
