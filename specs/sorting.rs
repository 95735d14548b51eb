// slices sorted in place: a verified replacement (the sorted permutation of integers is unique)
pub open spec fn ascending(s: Seq<isize>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
pub fn vx_sort(v: &mut Vec<isize>)
    ensures final(v)@.len() == old(v)@.len(), ascending(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset(),
{
    let n = v.len();
    let mut i = 0;
    while i < n
        invariant i <= n, n == v@.len(), n == old(v)@.len(), v@.to_multiset() == old(v)@.to_multiset(),
            forall|a: int, b: int| 0 <= a <= b < i ==> v@[a] <= v@[b],
        decreases n - i,
    {
        let mut j = i;
        while j > 0 && v[j - 1] > v[j]
            invariant j <= i < n, n == v@.len(), n == old(v)@.len(), v@.to_multiset() == old(v)@.to_multiset(),
                forall|a: int, b: int| 0 <= a <= b <= i && a != j && b != j ==> v@[a] <= v@[b],
                forall|b: int| j <= b <= i ==> v@[j as int] <= v@[b],
            decreases j,
        {
            let x = v[j - 1];
            let y = v[j];
            let ghost w = v@;
            v.set(j - 1, y);
            v.set(j, x);
            proof {
                broadcast use vstd::seq_lib::group_to_multiset_ensures;
                let k = j as int;
                assert(v@ =~= w.update(k - 1, w[k]).update(k, w[k - 1]));
                vstd::seq_lib::to_multiset_update(w, k - 1, w[k]);
                vstd::seq_lib::to_multiset_update(w.update(k - 1, w[k]), k, w[k - 1]);
                assert(v@.to_multiset() =~= w.to_multiset());
            }
            j = j - 1;
        }
        i = i + 1;
    }
}
pub open spec fn distinct(s: Seq<isize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
pub open spec fn adjacent_equal(s: Seq<isize>) -> bool { exists|i: int| 0 <= i < s.len() - 1 && #[trigger] s[i] == s[i + 1] }
pub proof fn lemma_sorted_distinct(s: Seq<isize>)
    requires ascending(s),
    ensures distinct(s) <==> !adjacent_equal(s),
{
    if !distinct(s) {
        let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && s[i] == s[j];
        assert(s[i] <= s[i + 1] && s[i + 1] <= s[j]);
        assert(s[i] == s[i + 1]);
    }
}
/// distinctness only depends on the multiset
pub proof fn lemma_distinct_multiset(s: Seq<isize>)
    ensures distinct(s) <==> forall|x: isize| s.to_multiset().count(x) <= 1,
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        let t = s.drop_last();
        let x = s.last();
        assert(s =~= t.push(x));
        lemma_distinct_multiset(t);
        assert(s.to_multiset() =~= t.to_multiset().insert(x));
        if distinct(s) {
            assert(distinct(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by { assert(s[i] == t[i] && s[j] == t[j]); } }
            if t.to_multiset().count(x) > 0 {
                assert(t.contains(x));
                let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
                assert(s[i] == s[s.len() - 1]);
            }
            assert forall|y: isize| s.to_multiset().count(y) <= 1 by { assert(t.to_multiset().count(y) <= 1); }
        }
        if forall|y: isize| s.to_multiset().count(y) <= 1 {
            assert forall|y: isize| t.to_multiset().count(y) <= 1 by { assert(s.to_multiset().count(y) <= 1); }
            assert(t.to_multiset().count(x) == 0) by { assert(s.to_multiset().count(x) <= 1); }
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] != s[j] by {
                if j == s.len() - 1 { if t[i] == x { assert(t.contains(x)); } } else { assert(s[i] == t[i] && s[j] == t[j]); }
            }
        }
    } else {
        assert forall|x: isize| s.to_multiset().count(x) <= 1 by { assert(!s.contains(x)); }
    }
}
