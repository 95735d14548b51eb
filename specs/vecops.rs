// replacements for slice methods without a built-in contract: ordinary verified code
pub fn vx_to_vec<T: Copy>(v: &Vec<T>) -> (r: Vec<T>)
    ensures r@ == v@,
{
    let mut a: Vec<T> = Vec::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), a@ == v@.take(i as int),
        decreases v@.len() - i,
    {
        a.push(v[i]);
        proof { assert(a@ =~= v@.take(i + 1)); }
        i = i + 1;
    }
    proof { assert(a@ =~= v@); }
    a
}
pub fn vx_swap<T: Copy>(v: &mut Vec<T>, i: usize, j: usize)
    requires i < old(v)@.len(), j < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]),
{
    let x = v[i];
    let y = v[j];
    v.set(i, y);
    v.set(j, x);
}
pub fn vx_contains(v: &Vec<usize>, x: &usize) -> (r: bool)
    ensures r <==> v@.contains(*x),
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> v@[k] != *x,
        decreases v@.len() - i,
    {
        if v[i] == *x { return true; }
        i = i + 1;
    }
    false
}
pub fn vx_reverse<T: Copy>(v: &mut Vec<T>)
    ensures final(v)@ == old(v)@.reverse(),
{
    let mut a: Vec<T> = Vec::new();
    let n = v.len();
    let mut i = 0;
    while i < n
        invariant i <= n, n == v@.len(), v@ == old(v)@, a@.len() == i, forall|k: int| 0 <= k < i ==> a@[k] == v@[n - 1 - k],
        decreases n - i,
    {
        a.push(v[n - 1 - i]);
        i = i + 1;
    }
    proof { assert(a@ =~= v@.reverse()); }
    *v = a;
}
//@calls .to_vec=vx_to_vec ; .swap=&mut vx_swap ; .reverse=&mut vx_reverse ; .contains=vx_contains
pub fn vx_copy_into<T: Copy>(v: &mut Vec<T>, a: usize, b: usize, s: &Vec<T>)
    requires a <= b <= old(v)@.len(), s@.len() == b - a,
    ensures final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == if a <= i < b { s@[i - a] } else { old(v)@[i] },
{
    let mut i = 0;
    while i < s.len()
        invariant i <= s@.len() == b - a, a <= b <= v@.len(), v@.len() == old(v)@.len(), s@.len() <= usize::MAX, b <= usize::MAX,
            forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == if a <= k < a + i { s@[k - a] } else { old(v)@[k] },
        decreases s@.len() - i,
    {
        let x = s[i];
        v.set(a + i, x);
        i = i + 1;
    }
}
/// conversion between shapes at dynamic rank: the identity
pub fn vx_same<T>(v: Vec<T>) -> (r: Result<Vec<T>>)
    ensures r == Ok::<Vec<T>, Error>(v),
{ Ok(v) }
