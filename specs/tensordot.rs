// C18: contraction specifications.
//@types AxesPairIndex<isize>=AxesPairIndex ; AxesIndex<isize>=AxesIndex ; AxesIndex<T>=AxesIndex ; T=isize
//@struct rstsr-common/src/axes_pair_index.rs :: AxesPairIndex

/// (lo1..=hi1).chain(lo2..=hi2).map(|c| c as char)
pub struct VxChars { pub lo1: u8, pub hi1: u8, pub lo2: u8, pub hi2: u8, pub pos: usize }
pub open spec fn letters(lo: u8, hi: u8) -> Seq<char> { if lo <= hi { Seq::new((hi - lo + 1) as nat, |k: int| ((lo + k) as u8) as char) } else { Seq::empty() } }
impl VxChars {
    pub open spec fn all(&self) -> Seq<char> { letters(self.lo1, self.hi1) + letters(self.lo2, self.hi2) }
    pub fn new(a: u8, b: u8, c: u8, d: u8) -> (r: VxChars)
        ensures r.pos == 0, r.all() == letters(a, b) + letters(c, d),
    { VxChars { lo1: a, hi1: b, lo2: c, hi2: d, pos: 0 } }
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            final(self).all() == old(self).all(),
            r is Some <==> old(self).pos < old(self).all().len(),
            r is Some ==> r->0 == old(self).all()[old(self).pos as int] && final(self).pos == old(self).pos + 1,
            r is None ==> final(self).pos == old(self).pos,
    {
        let n1: usize = if self.lo1 <= self.hi1 { (self.hi1 - self.lo1) as usize + 1 } else { 0 };
        let n2: usize = if self.lo2 <= self.hi2 { (self.hi2 - self.lo2) as usize + 1 } else { 0 };
        if self.pos < n1 {
            let c = (self.lo1 + self.pos as u8) as char;
            self.pos = self.pos + 1;
            Some(c)
        } else if self.pos - n1 < n2 {
            let c = (self.lo2 + (self.pos - n1) as u8) as char;
            self.pos = self.pos + 1;
            Some(c)
        } else { None }
    }
}
pub fn vx_ok<T>(x: T) -> (r: Result<T>)
    ensures r is Ok, r->Ok_0 == x,
{ Ok(x) }
pub fn vx_contains(v: &Vec<usize>, x: &usize) -> (r: bool)
    ensures r <==> v@.contains(*x),
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> v@[k] != *x,
        decreases v@.len() - i,
    {
        if v[i] == *x { return true; }
        i = i + 1;
    }
    false
}
pub fn vx_push_all(v: &mut Vec<char>, w: &Vec<char>)
    ensures final(v)@ == old(v)@ + w@,
{
    let ghost v0 = v@;
    let mut i = 0;
    while i < w.len()
        invariant i <= w@.len(), v@ == v0 + w@.take(i as int),
        decreases w@.len() - i,
    {
        v.push(w[i]);
        proof { assert(w@.take(i + 1) =~= w@.take(i as int).push(w@[i as int])); assert(v@ =~= v0 + w@.take(i + 1)); }
        i = i + 1;
    }
    proof { assert(w@.take(i as int) =~= w@); }
}

// ---- the meaning of a specification
pub open spec fn unsig(s: Seq<isize>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i] as usize) }
pub open spec fn list_ok(a: AxesIndex, n: int) -> bool { !(a is None) && all_axes_ok(entries(a), n) && distinct(norm_list(entries(a), n)) }
/// number of axes to contract when a count is given (2 by default)
pub open spec fn count_of(axes: AxesPairIndex) -> int { match axes { AxesPairIndex::None => 2, AxesPairIndex::Val(n) => n as int, AxesPairIndex::Pair(_, _) => 0 } }
pub open spec fn acceptable(axes: AxesPairIndex, da: int, db: int) -> bool {
    match axes {
        AxesPairIndex::Pair(a, b) => list_ok(a, da) && list_ok(b, db) && entries(a).len() == entries(b).len(),
        _ => 0 <= count_of(axes) <= da && count_of(axes) <= db,
    }
}
/// the contracted axes of the first and of the second operand
pub open spec fn left_axes(axes: AxesPairIndex, da: int) -> Seq<usize> {
    match axes {
        AxesPairIndex::Pair(a, b) => unsig(norm_list(entries(a), da)),
        _ => Seq::new(count_of(axes) as nat, |k: int| (da - count_of(axes) + k) as usize),
    }
}
pub open spec fn right_axes(axes: AxesPairIndex, db: int) -> Seq<usize> {
    match axes {
        AxesPairIndex::Pair(a, b) => unsig(norm_list(entries(b), db)),
        _ => Seq::new(count_of(axes) as nat, |k: int| k as usize),
    }
}
/// the labels of the axes that are not contracted, in order
pub open spec fn free(s: Seq<char>, ax: Seq<usize>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { Seq::empty() } else if ax.contains((n - 1) as usize) { free(s, ax, n - 1) } else { free(s, ax, n - 1).push(s[n - 1]) } }
pub open spec fn nfree(ax: Seq<usize>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { nfree(ax, n - 1) + if ax.contains((n - 1) as usize) { 0int } else { 1 } } }
pub open spec fn matched(ax: Seq<usize>, bx: Seq<usize>, i: int, j: int) -> bool { exists|k: int| 0 <= k < ax.len() && k < bx.len() && #[trigger] ax[k] == i && bx[k] == j }
pub open spec fn letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn labelled(sa: Seq<char>, sb: Seq<char>, ax: Seq<usize>, bx: Seq<usize>, da: int, db: int) -> bool {
    &&& sa.len() == da && sb.len() == db
    &&& forall|i: int| 0 <= i < da ==> letter(#[trigger] sa[i])
    &&& forall|j: int| 0 <= j < db ==> letter(#[trigger] sb[j])
    // an operand repeats no label; the operands share a label exactly on a contracted pair of axes
    &&& forall|i: int, i2: int| 0 <= i < da && 0 <= i2 < da && #[trigger] sa[i] == #[trigger] sa[i2] ==> i == i2
    &&& forall|j: int, j2: int| 0 <= j < db && 0 <= j2 < db && #[trigger] sb[j] == #[trigger] sb[j2] ==> j == j2
    &&& forall|i: int, j: int| 0 <= i < da && 0 <= j < db ==> (#[trigger] sa[i] == #[trigger] sb[j] <==> matched(ax, bx, i, j))
}
pub open spec fn text(sa: Seq<char>, sb: Seq<char>, so: Seq<char>) -> Seq<char> { sa + seq![',', ' '] + sb + seq![' ', '-', '>', ' '] + so }
pub open spec fn contraction(t: Seq<char>, ax: Seq<usize>, bx: Seq<usize>, da: int, db: int) -> bool {
    exists|sa: Seq<char>, sb: Seq<char>| labelled(sa, sb, ax, bx, da, db) && t == #[trigger] text(sa, sb, free(sa, ax, da) + free(sb, bx, db))
}

// ---- numbering of the labels
pub open spec fn alphabet() -> Seq<char> { letters(97, 122) + letters(65, 90) }
pub proof fn lemma_alphabet()
    ensures alphabet().len() == 52, forall|p: int| 0 <= p < 52 ==> letter(#[trigger] alphabet()[p]),
        forall|p: int, q: int| 0 <= p < 52 && 0 <= q < 52 && #[trigger] alphabet()[p] == #[trigger] alphabet()[q] ==> p == q,
{
    assert forall|p: int| 0 <= p < 52 implies letter(#[trigger] alphabet()[p]) by { if p < 26 { assert(alphabet()[p] == letters(97, 122)[p]); } else { assert(alphabet()[p] == letters(65, 90)[p - 26]); } }
    assert forall|p: int, q: int| 0 <= p < 52 && 0 <= q < 52 && #[trigger] alphabet()[p] == #[trigger] alphabet()[q] implies p == q by {
        assert(alphabet()[p] == if p < 26 { ((97 + p) as u8) as char } else { ((65 + p - 26) as u8) as char });
        assert(alphabet()[q] == if q < 26 { ((97 + q) as u8) as char } else { ((65 + q - 26) as u8) as char });
    }
}
/// number of the label of each axis, -1 where there is none yet
pub open spec fn shown(v: Seq<Option<char>>, q: Seq<int>) -> bool {
    v.len() == q.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == if q[i] >= 0 { Some(alphabet()[q[i]]) } else { None }
}
/// contracted axes carry the number of their pair, other axes a number of their own in lo..pos
pub open spec fn numbered(q: Seq<int>, ax: Seq<usize>, m: int, lo: int, pos: int) -> bool {
    &&& m <= ax.len() && forall|k: int| 0 <= k < m ==> ax[k] < q.len() && q[#[trigger] ax[k] as int] == k
    &&& forall|i: int| 0 <= i < q.len() ==> -1 <= #[trigger] q[i] < pos && (0 <= q[i] < m ==> ax[q[i]] == i) && (q[i] >= m ==> q[i] >= lo)
    &&& forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && q[i] >= 0 && #[trigger] q[i] == #[trigger] q[j] ==> i == j
}
pub proof fn lemma_nfree(ax: Seq<usize>, i: int, n: int)
    requires 0 <= i <= n,
    ensures 0 <= nfree(ax, i) <= nfree(ax, n),
    decreases n,
{ if i < n { lemma_nfree(ax, i, n - 1); } else if n > 0 { lemma_nfree(ax, n - 1, n - 1); } }
pub open spec fn full(q: Seq<int>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] q[i] >= 0 }
pub proof fn lemma_labelled(sa: Seq<char>, sb: Seq<char>, qa: Seq<int>, qb: Seq<int>, ax: Seq<usize>, bx: Seq<usize>, mid: int, pos: int)
    requires ax.len() == bx.len(), ax.len() <= mid <= pos <= 52, numbered(qa, ax, ax.len() as int, ax.len() as int, mid), numbered(qb, bx, bx.len() as int, mid, pos),
        full(qa, qa.len() as int), full(qb, qb.len() as int),
        sa.len() == qa.len(), sb.len() == qb.len(), forall|i: int| 0 <= i < sa.len() ==> #[trigger] sa[i] == alphabet()[qa[i]], forall|i: int| 0 <= i < sb.len() ==> #[trigger] sb[i] == alphabet()[qb[i]],
    ensures labelled(sa, sb, ax, bx, qa.len() as int, qb.len() as int),
{
    lemma_alphabet();
    let m = ax.len() as int;
    assert forall|i: int, i2: int| 0 <= i < sa.len() && 0 <= i2 < sa.len() && #[trigger] sa[i] == #[trigger] sa[i2] implies i == i2 by { assert(alphabet()[qa[i]] == alphabet()[qa[i2]]); }
    assert forall|i: int, i2: int| 0 <= i < sb.len() && 0 <= i2 < sb.len() && #[trigger] sb[i] == #[trigger] sb[i2] implies i == i2 by { assert(alphabet()[qb[i]] == alphabet()[qb[i2]]); }
    assert forall|i: int, j: int| 0 <= i < sa.len() && 0 <= j < sb.len() implies (#[trigger] sa[i] == #[trigger] sb[j] <==> matched(ax, bx, i, j)) by {
        if sa[i] == sb[j] {
            assert(alphabet()[qa[i]] == alphabet()[qb[j]]);
            assert(qa[i] == qb[j]);
            assert(qa[i] < m);
            assert(ax[qa[i]] == i && bx[qa[i]] == j);
        }
        if matched(ax, bx, i, j) {
            let k = choose|k: int| 0 <= k < ax.len() && k < bx.len() && #[trigger] ax[k] == i && bx[k] == j;
            assert(qa[ax[k] as int] == k && qb[bx[k] as int] == k);
        }
    }
}
pub open spec fn need(ax: Seq<usize>, bx: Seq<usize>, da: int, db: int) -> int { ax.len() + nfree(ax, da) + nfree(bx, db) }
pub open spec fn axes_in(ax: Seq<usize>, n: int) -> bool { ax.no_duplicates() && forall|k: int| 0 <= k < ax.len() ==> 0 <= #[trigger] ax[k] < n }
//@fn rstsr-common/src/tensordot_to_einsum.rs :: tensordot_to_einsum_str
//@param axes=AxesPairIndex
//@types String=Vec<char>
//@calls .contains=& vx_contains ; .try_into=vx_ok
//@opt dropargs:map_err unit:AxesPairIndex::None arg:axes
//@requires
        dim_a <= isize::MAX, dim_b <= isize::MAX,
//@ensures
        r is Ok <==> acceptable(vx_axes, dim_a as int, dim_b as int) && need(left_axes(vx_axes, dim_a as int), right_axes(vx_axes, dim_b as int), dim_a as int, dim_b as int) <= 52,
        r is Ok ==> contraction(r->Ok_0@, left_axes(vx_axes, dim_a as int), right_axes(vx_axes, dim_b as int), dim_a as int, dim_b as int),
//@at start
        let ghost (da, db) = (dim_a as int, dim_b as int);
        let ghost ax = left_axes(vx_axes, da);
        let ghost bx = right_axes(vx_axes, db);
//@loop 0
            invariant
                vx_n0 == vx_s0@.len(), 0 <= vx_i0 <= vx_n0, vx_acc0@ =~= unsig(vx_s0@).take(vx_i0 as int),
            decreases vx_n0 - vx_i0,
//@loop 1
            invariant
                vx_n1 == vx_s1@.len(), 0 <= vx_i1 <= vx_n1, vx_acc1@ =~= unsig(vx_s1@).take(vx_i1 as int),
            decreases vx_n1 - vx_i1,
//@loop 2
            invariant
                n <= dim_a, vx_n2 == dim_a, dim_a - n <= vx_i2 <= vx_n2, vx_acc2@.len() == vx_i2 - (dim_a - n), forall|k: int| 0 <= k < vx_acc2@.len() ==> #[trigger] vx_acc2@[k] == dim_a - n + k,
            decreases vx_n2 - vx_i2,
//@loop 3
            invariant
                vx_n3 == n, 0 <= vx_i3 <= vx_n3, vx_acc3@.len() == vx_i3, forall|k: int| 0 <= k < vx_acc3@.len() ==> #[trigger] vx_acc3@[k] == k,
            decreases vx_n3 - vx_i3,
//@at let label_gen
        let ghost m = ax.len() as int;
        let ghost mut mid: int = 0;
        let ghost mut qa: Seq<int> = Seq::new(dim_a as nat, |i: int| -1);
        let ghost mut qb: Seq<int> = Seq::new(dim_b as nat, |i: int| -1);
        proof {
            assert(axes_a@ =~= ax && axes_b@ =~= bx);
            lemma_alphabet();
            lemma_nfree(ax, 0, da); lemma_nfree(bx, 0, db);
            assert(label_gen.all() == alphabet());
        }
//@loop 4
            invariant
                ax == left_axes(vx_axes, da), bx == right_axes(vx_axes, db), da == dim_a, db == dim_b, axes_in(ax, da), axes_in(bx, db), m == ax.len(), m == bx.len(), nfree(ax, da) >= 0, nfree(bx, db) >= 0,
                axes_a@ == ax, axes_b@ == bx, axes_in(ax, da), axes_in(bx, db), ax.len() == m, bx.len() == m, alphabet().len() == 52,
                vx_n4 == m, 0 <= vx_i4 <= m, label_gen.all() == alphabet(), label_gen.pos == vx_i4, vx_i4 <= 52,
                qa.len() == da, qb.len() == db, shown(a_labels@, qa), shown(b_labels@, qb),
                numbered(qa, ax, vx_i4 as int, vx_i4 as int, vx_i4 as int), numbered(qb, bx, vx_i4 as int, vx_i4 as int, vx_i4 as int),
            decreases m - vx_i4,
//@at loop 4 top
            proof { }
//@at loop 4 bottom
            proof {
                let ghost p = vx_i4 - 1;
                let (qa0, qb0) = (qa, qb);
                qa = qa.update(i as int, p); qb = qb.update(j as int, p);
                assert forall|k: int| 0 <= k < p implies #[trigger] ax[k] != ax[p] && bx[k] != bx[p] by { }
                assert forall|k: int| 0 <= k < p implies qb[#[trigger] bx[k] as int] == k by { assert(bx[k] != bx[p]); }
            }
//@loop 5
            invariant
                ax == left_axes(vx_axes, da), bx == right_axes(vx_axes, db), da == dim_a, db == dim_b, axes_in(ax, da), axes_in(bx, db), m == ax.len(), m == bx.len(), nfree(ax, da) >= 0, nfree(bx, db) >= 0,
                axes_in(ax, da), ax.len() == m, alphabet().len() == 52,
                vx_n5 == da, 0 <= vx_i5 <= da, label_gen.all() == alphabet(), label_gen.pos == m + nfree(ax, vx_i5 as int), label_gen.pos <= 52, m >= 0,
                qa.len() == da, shown(a_labels@, qa), numbered(qa, ax, m, m, label_gen.pos as int), full(qa, vx_i5 as int), forall|k: int| vx_i5 <= k < da ==> #[trigger] qa[k] < m,
            decreases da - vx_i5,
//@at loop 5 top
            proof {
                lemma_nfree(ax, vx_i5 + 1, da); lemma_nfree(ax, 0, vx_i5 as int);
                if ax.contains(vx_i5) { let k = choose|k: int| 0 <= k < ax.len() && ax[k] == vx_i5; assert(qa[ax[k] as int] == k); }
                else if qa[vx_i5 as int] >= 0 { assert(ax[qa[vx_i5 as int]] == vx_i5); }
            }
//@at loop 5 bottom
            proof {
                if !ax.contains(i) { qa = qa.update(i as int, label_gen.pos - 1); }
            }
//@at loop 6 before
        proof { mid = label_gen.pos as int; lemma_nfree(ax, 0, da); lemma_nfree(bx, 0, db); }
//@loop 6
            invariant
                ax == left_axes(vx_axes, da), bx == right_axes(vx_axes, db), da == dim_a, db == dim_b, axes_in(ax, da), axes_in(bx, db), m == ax.len(), m == bx.len(), nfree(ax, da) >= 0, nfree(bx, db) >= 0,
                mid == m + nfree(ax, da),
                axes_in(bx, db), bx.len() == m, alphabet().len() == 52, m <= mid,
                vx_n6 == db, 0 <= vx_i6 <= db, label_gen.all() == alphabet(), label_gen.pos == mid + nfree(bx, vx_i6 as int), label_gen.pos <= 52, m >= 0,
                qb.len() == db, shown(b_labels@, qb), numbered(qb, bx, m, mid, label_gen.pos as int), full(qb, vx_i6 as int), forall|k: int| vx_i6 <= k < db ==> #[trigger] qb[k] < m,
            decreases db - vx_i6,
//@at loop 6 top
            proof {
                lemma_nfree(bx, vx_i6 + 1, db); lemma_nfree(bx, 0, vx_i6 as int);
                if bx.contains(vx_i6) { let k = choose|k: int| 0 <= k < bx.len() && bx[k] == vx_i6; assert(qb[bx[k] as int] == k); }
                else if qb[vx_i6 as int] >= 0 { assert(bx[qb[vx_i6 as int]] == vx_i6); }
            }
//@at loop 6 bottom
            proof {
                if !bx.contains(j) { qb = qb.update(j as int, label_gen.pos - 1); }
            }
//@at before let a_str #0
        let ghost sa: Seq<char> = Seq::new(da as nat, |i: int| alphabet()[qa[i]]);
        let ghost sb: Seq<char> = Seq::new(db as nat, |i: int| alphabet()[qb[i]]);
        proof { lemma_labelled(sa, sb, qa, qb, ax, bx, mid, label_gen.pos as int); }
//@loop 7
            invariant
                vx_n7 == da, a_labels@.len() == da, 0 <= vx_i7 <= da, vx_acc7@ =~= sa.take(vx_i7 as int), shown(a_labels@, qa), full(qa, da), qa.len() == da, sa.len() == da,
                forall|i: int| 0 <= i < sa.len() ==> #[trigger] sa[i] == alphabet()[qa[i]],
            decreases da - vx_i7,
//@loop 8
            invariant
                vx_n8 == db, b_labels@.len() == db, 0 <= vx_i8 <= db, vx_acc8@ =~= sb.take(vx_i8 as int), shown(b_labels@, qb), full(qb, db), qb.len() == db, sb.len() == db,
                forall|i: int| 0 <= i < sb.len() ==> #[trigger] sb[i] == alphabet()[qb[i]],
            decreases db - vx_i8,
//@loop 9
            invariant
                vx_n9 == da, a_labels@.len() == da, 0 <= vx_i9 <= da, shown(a_labels@, qa), full(qa, da), qa.len() == da, sa.len() == da, axes_a@ == ax,
                forall|i: int| 0 <= i < sa.len() ==> #[trigger] sa[i] == alphabet()[qa[i]],
                out_labels@ == free(sa, ax, vx_i9 as int),
            decreases da - vx_i9,
//@loop 10
            invariant
                vx_n10 == db, b_labels@.len() == db, 0 <= vx_i10 <= db, shown(b_labels@, qb), full(qb, db), qb.len() == db, sb.len() == db, axes_b@ == bx,
                forall|i: int| 0 <= i < sb.len() ==> #[trigger] sb[i] == alphabet()[qb[i]],
                out_labels@ =~= free(sa, ax, da) + free(sb, bx, vx_i10 as int),
            decreases db - vx_i10,
//@loop 11
            invariant
                vx_n11 == out_labels@.len(), 0 <= vx_i11 <= vx_n11, vx_acc11@ =~= out_labels@.take(vx_i11 as int),
            decreases vx_n11 - vx_i11,
//@at tail
        proof {
            assert(a_str@ =~= sa); assert(b_str@ =~= sb);
            assert(out_str@ =~= free(sa, ax, da) + free(sb, bx, db));
            assert(vx_ret->Ok_0@ =~= text(sa, sb, free(sa, ax, da) + free(sb, bx, db)));
        }
//@end
