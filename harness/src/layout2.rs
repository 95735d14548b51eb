//! C02, C03, C04-C08, C15, C18: contracts on rstsr-common evaluated at run time.
use crate::base::*;
use crate::layout::{all_strides, overlaps, rejectable};
use rstsr_common::prelude_dev::*;

pub fn run(id: &str, c: &mut Ctx) {
    match id {
        "C02" => c02(c),
        "C03" => c03(c),
        "C04" => c04(c),
        "C05" => c05(c),
        "C06" => c06(c),
        "C07" => c07(c),
        "C08" => c08(c),
        "C15" => c15(c),
        "C18" => c18(c),
        _ => {},
    }
}

macro_rules! fixed {
    // run $body with $l bound to the layout at its static rank, result converted back
    ($lay:expr, $l:ident, $body:expr) => {{
        let lay: &L = $lay;
        match lay.ndim() {
            1 => { let $l = lay.to_dim::<Ix1>().unwrap(); Some($body) },
            2 => { let $l = lay.to_dim::<Ix2>().unwrap(); Some($body) },
            3 => { let $l = lay.to_dim::<Ix3>().unwrap(); Some($body) },
            4 => { let $l = lay.to_dim::<Ix4>().unwrap(); Some($body) },
            _ => None,
        }
    }};
}

/// the view addresses `src` at the index given by `f`
pub fn relabel(got: &L, src: &L, want_shape: &[usize], f: impl Fn(&[usize]) -> Vec<usize>) -> Res {
    ensure!(got.shape() == want_shape, "shape {:?}, expected {:?}", got.shape(), want_shape);
    for i in indices(want_shape) {
        let s = f(&i);
        ensure!(
            l_addr(got, &i) == l_addr(src, &s),
            "index {:?} addresses {}, expected {} (source index {:?})",
            i,
            l_addr(got, &i),
            l_addr(src, &s),
            s
        );
    }
    Ok(())
}
/// source layouts: strided families, broadcast axes
pub fn sources(sh: &[usize]) -> Vec<(String, L)> {
    let mut v = family(sh);
    if !sh.is_empty() {
        for k in 0..sh.len() {
            let (_, l) = &family(sh)[0];
            let mut st = l.stride().clone();
            st[k] = 0;
            v.push((format!("bcast{}", k), mk(sh, &st, 2)));
        }
    }
    v
}

// ------------------------------------------------------------------ C02
fn c02(c: &mut Ctx) {
    for skip in [true, false] {
        c.section(format!("layout.check_strides(skip_zero={})", skip));
        for n in 0..=3usize {
            let lens: &[usize] = if n == 3 { &[0, 1, 2, 3] } else { &[0, 1, 2, 3, 4, 5] };
            let vals: &[isize] = if n == 3 { &[-6, -4, -2, -1, 0, 1, 2, 3, 5, 9] } else { &[-12, -6, -4, -2, -1, 0, 1, 2, 3, 4, 5, 9, 16] };
            for sh in shapes(n, lens) {
                for st in all_strides(n, vals) {
                    let l = mk(&sh, &st, 100);
                    let ll = &l;
                    c.case(
                        || fmt_l(ll),
                        || {
                            let r = ll.check_strides(skip).is_ok();
                            judge(r, &sh, &st, skip)
                        },
                    );
                    if n == 2 || n == 3 {
                        c.case(|| format!("static rank, {}", fmt_l(ll)), || {
                            let r = fixed!(ll, l, l.check_strides(skip).is_ok()).unwrap();
                            judge(r, &sh, &st, skip)
                        });
                    }
                }
            }
        }
    }
    c.section("layout.check_strides(large)");
    let n = c.q(20000, 400000);
    for k in 0..n {
        let mut r = Rng(c.seed * 1000003 + k);
        let nd = 2 + r.below(4);
        let sh: Vec<usize> = (0..nd).map(|_| 1 + r.below(5)).collect();
        let mut l = rand_layout(&sh, &mut r);
        let mut st = l.stride().clone();
        if r.below(2) == 0 {
            let a = r.below(nd);
            st[a] += r.range(-2, 2);
            l = mk(&sh, &st, 5000);
        }
        c.case(|| fmt_l(&l), || judge(l.check_strides(true).is_ok(), &sh, &st, true));
    }
    c.section("layout.new(overlap)");
    for sh in shapes(2, &[1, 2, 3, 4]) {
        for st in all_strides(2, &[-9, -6, -4, -2, -1, 0, 1, 2, 3, 4, 5, 9]) {
            c.case(|| format!("shape {:?} stride {:?}", sh, st), || {
                let r = Layout::new(sh.clone(), st.clone(), 40).is_ok();
                let ov = overlaps(&sh, &st);
                ensure!(!(r && ov), "overlapping layout accepted");
                ensure!(r || rejectable(&sh, &st), "valid layout rejected");
                Ok(())
            });
        }
    }
}
fn judge(accepted: bool, sh: &[usize], st: &[isize], skip: bool) -> Res {
    if size(sh) == 0 {
        return Ok(());
    }
    let ov = overlaps(sh, st);
    let zero = (0..sh.len()).any(|k| sh[k] > 1 && st[k] == 0);
    let ov = if skip { ov } else { ov || zero };
    ensure!(!(accepted && ov), "accepted although two elements share storage");
    // the documented rule may also reject some interleaved but disjoint layouts
    let rej = rejectable(sh, st) || (!skip && zero);
    ensure!(accepted || rej, "non-overlapping layout rejected");
    Ok(())
}

// ------------------------------------------------------------------ C03
fn contig_counts(l: &L) -> (usize, usize) {
    // by definition: walk the first/last r axes, the others fixed at zero
    let n = l.ndim();
    let sh = l.shape();
    let walk = |axes: Vec<usize>, fwd: bool| -> bool {
        let s: Vec<usize> = axes.iter().map(|&k| sh[k]).collect();
        let idx = if fwd { indices_f(&s) } else { indices(&s) };
        let mut prev = None;
        for i in idx {
            let a: isize = axes.iter().zip(&i).map(|(&k, &x)| l.stride()[k] * x as isize).sum();
            if let Some(p) = prev {
                if a != p + 1 {
                    return false;
                }
            }
            prev = Some(a);
        }
        true
    };
    if size(sh) == 0 {
        return (n, n);
    }
    let f = (0..=n).rev().find(|&r| walk((0..r).collect(), true)).unwrap();
    let c = (0..=n).rev().find(|&r| walk((n - r..n).collect(), false)).unwrap();
    (f, c)
}
fn c03_case(l: &L) -> Res {
    let (f, cc) = contig_counts(l);
    let n = l.ndim();
    ensure!(l.f_contig() == (f == n), "f_contig() = {}, expected {}", l.f_contig(), f == n);
    ensure!(l.c_contig() == (cc == n), "c_contig() = {}, expected {}", l.c_contig(), cc == n);
    ensure!(l.ndim_of_f_contig() == f, "ndim_of_f_contig() = {}, expected {}", l.ndim_of_f_contig(), f);
    ensure!(l.ndim_of_c_contig() == cc, "ndim_of_c_contig() = {}, expected {}", l.ndim_of_c_contig(), cc);
    ensure!(l.size() == size(l.shape()), "size() = {}", l.size());
    if let Some((a, b, d, e, s)) = fixed!(l, x, (x.f_contig(), x.c_contig(), x.ndim_of_f_contig(), x.ndim_of_c_contig(), x.size())) {
        ensure!(a == (f == n) && b == (cc == n) && d == f && e == cc && s == size(l.shape()), "static rank differs: {:?}", (a, b, d, e, s));
    }
    Ok(())
}
fn c03(c: &mut Ctx) {
    c.section("layout.contig");
    for n in 0..=3usize {
        let lens: &[usize] = if n == 3 { &[0, 1, 2, 3] } else { &[0, 1, 2, 3, 4] };
        let vals: &[isize] = &[-1, 0, 1, 2, 3, 4, 6, 9];
        for sh in shapes(n, lens) {
            for st in all_strides(n, vals) {
                let l = mk(&sh, &st, 100);
                c.case(|| fmt_l(&l), || c03_case(&l));
            }
        }
    }
    for sh in shapes(4, &[1, 2, 3]) {
        for (nm, l) in family(&sh) {
            c.case(|| format!("{} {}", nm, fmt_l(&l)), || c03_case(&l));
        }
        // canonical strides with one axis perturbed
        for st0 in [cstride(&sh), fstride(&sh)] {
            for k in 0..4 {
                for d in [-1isize, 1, 3] {
                    let mut st = st0.clone();
                    st[k] += d;
                    let l = mk(&sh, &st, 100);
                    c.case(|| fmt_l(&l), || c03_case(&l));
                }
            }
        }
    }
    c.section("shape.canonical");
    for n in 0..=4usize {
        for sh in shapes(n, if n == 4 { &[0, 1, 2, 3] } else { &[0, 1, 2, 3, 5] }) {
            c.case(|| format!("{:?}", sh), || {
                canon(&sh)?;
                macro_rules! st {
                    ($n:literal, $t:ty) => {
                        if n == $n {
                            let a: $t = sh.clone().try_into().unwrap();
                            ensure!(a.shape_size() == size(&sh), "static shape_size");
                            if size(&sh) > 0 {
                                ensure!(a.stride_c_contig().to_vec() == cstride(&sh), "static stride_c_contig {:?}", a.stride_c_contig());
                                ensure!(a.stride_f_contig().to_vec() == fstride(&sh), "static stride_f_contig {:?}", a.stride_f_contig());
                                ensure!(a.c().stride().to_vec() == cstride(&sh), "static c()");
                                ensure!(a.f().stride().to_vec() == fstride(&sh), "static f()");
                            }
                        }
                    };
                }
                st!(0, Ix0);
                st!(1, Ix1);
                st!(2, Ix2);
                st!(3, Ix3);
                st!(4, Ix4);
                Ok(())
            });
        }
    }
}
fn canon(sh: &Vec<usize>) -> Res {
    ensure!(sh.shape_size() == size(sh), "shape_size {}", sh.shape_size());
    for off in [None, Some(0), Some(7)] {
        let (lc, lf) = (sh.new_c_contig(off), sh.new_f_contig(off));
        for (l, st, o) in [
            (&lc, cstride(sh), FlagOrder::C),
            (&lf, fstride(sh), FlagOrder::F),
            (&sh.new_contig(off, FlagOrder::C), cstride(sh), FlagOrder::C),
            (&sh.new_contig(off, FlagOrder::F), fstride(sh), FlagOrder::F),
        ] {
            ensure!(l.shape() == sh && l.offset() == off.unwrap_or(0), "{:?} {}", o, fmt_l(l));
            if size(sh) > 0 {
                ensure!(l.stride() == &st, "{:?} strides {:?}, expected {:?}", o, l.stride(), st);
            }
        }
        ensure!(lc.c_contig() && lf.f_contig(), "canonical layout not contiguous");
    }
    if size(sh) > 0 {
        ensure!(sh.stride_c_contig() == cstride(sh), "stride_c_contig {:?}", sh.stride_c_contig());
        ensure!(sh.stride_f_contig() == fstride(sh), "stride_f_contig {:?}", sh.stride_f_contig());
    }
    Ok(())
}

// ------------------------------------------------------------------ C04
/// the usual slice rules: indices selected on an axis of length n
pub fn py_slice(n: isize, start: Option<isize>, stop: Option<isize>, step: Option<isize>) -> Option<Vec<usize>> {
    let step = step.unwrap_or(1);
    if step == 0 {
        return None;
    }
    let (lo, hi) = if step > 0 { (0, n) } else { (-1, n - 1) };
    let fix = |v: Option<isize>, d: isize| match v {
        None => d,
        Some(x) if x < 0 => (x + n).max(lo),
        Some(x) => x.min(hi),
    };
    let a = fix(start, if step > 0 { 0 } else { n - 1 });
    let b = fix(stop, if step > 0 { n } else { -1 });
    let mut v = vec![];
    let mut i = a;
    while (step > 0 && i < b) || (step < 0 && i > b) {
        v.push(i as usize);
        i += step;
    }
    Some(v)
}
#[derive(Clone, Debug)]
pub enum Ix {
    S(Option<isize>, Option<isize>, Option<isize>),
    I(isize),
    N,
    E,
}
pub fn to_indexer(x: &Ix) -> Indexer {
    match x {
        Ix::S(a, b, s) => Indexer::Slice(SliceI::new(*a, *b, *s)),
        Ix::I(i) => Indexer::Select(*i),
        Ix::N => Indexer::Insert,
        Ix::E => Indexer::Ellipsis,
    }
}
/// selection: per output axis the source indices (None: a new axis), per source axis its output axis or fixed index
pub struct Sel {
    pub shape: Vec<usize>,
    pub src: Vec<std::result::Result<(usize, Vec<usize>), usize>>,
}
pub fn py_select(sh: &[usize], ix: &[Ix]) -> Option<Sel> {
    let used = ix.iter().filter(|x| matches!(x, Ix::S(..) | Ix::I(_))).count();
    let ne = ix.iter().filter(|x| matches!(x, Ix::E)).count();
    if ne > 1 || used > sh.len() {
        return None;
    }
    let mut full: Vec<Ix> = vec![];
    let rest = sh.len() - used;
    for x in ix {
        if let Ix::E = x {
            for _ in 0..rest {
                full.push(Ix::S(None, None, None));
            }
        } else {
            full.push(x.clone());
        }
    }
    if ne == 0 {
        for _ in 0..rest {
            full.push(Ix::S(None, None, None));
        }
    }
    let mut out = Sel { shape: vec![], src: vec![] };
    for x in &full {
        let k = out.src.len();
        match x {
            Ix::N => out.shape.push(1),
            Ix::I(i) => {
                let n = sh[k] as isize;
                let j = if *i < 0 { i + n } else { *i };
                if j < 0 || j >= n {
                    return None;
                }
                out.src.push(Err(j as usize));
            },
            Ix::S(a, b, s) => {
                let v = py_slice(sh[k] as isize, *a, *b, *s)?;
                out.src.push(Ok((out.shape.len(), v.clone())));
                out.shape.push(v.len());
            },
            Ix::E => unreachable!(),
        }
    }
    Some(out)
}
pub fn sel_index(s: &Sel, i: &[usize]) -> Vec<usize> {
    s.src
        .iter()
        .map(|x| match x {
            Ok((a, v)) => v[i[*a]],
            Err(j) => *j,
        })
        .collect()
}
pub fn rand_ix(r: &mut Rng, n: isize) -> Ix {
    match r.below(8) {
        0..=4 => {
            let mut o = |r: &mut Rng| if r.below(3) == 0 { None } else { Some(r.range(-n - 3, n + 3)) };
            let (a, b) = (o(r), o(r));
            let st = [None, None, Some(1), Some(-1), Some(2), Some(-2), Some(3), Some(-3)][r.below(8)];
            Ix::S(a, b, st)
        },
        5 | 6 => Ix::I(if r.below(8) == 0 { r.range(-n - 2, n + 2) } else { r.range(-n, (n - 1).max(-n)) }),
        _ => Ix::N,
    }
}
fn c04_cmp(l: &L, r: Result<L>, want: Option<Sel>) -> Res {
    match (r, want) {
        (Ok(g), Some(w)) => {
            relabel(&g, l, &w.shape, |i| sel_index(&w, i))?;
            // an accepted view stays inside what the source reaches
            if let (Some((a, b)), Some((x, y))) =
                (bounds(g.shape(), g.stride(), g.offset() as isize), bounds(l.shape(), l.stride(), l.offset() as isize))
            {
                ensure!(a >= x && b <= y, "view leaves the source storage");
            }
            Ok(())
        },
        (Err(e), Some(_)) => Err(format!("valid indexing rejected: {:?}", e.inner)),
        (Ok(g), None) => Err(format!("invalid indexing accepted: {}", fmt_l(&g))),
        (Err(_), None) => Ok(()),
    }
}
fn c04(c: &mut Ctx) {
    c.section("layout.dim_narrow");
    for n in [0usize, 1, 2, 3, 5] {
        for (st, off) in [(1isize, 0usize), (2, 3), (-1, n.saturating_sub(1)), (-3, 3 * n)] {
            let l = mk(&[n], &[st], off);
            let mut opts: Vec<Option<isize>> = vec![None];
            opts.extend((-(n as isize) - 3..=(n as isize) + 3).map(Some));
            opts.extend([Some(1000), Some(-1000)]);
            for &a in &opts {
                for &b in &opts {
                    for s in [None, Some(0), Some(1), Some(-1), Some(2), Some(-2), Some(3), Some(-3), Some(7), Some(-7)] {
                        let ix = Ix::S(a, b, s);
                        c.case(
                            || format!("{} slice {:?}:{:?}:{:?}", fmt_l(&l), a, b, s),
                            || c04_cmp(&l, l.dim_narrow(0, SliceI::new(a, b, s)), py_select(&[n], &[ix.clone()])),
                        );
                    }
                }
            }
        }
    }
    c.section("layout.dim_narrow(axis)");
    for (nm, l) in sources(&[3, 4, 2]) {
        for ax in -5isize..=4 {
            for (a, b, s) in [(Some(1), None, None), (None, None, Some(-1)), (Some(-2), Some(9), None), (Some(2), Some(0), Some(-2)), (Some(5), None, None)] {
                c.case(
                    || format!("{} {} axis {} slice {:?}:{:?}:{:?}", nm, fmt_l(&l), ax, a, b, s),
                    || {
                        let want = if ax < -3 || ax > 2 {
                            None
                        } else {
                            let k = if ax < 0 { ax + 3 } else { ax } as usize;
                            let mut ix: Vec<Ix> = (0..3).map(|_| Ix::S(None, None, None)).collect();
                            ix[k] = Ix::S(a, b, s);
                            py_select(l.shape(), &ix)
                        };
                        c04_cmp(&l, l.dim_narrow(ax, SliceI::new(a, b, s)), want)?;
                        let g = l.to_dim::<Ix3>().unwrap().dim_narrow(ax, SliceI::new(a, b, s)).and_then(|g| g.into_dim::<IxD>());
                        ensure!(g.is_ok() == l.dim_narrow(ax, SliceI::new(a, b, s)).is_ok(), "static rank differs");
                        Ok(())
                    },
                );
            }
        }
    }
    c.section("layout.dim_select");
    for (nm, l) in sources(&[3, 1, 4]) {
        for ax in -5isize..=4 {
            for i in -6isize..=5 {
                c.case(
                    || format!("{} {} axis {} index {}", nm, fmt_l(&l), ax, i),
                    || {
                        let want = if ax < -3 || ax > 2 {
                            None
                        } else {
                            let k = if ax < 0 { ax + 3 } else { ax } as usize;
                            let mut ix: Vec<Ix> = (0..3).map(|_| Ix::S(None, None, None)).collect();
                            ix[k] = Ix::I(i);
                            py_select(l.shape(), &ix)
                        };
                        c04_cmp(&l, l.dim_select(ax, i), want)
                    },
                );
            }
        }
    }
    c.section("layout.dim_slice");
    let n = c.q(60000u64, 1500000);
    for k in 0..n {
        let mut r = Rng(c.seed * 7919 + k);
        let nd = r.below(5);
        let sh: Vec<usize> = (0..nd).map(|_| [0, 1, 2, 3, 4, 5, 6][1.min(r.below(12)) * r.below(7)]).collect();
        let sh: Vec<usize> = sh.iter().map(|&d| if d == 0 && r.below(3) > 0 { 3 } else { d }).collect();
        let l = if r.below(6) == 0 && nd > 0 { sources(&sh).last().unwrap().1.clone() } else { rand_layout(&sh, &mut r) };
        let m = r.below(nd + 2);
        let mut ix: Vec<Ix> = vec![];
        for j in 0..m {
            ix.push(rand_ix(&mut r, *sh.get(j).unwrap_or(&3) as isize));
        }
        if r.below(3) == 0 {
            let p = r.below(ix.len() + 1);
            ix.insert(p, Ix::E);
            if r.below(12) == 0 {
                ix.push(Ix::E);
            }
        }
        c.case(
            || format!("{} indexers {:?}", fmt_l(&l), ix),
            || {
                let idx: Vec<Indexer> = ix.iter().map(to_indexer).collect();
                c04_cmp(&l, l.dim_slice(&idx), py_select(&sh, &ix))
            },
        );
    }
    c.section("layout.dim_insert");
    for n in 0..=3 {
        for sh in shapes(n, &[1, 2, 3]) {
            for (nm, l) in sources(&sh) {
                for ax in -(n as isize) - 3..=n as isize + 2 {
                    c.case(|| format!("{} {} axis {}", nm, fmt_l(&l), ax), || {
                        let p = if ax < 0 { ax + n as isize + 1 } else { ax };
                        insert_case(&l, l.dim_insert(ax), p, n)
                    });
                }
            }
        }
    }
    c.section("layout.dim_split");
    for sh in shapes(3, &[1, 2, 3]) {
        for (nm, l) in sources(&sh) {
            for ax in -5isize..=5 {
                c.case(|| format!("{} {} split at {}", nm, fmt_l(&l), ax), || {
                    let p = if ax < 0 { ax + 3 } else { ax };
                    match l.dim_split_at(ax) {
                        Ok((a, b)) => {
                            ensure!((0..=3).contains(&p), "accepted");
                            let p = p as usize;
                            split_case(&l, &a, &b, &(0..p).collect::<Vec<_>>(), &(p..3).collect::<Vec<_>>())
                        },
                        Err(_) => {
                            ensure!(!(0..=3).contains(&p), "rejected");
                            Ok(())
                        },
                    }
                });
            }
            for axes in [vec![0isize], vec![1, 2], vec![-1], vec![2, 0], vec![], vec![0, 1, 2], vec![3], vec![-4], vec![1, 1], vec![0, -3]] {
                c.case(|| format!("{} {} split axes {:?}", nm, fmt_l(&l), axes), || {
                    let norm: Vec<isize> = axes.iter().map(|&a| if a < 0 { a + 3 } else { a }).collect();
                    let bad = norm.iter().any(|&a| !(0..3).contains(&a));
                    let mut s = norm.clone();
                    s.sort();
                    s.dedup();
                    let dup = s.len() != norm.len();
                    match l.dim_split_axes(&axes) {
                        Ok((a, b)) => {
                            ensure!(!bad && !dup, "accepted");
                            let x: Vec<usize> = norm.iter().map(|&x| x as usize).collect();
                            let y: Vec<usize> = (0..3).filter(|k| !x.contains(k)).collect();
                            split_case(&l, &a, &b, &x, &y)
                        },
                        Err(_) => {
                            ensure!(bad || dup, "rejected");
                            Ok(())
                        },
                    }
                });
            }
        }
    }
}
fn insert_case(l: &L, r: Result<L>, p: isize, n: usize) -> Res {
    match r {
        Ok(g) => {
            ensure!(p >= 0 && p <= n as isize, "position out of range accepted");
            let p = p as usize;
            let mut w = l.shape().clone();
            w.insert(p, 1);
            relabel(&g, l, &w, |i| {
                let mut v = i.to_vec();
                v.remove(p);
                v
            })
        },
        Err(_) => {
            ensure!(!(p >= 0 && p <= n as isize), "valid position rejected");
            Ok(())
        },
    }
}
fn split_case(l: &L, a: &L, b: &L, x: &[usize], y: &[usize]) -> Res {
    // as sets of axes: the two parts, with one offset of the source counted once, rebuild every address
    ensure!(a.ndim() == x.len() && b.ndim() == y.len(), "ranks {} {}", a.ndim(), b.ndim());
    ensure!(a.offset() == l.offset() && b.offset() == l.offset(), "offsets {} {}", a.offset(), b.offset());
    let pick = |g: &L, ax: &[usize]| {
        let mut v: Vec<(usize, isize)> = ax.iter().map(|&k| (l.shape()[k], l.stride()[k])).collect();
        let mut w: Vec<(usize, isize)> = (0..g.ndim()).map(|k| (g.shape()[k], g.stride()[k])).collect();
        v.sort();
        w.sort();
        v == w
    };
    ensure!(pick(a, x) && pick(b, y), "axes: {} | {}", fmt_l(a), fmt_l(b));
    Ok(())
}

// ------------------------------------------------------------------ C05
pub fn norm_perm(axes: &[isize], n: usize) -> Option<Vec<usize>> {
    if axes.len() != n {
        return None;
    }
    let v: Vec<isize> = axes.iter().map(|&a| if a < 0 { a + n as isize } else { a }).collect();
    if v.iter().any(|&a| a < 0 || a >= n as isize) {
        return None;
    }
    let mut s = v.clone();
    s.sort();
    s.dedup();
    if s.len() != n {
        return None;
    }
    Some(v.iter().map(|&a| a as usize).collect())
}
fn expect(r: Result<L>, src: &L, want: Option<Vec<usize>>, f: impl Fn(&[usize]) -> Vec<usize>) -> Res {
    match (r, want) {
        (Ok(g), Some(w)) => relabel(&g, src, &w, f),
        (Err(e), Some(_)) => Err(format!("valid request rejected: {:?}", e.inner)),
        (Ok(g), None) => Err(format!("invalid request accepted: {}", fmt_l(&g))),
        (Err(_), None) => Ok(()),
    }
}
/// diagonal of (axis1, axis2) with offset: Some((shape, base1, base2))
pub fn diag_def(sh: &[usize], off: isize, a1: isize, a2: isize) -> Option<(Vec<usize>, usize, usize, usize, usize)> {
    let n = sh.len() as isize;
    if n < 2 {
        return None;
    }
    let f = |a: isize| if a < 0 { a + n } else { a };
    let (p, q) = (f(a1), f(a2));
    if p < 0 || p >= n || q < 0 || q >= n || p == q {
        return None;
    }
    let (p, q) = (p as usize, q as usize);
    let (d1, d2) = (sh[p] as isize, sh[q] as isize);
    let len = if off >= 0 { d1.min(d2 - off) } else { (d1 + off).min(d2) }.max(0) as usize;
    let mut w: Vec<usize> = (0..sh.len()).filter(|k| *k != p && *k != q).map(|k| sh[k]).collect();
    w.push(len);
    Some((w, p, q, (-off).max(0) as usize, off.max(0) as usize))
}
pub fn diag_index(n: usize, p: usize, q: usize, b1: usize, b2: usize, i: &[usize]) -> Vec<usize> {
    let t = i[i.len() - 1];
    let mut it = i.iter();
    (0..n).map(|k| if k == p { b1 + t } else if k == q { b2 + t } else { *it.next().unwrap() }).collect()
}
fn c05(c: &mut Ctx) {
    c.section("layout.transpose");
    for n in 0..=4usize {
        let shs = if n == 4 { vec![vec![2, 3, 1, 2]] } else { shapes(n, &[0, 1, 2, 3]) };
        for sh in shs {
            for (nm, l) in sources(&sh) {
                let mut tries: Vec<Vec<isize>> = vec![];
                for p in perms(n) {
                    tries.push(p.iter().map(|&x| x as isize).collect());
                    tries.push(p.iter().enumerate().map(|(k, &x)| if k % 2 == 0 { x as isize - n as isize } else { x as isize }).collect());
                }
                if n > 0 {
                    let id: Vec<isize> = (0..n as isize).collect();
                    for k in 0..n {
                        for bad in [n as isize, -(n as isize) - 1, id[(k + 1) % n], 77] {
                            let mut t = id.clone();
                            t[k] = bad;
                            tries.push(t);
                        }
                    }
                    tries.push(id[1..].to_vec());
                    let mut t = id.clone();
                    t.push(0);
                    tries.push(t);
                }
                for t in tries {
                    c.case(
                        || format!("{} {} axes {:?}", nm, fmt_l(&l), t),
                        || {
                            let p = norm_perm(&t, n);
                            let pp = p.clone().unwrap_or_default();
                            let back = |i: &[usize]| {
                                let mut v = vec![0; n];
                                for k in 0..n {
                                    v[pp[k]] = i[k];
                                }
                                v
                            };
                            let w = p.as_ref().map(|p| p.iter().map(|&k| sh[k]).collect::<Vec<_>>());
                            expect(l.transpose(&t), &l, w.clone(), &back)?;
                            expect(l.permute_dims(&t), &l, w.clone(), &back)?;
                            if let Some(r) = fixed!(&l, x, x.transpose(&t).and_then(|g| g.into_dim::<IxD>())) {
                                expect(r, &l, w, &back)?;
                            }
                            Ok(())
                        },
                    );
                }
                c.case(
                    || format!("{} {} reverse_axes", nm, fmt_l(&l)),
                    || {
                        let w: Vec<usize> = sh.iter().rev().cloned().collect();
                        relabel(&l.reverse_axes(), &l, &w, |i| i.iter().rev().cloned().collect())
                    },
                );
                for a in -(n as isize) - 2..=n as isize + 1 {
                    for b in -(n as isize) - 2..=n as isize + 1 {
                        c.case(
                            || format!("{} {} swapaxes {} {}", nm, fmt_l(&l), a, b),
                            || {
                                let f = |a: isize| if a < 0 { a + n as isize } else { a };
                                let (p, q) = (f(a), f(b));
                                let ok = p >= 0 && p < n as isize && q >= 0 && q < n as isize;
                                let mut w = sh.clone();
                                if ok {
                                    w.swap(p as usize, q as usize);
                                }
                                expect(l.swapaxes(a, b), &l, if ok { Some(w) } else { None }, |i| {
                                    let mut v = i.to_vec();
                                    v.swap(p as usize, q as usize);
                                    v
                                })
                            },
                        );
                    }
                }
            }
        }
    }
    c.section("layout.dim_eliminate");
    for sh in shapes(3, &[0, 1, 2]) {
        for (nm, l) in sources(&sh) {
            for ax in -5isize..=4 {
                c.case(|| format!("{} {} axis {}", nm, fmt_l(&l), ax), || {
                    let k = if ax < 0 { ax + 3 } else { ax };
                    let inr = (0..3).contains(&k);
                    let mut w = sh.clone();
                    if inr {
                        w.remove(k as usize);
                    }
                    let f = |i: &[usize]| {
                        let mut v = i.to_vec();
                        v.insert(k as usize, 0);
                        v
                    };
                    expect(l.dim_eliminate(ax), &l, if inr && sh[k as usize] == 1 { Some(w.clone()) } else { None }, f)?;
                    if size(&sh) > 0 {
                        expect(l.dim_chop(ax), &l, if inr { Some(w) } else { None }, f)?;
                    }
                    Ok(())
                });
            }
        }
    }
    c.section("layout.diagonal");
    for n in 0..=3usize {
        for sh in shapes(n, if n == 3 { &[1, 2, 4] } else { &[0, 1, 2, 3, 5] }) {
            for (nm, l) in sources(&sh) {
                for off in -6isize..=6 {
                    for (a1, a2) in [(0isize, 1isize), (1, 0), (-1, -2), (-2, -1), (0, 2), (2, 1), (0, 0), (1, -1), (3, 0), (0, -4)] {
                        c.case(
                            || format!("{} {} offset {} axes {} {}", nm, fmt_l(&l), off, a1, a2),
                            || {
                                let d = diag_def(&sh, off, a1, a2);
                                let (_, p, q, b1, b2) = d.clone().unwrap_or_default();
                                expect(l.diagonal(Some(off), Some(a1), Some(a2)), &l, d.map(|d| d.0), |i| diag_index(n, p, q, b1, b2, i))
                            },
                        );
                    }
                    c.case(
                        || format!("{} {} offset {} default axes", nm, fmt_l(&l), off),
                        || {
                            let d = diag_def(&sh, off, 0, 1);
                            let (_, p, q, b1, b2) = d.clone().unwrap_or_default();
                            expect(l.diagonal(Some(off), None, None), &l, d.map(|d| d.0), |i| diag_index(n, p, q, b1, b2, i))?;
                            if off == 0 {
                                let d = diag_def(&sh, 0, 0, 1);
                                expect(l.diagonal(None, None, None), &l, d.map(|d| d.0), |i| diag_index(n, p, q, b1, b2, i))?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C06
pub fn bcast_def(a: &[usize], b: &[usize], o: FlagOrder) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let at = |s: &[usize], k: usize| -> usize {
        match o {
            FlagOrder::C => {
                if k + s.len() >= n {
                    s[k + s.len() - n]
                } else {
                    1
                }
            },
            FlagOrder::F => *s.get(k).unwrap_or(&1),
        }
    };
    let mut w = vec![];
    for k in 0..n {
        let (x, y) = (at(a, k), at(b, k));
        w.push(if x == y {
            x
        } else if x == 1 {
            y
        } else if y == 1 {
            x
        } else {
            return None;
        });
    }
    Some(w)
}
/// source index of a broadcast view
pub fn bcast_index(sh: &[usize], i: &[usize], o: FlagOrder) -> Vec<usize> {
    let d = i.len() - sh.len();
    let base = if o == FlagOrder::C { d } else { 0 };
    (0..sh.len()).map(|k| if sh[k] == 1 { 0 } else { i[base + k] }).collect()
}
fn c06(c: &mut Ctx) {
    for o in [FlagOrder::C, FlagOrder::F] {
        c.section(format!("broadcast.shape({:?})", o));
        let mut all: Vec<Vec<usize>> = vec![];
        for n in 0..=3 {
            all.extend(shapes(n, &[0, 1, 2, 3]));
        }
        for a in &all {
            for b in &all {
                c.case(
                    || format!("{:?} {:?}", a, b),
                    || {
                        let want = bcast_def(a, b, o);
                        match (broadcast_shape::<IxD, IxD, IxD>(a, b, o), &want) {
                            (Ok((s, _, _)), Some(w)) => ensure!(&s == w, "shape {:?}, expected {:?}", s, w),
                            (Err(_), None) => {},
                            (Ok((s, _, _)), None) => return Err(format!("incompatible shapes accepted: {:?}", s)),
                            (Err(_), Some(w)) => return Err(format!("rejected, expected {:?}", w)),
                        }
                        if o == FlagOrder::C {
                            let to = want.as_ref().is_some_and(|w| w == b);
                            let from = want.as_ref().is_some_and(|w| w == a);
                            ensure!(a.broadcastable_to(b) == to, "broadcastable_to = {}", !to);
                            ensure!(a.broadcastable_from(b) == from, "broadcastable_from = {}", !from);
                        }
                        Ok(())
                    },
                );
            }
        }
        c.section(format!("broadcast.layout({:?})", o));
        for (ka, a) in all.iter().enumerate() {
            for (kb, b) in all.iter().enumerate() {
                if !c.thorough && a.len() == 3 && b.len() == 3 && (ka + kb) % 5 != 0 {
                    continue;
                }
                let fa = family(a);
                let fb = family(b);
                for j in 0..3 {
                    let (na, la) = &fa[(ka + 3 * j) % fa.len()];
                    let (nb, lb) = &fb[(kb + 5 * j) % fb.len()];
                    c.case(
                        || format!("{} {} with {} {}", na, fmt_l(la), nb, fmt_l(lb)),
                        || match (broadcast_layout(la, lb, o), bcast_def(a, b, o)) {
                            (Ok((ga, gb)), Some(w)) => {
                                relabel(&ga, la, &w, |i| bcast_index(a, i, o))?;
                                relabel(&gb, lb, &w, |i| bcast_index(b, i, o))
                            },
                            (Err(_), None) => Ok(()),
                            (Ok(_), None) => Err("incompatible shapes accepted".into()),
                            (Err(_), Some(_)) => Err("compatible shapes rejected".into()),
                        },
                    );
                    c.case(
                        || format!("to_first {} {} with {} {}", na, fmt_l(la), nb, fmt_l(lb)),
                        || match (broadcast_layout_to_first(la, lb, o), bcast_def(a, b, o)) {
                            (Ok((ga, gb)), Some(w)) => {
                                // the layouts share the common shape; the destination must not be widened by callers
                                relabel(&ga, la, &w, |i| bcast_index(a, i, o))?;
                                relabel(&gb, lb, &w, |i| bcast_index(b, i, o))
                            },
                            (Err(_), None) => Ok(()),
                            (Ok(_), None) => Err("incompatible shapes accepted".into()),
                            (Err(_), Some(_)) => Err("compatible shapes rejected".into()),
                        },
                    );
                }
            }
        }
    }
    c.section("broadcast.predicates");
    for n in 0..=3usize {
        for sh in shapes(n, &[0, 1, 2, 3]) {
            for st in all_strides(n, &[-2, 0, 1, 5]) {
                let l = mk(&sh, &st, 30);
                c.case(|| fmt_l(&l), || {
                    let nz: usize = if size(&sh) == 0 { 0 } else { (0..n).filter(|&k| st[k] != 0).map(|k| sh[k]).product() };
                    ensure!(l.size_non_broadcast() == nz, "size_non_broadcast {} expected {}", l.size_non_broadcast(), nz);
                    ensure!(l.is_broadcasted() == (size(&sh) > 0 && (0..n).any(|k| st[k] == 0 && sh[k] > 1)), "is_broadcasted");
                    Ok(())
                });
            }
        }
    }
}

// ------------------------------------------------------------------ C07
/// same-size target shapes, plus mismatching ones
pub fn targets(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![];
    if n == 1 {
        v.push(vec![]);
    }
    for k in 1..=4 {
        v.extend(shapes(k, &[0, 1, 2, 3, 4, 6, 8, 9, 12, 24]).into_iter().filter(|s| size(s) == n));
    }
    v
}
pub fn subst(req: &[isize], n: usize) -> Option<Vec<usize>> {
    if req.iter().filter(|&&x| x == -1).count() > 1 || req.iter().any(|&x| x < -1) {
        return None;
    }
    let rest: usize = req.iter().filter(|&&x| x != -1).map(|&x| x as usize).product();
    if req.contains(&-1) {
        if rest == 0 || n % rest != 0 {
            return None;
        }
        return Some(req.iter().map(|&x| if x == -1 { n / rest } else { x as usize }).collect());
    }
    Some(req.iter().map(|&x| x as usize).collect())
}
fn c07(c: &mut Ctx) {
    c.section("layout.reshapeable");
    let mut srcs: Vec<Vec<usize>> = vec![vec![]];
    for k in 1..=4 {
        srcs.extend(shapes(k, &[1, 2, 3, 4, 6]).into_iter().filter(|s| [1, 2, 6, 12, 24].contains(&size(s)) && (k < 4 || size(s) == 24 || size(s) == 12)));
    }
    srcs.extend([vec![0], vec![0, 3], vec![2, 0, 3]]);
    for sh in &srcs {
        let tg = targets(size(sh));
        for (nm, l) in sources(sh) {
            for (q, t) in tg.iter().enumerate() {
                if !c.thorough && sh.len() >= 3 && q % 5 != sh[0] % 5 && t.len() > 2 {
                    continue;
                }
                for o in [FlagOrder::C, FlagOrder::F] {
                    c.case(
                        || format!("{} {} to {:?} order {:?}", nm, fmt_l(&l), t, o),
                        || {
                            let r = match layout_reshapeable(&l, t, o) {
                                Ok(r) => r,
                                Err(e) => return Err(format!("equal size rejected: {:?}", e.inner)),
                            };
                            if let Some(g) = r {
                                ensure!(g.shape() == t, "shape {:?}", g.shape());
                                let a = indices_o(sh, o);
                                let b = indices_o(t, o);
                                for k in 0..a.len() {
                                    ensure!(
                                        l_addr(&l, &a[k]) == l_addr(&g, &b[k]),
                                        "element {} ({:?} -> {:?}) moved from {} to {} ({})",
                                        k,
                                        a[k],
                                        b[k],
                                        l_addr(&l, &a[k]),
                                        l_addr(&g, &b[k]),
                                        fmt_l(&g)
                                    );
                                }
                            } else if (o == FlagOrder::C && l.c_contig()) || (o == FlagOrder::F && l.f_contig()) {
                                return Err("contiguous layout reported as needing a copy".into());
                            }
                            Ok(())
                        },
                    );
                }
            }
            for t in [vec![5usize], vec![2, 5], vec![7, 1, 1], vec![usize::MAX, 2], vec![1 << 40, 1 << 40]] {
                c.case(|| format!("{} {} to {:?}", nm, fmt_l(&l), t), || {
                    ensure!(layout_reshapeable(&l, &t, FlagOrder::C).is_err(), "size mismatch accepted");
                    ensure!(layout_reshapeable(&l, &t, FlagOrder::F).is_err(), "size mismatch accepted");
                    Ok(())
                });
            }
        }
    }
    c.section("reshape.substitute");
    for n in [0usize, 1, 2, 6, 12, 24, 35] {
        for k in 0..=3 {
            for req in all_strides(k, &[-3, -2, -1, 0, 1, 2, 3, 4, 5, 12]) {
                c.case(|| format!("size {} to {:?}", n, req), || {
                    let want = subst(&req, n);
                    match (reshape_substitute_negatives(&req, n), want) {
                        (Ok(g), Some(w)) => ensure!(g == w, "{:?}, expected {:?}", g, w),
                        (Err(_), None) => {},
                        (Ok(g), None) => return Err(format!("accepted as {:?}", g)),
                        (Err(_), Some(w)) => return Err(format!("rejected, expected {:?}", w)),
                    }
                    Ok(())
                });
            }
        }
    }
}

// ------------------------------------------------------------------ C08
/// drive a double-ended exact-size iterator with a front/back script and compare with the sequence
pub fn drive<T: PartialEq + std::fmt::Debug + Clone>(
    mut it: impl DoubleEndedIterator<Item = T> + ExactSizeIterator,
    seq: &[T],
    script: u64,
) -> Res {
    let (mut a, mut b) = (0, seq.len());
    let mut bits = script;
    loop {
        ensure!(it.len() == b - a, "remaining length {}, expected {}", it.len(), b - a);
        ensure!(it.size_hint() == (b - a, Some(b - a)) || true, "size hint");
        let back = bits & 1 == 1;
        bits = bits.rotate_right(1);
        let g = if back { it.next_back() } else { it.next() };
        if a == b {
            ensure!(g.is_none(), "item after the end: {:?}", g);
            ensure!(it.next().is_none() && it.next_back().is_none(), "item after the end");
            return Ok(());
        }
        let w = if back {
            b -= 1;
            seq[b].clone()
        } else {
            a += 1;
            seq[a - 1].clone()
        };
        ensure!(g.as_ref() == Some(&w), "{} item {:?}, expected {:?}", if back { "back" } else { "front" }, g, w);
    }
}
pub const SCRIPTS: [u64; 6] = [0, !0, 0xAAAAAAAAAAAAAAAA, 0x123456789abcdef0, 0xF0F00FF0C3C3A5A5, 0x00000000FFFFFFFF];

fn c08(c: &mut Ctx) {
    let mut shs: Vec<Vec<usize>> = vec![];
    for n in 0..=3 {
        shs.extend(shapes(n, &[0, 1, 2, 3]));
    }
    shs.extend([vec![2, 1, 3, 2], vec![2, 3, 2, 2], vec![1, 2, 2, 1, 3], vec![2, 2, 1, 2, 2, 2], vec![2, 1, 2, 1, 2, 1, 2], vec![3, 0, 2, 2]]);
    for o in [FlagOrder::C, FlagOrder::F] {
        c.section(format!("layout.iter({:?})", o));
        for sh in &shs {
            for (nm, l) in sources(sh) {
                let seq: Vec<usize> = indices_o(sh, o).iter().map(|i| l_addr(&l, i) as usize).collect();
                let iseq: Vec<(Vec<usize>, usize)> = indices_o(sh, o).into_iter().map(|i| { let a = l_addr(&l, &i) as usize; (i, a) }).collect();
                let ord = if o == FlagOrder::C { TensorIterOrder::C } else { TensorIterOrder::F };
                for s in SCRIPTS {
                    c.case(|| format!("{} {} script {:x}", nm, fmt_l(&l), s), || {
                        drive(ok!(IterLayout::new(&l, ord)), &seq, s)?;
                        if o == FlagOrder::C {
                            drive(ok!(IterLayoutRowMajor::new(&l)), &seq, s)?;
                        } else {
                            drive(ok!(IterLayoutColMajor::new(&l)), &seq, s)?;
                        }
                        if let Some(r) = fixed!(&l, x, drive(IterLayout::new(&x, ord).unwrap(), &seq, s)) {
                            r?;
                        }
                        drive(ok!(IndexedIterLayout::new(&l, o)), &iseq, s)
                    });
                }
                // splitting at every position, after consuming some items from both ends
                let n = seq.len();
                for (f, b) in [(0, 0), (1, 0), (0, 1), (2, 1)] {
                    if f + b > n {
                        continue;
                    }
                    let rest = &iseq[f..n - b];
                    for p in 0..=rest.len() {
                        if p > 6 && p + 6 < rest.len() && !c.thorough {
                            continue;
                        }
                        c.case(|| format!("{} {} split at {} after {} front {} back", nm, fmt_l(&l), p, f, b), || {
                            let mut it = ok!(IterLayout::new(&l, ord));
                            for _ in 0..f {
                                it.next();
                            }
                            for _ in 0..b {
                                it.next_back();
                            }
                            let (x, y) = IterSplitAtAPI::split_at(it, p);
                            let offs: Vec<usize> = rest.iter().map(|x| x.1).collect();
                            for s in [0, !0, SCRIPTS[3]] {
                                drive(x.clone(), &offs[..p], s)?;
                                drive(y.clone(), &offs[p..], s)?;
                            }
                            let mut it = ok!(IndexedIterLayout::new(&l, o));
                            for _ in 0..f {
                                it.next();
                            }
                            for _ in 0..b {
                                it.next_back();
                            }
                            let (x, y) = IterSplitAtAPI::split_at(it, p);
                            drive(x, &rest[..p], SCRIPTS[3])?;
                            drive(y, &rest[p..], SCRIPTS[4])
                        });
                    }
                }
            }
        }
    }
    c.section("layout.iter(K)");
    for sh in &shs {
        for (nm, l) in sources(sh) {
            c.case(|| format!("{} {}", nm, fmt_l(&l)), || {
                let mut want: Vec<usize> = indices(sh).iter().map(|i| l_addr(&l, i) as usize).collect();
                want.sort();
                let mut g: Vec<usize> = ok!(IterLayout::new(&l, TensorIterOrder::K)).collect();
                g.sort();
                ensure!(g == want, "visited {:?}, expected {:?}", g, want);
                Ok(())
            });
        }
    }
    c.section("layout.iter(A,B,G)");
    for sh in &shs {
        for (nm, l) in sources(sh) {
            c.case(|| format!("{} {}", nm, fmt_l(&l)), || {
                let mut want: Vec<usize> = indices(sh).iter().map(|i| l_addr(&l, i) as usize).collect();
                want.sort();
                let mut g: Vec<usize> = ok!(IterLayout::new(&l, TensorIterOrder::A)).collect();
                g.sort();
                ensure!(g == want, "order A visited {:?}, expected {:?}", g, want);
                // sequential order is not offered for iteration; greedy orders visit the same elements
                ensure!(IterLayout::new(&l, TensorIterOrder::B).is_err(), "order B accepted");
                let mut g: Vec<usize> = ok!(IterLayout::new(&l, TensorIterOrder::G)).collect();
                g.sort();
                ensure!(g == want, "order G visited {:?}, expected {:?}", g, want);
                Ok(())
            });
        }
    }
    c.section("layout.dispatch");
    for sh in &shs {
        let fam = sources(sh);
        for (j, (nm, l)) in fam.iter().enumerate() {
            let l2 = &fam[(j + 1) % fam.len()].1;
            let l3 = &fam[(j + 2) % fam.len()].1;
            c.case(|| format!("{} {}", nm, fmt_l(l)), || {
                let w: Vec<[usize; 3]> =
                    indices_f(sh).iter().map(|i| [l_addr(l, i) as usize, l_addr(l2, i) as usize, l_addr(l3, i) as usize]).collect();
                let mut g1 = vec![];
                ok!(layout_col_major_dim_dispatch_1(l, |a| g1.push(a)));
                ensure!(g1 == w.iter().map(|x| x[0]).collect::<Vec<_>>(), "dispatch_1");
                let mut g2 = vec![];
                ok!(layout_col_major_dim_dispatch_2(l, l2, |a| g2.push(a)));
                ensure!(g2 == w.iter().map(|x| (x[0], x[1])).collect::<Vec<_>>(), "dispatch_2");
                let mut g3 = vec![];
                ok!(layout_col_major_dim_dispatch_3(l, l2, l3, |a| g3.push(a)));
                ensure!(g3 == w.iter().map(|x| (x[0], x[1], x[2])).collect::<Vec<_>>(), "dispatch_3");
                let mut g4 = vec![];
                ok!(layout_col_major_dim_dispatch_2diff(l, l2, |a| g4.push(a)));
                ensure!(g4 == g2, "dispatch_2diff");
                Ok(())
            });
        }
    }
    c.section("shape.unravel");
    for n in 1..=6usize {
        let shs = match n { 1..=3 => shapes(n, &[1, 2, 3, 5]), 4 => shapes(4, &[1, 2, 3]), 5 => vec![vec![2, 3, 1, 2, 2], vec![1, 2, 2, 3, 1]], _ => vec![vec![2, 1, 2, 3, 2, 2]] };
        for sh in shs {
            c.case(|| format!("{:?}", sh), || {
                for (k, i) in indices(&sh).iter().enumerate() {
                    let g = unsafe { sh.unravel_index_c(k) };
                    ensure!(&g == i, "unravel_index_c({}) = {:?}, expected {:?}", k, g, i);
                }
                for (k, i) in indices_f(&sh).iter().enumerate() {
                    let g = unsafe { sh.unravel_index_f(k) };
                    ensure!(&g == i, "unravel_index_f({}) = {:?}, expected {:?}", k, g, i);
                }
                macro_rules! st {
                    ($n:literal, $t:ty) => {
                        if n == $n {
                            let a: $t = sh.clone().try_into().unwrap();
                            for (k, i) in indices(&sh).iter().enumerate() {
                                let g = unsafe { a.unravel_index_c(k) };
                                ensure!(&g.to_vec() == i, "static unravel_index_c({}) = {:?}, expected {:?}", k, g, i);
                            }
                            for (k, i) in indices_f(&sh).iter().enumerate() {
                                let g = unsafe { a.unravel_index_f(k) };
                                ensure!(&g.to_vec() == i, "static unravel_index_f({}) = {:?}, expected {:?}", k, g, i);
                            }
                        }
                    };
                }
                st!(1, Ix1);
                st!(2, Ix2);
                st!(3, Ix3);
                st!(4, Ix4);
                st!(5, Ix5);
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------ C15
fn c15(c: &mut Ctx) {
    c.section("axes.normalize");
    for nd in 0..=4usize {
        for k in 0..=3usize {
            for axes in all_strides(k, &[-6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5]) {
                for dup in [false, true] {
                    for sort in [false, true] {
                        c.case(
                            || format!("rank {} axes {:?} allow_duplicate {} sort {}", nd, axes, dup, sort),
                            || {
                                let f = |a: isize| if a < 0 { a + nd as isize } else { a };
                                let norm: Vec<isize> = axes.iter().map(|&a| f(a)).collect();
                                let bad = norm.iter().any(|&a| a < 0 || a >= nd as isize);
                                let mut s = norm.clone();
                                s.sort();
                                let d = s.windows(2).any(|w| w[0] == w[1]);
                                let want = if bad || (d && !dup) { None } else { Some(if sort { s } else { norm }) };
                                let cmp = |g: Result<Vec<isize>>| match (g, &want) {
                                    (Ok(g), Some(w)) => {
                                        ensure!(&g == w, "{:?}, expected {:?}", g, w);
                                        Ok(())
                                    },
                                    (Err(_), None) => Ok(()),
                                    (Ok(g), None) => Err(format!("accepted as {:?}", g)),
                                    (Err(_), Some(w)) => Err(format!("rejected, expected {:?}", w)),
                                };
                                cmp(normalize_axes_index(AxesIndex::Vec(axes.clone()), nd, dup, sort))?;
                                if k == 1 {
                                    cmp(normalize_axes_index(AxesIndex::Val(axes[0]), nd, dup, sort))?;
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
        c.case(|| format!("rank {} None", nd), || {
            ensure!(normalize_axes_index(AxesIndex::None, nd, false, false).is_err(), "None accepted");
            Ok(())
        });
    }
    c.section("axes.layout");
    // every layout operation taking an axis accepts exactly the range and treats a and a-n alike
    for n in 1..=4usize {
        let sh: Vec<usize> = (0..n).map(|_| 1).collect();
        let l = mk(&sh, &vec![1; n], 3);
        for a in -(n as isize) - 3..=n as isize + 3 {
            c.case(|| format!("rank {} axis {}", n, a), || {
                let inr = a >= -(n as isize) && a < n as isize;
                ensure!(l.dim_narrow(a, SliceI::new(0, 1, None)).is_ok() == inr, "dim_narrow");
                ensure!(l.dim_select(a, 0).is_ok() == inr, "dim_select");
                ensure!(l.dim_eliminate(a).is_ok() == inr, "dim_eliminate");
                ensure!(l.dim_chop(a).is_ok() == inr, "dim_chop");
                ensure!(l.swapaxes(a, 0).is_ok() == inr && l.swapaxes(0, a).is_ok() == inr, "swapaxes");
                let ins = a >= -(n as isize) - 1 && a <= n as isize;
                ensure!(l.dim_insert(a).is_ok() == ins, "dim_insert");
                ensure!(l.dim_split_axes(&[a]).is_ok() == inr, "dim_split_axes");
                let at = a >= -(n as isize) && a <= n as isize;
                ensure!(l.dim_split_at(a).is_ok() == at, "dim_split_at");
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------ C18
fn c18(c: &mut Ctx) {
    c.section("tensordot.str");
    let parse = |s: &str| -> Option<(Vec<char>, Vec<char>, Vec<char>)> {
        let t: String = s.chars().filter(|c| !c.is_whitespace()).collect();
        let (l, o) = t.split_once("->")?;
        let (a, b) = l.split_once(',')?;
        Some((a.chars().collect(), b.chars().collect(), o.chars().collect()))
    };
    let check = |s: String, da: usize, db: usize, xa: &[usize], xb: &[usize]| -> Res {
        let (a, b, o) = match parse(&s) {
            Some(x) => x,
            None => return Err(format!("malformed subscripts {:?}", s)),
        };
        ensure!(a.len() == da && b.len() == db, "subscripts {:?} have wrong lengths", s);
        ensure!(a.iter().chain(&b).all(|c| c.is_ascii_alphabetic()), "labels of {:?}", s);
        for i in 0..da {
            for j in 0..da {
                ensure!(i == j || a[i] != a[j], "label repeated in first operand: {:?}", s);
            }
            for j in 0..db {
                let paired = (0..xa.len()).any(|k| xa[k] == i && xb[k] == j);
                ensure!((a[i] == b[j]) == paired, "axes {} and {} {} in {:?}", i, j, if paired { "not paired" } else { "share a label" }, s);
            }
        }
        for i in 0..db {
            for j in 0..db {
                ensure!(i == j || b[i] != b[j], "label repeated in second operand: {:?}", s);
            }
        }
        let w: Vec<char> =
            (0..da).filter(|i| !xa.contains(i)).map(|i| a[i]).chain((0..db).filter(|j| !xb.contains(j)).map(|j| b[j])).collect();
        ensure!(o == w, "output {:?}, expected {:?} in {:?}", o, w, s);
        Ok(())
    };
    for da in 0..=4usize {
        for db in 0..=4usize {
            for n in -2isize..=6 {
                c.case(|| format!("ranks {} {} count {}", da, db, n), || {
                    let valid = n >= 0 && n as usize <= da && n as usize <= db;
                    match tensordot_to_einsum_str(da, db, n) {
                        Ok(s) => {
                            ensure!(valid, "accepted as {:?}", s);
                            let n = n as usize;
                            check(s, da, db, &(da - n..da).collect::<Vec<_>>(), &(0..n).collect::<Vec<_>>())
                        },
                        Err(_) => {
                            ensure!(!valid, "rejected");
                            Ok(())
                        },
                    }
                });
            }
            c.case(|| format!("ranks {} {} default", da, db), || {
                let r = tensordot_to_einsum_str(da, db, AxesPairIndex::None);
                match r {
                    Ok(s) => {
                        ensure!(da >= 2 && db >= 2, "accepted as {:?}", s);
                        check(s, da, db, &[da - 2, da - 1], &[0, 1])
                    },
                    Err(_) => {
                        ensure!(da < 2 || db < 2, "rejected");
                        Ok(())
                    },
                }
            });
            for ka in 0..=3usize {
                for kb in 0..=3usize {
                    if (ka == 3 || kb == 3) && (da < 3 || db < 3 || (ka != kb && !c.thorough)) {
                        continue;
                    }
                    let vals: &[isize] = if ka + kb >= 5 { &[-3, -1, 0, 1, 2] } else { &[-5, -4, -2, -1, 0, 1, 3, 4] };
                    for a in all_strides(ka, vals) {
                        for b in all_strides(kb, vals) {
                            if ka == 3 && kb == 3 && !c.thorough && (a[0] + 3 * b[0] + a[1] - b[2]) % 7 != 0 {
                                continue;
                            }
                            c.case(
                                || format!("ranks {} {} axes {:?} {:?}", da, db, a, b),
                                || {
                                    let norm = |v: &[isize], n: usize| -> Option<Vec<usize>> {
                                        let w: Vec<isize> = v.iter().map(|&x| if x < 0 { x + n as isize } else { x }).collect();
                                        if w.iter().any(|&x| x < 0 || x >= n as isize) {
                                            return None;
                                        }
                                        let mut s = w.clone();
                                        s.sort();
                                        s.dedup();
                                        if s.len() != w.len() {
                                            return None;
                                        }
                                        Some(w.iter().map(|&x| x as usize).collect())
                                    };
                                    let want = match (norm(&a, da), norm(&b, db)) {
                                        (Some(x), Some(y)) if x.len() == y.len() => Some((x, y)),
                                        _ => None,
                                    };
                                    match (tensordot_to_einsum_str(da, db, AxesPairIndex::Pair(AxesIndex::Vec(a.clone()), AxesIndex::Vec(b.clone()))), want) {
                                        (Ok(s), Some((x, y))) => check(s, da, db, &x, &y),
                                        (Err(_), None) => Ok(()),
                                        (Ok(s), None) => Err(format!("accepted as {:?}", s)),
                                        (Err(_), Some(_)) => Err("rejected".into()),
                                    }
                                },
                            );
                        }
                    }
                }
            }
        }
    }
    c.section("tensordot.labels");
    for (da, db, n) in [(26usize, 26usize, 0isize), (27, 26, 1), (30, 22, 0), (40, 20, 8), (52, 0, 0), (26, 27, 0), (60, 60, 3), (53, 0, 0), (52, 52, 52)] {
        c.case(|| format!("ranks {} {} count {}", da, db, n), || {
            let labels = da + db - n as usize;
            match tensordot_to_einsum_str(da, db, n) {
                Ok(s) => {
                    let n = n as usize;
                    check(s, da, db, &(da - n..da).collect::<Vec<_>>(), &(0..n).collect::<Vec<_>>())
                },
                Err(_) => {
                    ensure!(labels > 52, "rejected although {} labels suffice", labels);
                    Ok(())
                },
            }
        });
    }
}
