// included once per device: matrix products
use super::ops::*;
use super::ops2::*;
use super::ops3::*;
use super::{Dev, NAME};
use crate::base::*;
use crate::layout2::*;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{Ix1, Ix2, Ix3, IxD};

pub fn run(id: &str, c: &mut Ctx) {
    match id {
        "C11" => c11(c),
        _ => {},
    }
}
type R<X> = rstsr_core::prelude_dev::Result<X>;

fn rev_nd(a: &Nd<i64>) -> Nd<i64> {
    let s: Vec<usize> = a.shape.iter().rev().cloned().collect();
    Nd::from_fn(&s, |i| a.get(&i.iter().rev().cloned().collect::<Vec<_>>()))
}
/// the promotion and batch-broadcasting rules, row-major; None: rejected
fn mm_row(a: &Nd<i64>, b: &Nd<i64>) -> Option<Nd<i64>> {
    let (na, nb) = (a.shape.len(), b.shape.len());
    if na == 0 || nb == 0 {
        return None;
    }
    let (va, vb) = (na == 1, nb == 1);
    let sa: Vec<usize> = if va { vec![1, a.shape[0]] } else { a.shape.clone() };
    let sb: Vec<usize> = if vb { vec![b.shape[0], 1] } else { b.shape.clone() };
    let a = Nd { shape: sa.clone(), data: a.data.clone() };
    let b = Nd { shape: sb.clone(), data: b.data.clone() };
    let (ra, rb) = (sa[..sa.len() - 2].to_vec(), sb[..sb.len() - 2].to_vec());
    let (m, k) = (sa[sa.len() - 2], sa[sa.len() - 1]);
    let (k2, n) = (sb[sb.len() - 2], sb[sb.len() - 1]);
    if k != k2 {
        return None;
    }
    let rest = bcast_def(&ra, &rb, FlagOrder::C)?;
    let mut sc = rest.clone();
    sc.extend([m, n]);
    let full = Nd::from_fn(&sc, |i| {
        let r = &i[..i.len() - 2];
        let (x, y) = (i[i.len() - 2], i[i.len() - 1]);
        let (ia, ib) = (bcast_index(&ra, r, FlagOrder::C), bcast_index(&rb, r, FlagOrder::C));
        (0..k)
            .map(|z| {
                let mut p = ia.clone();
                p.extend([x, z]);
                let mut q = ib.clone();
                q.extend([z, y]);
                a.get(&p) * b.get(&q)
            })
            .sum()
    });
    let mut sh = rest;
    if !va {
        sh.push(m)
    }
    if !vb {
        sh.push(n)
    }
    Some(Nd { shape: sh, data: full.data })
}
fn mm(a: &Nd<i64>, b: &Nd<i64>, o: FlagOrder) -> Option<Nd<i64>> {
    match o {
        FlagOrder::C => mm_row(a, b),
        FlagOrder::F => mm_row(&rev_nd(b), &rev_nd(a)).map(|x| rev_nd(&x)),
    }
}

/// empty arrays: offset such that dropping the zero-length axis leaves valid addresses, as slicing or flipping produces
pub fn settle(l: L) -> L {
    if size(l.shape()) != 0 {
        return l;
    }
    let s: Vec<usize> = l.shape().iter().map(|&x| x.max(1)).collect();
    let b = bounds(&s, l.stride(), 0).unwrap();
    let off = l.offset().max((-b.0) as usize);
    mk(l.shape(), l.stride(), off)
}
fn mm_pairs(c: &Ctx, r: &mut Rng) -> Vec<(Vec<usize>, Vec<usize>)> {
    // row-major shapes; reversed and swapped for column-major
    let mut v = vec![];
    let rests: Vec<Vec<usize>> = vec![
        vec![], vec![], vec![1], vec![2], vec![3], vec![0], vec![2, 3], vec![1, 3], vec![2, 1], vec![3, 2], vec![2, 1, 3],
        vec![1, 2, 1],
    ];
    for _ in 0..c.q(900, 9000) {
        let (m, k, n) = (r.below(5), r.below(5), r.below(5));
        let k2 = if r.below(12) == 0 { r.below(4) } else { k };
        let mut a = r.pick(&rests);
        let mut b = match r.below(4) {
            0 => r.pick(&rests),
            1 => vec![],
            _ => {
                let mut b = a.clone();
                for x in b.iter_mut() {
                    if r.below(3) == 0 {
                        *x = 1
                    }
                }
                if r.below(4) == 0 && !b.is_empty() {
                    b.remove(0);
                }
                b
            },
        };
        match r.below(10) {
            0 => a = vec![k],
            _ => a.extend([m, k]),
        }
        match r.below(10) {
            0 => b = vec![k2],
            _ => b.extend([k2, n]),
        }
        if r.below(40) == 0 {
            a = vec![]
        }
        if r.below(40) == 0 {
            b = vec![]
        }
        v.push((a, b));
    }
    // sizes beyond the parallel thresholds
    for _ in 0..c.q(3, 20) {
        let (m, k, n) = (60 + r.below(20), 60 + r.below(20), 60 + r.below(20));
        v.push((vec![m, k], vec![k, n]));
        v.push((vec![40, 3, k], vec![40, k, 5]));
        v.push((vec![40, 3, 4], vec![4, 5]));
        v.push((vec![3, 4], vec![37, 4, 5]));
        v.push((vec![4], vec![37, 4, 5]));
        v.push((vec![37, 5, 4], vec![4]));
        v.push((vec![5, 8, 1, 4], vec![8, 4, 2]));
        v.push((vec![300], vec![300]));
        v.push((vec![70, 70], vec![70]));
        v.push((vec![70], vec![70, 70]));
        v.push((vec![1, 70], vec![70, 70]));
        v.push((vec![2, 65, 66], vec![2, 66, 67]));
    }
    v
}

trait Num: Copy + std::fmt::Debug + PartialEq + 'static {
    fn of(x: i64) -> Self;
    fn to(self) -> i64;
    /// a value that must not influence the result when it is not read
    fn poison() -> Self;
}
impl Num for i64 {
    fn of(x: i64) -> Self {
        x
    }
    fn to(self) -> i64 {
        self
    }
    fn poison() -> i64 {
        777_777
    }
}
impl Num for f64 {
    fn of(x: i64) -> Self {
        x as f64
    }
    fn to(self) -> i64 {
        if self.is_nan() {
            i64::MIN
        } else {
            self.round() as i64
        }
    }
    fn poison() -> f64 {
        f64::NAN
    }
}
impl Num for f32 {
    fn of(x: i64) -> Self {
        x as f32
    }
    fn to(self) -> i64 {
        if self.is_nan() {
            i64::MIN
        } else {
            self.round() as i64
        }
    }
    fn poison() -> f32 {
        f32::NAN
    }
}

macro_rules! nd_any {
    ($t:expr) => {{
        let l = $t.layout().to_dim::<IxD>().map_err(|e| format!("{:?}", e.inner))?;
        read($t.raw(), &l)?.map(|x| Num::to(*x))
    }};
}
macro_rules! want_x {
    ($r:expr, $w:expr, $what:expr) => {
        match ($r, $w) {
            (Ok(t), Some(w)) => same(&nd_any!(t), w).map_err(|e| format!("{}: {}", $what, e)),
            (Ok(t), None) => Err(format!("{}: invalid request accepted, shape {:?}", $what, t.shape())),
            (Err(e), Some(_)) => Err(format!("{}: rejected with {:?}", $what, e.inner)),
            (Err(_), None) => Ok(()),
        }
    };
}

fn c11(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let ps = mm_pairs(c, &mut r);
    for o in ORD {
        let d = dev(o);
        for (sa, sb) in &ps {
            let (sa, sb) = match o {
                FlagOrder::C => (sa.clone(), sb.clone()),
                FlagOrder::F => (sb.iter().rev().cloned().collect(), sa.iter().rev().cloned().collect()),
            };
            let (la, lb) = (settle(rand_src(&sa, &mut r)), settle(rand_src(&sb, &mut r)));
            let (da, db) = (vals(&la, -5, 11, 1), vals(&lb, -4, 9, 2));
            let (xa, xb) = (read(&da, &la).unwrap(), read(&db, &lb).unwrap());
            let w = mm(&xa, &xb, o);
            // destination: mostly of the result shape
            let mut sc = w.as_ref().map(|w| w.shape.clone()).unwrap_or(sa.clone());
            match r.below(8) {
                0 if !sc.is_empty() => {
                    let k = r.below(sc.len());
                    sc[k] = match r.below(3) {
                        0 => 1,
                        1 => sc[k] + 1,
                        _ => r.below(3),
                    }
                },
                1 if r.below(2) == 0 => sc.insert(r.below(sc.len() + 1), 1 + r.below(2)),
                _ => {},
            }
            let lc = settle(rand_layout(&sc, &mut r));
            let dc = vals(&lc, 100, 50, 3);
            let tag = |s: &str| format!("{:?} {} a {} b {} c {}", o, s, fmt_l(&la), fmt_l(&lb), fmt_l(&lc));
            let (al, be) = r.pick(&[(1i64, 0i64), (1, 1), (2, -3), (0, 2), (-1, 0), (0, 0), (3, 1)]);
            macro_rules! go {
                ($ty:ty) => {{
                    let fa: Vec<$ty> = da.iter().map(|x| Num::of(*x)).collect();
                    let fb: Vec<$ty> = db.iter().map(|x| Num::of(*x)).collect();
                    let ua: TensorView<'_, $ty, Dev, IxD> = rt::asarray((&fa, la.clone(), &d));
                    let ub: TensorView<'_, $ty, Dev, IxD> = rt::asarray((&fb, lb.clone(), &d));
                    c.section(format!("{}.matmul.{}", NAME, stringify!($ty)));
                    c.case(|| tag("matmul_f"), || want_x!(rt::matmul_f(&ua, &ub), &w, "matmul_f"));
                    c.case(|| tag("method"), || want_x!(ua.matmul_f(&ub), &w, "a.matmul_f(b)"));
                    if w.is_some() {
                        c.case(|| tag("a % b"), || want_x!(Ok::<_, rstsr_core::prelude_dev::Error>(&ua % &ub), &w, "a % b"));
                    }
                    // typed ranks
                    macro_rules! fixed {
                        ($n:expr, $m:expr, $A:ty, $B:ty) => {
                            if sa.len() == $n && sb.len() == $m {
                                c.case(
                                    || tag("fixed rank"),
                                    || {
                                        let va = ua.view().into_dim::<$A>();
                                        let vb = ub.view().into_dim::<$B>();
                                        want_x!(rt::matmul_f(&va, &vb), &w, "fixed-rank matmul_f")
                                    },
                                );
                            }
                        };
                    }
                    fixed!(1, 1, Ix1, Ix1);
                    fixed!(2, 2, Ix2, Ix2);
                    fixed!(1, 2, Ix1, Ix2);
                    fixed!(2, 1, Ix2, Ix1);
                    fixed!(3, 2, Ix3, Ix2);
                    fixed!(2, 3, Ix2, Ix3);
                    fixed!(3, 3, Ix3, Ix3);
                    fixed!(3, 1, Ix3, Ix1);
                    fixed!(1, 3, Ix1, Ix3);
                    // accumulate into a destination
                    let want = |al: i64, be: i64| -> Option<Vec<i64>> {
                        let w = w.as_ref()?;
                        if w.shape != sc {
                            return None;
                        }
                        let mut v = dc.clone();
                        for i in indices(&sc) {
                            let p = l_addr(&lc, &i) as usize;
                            v[p] = al * w.get(&i) + be * dc[p];
                        }
                        Some(v)
                    };
                    c.section(format!("{}.matmul_from.{}", NAME, stringify!($ty)));
                    c.case(
                        || format!("{} alpha {} beta {}", tag("matmul_from_f"), al, be),
                        || {
                            let mut fc: Vec<$ty> = dc.iter().map(|x| Num::of(*x)).collect();
                            let res = {
                                let uc: TensorMut<'_, $ty, Dev, IxD> = rt::asarray((&mut fc, lc.clone(), &d));
                                rt::matmul_from_f(uc, &ua, &ub, Num::of(al), Num::of(be))
                            };
                            let g: Vec<i64> = fc.iter().map(|x| x.to()).collect();
                            want_buf(res, &g, &dc, &want(al, be), "matmul_from_f")
                        },
                    );
                    c.case(
                        || tag("matmul_with_output_f"),
                        || {
                            // old contents of the destination are not used
                            let mut fc: Vec<$ty> = dc.iter().map(|x| Num::of(*x)).collect();
                            let wv = want(1, 0);
                            if wv.is_some() {
                                for i in indices(&sc) {
                                    fc[l_addr(&lc, &i) as usize] = <$ty as Num>::poison();
                                }
                            }
                            let res = {
                                let uc: TensorMut<'_, $ty, Dev, IxD> = rt::asarray((&mut fc, lc.clone(), &d));
                                rt::matmul_with_output_f(&ua, &ub, uc)
                            };
                            let g: Vec<i64> = fc.iter().map(|x| x.to()).collect();
                            want_buf(res, &g, &dc, &wv, "matmul_with_output_f")
                        },
                    );
                    // product with the transposed view of the same storage
                    if sa.len() == 2 {
                        c.section(format!("{}.matmul with own transpose.{}", NAME, stringify!($ty)));
                        let ta = rev_nd(&xa);
                        let ws = mm(&xa, &ta, o);
                        c.case(
                            || tag("a % a.t()"),
                            || want_x!(rt::matmul_f(&ua, &ua.view().into_reverse_axes()), &ws, "a % aT"),
                        );
                        let ws = mm(&xa, &xa, o);
                        c.case(|| tag("a % a"), || want_x!(rt::matmul_f(&ua, &ua), &ws, "a % a"));
                        if sa[0] == sc.get(0).cloned().unwrap_or(99) && sc.len() == 2 && sc[1] == sc[0] {
                            let ws = mm(&xa, &ta, o).unwrap();
                            c.case(
                                || format!("{} alpha {} beta {}", tag("matmul_from(c, a, aT)"), al, be),
                                || {
                                    let mut fc: Vec<$ty> = dc.iter().map(|x| Num::of(*x)).collect();
                                    let mut v = dc.clone();
                                    for i in indices(&sc) {
                                        let p = l_addr(&lc, &i) as usize;
                                        v[p] = al * ws.get(&i) + be * dc[p];
                                    }
                                    let res = {
                                        let uc: TensorMut<'_, $ty, Dev, IxD> = rt::asarray((&mut fc, lc.clone(), &d));
                                        let tv = ua.view().into_reverse_axes();
                                        rt::matmul_from_f(uc, &ua, &tv, Num::of(al), Num::of(be))
                                    };
                                    let g: Vec<i64> = fc.iter().map(|x| x.to()).collect();
                                    want_buf(res, &g, &dc, &Some(v), "matmul_from_f")
                                },
                            );
                        }
                    }
                }};
            }
            go!(i64);
            go!(f64);
            if r.below(3) == 0 {
                go!(f32);
            }
        }
    }
    vecdot(c, &mut r);
}

fn vecdot(c: &mut Ctx, r: &mut Rng) {
    let mut all = vec![];
    for n in 0..=4 {
        all.extend(shapes(n, if n >= 3 { &[0, 1, 2, 3] } else { &[0, 1, 2, 3, 5, 40] }));
    }
    for s in [vec![40, 3, 2], vec![3, 70], vec![33, 34], vec![2, 33, 5], vec![600], vec![70, 9], vec![2, 3, 40], vec![129, 4], vec![200, 3]] {
        for _ in 0..20 {
            all.push(s.clone());
        }
    }
    for o in ORD {
        let d = dev(o);
        for _ in 0..c.q(4000, 40000) {
            let sa = r.pick(&all);
            // contracted axes
            let nax = r.below(3.min(sa.len() + 1));
            let mut p: Vec<usize> = (0..sa.len()).collect();
            for k in (1..p.len()).rev() {
                p.swap(k, r.below(k + 1))
            }
            let axa: Vec<usize> = p[..nax].to_vec();
            let kept: Vec<usize> = (0..sa.len()).filter(|k| !axa.contains(k)).map(|k| sa[k]).collect();
            // b: a broadcastable set of kept axes, contracted axes inserted anywhere
            let mut kb = kept.clone();
            for x in kb.iter_mut() {
                match r.below(6) {
                    0 => *x = 1,
                    1 if r.below(4) == 0 => *x += 1,
                    _ => {},
                }
            }
            if r.below(6) == 0 && !kb.is_empty() {
                if r.below(2) == 0 {
                    kb.remove(0);
                } else {
                    kb.pop();
                }
            }
            let mut sb = kb.clone();
            let mut tagb: Vec<Option<usize>> = vec![None; sb.len()];
            for (q, &k) in axa.iter().enumerate() {
                let at = r.below(sb.len() + 1);
                sb.insert(at, if r.below(30) == 0 { sa[k] + 1 } else { sa[k] });
                tagb.insert(at, Some(q));
            }
            let axb: Vec<usize> = (0..axa.len()).map(|q| tagb.iter().position(|t| *t == Some(q)).unwrap()).collect();
            let mut la = settle(rand_src(&sa, r));
            let mut lb = settle(rand_src(&sb, r));
            if r.below(3) == 0 {
                // contiguous operands reach the blocked paths
                let st = |s: &Vec<usize>, f: usize| if f == 0 { cstride(s) } else { fstride(s) };
                let f = r.below(2);
                la = mk(&sa, &st(&sa, f), r.below(2));
                lb = mk(&sb, &st(&sb, f), r.below(2));
            }
            let neg = |v: &[usize], n: usize, r: &mut Rng| -> Vec<isize> {
                v.iter().map(|&k| if r.below(2) == 0 { k as isize } else { k as isize - n as isize }).collect()
            };
            let (na, nb) = (sa.len(), sb.len());
            let (ia, ib) = (neg(&axa, na, r), neg(&axb, nb, r));
            let ok = axa.iter().zip(&axb).all(|(&x, &y)| sa[x] == sb[y]);
            let (da, db) = (vals(&la, -5, 11, 1), vals(&lb, -4, 9, 2));
            let (xa, xb) = (read(&da, &la).unwrap(), read(&db, &lb).unwrap());
            let model = |axa: &[usize], axb: &[usize]| -> Option<Nd<i64>> {
                let (ga, gb) = (groups(&xa, axa), groups(&xb, axb));
                let sh = bcast_def(&ga.shape, &gb.shape, o)?;
                Some(Nd::from_fn(&sh, |i| {
                    ga.get(&bcast_index(&ga.shape, i, o))
                        .iter()
                        .zip(gb.get(&bcast_index(&gb.shape, i, o)).iter())
                        .map(|(x, y)| x * y)
                        .sum()
                }))
            };
            let w = if ok { model(&axa, &axb) } else { None };
            let mut sc = w.as_ref().map(|w| w.shape.clone()).unwrap_or(kept.clone());
            if r.below(8) == 0 && !sc.is_empty() {
                let k = r.below(sc.len());
                sc[k] = if r.below(2) == 0 { 1 } else { sc[k] + 1 };
            }
            let lc = settle(rand_layout(&sc, r));
            let dc = vals(&lc, 100, 50, 3);
            let (ua, ub): (V, V) = (rt::asarray((&da, la.clone(), &d)), rt::asarray((&db, lb.clone(), &d)));
            let tag = |s: &str| format!("{:?} {} a {} b {} axes {:?} {:?} c {}", o, s, fmt_l(&la), fmt_l(&lb), ia, ib, fmt_l(&lc));
            c.section(format!("{}.vecdot", NAME));
            c.case(
                || tag("pair"),
                || want_t(rt::vecdot_f(&ua, &ub, (ia.clone(), ib.clone())), &w, "vecdot_f"),
            );
            if nax == 1 && axa[0] == axb[0] {
                c.case(|| tag("axis"), || want_t(ua.vecdot_f(&ub, axa[0] as isize), &w, "vecdot_f(axis)"));
            }
            if nax == 1 && na - axa[0] == nb - axb[0] {
                c.case(|| tag("axis from end"), || want_t(ua.vecdot_f(&ub, axa[0] as isize - na as isize), &w, "vecdot_f(-axis)"));
            }
            // bad axes
            let bad: isize = if r.below(2) == 0 { na as isize + r.below(3) as isize } else { -(na as isize) - 1 - r.below(3) as isize };
            c.case(
                || format!("{} bad {}", tag("bad axis"), bad),
                || {
                    let mut x = ia.clone();
                    let mut y = ib.clone();
                    x.push(bad);
                    y.push(0);
                    ensure!(rt::vecdot_f(&ua, &ub, (x.clone(), y.clone())).is_err(), "out-of-range axis accepted");
                    if na <= nb {
                        ensure!(rt::vecdot_f(&ua, &ub, bad).is_err(), "out-of-range axis accepted");
                    }
                    let mut x = ia.clone();
                    x.extend(&ia);
                    let mut y = ib.clone();
                    y.extend(&ib);
                    if !ia.is_empty() {
                        ensure!(rt::vecdot_f(&ua, &ub, (x, y)).is_err(), "repeated axes accepted");
                        ensure!(rt::vecdot_f(&ua, &ub, (ia.clone(), ib[1..].to_vec())).is_err(), "lists of different length accepted");
                    }
                    Ok(())
                },
            );
            c.case(
                || tag("vecdot_from_f"),
                || {
                    let mut g = dc.clone();
                    let wv = w.as_ref().filter(|w| w.shape == sc).map(|w| {
                        let mut v = dc.clone();
                        for i in indices(&sc) {
                            v[l_addr(&lc, &i) as usize] = w.get(&i);
                        }
                        v
                    });
                    let res = {
                        let uc: TensorMut<'_, i64, Dev, IxD> = rt::asarray((&mut g, lc.clone(), &d));
                        rt::vecdot_from_f(uc, &ua, &ub, (ia.clone(), ib.clone()))
                    };
                    want_buf(res, &g, &dc, &wv, "vecdot_from_f")
                },
            );
        }
    }
    // complex operands: the first is conjugated
    c.section(format!("{}.vecdot complex", NAME));
    let d = dev(FlagOrder::C);
    use num::Complex;
    for n in 0..6usize {
        c.case(
            || format!("length {}", n),
            || {
                let a: Vec<Complex<f64>> = (0..n).map(|k| Complex::new(k as f64 + 1.0, 2.0 - k as f64)).collect();
                let b: Vec<Complex<f64>> = (0..n).map(|k| Complex::new(3.0 - k as f64, 1.0 + 2.0 * k as f64)).collect();
                let w: Complex<f64> = a.iter().zip(&b).map(|(x, y)| x.conj() * y).sum();
                let ua = rt::asarray((a.clone(), &d));
                let ub = rt::asarray((b.clone(), &d));
                let g = rt::vecdot_f(&ua, &ub, -1).map_err(|e| format!("{:?}", e.inner))?;
                ensure!(g.raw()[g.layout().offset()] == w, "{:?} vs {:?}", g.raw(), w);
                Ok(())
            },
        );
    }
}
