// included once per device: joining, splitting, gathering; creation
use super::ops::*;
use super::ops2::*;
use super::{Dev, NAME};
use crate::base::*;
use crate::layout2::*;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{Ix1, Ix2, Ix3, IxD};

pub fn run(id: &str, c: &mut Ctx) {
    match id {
        "C12" => c12(c),
        "C13" => c13(c),
        _ => {},
    }
}
type R<X> = rstsr_core::prelude_dev::Result<X>;

fn cl<'a>(vs: &'a [V<'a>]) -> Vec<V<'a>> {
    vs.iter().map(|v| v.view()).collect()
}

fn norm(ax: isize, n: usize) -> Option<usize> {
    let b = if ax < 0 { ax + n as isize } else { ax };
    if b < 0 || b >= n as isize {
        None
    } else {
        Some(b as usize)
    }
}
fn concat_m(xs: &[Nd<i64>], ax: isize) -> Option<Nd<i64>> {
    let n = xs.get(0)?.shape.len();
    let k = norm(ax, n)?;
    let mut sh = xs[0].shape.clone();
    sh[k] = 0;
    for x in xs {
        if x.shape.len() != n || (0..n).any(|j| j != k && x.shape[j] != sh[j]) {
            return None;
        }
        sh[k] += x.shape[k];
    }
    Some(Nd::from_fn(&sh, |i| {
        let mut i = i.to_vec();
        for x in xs {
            if i[k] < x.shape[k] {
                return x.get(&i);
            }
            i[k] -= x.shape[k];
        }
        unreachable!()
    }))
}
fn insert_ax(x: &Nd<i64>, k: usize) -> Nd<i64> {
    let mut s = x.shape.clone();
    s.insert(k, 1);
    Nd { shape: s, data: x.data.clone() }
}
fn stack_m(xs: &[Nd<i64>], ax: isize) -> Option<Nd<i64>> {
    let n = xs.get(0)?.shape.len() + 1;
    let k = norm(ax, n)?;
    if xs.iter().any(|x| x.shape != xs[0].shape) {
        return None;
    }
    concat_m(&xs.iter().map(|x| insert_ax(x, k)).collect::<Vec<_>>(), k as isize)
}
fn gather_m(x: &Nd<i64>, ax: isize, idx: &[isize]) -> Option<Nd<i64>> {
    let k = norm(ax, x.shape.len())?;
    let m: Option<Vec<usize>> = idx.iter().map(|&i| norm(i, x.shape[k])).collect();
    let m = m?;
    let mut s = x.shape.clone();
    s[k] = m.len();
    Some(Nd::from_fn(&s, |i| {
        let mut i = i.to_vec();
        i[k] = m[i[k]];
        x.get(&i)
    }))
}
macro_rules! want_v {
    ($r:expr, $w:expr, $what:expr) => {
        match ($r, $w) {
            (Ok(v), Some(w)) => {
                let w: &Vec<Nd<i64>> = w;
                ensure!(v.len() == w.len(), "{}: {} tensors, expected {}", $what, v.len(), w.len());
                for (k, (g, w)) in v.iter().zip(w.iter()).enumerate() {
                    same(&nd(g)?, w).map_err(|e| format!("{} tensor {}: {}", $what, k, e))?;
                }
                Ok(())
            },
            (Ok(_), None) => Err(format!("{}: invalid request accepted", $what)),
            (Err(e), Some(_)) => Err(format!("{}: rejected with {:?}", $what, e.inner)),
            (Err(_), None) => Ok(()),
        }
    };
}

fn c12(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let mut all = vec![];
    for n in 0..=3 {
        all.extend(shapes(n, if n == 3 { &[0, 1, 2, 3] } else { &[0, 1, 2, 3, 5] }));
    }
    for o in ORD {
        let d = dev(o);
        // ---- concat / stack / hstack / vstack
        for it in 0..c.q(1500, 15000) {
            let base = if it % 50 == 49 { r.pick(&[vec![20, 30], vec![5, 17, 9], vec![1200], vec![130, 140]]) } else { r.pick(&all) };
            let m = r.below(5);
            let n = base.len();
            let ax = r.range(-(n as isize) - 2, n as isize + 1);
            let mut srcs: Vec<(L, Vec<i64>)> = vec![];
            for q in 0..m {
                let mut s = base.clone();
                if r.below(3) > 0 {
                    if let Some(k) = norm(ax, n) {
                        s[k] = r.below(4);
                    }
                }
                if r.below(12) == 0 && n > 0 {
                    let k = r.below(n);
                    s[k] += 1;
                }
                if r.below(20) == 0 {
                    s.insert(0, 1)
                }
                let l = rand_src(&s, &mut r);
                let v = vals(&l, (q * 1000) as i64, 997, q);
                srcs.push((l, v));
            }
            let xs: Vec<Nd<i64>> = srcs.iter().map(|(l, v)| read(v, l).unwrap()).collect();
            let vs: Vec<V> = srcs.iter().map(|(l, v)| rt::asarray((v, l.clone(), &d))).collect();
            let tag = |s: &str| {
                format!("{:?} {} axis {} {}", o, s, ax, srcs.iter().map(|(l, _)| fmt_l(l)).collect::<Vec<_>>().join(" | "))
            };
            c.section(format!("{}.concat", NAME));
            let w = concat_m(&xs, ax);
            c.case(|| tag("concat"), || want_t(rt::concat_f((cl(&vs), ax)), &w, "concat_f"));
            c.case(|| tag("concat refs"), || want_t(rt::concat_f((vs.iter().collect::<Vec<_>>(), ax as i32)), &w, "concat_f(&)"));
            let w0 = concat_m(&xs, 0);
            c.case(|| tag("concat default axis"), || want_t(rt::concat_f(&vs), &w0, "concat_f"));
            c.section(format!("{}.stack", NAME));
            let w = stack_m(&xs, ax);
            c.case(|| tag("stack"), || want_t(rt::stack_f((cl(&vs), ax)), &w, "stack_f"));
            let w0 = stack_m(&xs, 0);
            c.case(|| tag("stack default axis"), || want_t(rt::stack_f(&vs), &w0, "stack_f"));
            c.section(format!("{}.hstack vstack", NAME));
            let x1: Vec<Nd<i64>> = xs.iter().map(|x| if x.shape.is_empty() { insert_ax(x, 0) } else { x.clone() }).collect();
            let x2: Vec<Nd<i64>> = x1.iter().map(|x| if x.shape.len() == 1 { insert_ax(x, 0) } else { x.clone() }).collect();
            let wh = concat_m(&x1, if x1.get(0).map_or(0, |x| x.shape.len()) == 1 { 0 } else { 1 });
            let wv = concat_m(&x2, 0);
            c.case(|| tag("hstack"), || want_t(rt::hstack_f(&vs), &wh, "hstack_f"));
            c.case(|| tag("vstack"), || want_t(rt::vstack_f(cl(&vs)), &wv, "vstack_f"));
            // unstack
            if let (Some(x), Some(v)) = (xs.get(0), vs.get(0)) {
                c.section(format!("{}.unstack", NAME));
                let n = x.shape.len();
                let w: Option<Vec<Nd<i64>>> = norm(ax, n).map(|k| {
                    let mut s = x.shape.clone();
                    let m = s.remove(k);
                    (0..m)
                        .map(|p| {
                            Nd::from_fn(&s, |i| {
                                let mut i = i.to_vec();
                                i.insert(k, p);
                                x.get(&i)
                            })
                        })
                        .collect()
                });
                c.case(|| tag("unstack"), || want_v!(rt::unstack_f((v, ax)), w.as_ref(), "unstack_f"));
                macro_rules! fixed {
                    ($n:expr, $D:ty) => {
                        if n == $n {
                            c.case(|| tag("unstack fixed rank"), || {
                                let f = v.view().into_dim::<$D>();
                                want_v!(rt::unstack_f((f.view(), ax)), w.as_ref(), "unstack_f")
                            });
                        }
                    };
                }
                fixed!(1, Ix1);
                fixed!(2, Ix2);
                fixed!(3, Ix3);
                c.section(format!("{}.atleast", NAME));
                let mut s1 = x.shape.clone();
                if s1.is_empty() {
                    s1 = vec![1]
                }
                let mut s2 = s1.clone();
                if s2.len() == 1 {
                    s2 = vec![1, s2[0]]
                }
                let s3 = if n == 2 { vec![s2[0], s2[1], 1] } else if n < 2 { vec![1, s2[1], 1] } else { x.shape.clone() };
                c.case(|| tag("atleast"), || {
                    for (g, s) in [(v.atleast_1d_f(), &s1), (v.atleast_2d_f(), &s2), (v.atleast_3d_f(), &s3)] {
                        match g {
                            Ok(g) => same(&nd(&g)?, &Nd { shape: s.clone(), data: x.data.clone() })?,
                            Err(e) => return Err(format!("rejected {:?}", e.inner)),
                        }
                    }
                    Ok(())
                });
            }
        }
        // ---- gather
        for it in 0..c.q(3000, 30000) {
            let s = if it % 60 == 59 { r.pick(&[vec![20, 30], vec![5, 17, 9], vec![1200], vec![60, 70]]) } else { r.pick(&all) };
            let l = rand_src(&s, &mut r);
            let v = vals(&l, 0, 9973, 3);
            let x = read(&v, &l).unwrap();
            let t: V = rt::asarray((&v, l.clone(), &d));
            let n = s.len();
            let ax = r.range(-(n as isize) - 1, n as isize);
            let len = norm(ax, n).map_or(2, |k| s[k]) as isize;
            let mut idx: Vec<isize> = vec![];
            for _ in 0..r.below(6) {
                if len > 0 {
                    idx.push(r.range(-len, len - 1))
                }
            }
            match r.below(8) {
                0 => idx.push(len),
                1 => idx.push(-len - 1),
                2 => idx.insert(0, len + 2),
                _ => {},
            }
            let w = gather_m(&x, ax, &idx);
            let tag = |q: &str| format!("{:?} {} {} axis {} indices {:?}", o, q, fmt_l(&l), ax, idx);
            c.section(format!("{}.index_select", NAME));
            c.case(|| tag("index_select"), || want_t(rt::index_select_f(&t, ax, &idx), &w, "index_select_f"));
            c.case(|| tag("take"), || want_t(t.take_f(&idx, ax), &w, "take_f"));
            if n == 2 {
                c.case(|| tag("fixed rank"), || {
                    let f = t.view().into_dim::<Ix2>();
                    want_t(f.index_select_f(ax, &idx), &w, "index_select_f")
                });
            }
            c.section(format!("{}.bool_select", NAME));
            let mut mask: Vec<bool> = (0..len).map(|_| r.below(2) == 0).collect();
            let mut bad = false;
            match r.below(10) {
                0 => {
                    mask.push(r.below(2) == 0);
                    bad = true;
                },
                1 if !mask.is_empty() => {
                    mask.pop();
                    bad = true;
                },
                _ => {},
            }
            let mi: Vec<isize> = (0..mask.len()).filter(|&k| mask[k]).map(|k| k as isize).collect();
            let w = if bad { None } else { gather_m(&x, ax, &mi) };
            c.case(
                || format!("{:?} bool_select {} axis {} mask {:?}", o, fmt_l(&l), ax, mask),
                || want_t(rt::bool_select_f(&t, ax, &mask), &w, "bool_select_f"),
            );
        }
        // ---- coordinate grids
        c.section(format!("{}.meshgrid", NAME));
        for _ in 0..c.q(400, 4000) {
            let m = r.below(5);
            let srcs: Vec<(L, Vec<i64>)> = (0..m)
                .map(|q| {
                    let s = if r.below(25) == 0 { r.pick(&all) } else { vec![r.below(4)] };
                    let l = rand_src(&s, &mut r);
                    let v = vals(&l, (q * 100) as i64, 97, q);
                    (l, v)
                })
                .collect();
            let xs: Vec<Nd<i64>> = srcs.iter().map(|(l, v)| read(v, l).unwrap()).collect();
            let vs: Vec<V> = srcs.iter().map(|(l, v)| rt::asarray((v, l.clone(), &d))).collect();
            for mode in ["ij", "xy", "yx"] {
                let w: Option<Vec<Nd<i64>>> = if mode == "yx" || xs.iter().any(|x| x.shape.len() != 1) {
                    None
                } else {
                    let mut pos: Vec<usize> = (0..m).collect();
                    if mode == "xy" && m >= 2 {
                        pos.swap(0, 1)
                    }
                    let mut sh = vec![0; m];
                    for q in 0..m {
                        sh[pos[q]] = xs[q].shape[0];
                    }
                    Some((0..m).map(|q| Nd::from_fn(&sh, |i| xs[q].get(&[i[pos[q]]]))).collect())
                };
                for copy in [true, false] {
                    c.case(
                        || format!("{:?} meshgrid {} copy {} {}", o, mode, copy, srcs.iter().map(|(l, _)| fmt_l(l)).collect::<Vec<_>>().join(" | ")),
                        || want_v!(rt::meshgrid_f((&vs, mode, copy)), w.as_ref(), "meshgrid_f"),
                    );
                }
                if mode == "xy" {
                    c.case(
                        || format!("{:?} meshgrid default {}", o, srcs.iter().map(|(l, _)| fmt_l(l)).collect::<Vec<_>>().join(" | ")),
                        || want_v!(rt::meshgrid_f(&vs), w.as_ref(), "meshgrid_f"),
                    );
                }
            }
        }
        // ---- diagonal matrix
        c.section(format!("{}.diag", NAME));
        for s in &all {
            for _ in 0..c.q(2, 12) {
                let l = rand_src(s, &mut r);
                let v = vals(&l, 1, 9973, 3);
                let x = read(&v, &l).unwrap();
                let t: V = rt::asarray((&v, l.clone(), &d));
                for k in -6..=6isize {
                    let w = match s.len() {
                        1 => {
                            let n = s[0] + k.unsigned_abs();
                            Some(Nd::from_fn(&[n, n], |i| {
                                if i[1] as isize - i[0] as isize == k {
                                    x.get(&[i[0].min(i[1])])
                                } else {
                                    0
                                }
                            }))
                        },
                        2 => {
                            let (r0, c0) = if k >= 0 { (0, k as usize) } else { (k.unsigned_abs(), 0) };
                            let m = s[0].saturating_sub(r0).min(s[1].saturating_sub(c0));
                            Some(Nd::from_fn(&[m], |i| x.get(&[i[0] + r0, i[0] + c0])))
                        },
                        _ => None,
                    };
                    c.case(|| format!("{:?} diag {} k {}", o, fmt_l(&l), k), || want_t(rt::diag_f((&t, k)), &w, "diag_f"));
                    if k == 0 {
                        c.case(|| format!("{:?} diag {} default", o, fmt_l(&l)), || want_t(rt::diag_f(&t), &w, "diag_f"));
                    }
                }
            }
        }
    }
}

fn c13(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let d = dev(FlagOrder::C);
    // ---- ranges
    macro_rules! ranges {
        ($ty:ty, $cases:expr) => {{
            c.section(format!("{}.arange.{}", NAME, stringify!($ty)));
            for (a, b, s) in $cases {
                let (a, b, s): ($ty, $ty, $ty) = (a, b, s);
                let mut w: Vec<$ty> = vec![];
                if s != 0 as $ty {
                    let (a1, b1, s1) = (a as i128, b as i128, s as i128);
                    let mut x = a1;
                    while (s1 > 0 && x < b1) || (s1 < 0 && x > b1) {
                        w.push(x as $ty);
                        x += s1;
                    }
                }
                c.case(
                    || format!("arange({}, {}, {})", a, b, s),
                    || match rt::arange_f((a, b, s, &d)) {
                        Ok(t) => {
                            ensure!(s != 0 as $ty, "zero step accepted");
                            ensure!(*t.shape() == vec![w.len()], "shape {:?}, expected [{}]", t.shape(), w.len());
                            let l = t.layout().to_dim::<IxD>().map_err(|e| format!("{:?}", e.inner))?;
                            let g = read(t.raw(), &l)?;
                            ensure!(g.data == w, "{:?}, expected {:?}", g.data, w);
                            Ok(())
                        },
                        Err(e) => {
                            ensure!(s == 0 as $ty, "rejected with {:?}", e.inner);
                            Ok(())
                        },
                    },
                );
                if s == 1 as $ty {
                    c.case(
                        || format!("arange({}, {})", a, b),
                        || {
                            let t = rt::arange_f((a, b, &d)).map_err(|e| format!("{:?}", e.inner))?;
                            ensure!(t.raw()[..] == w[..], "{:?}, expected {:?}", t.raw(), w);
                            if a == 0 as $ty {
                                let t = rt::arange_f((b, &d)).map_err(|e| format!("{:?}", e.inner))?;
                                ensure!(t.raw()[..] == w[..], "{:?}, expected {:?}", t.raw(), w);
                            }
                            Ok(())
                        },
                    );
                }
            }
        }};
    }
    macro_rules! signed {
        ($ty:ty) => {{
            let mut v: Vec<($ty, $ty, $ty)> = vec![];
            for a in -7..8i32 {
                for b in -7..8i32 {
                    for s in -4..5i32 {
                        v.push((a as $ty, b as $ty, s as $ty));
                    }
                }
            }
            for (x, y) in [(<$ty>::MAX, 1), (<$ty>::MIN, -1)] {
                for k in 0..6 {
                    for s in 1..5 {
                        // ranges that end at the edge of the type
                        let y: $ty = y;
                        v.push((x - y * (3 * s + k), x, y * s));
                        v.push((x, x - y * (3 * s + k), -y * s));
                        v.push((x, x - y * (3 * s + k), y * s));
                    }
                }
            }
            v
        }};
    }
    macro_rules! unsigned {
        ($ty:ty) => {{
            let mut v: Vec<($ty, $ty, $ty)> = vec![];
            for a in 0..9u8 {
                for b in 0..9u8 {
                    for s in 0..5u8 {
                        v.push((a as $ty, b as $ty, s as $ty));
                    }
                }
            }
            for k in 0..6 {
                for s in 1..5 {
                    v.push((<$ty>::MAX - (3 * s + k), <$ty>::MAX, s));
                    v.push((<$ty>::MAX, k, s));
                }
            }
            v
        }};
    }
    ranges!(i32, signed!(i32));
    ranges!(i64, signed!(i64));
    ranges!(isize, signed!(isize));
    ranges!(i8, signed!(i8));
    ranges!(i16, signed!(i16));
    ranges!(u8, unsigned!(u8));
    ranges!(u16, unsigned!(u16));
    ranges!(u32, unsigned!(u32));
    ranges!(u64, unsigned!(u64));
    ranges!(usize, unsigned!(usize));
    // long strides: the number of elements needs more precision than a double has
    let big = 1i64 << 61;
    ranges!(i64, vec![(0, big + 1, big), (0, big, big), (-big - 1, big, big), (0, big - 1, big), (big, -1, -big), (big, 0, -big), (-big, big + 1, big / 2),
        (0, i64::MAX, i64::MAX / 2), (0, i64::MAX, i64::MAX / 3), (1, i64::MAX, i64::MAX - 1), (i64::MIN / 2, i64::MAX / 2, i64::MAX / 4),
        (i64::MIN, i64::MAX, i64::MAX), (i64::MAX, i64::MIN, i64::MIN), (i64::MIN, i64::MAX, i64::MAX / 2 + 7)]);
    ranges!(u64, vec![(0, u64::MAX, u64::MAX / 2), (1, u64::MAX, u64::MAX / 3), (1 << 63, u64::MAX, 1 << 61), (5, 1 << 63, 1 << 62)]);

    // ---- constants, identity, triangles
    let mut all = vec![];
    for n in 0..=3 {
        all.extend(shapes(n, &[0, 1, 2, 3]));
    }
    all.extend([vec![5, 4], vec![4, 5], vec![2, 4, 3], vec![2, 1, 3, 4], vec![2, 2, 3, 3], vec![40, 30]]);
    for o in ORD {
        let d = dev(o);
        for s in &all {
            c.section(format!("{}.constant", NAME));
            for v in [0i64, 1, -9] {
                let w = Some(Nd::from_fn(s, |_| v));
                c.case(|| format!("{:?} full {:?} {}", o, s, v), || {
                    want_t(rt::full_f((s.clone(), v, &d)), &w, "full_f")?;
                    want_t(rt::full_f((s.clone(), v, FlagOrder::C, &d)), &w, "full_f C")?;
                    want_t(rt::full_f((s.clone(), v, FlagOrder::F, &d)), &w, "full_f F")?;
                    if v == 0 {
                        want_t(rt::zeros_f((s.clone(), &d)), &w, "zeros_f")?;
                        want_t(rt::zeros_f((s.clone(), FlagOrder::F, &d)), &w, "zeros_f")?;
                    }
                    if v == 1 {
                        want_t(rt::ones_f((s.clone(), &d)), &w, "ones_f")?;
                        want_t(rt::ones_f((s.clone(), FlagOrder::F, &d)), &w, "ones_f")?;
                    }
                    Ok(())
                });
                // a prescribed layout, and the layout of another tensor
                let l = rand_layout(s, &mut r);
                let buf = vals(&l, 0, 50, 1);
                let t: V = rt::asarray((&buf, l.clone(), &d));
                c.case(|| format!("{:?} full_like {} {}", o, fmt_l(&l), v), || {
                    want_t(rt::full_f((l.clone(), v, &d)), &w, "full_f layout")?;
                    want_t(rt::full_like_f((&t, v)), &w, "full_like_f")?;
                    for io in [TensorIterOrder::C, TensorIterOrder::F, TensorIterOrder::K, TensorIterOrder::A] {
                        want_t(rt::full_like_f((&t, v, io, &d)), &w, "full_like_f order")?;
                    }
                    if v == 0 {
                        want_t(rt::zeros_like_f(&t), &w, "zeros_like_f")?;
                        want_t(rt::zeros_f((l.clone(), &d)), &w, "zeros_f layout")?;
                    }
                    if v == 1 {
                        want_t(rt::ones_like_f(&t), &w, "ones_like_f")?;
                        want_t(rt::ones_f((l.clone(), &d)), &w, "ones_f layout")?;
                    }
                    Ok(())
                });
            }
            // requested memory order
            c.case(|| format!("{:?} order {:?}", o, s), || {
                let st = |o: FlagOrder| if o == FlagOrder::C { cstride(s) } else { fstride(s) };
                for q in ORD {
                    let t: T = ok!(rt::zeros_f((s.clone(), q, &d)));
                    let u: T = ok!(rt::zeros_f((s.clone(), &d)));
                    if size(s) > 0 {
                        for k in 0..s.len() {
                            if s[k] > 1 {
                                ensure!(t.stride()[k] == st(q)[k], "strides {:?} for order {:?}", t.stride(), q);
                                ensure!(u.stride()[k] == st(o)[k], "strides {:?} for default order {:?}", u.stride(), o);
                            }
                        }
                        ensure!(t.raw().len() == size(s), "storage length {}", t.raw().len());
                    }
                }
                Ok(())
            });
            c.section(format!("{}.asarray sizes", NAME));
            c.case(|| format!("{:?} asarray {:?}", o, s), || {
                let n = size(s);
                let v: Vec<i64> = (0..n as i64).collect();
                let w = Nd::from_fn(s, |i| (if o == FlagOrder::C { Nd { shape: s.clone(), data: v.clone() }.pos(i) } else {
                    let mut p = 0;
                    for k in (0..s.len()).rev() { p = p * s[k] + i[k]; }
                    p
                }) as i64);
                want_t(rt::asarray_f((v.clone(), s.clone(), &d)), &Some(w), "asarray_f")?;
                if n > 0 {
                    ensure!(rt::asarray_f((v[..n - 1].to_vec(), s.clone(), &d)).is_err(), "too little data accepted");
                    ensure!(rt::asarray_f((&v[..n - 1], s.clone(), &d)).is_err(), "too little data accepted (slice)");
                }
                Ok(())
            });
            // triangles
            c.section(format!("{}.tril triu", NAME));
            for k in -5..=5isize {
                let l = rand_layout(s, &mut r);
                let buf = vals(&l, 1, 997, 1);
                let x = read(&buf, &l).unwrap();
                let t: V = rt::asarray((&buf, l.clone(), &d));
                let n = s.len();
                for upper in [false, true] {
                    let keep = |i: &[usize]| {
                        let df = i[n - 1] as isize - i[n - 2] as isize;
                        if upper { df >= k } else { df <= k }
                    };
                    let w = if n < 2 { None } else { Some(Nd::from_fn(s, |i| if keep(i) { x.get(i) } else { 0 })) };
                    c.case(|| format!("{:?} {} {} k {}", o, if upper { "triu" } else { "tril" }, fmt_l(&l), k), || {
                        let f = |a: R<T>, what: &str| want_t(a, &w, what);
                        if upper {
                            f(rt::triu_f((t.view(), k)), "triu_f(view)")?;
                            f(rt::triu_f((&t, k)), "triu_f(&view)")?;
                            f(rt::triu_f((owned(&l, &buf, &d), k)), "triu_f(tensor)")?;
                            if k == 0 {
                                f(rt::triu_f(&t), "triu_f default")?;
                            }
                        } else {
                            f(rt::tril_f((t.view(), k)), "tril_f(view)")?;
                            f(rt::tril_f((&t, k)), "tril_f(&view)")?;
                            f(rt::tril_f((owned(&l, &buf, &d), k)), "tril_f(tensor)")?;
                            if k == 0 {
                                f(rt::tril_f(&t), "tril_f default")?;
                            }
                        }
                        // in place: exactly the dropped elements become zero
                        let mut b = buf.clone();
                        let wb = w.as_ref().map(|w| {
                            let mut v = buf.clone();
                            for i in indices(s) {
                                v[l_addr(&l, &i) as usize] = w.get(&i);
                            }
                            v
                        });
                        let res = {
                            let m: TensorMut<'_, i64, Dev, IxD> = rt::asarray((&mut b, l.clone(), &d));
                            if upper { rt::triu_f((m, k)).map(|_| ()) } else { rt::tril_f((m, k)).map(|_| ()) }
                        };
                        want_buf(res, &b, &buf, &wb, "in place")
                    });
                }
            }
        }
        c.section(format!("{}.eye", NAME));
        for n in 0..6usize {
            for m in 0..6usize {
                for k in -7..8isize {
                    let w = Some(Nd::from_fn(&[n, m], |i| (i[1] as isize - i[0] as isize == k) as i64));
                    c.case(|| format!("{:?} eye {} {} {}", o, n, m, k), || {
                        want_t(rt::eye_f((n, m, k, &d)), &w, "eye_f")?;
                        for q in ORD {
                            want_t(rt::eye_f((n, m, k, q, &d)), &w, "eye_f order")?;
                        }
                        if n == m && k == 0 {
                            want_t(rt::eye_f((n, &d)), &w, "eye_f(n)")?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}
