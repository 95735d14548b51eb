// included once per device: element-wise operations, assignment, copies
use super::ops::*;
use super::{Dev, NAME};
use crate::base::*;
use crate::layout2::*;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{Ix0, IxD};

pub fn run(id: &str, c: &mut Ctx) {
    match id {
        "C09" => c09(c),
        _ => {},
    }
}

pub type T = Tensor<i64, Dev, IxD>;
/// operand storage: value by position, in `lo..lo+m`
pub fn vals(l: &L, lo: i64, m: i64, seed: usize) -> Vec<i64> {
    (0..need(l) + 2).map(|p| lo + ((p * 7 + seed * 11 + (p / 5) * 3) as i64) % m).collect()
}
/// some layout of a shape that may be an operand (broadcast axes allowed)
pub fn rand_src(sh: &[usize], r: &mut Rng) -> L {
    let l = rand_layout(sh, r);
    if r.below(4) == 0 && !sh.is_empty() {
        let k = r.below(sh.len());
        let mut st = l.stride().clone();
        st[k] = 0;
        // keep the lowest address inside the buffer
        let b = bounds(sh, &st, 0);
        let off = b.map_or(0, |b| (-b.0) as usize) + r.below(3);
        mk(sh, &st, off)
    } else {
        l
    }
}
pub fn owned(l: &L, buf: &[i64], d: &Dev) -> T {
    rt::asarray((buf.to_vec(), l.clone(), d))
}
fn show(t: Result<Nd<i64>, String>) -> Result<Nd<i64>, String> {
    t
}
/// expect a result tensor equal to the model (None: rejected)
pub fn want_t<D: rstsr_core::prelude_dev::DimAPI>(
    r: rstsr_core::prelude_dev::Result<Tensor<i64, Dev, D>>,
    w: &Option<Nd<i64>>,
    what: &str,
) -> Res {
    match (r, w) {
        (Ok(t), Some(w)) => same(&show(nd(&t))?, w).map_err(|e| format!("{}: {}", what, e)),
        (Ok(t), None) => Err(format!("{}: invalid request accepted, shape {:?}", what, t.shape())),
        (Err(e), Some(_)) => Err(format!("{}: rejected with {:?}", what, e.inner)),
        (Err(_), None) => Ok(()),
    }
}
fn want_b<D: rstsr_core::prelude_dev::DimAPI>(
    r: rstsr_core::prelude_dev::Result<Tensor<bool, Dev, D>>,
    w: &Option<Nd<i64>>,
    what: &str,
) -> Res {
    match (r, w) {
        (Ok(t), Some(w)) => {
            let l = t.layout().to_dim::<IxD>().map_err(|e| format!("{:?}", e.inner))?;
            let g = read(t.raw(), &l)?.map(|x| *x as i64);
            same(&g, w).map_err(|e| format!("{}: {}", what, e))
        },
        (Ok(_), None) => Err(format!("{}: invalid request accepted", what)),
        (Err(e), Some(_)) => Err(format!("{}: rejected with {:?}", what, e.inner)),
        (Err(_), None) => Ok(()),
    }
}
/// model of a broadcasting binary operation
pub fn bin(a: &Nd<i64>, b: &Nd<i64>, o: FlagOrder, f: impl Fn(i64, i64) -> i64) -> Option<Nd<i64>> {
    let sh = bcast_def(&a.shape, &b.shape, o)?;
    Some(Nd::from_fn(&sh, |i| f(a.get(&bcast_index(&a.shape, i, o)), b.get(&bcast_index(&b.shape, i, o)))))
}
/// model of storage after an in-place operation with a right operand
pub fn inplace(
    buf: &[i64],
    l: &L,
    b: &Nd<i64>,
    o: FlagOrder,
    f: impl Fn(i64, i64) -> i64,
) -> Option<Vec<i64>> {
    if bcast_def(l.shape(), &b.shape, o)? != *l.shape() {
        return None;
    }
    let mut w = buf.to_vec();
    for i in indices(l.shape()) {
        let p = l_addr(l, &i) as usize;
        w[p] = f(buf[p], b.get(&bcast_index(&b.shape, &i, o)));
    }
    Some(w)
}
pub fn is_bcast(l: &L) -> bool {
    (0..l.ndim()).any(|k| l.shape()[k] > 1 && l.stride()[k] == 0)
}
pub fn want_buf(r: rstsr_core::prelude_dev::Result<()>, got: &[i64], before: &[i64], w: &Option<Vec<i64>>, what: &str) -> Res {
    match (r, w) {
        (Ok(()), Some(w)) => {
            for k in 0..w.len() {
                ensure!(got[k] == w[k], "{}: storage position {} holds {}, expected {} (before {})", what, k, got[k], w[k], before[k]);
            }
            Ok(())
        },
        (Ok(()), None) => Err(format!("{}: invalid request accepted", what)),
        (Err(e), Some(_)) => Err(format!("{}: rejected with {:?}", what, e.inner)),
        (Err(_), None) => {
            ensure!(got == before, "{}: rejected, but storage changed", what);
            Ok(())
        },
    }
}

type F2 = fn(i64, i64) -> i64;

/// pairs of shapes for binary operations
fn pairs(c: &Ctx, r: &mut Rng) -> Vec<(Vec<usize>, Vec<usize>)> {
    let mut v = vec![];
    let mut all = vec![];
    for n in 0..=3 {
        all.extend(shapes(n, if n == 3 { &[0, 1, 2, 3] } else { &[0, 1, 2, 3, 5] }));
    }
    for _ in 0..c.q(700, 8000) {
        let a = r.pick(&all);
        // derive a (mostly) compatible partner
        let mut b: Vec<usize> = a.clone();
        for x in b.iter_mut() {
            match r.below(8) {
                0 | 1 => *x = 1,
                2 => *x = r.below(4),
                _ => {},
            }
        }
        match r.below(6) {
            0 if !b.is_empty() => {
                b.remove(0);
            },
            1 if !b.is_empty() => {
                b.pop();
            },
            2 => b.insert(0, 1 + r.below(2)),
            _ => {},
        }
        if r.below(2) == 0 {
            v.push((a, b))
        } else {
            v.push((b, a))
        }
    }
    // long enough for the blocked and the multi-threaded code
    let big: Vec<(Vec<usize>, Vec<usize>)> = vec![
        (vec![40], vec![40]),
        (vec![40], vec![1]),
        (vec![3, 40], vec![40]),
        (vec![40, 3], vec![40, 1]),
        (vec![40, 3], vec![1, 3]),
        (vec![2, 33, 3], vec![2, 33, 3]),
        (vec![2, 5, 20], vec![5, 1]),
        (vec![70, 71], vec![70, 71]),
        (vec![70, 71], vec![1, 71]),
        (vec![70, 71], vec![70, 1]),
        (vec![17, 18, 19], vec![17, 18, 19]),
        (vec![17, 1, 19], vec![1, 18, 1]),
        (vec![5000], vec![5000]),
    ];
    for p in big {
        for _ in 0..c.q(6, 30) {
            v.push(p.clone());
        }
    }
    for _ in 0..c.q(2, 12) {
        v.push((vec![130, 131], vec![130, 131]));
        v.push((vec![17000], vec![17000]));
        v.push((vec![129, 3, 47], vec![129, 3, 47]));
    }
    v
}

fn c09(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let ps = pairs(c, &mut r);
    for o in ORD {
        let d = dev(o);
        for (sa, sb) in &ps {
            let (la, lb) = (rand_src(sa, &mut r), rand_src(sb, &mut r));
            let sc = bcast_def(sa, sb, o).unwrap_or(sa.clone());
            let lc = rand_layout(&sc, &mut r);
            let (da, db, dc) = (vals(&la, -40, 83, 1), vals(&lb, 1, 9, 2), vals(&lc, 100, 50, 3));
            let (xa, xb) = (read(&da, &la).unwrap(), read(&db, &lb).unwrap());
            let tag = |s: &str| format!("{:?} {} a {} b {} c {}", o, s, fmt_l(&la), fmt_l(&lb), fmt_l(&lc));
            let (ua, ub): (V, V) = (rt::asarray((&da, la.clone(), &d)), rt::asarray((&db, lb.clone(), &d)));
            let big = size(&sc) > 3000;

            c.section(format!("{}.arithmetic", NAME));
            macro_rules! arith {
                ($f:ident, $wo:ident, $as_:ident, $tr:ident, $($op:tt)+) => {{
                    let f: F2 = |x, y| x $($op)+ y;
                    c.case(|| tag(stringify!($f)), || {
                        let w = bin(&xa, &xb, o, f);
                        want_t(rt::$f(&ua, &ub), &w, "&a, &b")?;
                        want_t(rt::$f(ua.view(), ub.view()), &w, "view, view")?;
                        want_t(rt::$f(ua.view(), &ub), &w, "view, &b")?;
                        want_t(rt::$f(&ua, ub.view()), &w, "&a, view")?;
                        want_t(rt::$f(owned(&la, &da, &d), &ub), &w, "owned, &b")?;
                        want_t(rt::$f(&ua, owned(&lb, &db, &d)), &w, "&a, owned")?;
                        want_t(rt::$f(owned(&la, &da, &d), owned(&lb, &db, &d)), &w, "owned, owned")?;
                        want_t(rt::$f(owned(&la, &da, &d), ub.view()), &w, "owned, view")?;
                        want_t(rt::$f(ua.view(), owned(&lb, &db, &d)), &w, "view, owned")?;
                        ensure!(da == *ua.raw() && db == *ub.raw(), "operand changed");
                        // scalars
                        let w = Some(xa.map(|x| f(*x, 3)));
                        want_t(rt::$f(&ua, 3), &w, "&a, 3")?;
                        want_t(rt::$f(ua.view(), 3), &w, "view, 3")?;
                        want_t(rt::$f(owned(&la, &da, &d), 3), &w, "owned, 3")
                    });
                    if !big || stringify!($f) == "sub_f" {
                        c.case(|| tag(stringify!($f left scalar)), || {
                            let w = Some(xb.map(|x| f(1000, *x)));
                            want_t(rt::$f(1000i64, &ub), &w, "1000, &b")?;
                            want_t(rt::$f(1000i64, ub.view()), &w, "1000, view")?;
                            want_t(rt::$f(1000i64, owned(&lb, &db, &d)), &w, "1000, owned")
                        });
                    }
                    c.case(|| tag(stringify!($wo)), || {
                        let w = bin(&xa, &xb, o, f);
                        let wb = w.as_ref().map(|w| {
                            let mut v = dc.clone();
                            for i in indices(&sc) {
                                v[l_addr(&lc, &i) as usize] = w.get(&i);
                            }
                            v
                        });
                        let mut buf = dc.clone();
                        let t: TensorMut<i64, Dev, IxD> = rt::asarray((&mut buf, lc.clone(), &d));
                        let res = rt::$wo(&ua, &ub, t);
                        want_buf(res, &buf, &dc, &wb, "output")
                    });
                    c.case(|| tag(stringify!($as_)), || {
                        // in place on c with right operand b
                        let w = inplace(&dc, &lc, &xb, o, f);
                        let mut buf = dc.clone();
                        let mut t: TensorMut<i64, Dev, IxD> = rt::asarray((&mut buf, lc.clone(), &d));
                        let res = rt::$as_(&mut t, &ub);
                        want_buf(res, &buf, &dc, &w, "&b")?;
                        let mut buf = dc.clone();
                        let mut t: TensorMut<i64, Dev, IxD> = rt::asarray((&mut buf, lc.clone(), &d));
                        let res = rt::$as_(&mut t, 3);
                        let w = inplace(&dc, &lc, &Nd { shape: vec![], data: vec![3] }, o, f);
                        want_buf(res, &buf, &dc, &w, "3")
                    });
                }};
            }
            arith!(add_f, add_with_output_f, add_assign_f, Add, +);
            arith!(sub_f, sub_with_output_f, sub_assign_f, Sub, -);
            if !big {
                arith!(mul_f, mul_with_output_f, mul_assign_f, Mul, *);
                arith!(div_f, div_with_output_f, div_assign_f, Div, /);
                arith!(bitand_f, bitand_with_output_f, bitand_assign_f, BitAnd, &);
                arith!(bitor_f, bitor_with_output_f, bitor_assign_f, BitOr, |);
                arith!(bitxor_f, bitxor_with_output_f, bitxor_assign_f, BitXor, ^);
                arith!(shl_f, shl_with_output_f, shl_assign_f, Shl, <<);
                arith!(shr_f, shr_with_output_f, shr_assign_f, Shr, >>);
                c.case(|| tag("rem_f"), || {
                    let w = bin(&xa, &xb, o, |x, y| x % y);
                    want_t(rt::rem_f(&ua, &ub), &w, "&a, &b")?;
                    want_t(rt::rem_f(owned(&la, &da, &d), &ub), &w, "owned, &b")?;
                    want_t(rt::rem_f(&ua, owned(&lb, &db, &d)), &w, "&a, owned")?;
                    want_t(rt::rem_f(owned(&la, &da, &d), owned(&lb, &db, &d)), &w, "owned, owned")?;
                    let w = Some(xa.map(|x| x % 7));
                    want_t(rt::rem_f(&ua, 7), &w, "&a, 7")?;
                    want_t(rt::rem_f(owned(&la, &da, &d), 7), &w, "owned, 7")?;
                    let mut buf = dc.clone();
                    let mut t: TensorMut<i64, Dev, IxD> = rt::asarray((&mut buf, lc.clone(), &d));
                    let res = rt::rem_assign_f(&mut t, &ub);
                    want_buf(res, &buf, &dc, &inplace(&dc, &lc, &xb, o, |x, y| x % y), "%=")
                });
            }
            c.section(format!("{}.binary functions", NAME));
            macro_rules! common {
                ($f:ident, $want:ident, $m:expr) => {{
                    c.case(|| tag(stringify!($f)), || {
                        let m: F2 = $m;
                        let w = bin(&xa, &xb, o, m);
                        $want((&ua).$f(&ub), &w, "&a, &b")?;
                        $want(ua.view().$f(&ub), &w, "view, &b")?;
                        $want((&ua).$f(ub.view()), &w, "&a, view")?;
                        $want(ua.view().$f(ub.view()), &w, "view, view")?;
                        let w = Some(xa.map(|x| m(*x, 4)));
                        $want((&ua).$f(4i64), &w, "&a, 4")?;
                        let w = Some(xb.map(|x| m(4, *x)));
                        $want(4i64.$f(&ub), &w, "4, &b")?;
                        ensure!(da == *ua.raw() && db == *ub.raw(), "operand changed");
                        Ok(())
                    });
                }};
            }
            common!(maximum_f, want_t, |x, y| x.max(y));
            if !big {
                common!(minimum_f, want_t, |x, y| x.min(y));
                common!(floor_divide_f, want_t, |x, y| x.div_euclid(y));
                common!(equal_f, want_b, |x, y| (x == y) as i64);
                common!(not_equal_f, want_b, |x, y| (x != y) as i64);
                common!(less_f, want_b, |x, y| (x < y) as i64);
                common!(less_equal_f, want_b, |x, y| (x <= y) as i64);
                common!(greater_f, want_b, |x, y| (x > y) as i64);
                common!(greater_equal_f, want_b, |x, y| (x >= y) as i64);
            }
            c.section(format!("{}.maps", NAME));
            c.case(|| tag("map"), || {
                let w = Some(xa.map(|x| x * 3 - 1));
                want_t(ua.map_f(|x| x * 3 - 1), &w, "map")?;
                want_t(ua.mapv_f(|x| x * 3 - 1), &w, "mapv")?;
                serial_only! {
                let mut n = 0;
                want_t(
                    ua.map_fnmut_f(|x| {
                        n += 1;
                        x * 3 - 1
                    }),
                    &w,
                    "map_fnmut",
                )?;
                ensure!(n == size(sa), "map_fnmut called {} times for {} elements", n, size(sa));
                want_t(ua.mapv_fnmut_f(|x| x * 3 - 1), &w, "mapv_fnmut")?;
                }
                Ok(())
            });
            c.case(|| tag("mapb"), || {
                let w = bin(&xa, &xb, o, |x, y| x * 100 - y);
                want_t(ua.mapb_f(&ub, |x, y| x * 100 - y), &w, "mapb")?;
                want_t(ua.mapvb_f(&ub, |x, y| x * 100 - y), &w, "mapvb")?;
                serial_only! {
                want_t(ua.mapb_fnmut_f(&ub, |x, y| x * 100 - y), &w, "mapb_fnmut")?;
                want_t(ua.mapvb_fnmut_f(&ub, |x, y| x * 100 - y), &w, "mapvb_fnmut")?;
                }
                Ok(())
            });
            let zero = Nd { shape: vec![], data: vec![0] };
            macro_rules! mapi {
                ($what:literal, $t:ident, $e:expr) => {
                    c.case(|| tag($what), || {
                        let w = inplace(&dc, &lc, &zero, o, |x, _| x * 2 + 1);
                        let mut buf = dc.clone();
                        let mut $t: TensorMut<i64, Dev, IxD> = rt::asarray((&mut buf, lc.clone(), &d));
                        let res = $e;
                        want_buf(res, &buf, &dc, &w, $what)
                    });
                };
            }
            mapi!("mapi", t, t.mapi_f(|x| *x = *x * 2 + 1));
            serial_only! {             mapi!("mapi_fnmut", t, t.mapi_fnmut_f(|x| *x = *x * 2 + 1));
            }
            mapi!("mapvi", t, t.mapvi_f(|x| x * 2 + 1));
            serial_only! {             mapi!("mapvi_fnmut", t, t.mapvi_fnmut_f(|x| x * 2 + 1));
            }
            c.section(format!("{}.assignment", NAME));
            c.case(|| tag("assign"), || {
                let w = inplace(&dc, &lc, &xb, o, |_, y| y);
                let mut buf = dc.clone();
                let mut t: TensorMut<i64, Dev, IxD> = rt::asarray((&mut buf, lc.clone(), &d));
                let res = t.assign_f(&ub);
                want_buf(res, &buf, &dc, &w, "assign")?;
                let mut buf = dc.clone();
                let mut t: TensorMut<i64, Dev, IxD> = rt::asarray((&mut buf, lc.clone(), &d));
                let res = t.assign_f(owned(&lb, &db, &d));
                want_buf(res, &buf, &dc, &w, "assign owned")
            });
            c.case(|| tag("assign with a type conversion"), || {
                let w = inplace(&dc, &lc, &xb, o, |_, y| y);
                let mut buf = dc.clone();
                let mut t: TensorMut<i64, Dev, IxD> = rt::asarray((&mut buf, lc.clone(), &d));
                let b32: Vec<i32> = db.iter().map(|x| *x as i32).collect();
                let v: TensorView<i32, Dev, IxD> = rt::asarray((&b32, lb.clone(), &d));
                let res = t.assign_f(&v);
                want_buf(res, &buf, &dc, &w, "assign i32")
            });
            c.case(|| tag("fill"), || {
                let w = inplace(&dc, &lc, &zero, o, |_, _| 77);
                let mut buf = dc.clone();
                let mut t: TensorMut<i64, Dev, IxD> = rt::asarray((&mut buf, lc.clone(), &d));
                let res = t.fill_f(77i64);
                want_buf(res, &buf, &dc, &w, "fill")?;
                let mut buf = dc.clone();
                let mut t: TensorMut<i64, Dev, IxD> = rt::asarray((&mut buf, lc.clone(), &d));
                let res = t.fill_f(77i32);
                want_buf(res, &buf, &dc, &w, "fill i32")
            });
            c.section(format!("{}.unary", NAME));
            macro_rules! unary {
                ($f:ident, $m:expr) => {{
                    c.case(|| tag(stringify!($f)), || {
                        let m: fn(&i64) -> i64 = $m;
                        let w = Some(xa.map(m));
                        want_t((&ua).$f(), &w, "&a")?;
                        want_t(ua.view().$f(), &w, "view")?;
                        want_t(owned(&la, &da, &d).$f(), &w, "owned")?;
                        ensure!(da == *ua.raw(), "operand changed");
                        Ok(())
                    });
                }};
            }
            c.case(|| tag("neg, not"), || {
                let w = Some(xa.map(|x| -x));
                want_t(rt::neg_f(&ua), &w, "-&a")?;
                want_t(rt::neg_f(ua.view()), &w, "-view")?;
                want_t(rt::neg_f(owned(&la, &da, &d)), &w, "-owned")?;
                let w = Some(xa.map(|x| !x));
                want_t(rt::not_f(&ua), &w, "!&a")?;
                want_t(rt::not_f(owned(&la, &da, &d)), &w, "!owned")
            });
            unary!(square_f, |x| x * x);
            unary!(abs_f, |x| x.abs());
            unary!(sign_f, |x| x.signum());
            c.section(format!("{}.created destination", NAME));
            c.case(|| tag("zeros"), || {
                let mut t = ok!(rt::zeros_f((sa.clone(), &d)));
                let w = bin(&Nd::from_fn(sa, |_| 0), &xb, o, |_, y| y).filter(|w| w.shape == *sa);
                let r: rstsr_core::prelude_dev::Result<T> = t.assign_f(&ub).map(|_| t);
                want_t(r, &w, "assign")?;
                let mut t: T = ok!(rt::zeros_f((sa.clone(), &d)));
                ok!(t.fill_f(5));
                same(&nd(&t)?, &Nd::from_fn(sa, |_| 5))?;
                ok!(rt::add_assign_f(&mut t, 2));
                same(&nd(&t)?, &Nd::from_fn(sa, |_| 7))
            });
            c.section(format!("{}.fixed rank", NAME));
            macro_rules! fixed {
                ($na:literal, $ta:ty, $nb:literal, $tb:ty) => {
                    if sa.len() == $na && sb.len() == $nb {
                        c.case(|| tag(stringify!($ta with $tb)), || {
                            let w = bin(&xa, &xb, o, |x, y| x - y);
                            let fa = ok!(ua.view().into_dim_f::<$ta>());
                            let fb = ok!(ub.view().into_dim_f::<$tb>());
                            want_t(rt::sub_f(&fa, &fb), &w, "&a, &b")?;
                            want_t((&fa).maximum_f(&fb), &bin(&xa, &xb, o, |x, y| x.max(y)), "maximum")?;
                            want_t(rt::sub_f(ok!(owned(&la, &da, &d).into_dim_f::<$ta>()), &fb), &w, "owned, &b")?;
                            want_t(rt::sub_f(&fa, ok!(owned(&lb, &db, &d).into_dim_f::<$tb>())), &w, "&a, owned")?;
                            if sc == *sa {
                                let mut buf = dc.clone();
                                let t: TensorMut<i64, Dev, IxD> = rt::asarray((&mut buf, lc.clone(), &d));
                                let mut t = ok!(t.into_dim_f::<$ta>());
                                let res = t.assign_f(&fb);
                                want_buf(res, &buf, &dc, &inplace(&dc, &lc, &xb, o, |_, y| y), "assign")?;
                            }
                            Ok(())
                        });
                    }
                };
            }
            fixed!(1, Ix1, 1, Ix1);
            fixed!(2, Ix2, 1, Ix1);
            fixed!(1, Ix1, 2, Ix2);
            fixed!(2, Ix2, 2, Ix2);
            fixed!(3, Ix3, 2, Ix2);
            fixed!(3, Ix3, 3, Ix3);
            fixed!(2, Ix2, 0, Ix0);
            // destinations that repeat storage are rejected
            c.section(format!("{}.broadcast destination", NAME));
            if !sc.is_empty() {
                let k = r.below(sc.len());
                let mut st = lc.stride().clone();
                st[k] = 0;
                let off = bounds(&sc, &st, 0).map_or(0, |b| (-b.0) as usize);
                let lz = mk(&sc, &st, off);
                if is_bcast(&lz) && size(&sc) > 0 {
                    let dz = vals(&lz, 100, 50, 3);
                    macro_rules! rej {
                        ($what:literal, $t:ident, $e:expr) => {
                            c.case(|| format!("{} {}", tag($what), fmt_l(&lz)), || {
                                let mut buf = dz.clone();
                                let mut $t: TensorMut<i64, Dev, IxD> = rt::asarray((&mut buf, lz.clone(), &d));
                                let res = $e;
                                want_buf(res, &buf, &dz, &None, $what)
                            });
                        };
                    }
                    rej!("assign", t, t.assign_f(&ub));
                    rej!("fill", t, t.fill_f(3));
                    rej!("add_assign &b", t, rt::add_assign_f(&mut t, &ub));
                    rej!("sub_with_output", t, rt::sub_with_output_f(&ua, &ub, t.view_mut()));
                    // functions of the single element are applied once to every storage position
                    macro_rules! once {
                        ($what:literal, $t:ident, $m:expr, $e:expr) => {
                            c.case(|| format!("{} {}", tag($what), fmt_l(&lz)), || {
                                let m: fn(i64) -> i64 = $m;
                                let mut buf = dz.clone();
                                let mut $t: TensorMut<i64, Dev, IxD> = rt::asarray((&mut buf, lz.clone(), &d));
                                let res = $e;
                                let mut w = dz.clone();
                                for i in indices(&sc) {
                                    let p = l_addr(&lz, &i) as usize;
                                    w[p] = m(dz[p]);
                                }
                                want_buf(res, &buf, &dz, &Some(w), $what)
                            });
                        };
                    }
                    once!("add_assign 3", t, |x| x + 3, rt::add_assign_f(&mut t, 3));
                    once!("mapi", t, |x| x * 2 + 1, t.mapi_f(|x| *x = *x * 2 + 1));
                    once!("mapvi", t, |x| x * 2 + 1, t.mapvi_f(|x| x * 2 + 1));
                    serial_only! { once!("mapi_fnmut", t, |x| x * 2 + 1, t.mapi_fnmut_f(|x| *x = *x * 2 + 1)); }
                }
            }
        }
    }
}
