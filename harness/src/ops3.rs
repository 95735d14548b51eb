// included once per device: reductions
use super::ops::*;
use super::ops2::*;
use super::{Dev, NAME};
use crate::base::*;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::IxD;
use std::num::Wrapping;

pub fn run(id: &str, c: &mut Ctx) {
    match id {
        "C10" => c10(c),
        _ => {},
    }
}
type R<X> = rstsr_core::prelude_dev::Result<X>;
pub fn nd_of<X: Clone + std::fmt::Debug>(t: &Tensor<X, Dev, IxD>) -> Result<Nd<X>, String>
where
    Dev: DeviceAPI<X> + DeviceRawAPI<X, Raw = Vec<X>>,
{
    let l = t.layout().to_dim::<IxD>().map_err(|e| format!("{:?}", e.inner))?;
    read(t.raw(), &l)
}
/// normalised axes, None if invalid
pub fn norm_axes(ax: &[isize], n: usize) -> Option<Vec<usize>> {
    let mut v = vec![];
    for &a in ax {
        let b = if a < 0 { a + n as isize } else { a };
        if b < 0 || b >= n as isize || v.contains(&(b as usize)) {
            return None;
        }
        v.push(b as usize);
    }
    Some(v)
}
/// the elements along the reduced axes (row-major over the reduced axes in the order they are listed), per kept multi-index
pub fn groups<X: Clone + std::fmt::Debug>(a: &Nd<X>, ax: &[usize]) -> Nd<Vec<X>> {
    let n = a.shape.len();
    let s = ax.to_vec();
    let kept: Vec<usize> = (0..n).filter(|k| !s.contains(k)).collect();
    let ks: Vec<usize> = kept.iter().map(|&k| a.shape[k]).collect();
    let rs: Vec<usize> = s.iter().map(|&k| a.shape[k]).collect();
    let ri = indices(&rs);
    Nd::from_fn(&ks, |i| {
        ri.iter()
            .map(|j| {
                let mut x = vec![0; n];
                for (p, &k) in kept.iter().enumerate() {
                    x[k] = i[p];
                }
                for (p, &k) in s.iter().enumerate() {
                    x[k] = j[p];
                }
                a.get(&x)
            })
            .collect()
    })
}
fn first_pos(v: &[i64], best: impl Fn(i64, i64) -> bool) -> usize {
    let mut p = 0;
    for k in 1..v.len() {
        if best(v[k], v[p]) {
            p = k;
        }
    }
    p
}
fn unravel(p: usize, sh: &[usize]) -> Vec<usize> {
    indices(sh)[p].clone()
}

fn c10(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let mut cases: Vec<(Vec<usize>, L)> = vec![];
    let mut all = vec![];
    for n in 0..=3 {
        all.extend(shapes(n, if n == 3 { &[0, 1, 2, 3] } else { &[0, 1, 2, 3, 5] }));
    }
    all.push(vec![2, 3, 2, 2]);
    all.push(vec![2, 1, 3, 2]);
    all.push(vec![2, 2, 2, 1, 3]);
    for s in &all {
        for (_, l) in crate::layout2::sources(s) {
            cases.push((s.clone(), l));
        }
        for _ in 0..c.q(3, 30) {
            cases.push((s.clone(), rand_src(s, &mut r)));
        }
    }
    for s in [
        vec![40],
        vec![3, 40],
        vec![40, 3],
        vec![7, 33, 3],
        vec![3, 7, 33],
        vec![33, 34],
        vec![2, 70, 49],
        vec![60, 50],
        vec![5000],
        vec![13, 14, 15],
        vec![9, 8, 7, 6],
    ] {
        for (_, l) in crate::layout2::sources(&s) {
            cases.push((s.clone(), l));
        }
        for _ in 0..c.q(8, 60) {
            let mut l = rand_src(&s, &mut r);
            if r.below(3) == 0 {
                // several broadcast axes
                let mut st = l.stride().clone();
                for x in st.iter_mut() {
                    if r.below(2) == 0 {
                        *x = 0
                    }
                }
                let off = bounds(&s, &st, 0).map_or(0, |b| (-b.0) as usize) + r.below(4);
                l = mk(&s, &st, off);
            }
            cases.push((s.clone(), l));
        }
    }
    // views of an array keep their offset inside it even when they are empty
    cases.retain(|(s, l)| {
        let low: isize = s.iter().zip(l.stride()).map(|(&d, &t)| if d > 1 && t < 0 { t * (d as isize - 1) } else { 0 }).sum();
        l.offset() as isize + low >= 0
    });
    for (k, (s, l)) in cases.iter().enumerate() {
        let d = dev(ORD[k % 2]);
        let o = ORD[k % 2];
        let n = s.len();
        let buf = vals(l, -6, 17, k);
        let x = read(&buf, l).unwrap();
        let t: V = rt::asarray((&buf, l.clone(), &d));
        // requests
        let mut reqs: Vec<Option<Vec<isize>>> = vec![None];
        for m in 0..(1usize << n.min(5)) {
            let mut q: Vec<isize> = (0..n).filter(|k| m >> k & 1 == 1).map(|k| k as isize).collect();
            for x in q.iter_mut() {
                if r.below(3) == 0 {
                    *x -= n as isize
                }
            }
            if q.len() > 1 && r.below(3) == 0 {
                q.reverse();
            }
            reqs.push(Some(q));
        }
        reqs.push(Some(vec![n as isize]));
        reqs.push(Some(vec![-(n as isize) - 1]));
        if n > 0 {
            reqs.push(Some(vec![0, -(n as isize)]));
            reqs.push(Some(vec![n as isize - 1, n as isize - 1]));
            reqs.push(Some(vec![0, n as isize]));
        }
        for q in &reqs {
            let big = size(s) > 500;
            let tag = |w: &str| format!("{:?} {} {} axes {:?}", o, w, fmt_l(l), q);
            let ax = match q {
                None => Some((0..n).collect::<Vec<usize>>()),
                Some(q) => norm_axes(q, n),
            };
            let g = ax.as_ref().map(|a| groups(&x, a));
            macro_rules! req {
                ($t:expr, $f:ident) => {
                    match q {
                        None => $t.$f(None),
                        Some(q) => $t.$f(q.clone()),
                    }
                };
            }
            fn cmp<X: Clone + PartialEq + std::fmt::Debug>(r: R<Tensor<X, Dev, IxD>>, w: Option<Nd<X>>) -> Res
            where
                Dev: DeviceAPI<X> + DeviceRawAPI<X, Raw = Vec<X>>,
            {
                match (r, w) {
                    (Ok(t), Some(w)) => same(&nd_of(&t)?, &w),
                    (Ok(t), None) => Err(format!("invalid request accepted, shape {:?}", t.shape())),
                    (Err(e), Some(_)) => Err(format!("rejected with {:?}", e.inner)),
                    (Err(_), None) => Ok(()),
                }
            }
            c.section(format!("{}.reduce", NAME));
            c.case(|| tag("sum"), || cmp(req!(t, sum_axes_f), g.as_ref().map(|g| g.map(|v| v.iter().sum()))));
            c.case(|| tag("count_nonzero"), || {
                cmp(req!(t, count_nonzero_axes_f), g.as_ref().map(|g| g.map(|v| v.iter().filter(|x| **x != 0).count())))
            });
            // extrema are defined only for non-empty tensors
            let ne = g.as_ref().filter(|_| size(s) > 0);
            c.case(|| tag("min"), || cmp(req!(t, min_axes_f), ne.map(|g| g.map(|v| *v.iter().min().unwrap()))));
            c.case(|| tag("max"), || cmp(req!(t, max_axes_f), ne.map(|g| g.map(|v| *v.iter().max().unwrap()))));
            c.case(|| tag("prod"), || {
                let b: Vec<Wrapping<i64>> = buf.iter().map(|x| Wrapping(x * 2 + 1)).collect();
                let t: TensorView<Wrapping<i64>, Dev, IxD> = rt::asarray((&b, l.clone(), &d));
                let w = g.as_ref().map(|g| g.map(|v| v.iter().map(|x| Wrapping(x * 2 + 1)).product::<Wrapping<i64>>()));
                cmp(req!(t, prod_axes_f), w)
            });
            c.section(format!("{}.reduce bool", NAME));
            c.case(|| tag("all, any, sum"), || {
                for lim in [-6, 5, 10, 11] {
                    let b: Vec<bool> = buf.iter().map(|x| *x < lim).collect();
                    let t: TensorView<bool, Dev, IxD> = rt::asarray((&b, l.clone(), &d));
                    cmp(req!(t, all_axes_f), g.as_ref().map(|g| g.map(|v| v.iter().all(|x| *x < lim)))).map_err(|e| format!("all (< {}): {}", lim, e))?;
                    cmp(req!(t, any_axes_f), g.as_ref().map(|g| g.map(|v| v.iter().any(|x| *x < lim)))).map_err(|e| format!("any (< {}): {}", lim, e))?;
                    cmp(req!(t, sum_axes_f), g.as_ref().map(|g| g.map(|v| v.iter().filter(|x| **x < lim).count()))).map_err(|e| format!("sum (< {}): {}", lim, e))?;
                }
                Ok(())
            });
            c.section(format!("{}.reduce float", NAME));
            if size(s) > 0 {
                let b: Vec<f64> = buf.iter().map(|x| *x as f64).collect();
                let t: TensorView<f64, Dev, IxD> = rt::asarray((&b, l.clone(), &d));
                c.case(|| tag("mean"), || {
                    cmp(req!(t, mean_axes_f), g.as_ref().map(|g| g.map(|v| v.iter().sum::<i64>() as f64 / v.len() as f64)))
                });
                let near = |r: R<Tensor<f64, Dev, IxD>>, w: Option<Nd<f64>>| -> Res {
                    match (r, w) {
                        (Ok(t), Some(w)) => {
                            let x = nd_of(&t)?;
                            ensure!(x.shape == w.shape, "shape {:?}, expected {:?}", x.shape, w.shape);
                            for k in 0..w.data.len() {
                                ensure!((x.data[k] - w.data[k]).abs() < 1e-6, "element {} is {}, expected {}", k, x.data[k], w.data[k]);
                            }
                            Ok(())
                        },
                        (Ok(_), None) => Err("invalid request accepted".into()),
                        (Err(e), Some(_)) => Err(format!("rejected with {:?}", e.inner)),
                        (Err(_), None) => Ok(()),
                    }
                };
                let var = |v: &Vec<i64>| {
                    let n = v.len() as f64;
                    let m = v.iter().sum::<i64>() as f64 / n;
                    v.iter().map(|x| (*x as f64 - m) * (*x as f64 - m)).sum::<f64>() / n
                };
                if !big || k % 4 == 0 {
                    c.case(|| tag("var"), || near(req!(t, var_axes_f), g.as_ref().map(|g| g.map(var))));
                    c.case(|| tag("std"), || {
                        // the root amplifies rounding near zero: compare squares
                        let s2 = req!(t, std_axes_f).map(|t| &t * &t);
                        near(s2, g.as_ref().map(|g| g.map(var)))
                    });
                    c.case(|| tag("l2_norm"), || {
                        let s2 = req!(t, l2_norm_axes_f).map(|t| &t * &t);
                        near(s2, g.as_ref().map(|g| g.map(|v| v.iter().map(|x| (x * x) as f64).sum())))
                    });
                }
            }
            c.section(format!("{}.position", NAME));
            if q.as_ref().map_or(true, |q| !q.is_empty()) {
                let rs: Vec<usize> = ax.clone().unwrap_or(vec![]).iter().map(|&k| s[k]).collect();
                c.case(|| tag("argmin"), || cmp(req!(t, argmin_axes_f), ne.map(|g| g.map(|v| first_pos(v, |a, b| a < b)))));
                c.case(|| tag("argmax"), || cmp(req!(t, argmax_axes_f), ne.map(|g| g.map(|v| first_pos(v, |a, b| a > b)))));
                if !big {
                    c.case(|| tag("unraveled_argmin"), || {
                        cmp(req!(t, unraveled_argmin_axes_f), ne.map(|g| g.map(|v| unravel(first_pos(v, |a, b| a < b), &rs))))
                    });
                    c.case(|| tag("unraveled_argmax"), || {
                        cmp(req!(t, unraveled_argmax_axes_f), ne.map(|g| g.map(|v| unravel(first_pos(v, |a, b| a > b), &rs))))
                    });
                }
            }
        }
        // whole-tensor forms
        c.section(format!("{}.reduce all", NAME));
        c.case(|| format!("{:?} {}", o, fmt_l(l)), || {
            let v = &x.data;
            ensure!(ok!(t.sum_all_f()) == v.iter().sum::<i64>(), "sum {}", t.sum_all());
            ensure!(ok!(t.sum_f()) == v.iter().sum::<i64>(), "sum {}", t.sum_all());
            ensure!(ok!(t.count_nonzero_all_f()) == v.iter().filter(|x| **x != 0).count(), "count_nonzero");
            if size(s) > 0 {
                ensure!(ok!(t.min_all_f()) == *v.iter().min().unwrap(), "min");
                ensure!(ok!(t.max_all_f()) == *v.iter().max().unwrap(), "max");
                ensure!(ok!(t.argmin_all_f()) == first_pos(v, |a, b| a < b), "argmin {}", t.argmin_all());
                ensure!(ok!(t.argmax_all_f()) == first_pos(v, |a, b| a > b), "argmax {}", t.argmax_all());
                ensure!(ok!(t.unraveled_argmin_all_f()) == unravel(first_pos(v, |a, b| a < b), s), "unraveled_argmin");
            } else {
                ensure!(t.min_all_f().is_err() && t.max_all_f().is_err(), "extremum of an empty tensor");
                ensure!(t.argmin_all_f().is_err() && t.argmax_all_f().is_err(), "position in an empty tensor");
            }
            Ok(())
        });
    }
}
