// included once per device: `Dev` and `NAME` come from the enclosing module
use super::{Dev, NAME};
use crate::base::*;
use crate::layout2::*;
use crate::layout2::Ix;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{DimAPI, IxD, TensorIterOrder, IterSplitAtAPI};

pub fn run(id: &str, c: &mut Ctx) {
    match id {
        "C01" => c01(c),
        "C04" => c04(c),
        "C05" => c05(c),
        "C06" => c06(c),
        "C07" => c07(c),
        "C08" => c08(c),
        _ => {},
    }
}

pub fn dev(o: FlagOrder) -> Dev {
    let mut d = Dev::default();
    d.set_default_order(o);
    d
}

/// elements of a tensor, addressed by its own layout over its own storage
pub fn nd<R, D>(t: &TensorAny<R, i64, Dev, D>) -> Result<Nd<i64>, String>
where
    R: DataAPI<Data = Vec<i64>>,
    D: DimAPI,
{
    let l = t.layout().to_dim::<IxD>().map_err(|e| format!("{:?}", e.inner))?;
    read(t.raw(), &l)
}

fn c01(c: &mut Ctx) {
    c.section(format!("{}.asarray", NAME));
    let d = dev(FlagOrder::C);
    for n in 0..=2usize {
        for sh in shapes(n, &[0, 1, 3]) {
            for (nm, l) in family(&sh) {
                for extra in [-1isize, 0, 2] {
                    let len = need(&l) as isize + extra;
                    if len < 0 {
                        continue;
                    }
                    c.case(|| format!("{} {} buffer {}", nm, fmt_l(&l), len), || {
                        let buf: Vec<i64> = (0..len as i64).collect();
                        let r = rt::asarray_f((&buf, l.clone(), &d));
                        let fit = bounds(&sh, l.stride(), l.offset() as isize).map_or(true, |b| b.1 <= len);
                        match r {
                            Ok(t) => {
                                ensure!(fit, "layout beyond the buffer accepted");
                                for i in indices(&sh) {
                                    let v = t[i.clone()];
                                    ensure!(v as isize == l_addr(&l, &i), "element {:?} is {}", i, v);
                                }
                            },
                            Err(_) => ensure!(!fit || size(&sh) == 0, "fitting layout rejected"),
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

pub type V<'a> = TensorView<'a, i64, Dev, IxD>;
pub const ORD: [FlagOrder; 2] = [FlagOrder::C, FlagOrder::F];

/// storage whose element at every position is that position
pub fn addr_buf(l: &L) -> Vec<i64> {
    (0..need(l) as i64 + 2).collect()
}
/// a view result: the element at every multi-index is the source element at `f` of it
pub fn view_is<R, D>(t: &TensorAny<R, i64, Dev, D>, src: &L, want: &[usize], f: impl Fn(&[usize]) -> Vec<usize>) -> Res
where
    R: DataAPI<Data = Vec<i64>>,
    D: DimAPI,
{
    let g = nd(t)?;
    same(&g, &Nd::from_fn(want, |i| l_addr(src, &f(i)) as i64))
}
pub fn expect_view<R, D>(
    r: rstsr_core::prelude_dev::Result<TensorAny<R, i64, Dev, D>>,
    src: &L,
    want: Option<&[usize]>,
    f: impl Fn(&[usize]) -> Vec<usize>,
) -> Res
where
    R: DataAPI<Data = Vec<i64>>,
    D: DimAPI,
{
    match (r, want) {
        (Ok(t), Some(w)) => view_is(&t, src, w, f),
        (Ok(t), None) => Err(format!("invalid request accepted, shape {:?}", t.shape())),
        (Err(e), Some(_)) => Err(format!("rejected with {:?}", e.inner)),
        (Err(_), None) => Ok(()),
    }
}

fn c04(c: &mut Ctx) {
    c.section(format!("{}.slice", NAME));
    let mut r = c.rng.clone();
    let d = dev(FlagOrder::C);
    let mut all = vec![];
    for n in 0..=3 {
        all.extend(shapes(n, &[0, 1, 2, 4]));
    }
    for _ in 0..c.q(6000, 60000) {
        let sh = r.pick(&all);
        let l = rand_layout(&sh, &mut r);
        let k = r.below(sh.len() + 3);
        let mut ix: Vec<Ix> = vec![];
        for _ in 0..k {
            let n = r.pick(&[0, 1, 2, 4]);
            ix.push(rand_ix(&mut r, n));
        }
        c.case(|| format!("{} indexers {:?}", fmt_l(&l), ix), || {
            let mut buf = addr_buf(&l);
            let want = py_select(&sh, &ix);
            let q: Vec<_> = ix.iter().map(to_indexer).collect();
            let w = want.as_ref().map(|s| &s.shape[..]);
            let f = |i: &[usize]| sel_index(want.as_ref().unwrap(), i);
            {
                let t = ok!(rt::asarray_f((&buf, l.clone(), &d)));
                expect_view(t.i_f(q.clone()), &l, w, f)?;
                expect_view(t.slice_f(q.clone()), &l, w, f)?;
                expect_view(rt::into_slice_f(t, q.clone()), &l, w, f)?;
            }
            let before = buf.clone();
            {
                let mut t = ok!(rt::asarray_f((&mut buf, l.clone(), &d)));
                match t.i_mut_f(q) {
                    Ok(mut m) => {
                        ensure!(w.is_some(), "invalid request accepted");
                        view_is(&m, &l, w.unwrap(), f)?;
                        ok!(m.fill_f(-5));
                    },
                    Err(_) => ensure!(w.is_none(), "rejected"),
                }
            }
            let mut wb = before;
            if let Some(w) = w {
                for i in indices(w) {
                    wb[l_addr(&l, &f(&i)) as usize] = -5;
                }
            }
            ensure!(buf == wb, "storage after filling the mutable slice {:?}, expected {:?}", buf, wb);
            Ok(())
        });
    }
}

fn c05(c: &mut Ctx) {
    let d = dev(FlagOrder::C);
    let mut shs: Vec<Vec<usize>> = vec![];
    for n in 0..=3 {
        shs.extend(shapes(n, &[0, 1, 2, 3]));
    }
    shs.push(vec![2, 3, 1, 2]);
    let mut r = c.rng.clone();
    for sh in &shs {
        let n = sh.len();
        let m = n as isize;
        let mut fam = sources(sh);
        for _ in 0..2 {
            fam.push(("rand".into(), rand_layout(sh, &mut r)));
        }
        for (nm, l) in &fam {
            let buf = addr_buf(l);
            let t: V = rt::asarray((&buf, l.clone(), &d));
            let tag = |s: String| format!("{} {} {}", nm, fmt_l(l), s);
            c.section(format!("{}.transpose", NAME));
            let mut tries: Vec<Vec<isize>> = vec![];
            for p in perms(n) {
                tries.push(p.iter().map(|&x| x as isize).collect());
                tries.push(p.iter().map(|&x| x as isize - m).collect());
            }
            if n > 0 {
                let id: Vec<isize> = (0..m).collect();
                for bad in [m, -m - 1] {
                    let mut q = id.clone();
                    q[0] = bad;
                    tries.push(q);
                }
                if n > 1 {
                    tries.push(vec![0; n]);
                    tries.push(id[1..].to_vec());
                }
            }
            for q in &tries {
                c.case(|| tag(format!("transpose {:?}", q)), || {
                    let p = norm_perm(q, n);
                    let w: Option<Vec<usize>> = p.as_ref().map(|p| p.iter().map(|&k| sh[k]).collect());
                    let back = |i: &[usize]| {
                        let mut v = vec![0; n];
                        for k in 0..n {
                            v[p.as_ref().unwrap()[k]] = i[k];
                        }
                        v
                    };
                    if !(q.is_empty() && n > 0) {
                        expect_view(t.transpose_f(q), l, w.as_deref(), back)?;
                        expect_view(t.permute_dims_f(q), l, w.as_deref(), back)?;
                        expect_view(rt::into_transpose_f(t.view(), q), l, w.as_deref(), back)?;
                    }
                    Ok(())
                });
            }
            c.case(|| tag("t, reverse_axes, matrix_transpose".into()), || {
                let w: Vec<usize> = sh.iter().rev().cloned().collect();
                let rev = |i: &[usize]| i.iter().rev().cloned().collect::<Vec<_>>();
                view_is(&t.t(), l, &w, rev)?;
                view_is(&t.reverse_axes(), l, &w, rev)?;
                view_is(&t.view().into_reverse_axes(), l, &w, rev)?;
                expect_view(t.transpose_f(None), l, Some(&w), rev)?;
                let mut w = sh.clone();
                if n >= 2 {
                    w.swap(n - 1, n - 2);
                }
                expect_view(t.matrix_transpose_f(), l, if n >= 2 { Some(&w) } else { None }, |i| {
                    let mut v = i.to_vec();
                    v.swap(n - 1, n - 2);
                    v
                })
            });
            c.section(format!("{}.swapaxes", NAME));
            for a in -m - 2..=m + 1 {
                for b in -m - 2..=m + 1 {
                    c.case(|| tag(format!("swapaxes {} {}", a, b)), || {
                        let f = |a: isize| if a < 0 { a + m } else { a };
                        let (p, q) = (f(a), f(b));
                        let good = p >= 0 && p < m && q >= 0 && q < m;
                        let mut w = sh.clone();
                        if good {
                            w.swap(p as usize, q as usize);
                        }
                        expect_view(t.swapaxes_f(a, b), l, if good { Some(&w) } else { None }, |i| {
                            let mut v = i.to_vec();
                            v.swap(p as usize, q as usize);
                            v
                        })
                    });
                    c.case(|| tag(format!("moveaxis {} {}", a, b)), || {
                        let f = |a: isize| if a < 0 { a + m } else { a };
                        let (p, q) = (f(a), f(b));
                        let good = p >= 0 && p < m && q >= 0 && q < m;
                        let mut ord: Vec<usize> = (0..n).collect();
                        if good {
                            let x = ord.remove(p as usize);
                            ord.insert(q as usize, x);
                        }
                        let w: Vec<usize> = ord.iter().map(|&k| sh[k]).collect();
                        expect_view(t.moveaxis_f(a, b), l, if good { Some(&w) } else { None }, |i| {
                            let mut v = vec![0; n];
                            for k in 0..n {
                                v[ord[k]] = i[k];
                            }
                            v
                        })
                    });
                }
            }
            // several axes moved at once: result axis dst[k] is source axis src[k], the others keep their order
            for _ in 0..if n >= 2 { 6 } else { 1 } {
                let k = r.below(n + 1);
                let s: Vec<isize> = (0..k).map(|_| r.range(-m - (r.0 % 7 == 0) as isize, m - 1)).collect();
                let kk = if r.below(8) == 0 { r.below(n + 1) } else { k };
                let e: Vec<isize> = (0..kk).map(|_| r.range(-m, m - 1 + (r.0 % 7 == 0) as isize)).collect();
                c.case(|| tag(format!("moveaxis {:?} {:?}", s, e)), || {
                    let f = |v: &[isize]| -> Option<Vec<usize>> {
                        let mut o = vec![];
                        for &a in v {
                            let b = if a < 0 { a + m } else { a };
                            if b < 0 || b >= m || o.contains(&(b as usize)) {
                                return None;
                            }
                            o.push(b as usize);
                        }
                        Some(o)
                    };
                    let (p, q) = (f(&s), f(&e));
                    let good = p.is_some() && q.is_some() && s.len() == e.len();
                    let mut ord: Vec<usize> = vec![n; n];
                    if good {
                        let (p, q) = (p.clone().unwrap(), q.clone().unwrap());
                        for k in 0..p.len() {
                            ord[q[k]] = p[k];
                        }
                        let mut rest = (0..n).filter(|x| !p.contains(x));
                        for k in 0..n {
                            if ord[k] == n {
                                ord[k] = rest.next().unwrap();
                            }
                        }
                    }
                    let w: Vec<usize> = if good { ord.iter().map(|&k| sh[k]).collect() } else { vec![] };
                    expect_view(t.moveaxis_f(s.clone(), e.clone()), l, if good { Some(&w) } else { None }, |i| {
                        let mut v = vec![0; n];
                        for k in 0..n {
                            v[ord[k]] = i[k];
                        }
                        v
                    })
                });
            }
            c.section(format!("{}.flip", NAME));
            let mut sets: Vec<Option<Vec<isize>>> = vec![None, Some(vec![])];
            for a in -m - 1..=m {
                sets.push(Some(vec![a]));
                for b in -m - 1..=m {
                    sets.push(Some(vec![a, b]));
                }
            }
            if n == 3 {
                sets.push(Some(vec![2, 0, 1]));
                sets.push(Some(vec![-1, 0, -2]));
            }
            let norm = |v: &[isize], n: usize| -> Option<Vec<usize>> {
                let mut o = vec![];
                for &a in v {
                    let b = if a < 0 { a + n as isize } else { a };
                    if b < 0 || b >= n as isize || o.contains(&(b as usize)) {
                        return None;
                    }
                    o.push(b as usize);
                }
                Some(o)
            };
            for q in &sets {
                c.case(|| tag(format!("flip {:?}", q)), || {
                    let p = match q { None => Some((0..n).collect()), Some(q) => norm(q, n) };
                    let f = |i: &[usize]| -> Vec<usize> {
                        (0..n).map(|k| if p.as_ref().unwrap().contains(&k) { sh[k] - 1 - i[k] } else { i[k] }).collect()
                    };
                    let w = p.as_ref().map(|_| &sh[..]);
                    match q {
                        None => expect_view(t.flip_f(None), l, w, f),
                        Some(q) if q.len() == 1 => {
                            expect_view(t.flip_f(q[0]), l, w, f)?;
                            expect_view(rt::into_flip_f(t.view(), q), l, w, f)
                        },
                        Some(q) => expect_view(t.flip_f(q), l, w, f),
                    }
                });
                let q = match q { Some(q) => q, None => continue };
                c.section(format!("{}.squeeze", NAME));
                c.case(|| tag(format!("squeeze {:?}", q)), || {
                    let p = norm(q, n).filter(|p| p.iter().all(|&k| sh[k] == 1));
                    let w: Option<Vec<usize>> = p.as_ref().map(|p| (0..n).filter(|k| !p.contains(k)).map(|k| sh[k]).collect());
                    let f = |i: &[usize]| {
                        let mut j = 0;
                        (0..n).map(|k| if p.as_ref().unwrap().contains(&k) { 0 } else { j += 1; i[j - 1] }).collect::<Vec<_>>()
                    };
                    expect_view(t.squeeze_f(q), l, w.as_deref(), f)
                });
                c.section(format!("{}.expand_dims", NAME));
                c.case(|| tag(format!("expand_dims {:?}", q)), || {
                    let p = norm(q, n + q.len());
                    let w: Option<Vec<usize>> = p.as_ref().map(|p| {
                        let mut j = 0;
                        (0..n + q.len()).map(|k| if p.contains(&k) { 1 } else { j += 1; sh[j - 1] }).collect()
                    });
                    let f = |i: &[usize]| (0..i.len()).filter(|k| !p.as_ref().unwrap().contains(k)).map(|k| i[k]).collect::<Vec<_>>();
                    expect_view(t.expand_dims_f(q), l, w.as_deref(), f)?;
                    expect_view(rt::into_expand_dims_f(t.view(), q), l, w.as_deref(), f)
                });
                c.section(format!("{}.flip", NAME));
            }
            c.section(format!("{}.squeeze", NAME));
            c.case(|| tag("squeeze None".into()), || {
                let w: Vec<usize> = sh.iter().filter(|&&x| x != 1).cloned().collect();
                expect_view(t.squeeze_f(None), l, Some(&w), |i| {
                    let mut j = 0;
                    (0..n).map(|k| if sh[k] == 1 { 0 } else { j += 1; i[j - 1] }).collect::<Vec<_>>()
                })
            });
            c.section(format!("{}.diagonal", NAME));
            for off in -4..=4isize {
                for (a, b) in [(0, 1), (1, 0), (-1, -2), (-2, -1), (0, -1), (0, 0), (0, m), (-m - 1, 0), (1, 1 - m)] {
                    c.case(|| tag(format!("diagonal {} {} {}", off, a, b)), || {
                        let w = diag_def(sh, off, a, b);
                        expect_view(t.diagonal_f((off, a, b)), l, w.as_ref().map(|x| &x.0[..]), |i| {
                            let x = w.as_ref().unwrap();
                            diag_index(n, x.1, x.2, x.3, x.4, i)
                        })?;
                        let mut b2 = buf.clone();
                        let mut mt = ok!(rt::asarray_f((&mut b2, l.clone(), &d)));
                        match (mt.diagonal_mut_f((off, a, b)), &w) {
                            (Ok(g), Some(x)) => view_is(&g, l, &x.0, |i| diag_index(n, x.1, x.2, x.3, x.4, i)),
                            (Err(_), None) => Ok(()),
                            (Ok(_), None) => Err("invalid diagonal_mut accepted".into()),
                            (Err(e), Some(_)) => Err(format!("diagonal_mut rejected with {:?}", e.inner)),
                        }
                    });
                }
            }
        }
    }
}

fn c06(c: &mut Ctx) {
    let mut shs: Vec<Vec<usize>> = vec![];
    for n in 0..=3 {
        shs.extend(shapes(n, if n == 3 { &[0, 1, 3] } else { &[0, 1, 2, 3] }));
    }
    for o in ORD {
        let d = dev(o);
        c.section(format!("{}.broadcast_to({:?})", NAME, o));
        for a in &shs {
            let fam = family(a);
            for (j, b) in shs.iter().enumerate() {
                let (nm, l) = &fam[j % fam.len()];
                c.case(|| format!("{} {} to {:?}", nm, fmt_l(l), b), || {
                    let buf = addr_buf(l);
                    let t: V = ok!(rt::asarray_f((&buf, l.clone(), &d)));
                    let u = bcast_def(a, b, o);
                    let w = u.clone().filter(|u| u == b);
                    expect_view(t.to_broadcast_f(b.clone()), l, w.as_deref(), |i| bcast_index(a, i, o))?;
                    expect_view(t.into_broadcast_f(b.clone()), l, w.as_deref(), |i| bcast_index(a, i, o))?;
                    match (rt::broadcast_shapes_f(&[a.clone(), b.clone()], o), &u) {
                        (Ok(g), Some(u)) => ensure!(&g == u, "broadcast_shapes gives {:?}, expected {:?}", g, u),
                        (Err(_), None) => {},
                        (g, u) => return Err(format!("broadcast_shapes {:?}, expected {:?}", g.is_ok(), u)),
                    }
                    Ok(())
                });
            }
        }
        c.section(format!("{}.broadcast_arrays({:?})", NAME, o));
        let mut r = c.rng.clone();
        for _ in 0..c.q(3000, 30000) {
            let k = 1 + r.below(3);
            let base: Vec<usize> = (0..3).map(|_| r.pick(&[0, 1, 2, 3])).collect();
            let ls: Vec<L> = (0..k)
                .map(|_| {
                    let n = r.below(4);
                    let mut s: Vec<usize> = if o == FlagOrder::C { base[3 - n..].to_vec() } else { base[..n].to_vec() };
                    for x in s.iter_mut() {
                        match r.below(8) {
                            0..=2 => *x = 1,
                            3 => *x = r.below(4),
                            _ => {},
                        }
                    }
                    rand_layout(&s, &mut r)
                })
                .collect();
            c.case(|| format!("{:?}", ls.iter().map(fmt_l).collect::<Vec<_>>()), || {
                let bufs: Vec<Vec<i64>> = ls.iter().map(addr_buf).collect();
                let ts: Vec<V> = ls.iter().zip(&bufs).map(|(l, b)| rt::asarray((b, l.clone(), &d))).collect();
                let mut w = Some(ls[0].shape().clone());
                for l in &ls[1..] {
                    w = w.and_then(|w| bcast_def(&w, l.shape(), o));
                }
                let g = rt::broadcast_shapes_f(&ls.iter().map(|l| l.shape().clone()).collect::<Vec<_>>(), o);
                match (rt::broadcast_arrays_f(ts), &w) {
                    (Ok(g), Some(w)) => {
                        ensure!(g.len() == ls.len(), "number of results");
                        for (x, l) in g.iter().zip(&ls) {
                            view_is(x, l, w, |i| bcast_index(l.shape(), i, o))?;
                        }
                    },
                    (Err(_), None) => {},
                    (Ok(_), None) => return Err("incompatible shapes accepted".into()),
                    (Err(e), Some(_)) => return Err(format!("rejected with {:?}", e.inner)),
                }
                match (g, &w) {
                    (Ok(g), Some(w)) => ensure!(&g == w, "broadcast_shapes gives {:?}, expected {:?}", g, w),
                    (Err(_), None) => {},
                    (g, w) => return Err(format!("broadcast_shapes accepted {:?}, expected {:?}", g.is_ok(), w)),
                }
                Ok(())
            });
        }
    }
}

fn c07(c: &mut Ctx) {
    use rstsr_core::prelude::rstsr_structs::ReshapeArgs;
    let mut shs: Vec<Vec<usize>> = vec![vec![2, 2, 3, 2], vec![1, 4, 1, 3], vec![2, 0, 3], vec![6, 4]];
    for n in 0..=2 {
        shs.extend(shapes(n, &[0, 1, 2, 6]));
    }
    shs.extend(shapes(3, &[1, 2, 3]));
    let mut r = c.rng.clone();
    for od in ORD {
        let d = dev(od);
        c.section(format!("{}.reshape({:?})", NAME, od));
        for sh in &shs {
            let n = size(sh);
            let mut fam = sources(sh);
            fam.push(("rand".into(), rand_layout(sh, &mut r)));
            for (nm, l) in &fam {
                let mut reqs: Vec<Vec<isize>> = vec![];
                for t in targets(n) {
                    let v: Vec<isize> = t.iter().map(|&x| x as isize).collect();
                    for k in 0..v.len() {
                        let mut q = v.clone();
                        q[k] = -1;
                        if r.below(3) == 0 {
                            reqs.push(q);
                        }
                    }
                    reqs.push(v);
                }
                reqs.extend([vec![-1], vec![-1, -1], vec![-2, 3], vec![n as isize + 1], vec![n as isize, 2], vec![5, -1], vec![-1, 0], vec![-2, -(n as isize) / 2]]);
                for q in reqs {
                    if !c.thorough && sh.len() >= 2 && r.below(6) != 0 {
                        continue;
                    }
                    for arg in [None, Some((FlagOrder::C, None)), Some((FlagOrder::F, None)), Some((od, Some(true))), Some((od, Some(false)))] {
                        if arg.is_some() && r.below(3) != 0 {
                            continue;
                        }
                        c.case(|| format!("{} {} to {:?} args {:?}", nm, fmt_l(l), q, arg), || {
                            let buf = addr_buf(l);
                            let t: V = ok!(rt::asarray_f((&buf, l.clone(), &d)));
                            let w = subst(&q, n).filter(|w| size(w) == n);
                            let o = arg.map_or(od, |a| a.0);
                            let copy: Option<bool> = arg.and_then(|a| a.1);
                            let src: Vec<i64> = indices_o(sh, o).iter().map(|i| l_addr(l, i) as i64).collect();
                            let g = match arg {
                                None => t.reshape_f(q.clone()),
                                Some(_) => t.reshape_with_args_f(q.clone(), ReshapeArgs { order: Some(o), copy }),
                            };
                            let (g, w) = match (g, w) {
                                (Ok(g), Some(w)) => (g, w),
                                (Err(_), None) => return Ok(()),
                                (Ok(g), None) => return Err(format!("invalid request accepted, shape {:?}", g.shape())),
                                (Err(e), Some(_)) => {
                                    ensure!(copy == Some(false), "rejected with {:?}", e.inner);
                                    return Ok(());
                                },
                            };
                            let check = |a: Nd<i64>| -> Res {
                                ensure!(a.shape == w, "shape {:?}, expected {:?}", a.shape, w);
                                let got: Vec<i64> = indices_o(&w, o).iter().map(|i| a.get(i)).collect();
                                ensure!(got == src, "reads {:?}, expected {:?}", got, src);
                                Ok(())
                            };
                            check(nd(&g)?)?;
                            let shared = g.raw().as_ptr() == buf.as_ptr();
                            if copy == Some(false) {
                                ensure!(shared, "copied although copying was forbidden");
                            }
                            if n > 0 && copy == Some(true) {
                                ensure!(!shared, "not copied although a copy was requested");
                            }
                            if arg.is_none() {
                                check(nd(&ok!(t.change_shape_f(q.clone())))?)?;
                                let t2: V = ok!(rt::asarray_f((&buf, l.clone(), &d)));
                                check(nd(&ok!(t2.into_shape_f(q.clone())))?)?;
                                if n > 0 {
                                    let own = ok!(rt::asarray_f((buf.clone(), l.clone(), &d)));
                                    check(nd(&ok!(own.into_shape_f(q.clone())))?)?;
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
}

fn c08(c: &mut Ctx) {
    let mut shs: Vec<Vec<usize>> = vec![];
    for n in 0..=3 {
        shs.extend(shapes(n, if n == 3 { &[0, 1, 3] } else { &[0, 1, 2, 3] }));
    }
    shs.extend([vec![2, 1, 3, 2], vec![1, 2, 2, 1, 3]]);
    let mut r = c.rng.clone();
    for od in ORD {
        let d = dev(od);
        for sh in &shs {
            let n = sh.len();
            let mut fam = sources(sh);
            fam.push(("rand".into(), rand_layout(sh, &mut r)));
            for (nm, l) in &fam {
                c.section(format!("{}.iter({:?})", NAME, od));
                let bufc = addr_buf(l);
                for o in [None, Some(FlagOrder::C), Some(FlagOrder::F)] {
                    let s = r.next();
                    c.case(|| format!("{} {} order {:?} script {:x}", nm, fmt_l(l), o, s), || {
                        let mut buf = bufc.clone();
                        let eo = o.unwrap_or(od);
                        let to = if eo == FlagOrder::C { TensorIterOrder::C } else { TensorIterOrder::F };
                        let ix = indices_o(sh, eo);
                        let want: Vec<i64> = ix.iter().map(|i| l_addr(l, i) as i64).collect();
                        let wi: Vec<(Vec<usize>, i64)> = ix.iter().map(|i| (i.clone(), l_addr(l, i) as i64)).collect();
                        {
                            let t: V = ok!(rt::asarray_f((&buf, l.clone(), &d)));
                            let it = match o { None => ok!(t.iter_f()), Some(_) => ok!(t.iter_with_order_f(to)) };
                            drive(it.map(|x| *x), &want, s)?;
                            let it = match o { None => ok!(t.indexed_iter_f()), Some(_) => ok!(t.indexed_iter_with_order_f(to)) };
                            drive(it.map(|(i, x)| (i, *x)), &wi, s)?;
                            let p = want.len() / 2;
                            let (a, b) = ok!(t.iter_with_order_f(to)).split_at(p);
                            drive(a.map(|x| *x), &want[..p], s)?;
                            drive(b.map(|x| *x), &want[p..], s)?;
                            use rayon::prelude::*;
                            let v: Vec<i64> = ok!(t.iter_with_order_f(to)).into_par_iter().map(|x| *x).collect();
                            ensure!(v == want, "parallel iteration gives {:?}, expected {:?}", v, want);
                            let v: Vec<(Vec<usize>, i64)> = ok!(t.indexed_iter_with_order_f(to)).into_par_iter().map(|(i, x)| (i, *x)).collect();
                            ensure!(v == wi, "parallel indexed iteration gives {:?}, expected {:?}", v, wi);
                        }
                        if !nm.starts_with("bcast") {
                            {
                                let mut t = ok!(rt::asarray_f((&mut buf, l.clone(), &d)));
                                for (k, x) in ok!(t.iter_mut_with_order_f(to)).enumerate() {
                                    *x = -1 - k as i64;
                                }
                            }
                            let mut wb = bufc.clone();
                            for (k, i) in ix.iter().enumerate() {
                                wb[l_addr(l, i) as usize] = -1 - k as i64;
                            }
                            ensure!(buf == wb, "after iter_mut {:?}, expected {:?}", buf, wb);
                            {
                                let mut t = ok!(rt::asarray_f((&mut buf, l.clone(), &d)));
                                drive(ok!(t.indexed_iter_mut_with_order_f(to)).map(|(i, x)| { *x -= 100; i }), &ix, s)?;
                            }
                            for i in &ix {
                                wb[l_addr(l, i) as usize] -= 100;
                            }
                            ensure!(buf == wb, "after indexed_iter_mut {:?}, expected {:?}", buf, wb);
                        }
                        Ok(())
                    });
                }
                c.section(format!("{}.axes_iter({:?})", NAME, od));
                let m = n as isize;
                let mut sets: Vec<Vec<isize>> = vec![vec![]];
                for a in -m - 1..=m {
                    sets.push(vec![a]);
                }
                for _ in 0..4 {
                    if n >= 2 {
                        sets.push(vec![r.range(-m, m - 1), r.range(-m, m - 1)]);
                        sets.push(vec![r.range(-m, m - 1), r.range(-m - 1, m)]);
                    }
                    if n >= 3 {
                        sets.push(vec![r.range(-m, m - 1), r.range(-m, m - 1), r.range(-m, m - 1)]);
                    }
                }
                for q in sets {
                    let s = r.next();
                    for o in [None, Some(FlagOrder::C), Some(FlagOrder::F)] {
                        c.case(|| format!("{} {} axes {:?} order {:?} script {:x}", nm, fmt_l(l), q, o, s), || {
                            let mut buf = bufc.clone();
                            let mut ax: Option<Vec<usize>> = Some(vec![]);
                            for &a in &q {
                                let b = if a < 0 { a + m } else { a };
                                ax = ax.filter(|v| b >= 0 && b < m && !v.contains(&(b as usize)));
                                if let Some(v) = &mut ax {
                                    v.push(b as usize);
                                }
                            }
                            let eo = o.unwrap_or(od);
                            let to = if eo == FlagOrder::C { TensorIterOrder::C } else { TensorIterOrder::F };
                            let t: V = ok!(rt::asarray_f((&buf, l.clone(), &d)));
                            // an axes iterator without an order promises the set of sub-views
                            let it = match o { None => t.axes_iter_f(&q), Some(_) => t.axes_iter_with_order_f(&q, to) };
                            let ii = match o { None => t.indexed_axes_iter_f(&q), Some(_) => t.indexed_axes_iter_with_order_f(&q, to) };
                            let (it, ii, ax) = match (it, ii, ax) {
                                (Ok(a), Ok(b), Some(c)) => (a, b, c),
                                (Err(_), Err(_), None) => return Ok(()),
                                (a, b, c) => return Err(format!("accepted {} (indexed {}), valid {}", a.is_ok(), b.is_ok(), c.is_some())),
                            };
                            let sa: Vec<usize> = ax.iter().map(|&k| sh[k]).collect();
                            let inner: Vec<usize> = (0..n).filter(|k| !ax.contains(k)).collect();
                            let si: Vec<usize> = inner.iter().map(|&k| sh[k]).collect();
                            let sub = |i: &[usize]| -> Nd<i64> {
                                Nd::from_fn(&si, |j| {
                                    let mut f = vec![0; n];
                                    for (k, &x) in ax.iter().enumerate() {
                                        f[x] = i[k];
                                    }
                                    for (k, &x) in inner.iter().enumerate() {
                                        f[x] = j[k];
                                    }
                                    l_addr(l, &f) as i64
                                })
                            };
                            let wi: Vec<(Vec<usize>, Nd<i64>)> = indices_o(&sa, eo).into_iter().map(|i| { let v = sub(&i); (i, v) }).collect();
                            let want: Vec<Nd<i64>> = wi.iter().map(|x| x.1.clone()).collect();
                            let rd = |x: TensorView<'_, i64, Dev, IxD>| nd(&x).unwrap();
                            if o.is_none() {
                                let mut g: Vec<Nd<i64>> = it.map(rd).collect();
                                let mut w = want.clone();
                                g.sort_by_key(|x| format!("{:?}", x));
                                w.sort_by_key(|x| format!("{:?}", x));
                                ensure!(g == w, "sub-views {:?}, expected {:?}", g, w);
                            } else {
                                drive(it.map(rd), &want, s)?;
                                let p = want.len() / 2;
                                let (a, b) = ok!(t.axes_iter_with_order_f(&q, to)).split_at(p);
                                drive(a.map(rd), &want[..p], s)?;
                                drive(b.map(rd), &want[p..], s)?;
                            }
                            drive(ii.map(|(i, x)| (i, rd(x))), &wi, s)?;
                            if !nm.starts_with("bcast") {
                                let mut wb = bufc.clone();
                                for (k, (i, v)) in wi.iter().enumerate() {
                                    let _ = i;
                                    for x in &v.data {
                                        wb[*x as usize] = -7 - k as i64;
                                    }
                                }
                                {
                                    let mut t = ok!(rt::asarray_f((&mut buf, l.clone(), &d)));
                                    for (k, mut x) in ok!(t.axes_iter_mut_with_order_f(&q, to)).enumerate() {
                                        x.fill(-7 - k as i64);
                                    }
                                }
                                ensure!(buf == wb, "after axes_iter_mut {:?}, expected {:?}", buf, wb);
                                let mut buf = bufc.clone();
                                {
                                    let mut t = ok!(rt::asarray_f((&mut buf, l.clone(), &d)));
                                    for (i, mut x) in ok!(t.indexed_axes_iter_mut_with_order_f(&q, to)) {
                                        let k = wi.iter().position(|y| y.0 == i).unwrap();
                                        x.fill(-7 - k as i64);
                                    }
                                }
                                ensure!(buf == wb, "after indexed_axes_iter_mut {:?}, expected {:?}", buf, wb);
                                let mut buf = bufc.clone();
                                {
                                    let mut t = ok!(rt::asarray_f((&mut buf, l.clone(), &d)));
                                    let ix: Vec<Vec<usize>> = wi.iter().map(|x| x.0.clone()).collect();
                                    drive(
                                        ok!(t.indexed_axes_iter_mut_with_order_f(&q, to)).map(|(i, mut x)| {
                                            let k = wi.iter().position(|y| y.0 == i).unwrap();
                                            x.fill(-7 - k as i64);
                                            i
                                        }),
                                        &ix,
                                        s,
                                    )?;
                                }
                                ensure!(buf == wb, "after indexed_axes_iter_mut from both ends {:?}, expected {:?}", buf, wb);
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
}
