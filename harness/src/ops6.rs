// included once per device: copies and layout conversions, triangular packing, array packing
use super::ops::*;
use super::ops4::settle;
use super::ops2::*;
use super::{Dev, NAME};
use crate::base::*;
use crate::layout2::*;
use core::mem::MaybeUninit;
use num::complex::Complex;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{DimAPI, DimIntoAPI, FlagSymm, FlagUpLo, Ix1, Ix2, Ix3, IxD};
use rstsr_native_impl::prelude_dev as ni;

pub fn run(id: &str, c: &mut Ctx) {
    match id {
        "C14" => c14(c),
        "C16" => c16(c),
        "C17" => c17(c),
        _ => {},
    }
}
type R<X> = rstsr_core::prelude_dev::Result<X>;

fn rd<D: DimAPI>(raw: &Vec<i64>, l: &rstsr_common::prelude_dev::Layout<D>) -> Result<Nd<i64>, String> {
    let l = l.to_dim::<IxD>().map_err(|e| format!("{:?}", e.inner))?;
    read(raw, &l)
}
/// the tensor (any container) holds exactly the model
macro_rules! want_nd {
    ($r:expr, $w:expr, $what:expr) => {{
        let t = match $r {
            Ok(t) => t,
            Err(e) => return Err(format!("{}: rejected with {:?}", $what, e.inner)),
        };
        same(&rd(t.raw(), t.layout())?, $w).map_err(|e| format!("{}: {}", $what, e))?;
        t
    }};
}
macro_rules! want_err {
    ($r:expr, $what:expr) => {{
        if let Ok(t) = $r {
            return Err(format!("{}: invalid request accepted, shape {:?}", $what, t.shape()));
        }
    }};
}
/// strides of a packed tensor in the given order, where they matter
fn packed(sh: &[usize], st: &[isize], o: FlagOrder) -> Res {
    if size(sh) == 0 {
        return Ok(());
    }
    let w = if o == FlagOrder::C { cstride(sh) } else { fstride(sh) };
    for k in 0..sh.len() {
        ensure!(sh[k] <= 1 || st[k] == w[k], "strides {:?} of shape {:?} are not contiguous in order {:?}", st, sh, o);
    }
    Ok(())
}
/// all elements in the sequence of the given order
fn seq(x: &Nd<i64>, o: FlagOrder) -> Vec<i64> {
    indices_o(&x.shape, o).iter().map(|i| x.get(i)).collect()
}
fn from_seq(sh: &[usize], v: &[i64], o: FlagOrder) -> Nd<i64> {
    let ix = indices_o(sh, o);
    let mut out = Nd::from_fn(sh, |_| 0);
    for (k, i) in ix.iter().enumerate() {
        out.set(i, v[k]);
    }
    out
}

fn pref(l: &L, o: FlagOrder) -> bool {
    if o == FlagOrder::C { l.c_prefer() } else { l.f_prefer() }
}
fn c14(c: &mut Ctx) {
    let mut r = Rng(c.rng.next());
    let mut shs = vec![];
    for n in 0..=3 {
        shs.extend(shapes(n, &[0, 1, 2, 3]));
    }
    shs.extend([vec![2, 3, 4, 2], vec![1, 5, 1, 3], vec![7, 9], vec![65, 3], vec![3, 66], vec![70, 67], vec![17, 2, 33]]);
    if c.thorough {
        shs.extend([vec![130, 129], vec![5, 64, 65], vec![200, 100], vec![2, 3, 2, 3, 2]]);
    } else {
        shs.extend([vec![130, 129]]);
    }
    for o in ORD {
        let d = dev(o);
        for s in &shs {
            let big = size(s) > 2000;
            let mut ls: Vec<L> = family(s).into_iter().map(|x| x.1).collect();
            for _ in 0..c.q(3, 12) {
                ls.push(rand_src(s, &mut r));
            }
            if big && !c.thorough {
                let k = ls.len();
                ls = vec![ls[0].clone(), ls[1].clone(), ls[3].clone(), ls[k - 1].clone(), ls[k - 2].clone()];
            }
            let n = s.len();
            for (q, l) in ls.iter().enumerate() {
                let buf = vals(l, -300, 100003, q);
                let x = read(&buf, l).unwrap();
                let t: V = rt::asarray((&buf, l.clone(), &d));
                let tag = |s: &str| format!("{:?} {} {}", o, s, fmt_l(l));
                c.section(format!("{}.contiguous", NAME));
                for q in ORD {
                    c.case(|| tag(&format!("to_contig {:?}", q)), || {
                        let u = want_nd!(t.to_contig_f(q), &x, "to_contig_f");
                        packed(u.shape(), u.stride(), q)?;
                        let u = want_nd!(t.view().into_contig_f(q), &x, "into_contig_f");
                        packed(u.shape(), u.stride(), q)?;
                        let u = want_nd!(t.view().change_contig_f(q), &x, "change_contig_f");
                        packed(u.shape(), u.stride(), q)?;
                        let u = want_nd!(owned(l, &buf, &d).into_contig_f(q), &x, "owned into_contig_f");
                        packed(u.shape(), u.stride(), q)?;
                        let u = want_nd!(t.to_prefer_f(q), &x, "to_prefer_f");
                        ensure!(pref(u.layout(), q), "layout {:?} does not prefer {:?}", u.layout(), q);
                        let u = want_nd!(t.view().into_prefer_f(q), &x, "into_prefer_f");
                        let u = want_nd!(owned(l, &buf, &d).change_prefer_f(q), &x, "change_prefer_f");
                        ensure!(pref(u.layout(), q), "layout {:?} does not prefer {:?}", u.layout(), q);
                        Ok(())
                    });
                }
                c.section(format!("{}.asarray order", NAME));
                for io in [TensorIterOrder::C, TensorIterOrder::F, TensorIterOrder::A, TensorIterOrder::K] {
                    c.case(|| tag(&format!("asarray {:?}", io)), || {
                        for k in 0..3 {
                            let u = match k {
                                0 => want_nd!(rt::asarray_f((&t, io)), &x, "asarray_f(&t, order)"),
                                1 => want_nd!(rt::asarray_f((t.view(), io)), &x, "asarray_f(view, order)"),
                                _ => want_nd!(rt::asarray_f((owned(l, &buf, &d), io)), &x, "asarray_f(tensor, order)"),
                            };
                            match io {
                                TensorIterOrder::C => packed(u.shape(), u.stride(), FlagOrder::C)?,
                                TensorIterOrder::F => packed(u.shape(), u.stride(), FlagOrder::F)?,
                                _ => ensure!(k == 2 || u.raw().len() == size(s), "{} elements stored for {:?}", u.raw().len(), s),
                            }
                        }
                        Ok(())
                    });
                }
                c.section(format!("{}.layout", NAME));
                for _ in 0..c.q(2, 6) {
                    let m = rand_layout(s, &mut r);
                    c.case(|| format!("{} -> {}", tag("to_layout"), fmt_l(&m)), || {
                        let u = want_nd!(t.to_layout_f(m.clone()), &x, "to_layout_f");
                        ensure!(u.layout() == &m, "layout {:?}", fmt_l(u.layout()));
                        let u = want_nd!(t.view().into_layout_f(m.clone()), &x, "into_layout_f");
                        // an owned result may be stored compactly, never with another shape
                        ensure!(u.shape() == &m.shape()[..], "shape {:?}", u.shape());
                        let u = want_nd!(t.view().change_layout_f(m.clone()), &x, "change_layout_f");
                        ensure!(u.layout() == &m, "layout {:?}", fmt_l(u.layout()));
                        Ok(())
                    });
                }
                c.case(|| tag("same layout"), || {
                    let u = want_nd!(t.to_layout_f(l.clone()), &x, "to_layout_f");
                    Ok(())
                });
                // another shape of the same size: the sequence in the default order
                if size(s) > 0 {
                    let mut s2 = vec![];
                    let mut rest = size(s);
                    for f in [2usize, 3, 1, 2] {
                        if rest % f == 0 && r.below(2) == 0 {
                            s2.push(f);
                            rest /= f;
                        }
                    }
                    s2.push(rest);
                    let m = rand_layout(&s2, &mut r);
                    let w = from_seq(&s2, &seq(&x, o), o);
                    c.case(|| format!("{} -> {}", tag("to_layout other shape"), fmt_l(&m)), || {
                        let u = want_nd!(t.to_layout_f(m.clone()), &w, "to_layout_f");
                        Ok(())
                    });
                    s2.push(2);
                    let m = rand_layout(&s2, &mut r);
                    c.case(|| format!("{} -> {}", tag("to_layout other size"), fmt_l(&m)), || {
                        want_err!(t.to_layout_f(m.clone()), "to_layout_f");
                        want_err!(t.view().into_layout_f(m.clone()), "into_layout_f");
                        want_err!(t.view().change_layout_f(m.clone()), "change_layout_f");
                        Ok(())
                    });
                }
                // ---- containers
                c.section(format!("{}.containers", NAME));
                c.case(|| tag("containers"), || {
                    let own = owned(l, &buf, &d);
                    let mut cp = [
                        ("to_owned", t.to_owned()),
                        ("into_owned", t.view().into_owned()),
                        ("clone", own.clone()),
                        ("into_owned_keep_layout", t.view().into_owned_keep_layout()),
                        ("shared.into_owned", t.view().into_shared().into_owned()),
                        ("keep shared.into_owned", t.view().into_shared_keep_layout().into_owned()),
                        ("cow.into_owned", t.view().into_cow().into_owned()),
                        ("own cow.into_owned", own.clone().into_cow().into_owned()),
                        ("cow.clone", t.view().into_cow().clone().into_owned()),
                        ("device", ok!(t.to_device_f(&dev(if o == FlagOrder::C { FlagOrder::F } else { FlagOrder::C }))).into_owned()),
                    ];
                    for (what, u) in cp.iter_mut() {
                        same(&rd(u.raw(), u.layout())?, &x).map_err(|e| format!("{}: {}", what, e))?;
                        // writing to the copy leaves the source alone
                        for v in u.raw_mut().iter_mut() {
                            *v = -777;
                        }
                        same(&rd(own.raw(), own.layout())?, &x).map_err(|e| format!("{} aliases its source: {}", what, e))?;
                    }
                    same(&rd(t.raw(), t.layout())?, &x).map_err(|e| format!("source after writing to copies: {}", e))?;
                    // handles of one shared storage
                    let arc = std::sync::Arc::new(buf.clone());
                    let share = || unsafe {
                        let data = rstsr_core::prelude_dev::DataArc::from(arc.clone());
                        TensorArc::<i64, Dev, IxD>::new_unchecked(rstsr_core::prelude_dev::Storage::new(data, d.clone()), l.clone())
                    };
                    // shared tensors: writing to one handle is not seen by the other
                    let s1 = share();
                    let mut s2 = share();
                    same(&rd(s2.raw(), s2.layout())?, &x).map_err(|e| format!("shared clone: {}", e))?;
                    for v in s2.raw_mut().iter_mut() {
                        *v = 55;
                    }
                    same(&rd(s1.raw(), s1.layout())?, &x).map_err(|e| format!("writing to a shared handle reached the other: {}", e))?;
                    let s1 = share();
                    let s2 = share();
                    let mut s3 = s1.into_owned();
                    for v in s3.raw_mut().iter_mut() {
                        *v = 56;
                    }
                    same(&rd(s2.raw(), s2.layout())?, &x).map_err(|e| format!("owning a shared handle aliases the other: {}", e))
                });
                if !is_bcast(l) {
                    c.case(|| tag("view_mut"), || {
                        let mut own = owned(l, &buf, &d);
                        let mut keep = t.to_owned();
                        {
                            let mut m = own.view_mut();
                            ok!(m.fill_f(-5i64));
                            let u = m.view();
                            same(&rd(u.raw(), u.layout())?, &x.map(|_| -5))?;
                        }
                        let mut want = buf.clone();
                        for i in indices(s) {
                            want[l_addr(l, &i) as usize] = -5;
                        }
                        ensure!(own.raw() == &want, "storage {:?} after writing through a mutable view, expected {:?}", own.raw(), want);
                        ok!(own.assign_f(&t));
                        ensure!(own.raw() == &buf, "storage {:?} after assigning back, expected {:?}", own.raw(), buf);
                        // read-only copies of a mutable view
                        let m = own.view_mut();
                        let u = m.to_owned();
                        same(&rd(u.raw(), u.layout())?, &x)?;
                        let u = m.into_owned();
                        same(&rd(u.raw(), u.layout())?, &x)
                    });
                }
                // ---- plain vectors
                c.section(format!("{}.vectors", NAME));
                c.case(|| tag("to_vec"), || {
                    if n == 1 {
                        let w: Vec<i64> = (0..s[0]).map(|i| x.get(&[i])).collect();
                        let v = ok!(t.to_raw_f());
                        ensure!(v == w, "to_raw_f {:?}, expected {:?}", v, w);
                        let v = ok!(owned(l, &buf, &d).into_raw_f());
                        ensure!(v == w, "into_raw_f {:?}, expected {:?}", v, w);
                        let v = ok!(owned(l, &buf, &d).into_vec_f());
                        ensure!(v == w, "into_vec_f {:?}, expected {:?}", v, w);
                        let v = ok!(t.to_owned().into_vec_f());
                        ensure!(v == w, "to_owned().into_vec_f {:?}, expected {:?}", v, w);
                    } else {
                        ensure!(t.to_raw_f().is_err(), "to_raw_f accepted rank {}", n);
                        ensure!(owned(l, &buf, &d).into_raw_f().is_err(), "into_raw_f accepted rank {}", n);
                        ensure!(owned(l, &buf, &d).into_vec_f().is_err(), "into_vec_f accepted rank {}", n);
                    }
                    let v = t.to_scalar_f();
                    if size(s) == 1 {
                        let v = ok!(v);
                        ensure!(v == x.get(&vec![0; n]), "to_scalar_f {}", v);
                    } else {
                        ensure!(v.is_err(), "to_scalar_f accepted {} elements", size(s));
                    }
                    Ok(())
                });
                // ---- changing the representation of the dimension keeps everything
                c.section(format!("{}.dimension", NAME));
                c.case(|| tag("into_dim"), || {
                    macro_rules! dimn {
                        ($D:ty, $k:expr) => {
                            match t.view().into_dim_f::<$D>() {
                                Ok(u) => {
                                    ensure!(n == $k, "into_dim accepted rank {} for {}", n, stringify!($D));
                                    same(&rd(u.raw(), u.layout())?, &x)?;
                                    let u = ok!(u.into_dim_f::<IxD>());
                                    same(&rd(u.raw(), u.layout())?, &x)?;
                                },
                                Err(_) => ensure!(n != $k, "into_dim rejected rank {} for {}", n, stringify!($D)),
                            }
                        };
                    }
                    dimn!(Ix1, 1);
                    dimn!(Ix2, 2);
                    dimn!(Ix3, 3);
                    Ok(())
                });
            }
        }
    }
    // ---- blocked change of memory order
    c.section(format!("{}.transpose kernel", NAME));
    let pool = rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap();
    for (nr, nc) in [(0, 0), (0, 3), (1, 1), (3, 0), (2, 5), (16, 16), (17, 15), (63, 64), (64, 65), (65, 64), (128, 130), (200, 7), (7, 200)] {
        for (ga, gc) in [(0, 0), (3, 0), (0, 5), (2, 4)] {
            let (oa, oc) = (r.below(4), r.below(4));
            let (lda, ldc) = (nc + ga, nr + gc);
            let la = unsafe { rstsr_common::prelude_dev::Layout::new_unchecked([nr, nc], [lda as isize, 1], oa) };
            let lc = unsafe { rstsr_common::prelude_dev::Layout::new_unchecked([nr, nc], [1, ldc as isize], oc) };
            let a: Vec<i64> = (0..(oa + lda * nr + nc + 1) as i64).map(|v| v * 3 + 1).collect();
            let c0: Vec<i64> = vec![-1; oc + ldc * nc + nr + 1];
            let mut want = c0.clone();
            for i in 0..nr {
                for j in 0..nc {
                    want[oc + i + j * ldc] = a[oa + i * lda + j];
                }
            }
            c.case(|| format!("r2c {}x{} lda {} ldc {} offsets {} {}", nr, nc, lda, ldc, oa, oc), || {
                let mut g = c0.clone();
                if NAME == "serial" {
                    ok!(ni::orderchange_out_r2c_ix2_cpu_serial(&mut g, &lc, &a, &la));
                } else {
                    ok!(ni::orderchange_out_r2c_ix2_cpu_rayon(&mut g, &lc, &a, &la, Some(&pool)));
                }
                ensure!(g == want, "r2c wrote other elements");
                // the same matrix seen transposed
                let (lat, lct) = (la.reverse_axes(), lc.reverse_axes());
                let mut g = c0.clone();
                if NAME == "serial" {
                    ok!(ni::orderchange_out_c2r_ix2_cpu_serial(&mut g, &lct, &a, &lat));
                } else {
                    ok!(ni::orderchange_out_c2r_ix2_cpu_rayon(&mut g, &lct, &a, &lat, Some(&pool)));
                }
                ensure!(g == want, "c2r wrote other elements");
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------ triangular packing
fn tri_pos(n: usize, up: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for i in 0..n {
        for j in 0..n {
            if (up && j >= i) || (!up && j <= i) {
                v.push((i, j));
            }
        }
    }
    v
}
type Z = Complex<f64>;
fn flip(l: &L) -> L {
    let (mut a, mut b) = (l.shape().clone(), l.stride().clone());
    a.reverse();
    b.reverse();
    mk(&a, &b, l.offset())
}
fn z_of(p: usize, q: usize) -> Z {
    Z::new(((p * 7 + q * 3) % 41) as f64 - 20.0, ((p * 5 + q) % 23) as f64 - 11.0)
}
fn c16(c: &mut Ctx) {
    let mut r = Rng(c.rng.next());
    let pool = rayon::ThreadPoolBuilder::new().num_threads(3).build().unwrap();
    let pool = &pool;
    let mut ns: Vec<usize> = vec![0, 1, 2, 3, 4, 5];
    ns.extend(c.q(vec![9, 40], vec![8, 16, 17, 33, 100]));
    let batches: Vec<Vec<usize>> = vec![vec![], vec![1], vec![2], vec![3], vec![0], vec![2, 2], vec![2, 1, 3], vec![0, 2], vec![40]];
    let reps = c.q(4, 12);
    for &n in &ns {
        for b in &batches {
            if n > 20 && size(b) > 4 {
                continue;
            }
            for rep in 0..reps {
                let mut sq = b.clone();
                sq.extend([n, n]);
                let mut st = b.clone();
                st.push(n * (n + 1) / 2);
                let pick = |s: &Vec<usize>, r: &mut Rng| {
                    let f = family(s);
                    match rep {
                        0 => f[0].1.clone(),
                        1 => f[1].1.clone(),
                        2 => f[2].1.clone(),
                        _ => rand_layout(s, r),
                    }
                };
                for up in [false, true] {
                    let pos = tri_pos(n, up);
                    let ul = if up { FlagUpLo::U } else { FlagUpLo::L };
                    // ---- kernels: any layout on both sides
                    let (lm, lp) = (pick(&sq, &mut r), pick(&st, &mut r));
                    let (lm2, lp2) = (settle(rand_src(&sq, &mut r)), settle(rand_src(&st, &mut r)));
                    c.section(format!("{}.pack kernel", NAME));
                    for l in [&lm, &lm2] {
                        let src: Vec<i64> = (0..need(l) as i64 + 1).map(|v| v * 2 + 7).collect();
                        c.case(|| format!("pack {:?} n {} batch {:?}: {} -> {}", ul, n, b, fmt_l(l), fmt_l(&lp)), || {
                            let mut out: Vec<MaybeUninit<i64>> = vec![MaybeUninit::new(-9); need(&lp) + 2];
                            if NAME == "serial" {
                                ok!(ni::pack_tri_cpu_serial(&mut out, &lp, &src, l, ul));
                            } else {
                                ok!(ni::pack_tri_cpu_rayon(&mut out, &lp, &src, l, ul, Some(pool)));
                            }
                            let got: Vec<i64> = out.iter().map(|v| unsafe { v.assume_init() }).collect();
                            let mut want = vec![-9i64; got.len()];
                            for bi in indices(b) {
                                for (k, &(i, j)) in pos.iter().enumerate() {
                                    let (mut x, mut y) = (bi.clone(), bi.clone());
                                    x.push(k);
                                    y.extend([i, j]);
                                    want[l_addr(&lp, &x) as usize] = src[l_addr(l, &y) as usize];
                                }
                            }
                            ensure!(got == want, "packed storage {:?}, expected {:?}", got, want);
                            Ok(())
                        });
                    }
                    c.section(format!("{}.unpack kernel", NAME));
                    for sy in [FlagSymm::Sy, FlagSymm::He, FlagSymm::Ay, FlagSymm::Ah, FlagSymm::N] {
                        let l = if r.below(3) == 0 { &lp2 } else { &lp };
                        let src: Vec<Z> = (0..need(l) + 1).map(|v| z_of(v, n)).collect();
                        c.case(|| format!("unpack {:?} {:?} n {} batch {:?}: {} -> {}", ul, sy, n, b, fmt_l(l), fmt_l(&lm)), || {
                            let z = Z::new(-99.0, 88.0);
                            let mut out: Vec<MaybeUninit<Z>> = vec![MaybeUninit::new(z); need(&lm) + 2];
                            if NAME == "serial" {
                                ok!(ni::unpack_tri_cpu_serial(&mut out, &lm, &src, l, ul, sy));
                            } else {
                                ok!(ni::unpack_tri_cpu_rayon(&mut out, &lm, &src, l, ul, sy, Some(pool)));
                            }
                            let mut got: Vec<Z> = out.iter().map(|v| unsafe { v.assume_init() }).collect();
                            let mut want = vec![z; got.len()];
                            for bi in indices(b) {
                                for (k, &(i, j)) in pos.iter().enumerate() {
                                    let (mut x, mut y, mut yt) = (bi.clone(), bi.clone(), bi.clone());
                                    x.push(k);
                                    y.extend([i, j]);
                                    yt.extend([j, i]);
                                    let v = src[l_addr(l, &x) as usize];
                                    let (p, pt) = (l_addr(&lm, &y) as usize, l_addr(&lm, &yt) as usize);
                                    if i == j {
                                        match sy {
                                            FlagSymm::Sy | FlagSymm::N => want[p] = v,
                                            FlagSymm::He => {
                                                // the diagonal of a Hermitian matrix is real: its imaginary part carries no meaning
                                                want[p] = Z::new(v.re, 0.0);
                                                if got[p].im == v.im || got[p].im == -v.im {
                                                    got[p].im = 0.0;
                                                }
                                            },
                                            _ => want[p] = Z::new(0.0, 0.0),
                                        }
                                    } else {
                                        want[p] = v;
                                        match sy {
                                            FlagSymm::Sy => want[pt] = v,
                                            FlagSymm::He => want[pt] = v.conj(),
                                            FlagSymm::Ay => want[pt] = -v,
                                            FlagSymm::Ah => want[pt] = -v.conj(),
                                            FlagSymm::N => want[pt] = Z::new(0.0, 0.0),
                                        }
                                    }
                                }
                            }
                            ensure!(got == want, "unpacked storage {:?}, expected {:?}", got, want);
                            Ok(())
                        });
                    }
                    // ---- tensors on a device of either order
                    for o in ORD {
                        let d = dev(o);
                        c.section(format!("{}.tensor", NAME));
                        let l = if o == FlagOrder::C { lm2.clone() } else { flip(&lm2) };
                        // on a column-major device matrices are the first two axes, packed column by column
                        let pos: Vec<(usize, usize)> =
                            if o == FlagOrder::C { pos.clone() } else { tri_pos(n, !up).iter().map(|x| (x.1, x.0)).collect() };
                        let src: Vec<f64> = (0..need(&l) + 1).map(|v| v as f64 * 3.0 - 5.0).collect();
                        let x = read(&src, &l).unwrap();
                        let at = |bi: &Vec<usize>, m: &[usize]| {
                            let mut y: Vec<usize> = if o == FlagOrder::C { bi.clone() } else { m.to_vec() };
                            if o == FlagOrder::C {
                                y.extend(m);
                            } else {
                                y.extend(bi);
                            }
                            y
                        };
                        let mut bs = b.clone();
                        if o == FlagOrder::F {
                            bs.reverse();
                        }
                        c.case(|| format!("{:?} pack/unpack {:?} n {} {}", o, ul, n, fmt_l(&l)), || {
                            let t: TensorView<f64, Dev, IxD> = rt::asarray((&src, l.clone(), &d));
                            let u = ok!(t.pack_tri_f(ul));
                            let u2 = if up { ok!(t.pack_triu_f()) } else { ok!(t.pack_tril_f()) };
                            let g = read(u.raw(), u.layout())?;
                            let g2 = read(u2.raw(), u2.layout())?;
                            ensure!(g.shape == at(&bs, &[n * (n + 1) / 2]), "packed shape {:?}", g.shape);
                            for bi in indices(&bs) {
                                for (k, &(i, j)) in pos.iter().enumerate() {
                                    let v = x.get(&at(&bi, &[i, j]));
                                    ensure!(g.get(&at(&bi, &[k])) == v, "packed element {} of {:?}: {}, expected {}", k, bi, g.get(&at(&bi, &[k])), v);
                                    ensure!(g2.get(&at(&bi, &[k])) == v, "pack_tril/triu element {} of {:?}", k, bi);
                                }
                            }
                            for sy in [FlagSymm::Sy, FlagSymm::Ay, FlagSymm::N] {
                                let w = ok!(u.unpack_tri_f(ul, sy));
                                let w2 = if up { ok!(u.unpack_triu_f(sy)) } else { ok!(u.unpack_tril_f(sy)) };
                                let h = read(w.raw(), w.layout())?;
                                let h2 = read(w2.raw(), w2.layout())?;
                                ensure!(h.shape == at(&bs, &[n, n]), "unpacked shape {:?}", h.shape);
                                for bi in indices(&bs) {
                                    for &(i, j) in &pos {
                                        let v = x.get(&at(&bi, &[i, j]));
                                        let v = if i == j && sy == FlagSymm::Ay { 0.0 } else { v };
                                        ensure!(h.get(&at(&bi, &[i, j])) == v, "unpacked {:?} [{}, {}] of {:?}: {}, expected {}", sy, i, j, bi, h.get(&at(&bi, &[i, j])), v);
                                        ensure!(h2.get(&at(&bi, &[i, j])) == v, "unpack_tril/triu {:?} [{}, {}] of {:?}", sy, i, j, bi);
                                        if sy != FlagSymm::N && i != j {
                                            let v = if sy == FlagSymm::Ay { -v } else { v };
                                            ensure!(h.get(&at(&bi, &[j, i])) == v, "unpacked {:?} [{}, {}] of {:?}", sy, j, i, bi);
                                        }
                                        if sy == FlagSymm::N && i != j {
                                            ensure!(h.get(&at(&bi, &[j, i])) == 0.0, "other triangle holds {} at [{}, {}] of {:?}", h.get(&at(&bi, &[j, i])), j, i, bi);
                                        }
                                    }
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    // ---- rejected requests
    c.section(format!("{}.rejected", NAME));
    for o in ORD {
        let d = dev(o);
        for s in [vec![], vec![3], vec![2, 3], vec![4, 2, 3, 2], vec![0, 1], vec![3, 2]] {
            c.case(|| format!("{:?} pack {:?}", o, s), || {
                let t: Tensor<f64, Dev, IxD> = rt::zeros((s.clone(), &d));
                for ul in [FlagUpLo::L, FlagUpLo::U] {
                    want_err!(t.pack_tri_f(ul), "pack_tri_f");
                }
                Ok(())
            });
        }
        for m in [2usize, 4, 5, 7, 8, 9, 11, 14, 16, 20, 22] {
            c.case(|| format!("{:?} unpack {}", o, m), || {
                let s = if o == FlagOrder::C { vec![2, m] } else { vec![m, 2] };
                let t: Tensor<f64, Dev, IxD> = rt::zeros((s, &d));
                for ul in [FlagUpLo::L, FlagUpLo::U] {
                    want_err!(t.unpack_tri_f(ul, FlagSymm::Sy), "unpack_tri_f");
                }
                let t: Tensor<f64, Dev, IxD> = rt::zeros((Vec::<usize>::new(), &d));
                want_err!(t.unpack_tri_f(FlagUpLo::L, FlagSymm::Sy), "unpack_tri_f of a scalar");
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------ grouping into arrays
fn c17(c: &mut Ctx) {
    let mut r = Rng(c.rng.next());
    let mut shs = vec![];
    for n in 0..=3 {
        shs.extend(shapes(n, &[0, 1, 2, 3]));
    }
    shs.extend([vec![4, 4], vec![4, 2, 2], vec![2, 3, 2, 3], vec![6, 4]]);
    for s in &shs {
        let n = s.len();
        let mut ls: Vec<L> = family(s).into_iter().map(|x| x.1).collect();
        for _ in 0..c.q(6, 30) {
            ls.push(rand_src(s, &mut r));
        }
        // strides that are multiples of the group length
        for k in 0..n {
            for _ in 0..c.q(2, 8) {
                let m = s[k].max(1) as isize;
                let mut t = s.clone();
                t.remove(k);
                let b = rand_layout(&t, &mut r);
                let mut st: Vec<isize> = b.stride().iter().map(|x| x * m).collect();
                st.insert(k, 1);
                if r.below(4) == 0 && n > 1 {
                    let q = r.below(n);
                    st[q] += 1;
                }
                let lo = bounds(s, &st, 0).map_or(0, |x| -x.0);
                let off = (lo + m - 1) / m * m + if r.below(4) == 0 { 1 } else { 0 };
                ls.push(mk(s, &st, off as usize));
            }
        }
        ls.retain(|l| l.check_strides(true).is_ok());
        for l in &ls {
            for ax in -(n as isize) - 1..=n as isize {
                let k = if ax < 0 { ax + n as isize } else { ax };
                let k = if k >= 0 && (k as usize) < n { Some(k as usize) } else { None };
                macro_rules! packn {
                    ($N:literal) => {
                        for pad in 0..2usize {
                            let len = if pad == 0 { (need(l) + $N - 1) / $N * $N } else { need(l) + r.below(3) };
                            let buf: Vec<i64> = (0..len as i64).map(|v| v * 3 + 1).collect();
                            let x = read(&buf, l).unwrap();
                            let (sh, st) = (l.shape().clone(), l.stride().clone());
                            let nn = $N as isize;
                            // strictly valid, strictly invalid, or left open (a stride that is never walked)
                            let valid = k.map_or(false, |k| {
                                sh[k] == $N && st[k] == 1 && l.offset() % $N == 0 && len % $N == 0 && (0..n).all(|j| j == k || st[j] % nn == 0)
                            });
                            let invalid = k.map_or(true, |k| {
                                sh[k] != $N || ($N > 1 && st[k] != 1) || l.offset() % $N != 0 || len % $N != 0 || (0..n).any(|j| j != k && sh[j] > 1 && st[j] % nn != 0)
                            });
                            c.section(format!("{}.pack", NAME));
                            let d = dev(FlagOrder::C);
                            c.case(|| format!("N {} axis {} storage {} {}", $N, ax, len, fmt_l(l)), || {
                                macro_rules! one {
                                    ($t:expr, $what:literal) => {
                                        match $t.into_pack_array_f::<$N>(ax) {
                                            Ok(u) => {
                                                ensure!(!invalid, "{}: invalid request accepted", $what);
                                                let k = k.unwrap();
                                                let lu = u.layout().to_dim::<IxD>().map_err(|e| format!("{:?}", e.inner))?;
                                                let g: Nd<[i64; $N]> = read(u.raw(), &lu)?;
                                                let mut w = x.shape.clone();
                                                w.remove(k);
                                                ensure!(g.shape == w, "{}: shape {:?}, expected {:?}", $what, g.shape, w);
                                                for i in indices(&x.shape) {
                                                    let mut j = i.clone();
                                                    j.remove(k);
                                                    ensure!(g.get(&j)[i[k]] == x.get(&i), "{}: entry {:?} is {}, expected {}", $what, i, g.get(&j)[i[k]], x.get(&i));
                                                }
                                                // and back, on either numbering of the axis
                                                let v = ok!(u.into_unpack_array_f(if ax < 0 { ax } else { k as isize }));
                                                let lv = v.layout().to_dim::<IxD>().map_err(|e| format!("{:?}", e.inner))?;
                                                let h = read(v.raw(), &lv)?;
                                                same(&h, &x).map_err(|e| format!("{}: unpacked: {}", $what, e))?;
                                                ensure!(v.raw() == &buf, "{}: storage after packing and unpacking {:?}, before {:?}", $what, v.raw(), buf);
                                            },
                                            Err(e) => ensure!(!valid, "{}: valid request rejected with {:?}", $what, e.inner),
                                        }
                                    };
                                }
                                one!(rt::asarray((&buf, l.clone(), &d)), "view");
                                one!(owned(l, &buf, &d), "owned");
                                one!(owned(l, &buf, &d).into_cow(), "cow");
                                let mut own = owned(l, &buf, &d);
                                one!(own.view_mut(), "mutable view");
                                Ok(())
                            });
                        }
                    };
                }
                packn!(1);
                packn!(2);
                packn!(3);
                packn!(4);
                if k.map_or(false, |k| s[k] == 0) {
                    c.case(|| format!("N 0 axis {} {}", ax, fmt_l(l)), || {
                        let buf: Vec<i64> = vec![0; need(l) + 8];
                        let d = dev(FlagOrder::C);
                        ensure!(owned(l, &buf, &d).into_pack_array_f::<0>(ax).is_err(), "groups of zero entries accepted");
                        Ok(())
                    });
                }
            }
            // ---- unpacking any layout at any position
            c.section(format!("{}.unpack", NAME));
            let d = dev(FlagOrder::C);
            let buf: Vec<[i64; 3]> = (0..need(l) as i64).map(|v| [v * 10, v * 10 + 1, v * 10 + 2]).collect();
            let x = read(&buf, l).unwrap();
            for ax in -(n as isize) - 2..=n as isize + 1 {
                let k = if ax < 0 { ax + n as isize + 1 } else { ax };
                c.case(|| format!("axis {} {}", ax, fmt_l(l)), || {
                    let t: TensorView<[i64; 3], Dev, IxD> = rt::asarray((&buf, l.clone(), &d));
                    match t.into_unpack_array_f(ax) {
                        Ok(u) => {
                            ensure!(k >= 0 && k <= n as isize, "invalid position accepted");
                            let g = read(u.raw(), u.layout())?;
                            let mut w = s.clone();
                            w.insert(k as usize, 3);
                            ensure!(g.shape == w, "shape {:?}", g.shape);
                            for i in indices(&w) {
                                let mut j = i.clone();
                                let e = j.remove(k as usize);
                                ensure!(g.get(&i) == x.get(&j)[e], "entry {:?}: {}", i, g.get(&i));
                            }
                            Ok(())
                        },
                        Err(e) => {
                            ensure!(k < 0 || k > n as isize, "valid position rejected with {:?}", e.inner);
                            Ok(())
                        },
                    }
                });
            }
        }
    }
}
