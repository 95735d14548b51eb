//! C01-C06, C08, C15, C18: contracts on rstsr-common evaluated at runtime on bounded domains.
use crate::base::*;
use rstsr_common::prelude_dev::*;

pub fn run(id: &str, c: &mut Ctx) {
    match id {
        "C01" => c01(c),
        _ => {},
    }
}

pub fn all_strides(n: usize, vals: &[isize]) -> Vec<Vec<isize>> {
    let mut out: Vec<Vec<isize>> = vec![vec![]];
    for _ in 0..n {
        let mut nx = vec![];
        for s in &out {
            for &v in vals {
                let mut t = s.clone();
                t.push(v);
                nx.push(t);
            }
        }
        out = nx;
    }
    out
}

pub fn overlaps(shape: &[usize], stride: &[isize]) -> bool {
    // axes with non-zero stride and length > 1
    let ax: Vec<usize> = (0..shape.len()).filter(|&k| shape[k] > 1 && stride[k] != 0).collect();
    if size(shape) == 0 {
        return false;
    }
    let sh: Vec<usize> = ax.iter().map(|&k| shape[k]).collect();
    let st: Vec<isize> = ax.iter().map(|&k| stride[k]).collect();
    let mut seen = std::collections::HashSet::new();
    for i in indices(&sh) {
        if !seen.insert(addr(&sh, &st, 0, &i)) {
            return true;
        }
    }
    false
}

fn c01(c: &mut Ctx) {
    c.section("layout.bounds_index");
    let (lens, vals): (Vec<usize>, Vec<isize>) =
        c.q((vec![0, 1, 2, 3], vec![-5, -2, -1, 0, 1, 3, 6]), (vec![0, 1, 2, 3, 4], vec![-13, -5, -2, -1, 0, 1, 2, 3, 6, 12]));
    for n in 0..=3usize {
        let lens: &[usize] = if n == 3 && !c.thorough { &[0, 1, 3] } else { &lens };
        for sh in shapes(n, lens) {
            for st in all_strides(n, &vals) {
                for off in [0usize, 4, 11] {
                    let l = mk(&sh, &st, off);
                    c.case(
                        || fmt_l(&l),
                        || {
                            let want = bounds(&sh, &st, off as isize);
                            match (want, l.bounds_index()) {
                                (None, Ok((a, b))) => ensure!(a == b, "empty layout bounds ({}, {})", a, b),
                                (None, Err(_)) => return Err("empty layout rejected".into()),
                                (Some((lo, _)), Err(_)) => ensure!(lo < 0, "valid layout rejected"),
                                (Some((lo, hi)), Ok((a, b))) => {
                                    ensure!(lo >= 0, "negative address {} accepted", lo);
                                    ensure!((a as isize, b as isize) == (lo, hi), "bounds ({}, {}), expected ({}, {})", a, b, lo, hi);
                                },
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    c.section("layout.new");
    for n in 0..=2usize {
        for sh in shapes(n, &lens) {
            for st in all_strides(n, &vals) {
                for off in [0usize, 7] {
                    c.case(
                        || format!("shape {:?} stride {:?} offset {}", sh, st, off),
                        || {
                            let neg = bounds(&sh, &st, off as isize).is_some_and(|b| b.0 < 0);
                            if let Ok(l) = Layout::new(sh.clone(), st.clone(), off) {
                                ensure!(!neg, "layout with negative address accepted");
                                ensure!(l.shape() == &sh && l.stride() == &st && l.offset() == off, "different layout: {}", fmt_l(&l));
                            } else {
                                // rejection is only for a negative address or the overlap rule
                                ensure!(neg || rejectable(&sh, &st), "valid layout rejected");
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    c.section("layout.index");
    for n in 0..=3usize {
        for sh in shapes(n, &[1, 2, 3]) {
            for (nm, l) in family(&sh) {
                for idx in all_strides(n, &[-5, -4, -3, -2, -1, 0, 1, 2, 3, 4]) {
                    if n == 3 && (idx[0].abs() > 3 || (idx[1].abs() > 3)) && !c.thorough {
                        continue;
                    }
                    c.case(
                        || format!("{} {} index {:?}", nm, fmt_l(&l), idx),
                        || {
                            let valid = (0..n).all(|k| idx[k] >= -(sh[k] as isize) && idx[k] < sh[k] as isize);
                            let full: Vec<usize> =
                                (0..n).map(|k| if idx[k] < 0 { (idx[k] + sh[k] as isize) as usize } else { idx[k] as usize }).collect();
                            match l.index_f(&idx) {
                                Ok(p) => {
                                    ensure!(valid, "index out of range accepted");
                                    ensure!(p as isize == l_addr(&l, &full), "position {}, expected {}", p, l_addr(&l, &full));
                                },
                                Err(_) => ensure!(!valid, "valid index rejected"),
                            }
                            if valid {
                                let p = unsafe { l.index_uncheck(&full) };
                                ensure!(p == l_addr(&l, &full), "index_uncheck {}, expected {}", p, l_addr(&l, &full));
                            }
                            Ok(())
                        },
                    );
                }
                let wrong: Vec<isize> = vec![0; n + 1];
                c.case(|| format!("{} wrong rank", fmt_l(&l)), || {
                    ensure!(l.index_f(&wrong).is_err(), "index of wrong rank accepted");
                    Ok(())
                });
            }
        }
    }
    // rank > 4 goes through a different code path
    let l = mk(&[2, 1, 3, 2, 2], &[1, 100, -10, 40, 3], 50);
    for i in indices(l.shape()) {
        c.case(|| format!("{} index {:?}", fmt_l(&l), i), || {
            ensure!(unsafe { l.index_uncheck(&i) } == l_addr(&l, &i), "index_uncheck");
            let ii: Vec<isize> = i.iter().map(|&x| x as isize).collect();
            ensure!(l.index_f(&ii).ok().map(|x| x as isize) == Some(l_addr(&l, &i)), "index_f");
            Ok(())
        });
    }
}

/// the documented overlap rule: sorted by stride, each stride exceeds the reach of the smaller ones
pub fn rejectable(shape: &[usize], stride: &[isize]) -> bool {
    if size(shape) == 0 {
        return false;
    }
    let mut ax: Vec<(usize, usize)> =
        (0..shape.len()).filter(|&k| shape[k] > 1 && stride[k] != 0).map(|k| (stride[k].unsigned_abs(), shape[k])).collect();
    ax.sort();
    let mut reach = 0;
    for (s, d) in ax {
        if s <= reach {
            return true;
        }
        reach += s * (d - 1);
    }
    false
}
