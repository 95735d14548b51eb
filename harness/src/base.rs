//! Reference model, layout generation and case accounting of the bounded contract harness.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use rstsr_common::prelude_dev::{FlagOrder, Layout};
pub type L = Layout<Vec<usize>>;
pub type Res = Result<(), String>;

pub struct Ctx {
    pub thorough: bool,
    pub trace: bool,
    pub only: Option<String>,
    pub seed: u64,
    pub section: String,
    pub cases: BTreeMap<String, u64>,
    pub fails: Vec<(String, String, String)>,
    pub nfail: BTreeMap<String, u64>,
    pub known: Vec<String>,
    pub known_hit: BTreeMap<String, (u64, String)>,
    pub samples: BTreeMap<String, Vec<String>>,
    pub rng: Rng,
}

impl Ctx {
    pub fn section(&mut self, s: impl Into<String>) {
        self.section = s.into();
    }
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> Res) {
        if let Some(o) = &self.only {
            if format!("{}: {}", self.section, desc()) != *o {
                return;
            }
        }
        let n = self.cases.entry(self.section.clone()).or_insert(0);
        *n += 1;
        if *n == 1 {
            let d = desc();
            self.samples.entry(self.section.clone()).or_default().push(d);
        }
        if self.trace {
            eprintln!("CASE {}: {}", self.section, desc());
        }
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|e| {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Err(format!("panic: {}", m))
        });
        if let Err(m) = r {
            let d = desc();
            let full = format!("{}: {}", self.section, d);
            for k in &self.known {
                // a known finding names a prefix of `section: case`
                if full == *k || (k.ends_with('*') && full.starts_with(&k[..k.len() - 1])) {
                    let e = self.known_hit.entry(k.clone()).or_insert((0, format!("{} -> {}", full, m)));
                    e.0 += 1;
                    return;
                }
            }
            let c = self.nfail.entry(self.section.clone()).or_insert(0);
            *c += 1;
            if *c <= 8 {
                self.fails.push((self.section.clone(), d, m));
            }
        }
    }
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: isize, hi: isize) -> isize {
        lo + self.below((hi - lo + 1) as usize) as isize
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
}

// ------------------------------------------------------------------ multi-indices
pub fn size(shape: &[usize]) -> usize {
    shape.iter().product()
}
/// all multi-indices in row-major order
pub fn indices(shape: &[usize]) -> Vec<Vec<usize>> {
    let n = size(shape);
    let mut v = Vec::with_capacity(n);
    let mut idx = vec![0; shape.len()];
    for _ in 0..n {
        v.push(idx.clone());
        for k in (0..shape.len()).rev() {
            idx[k] += 1;
            if idx[k] < shape[k] {
                break;
            }
            idx[k] = 0;
        }
    }
    v
}
/// all multi-indices in column-major order
pub fn indices_f(shape: &[usize]) -> Vec<Vec<usize>> {
    let r: Vec<usize> = shape.iter().rev().cloned().collect();
    indices(&r)
        .into_iter()
        .map(|mut x| {
            x.reverse();
            x
        })
        .collect()
}
pub fn indices_o(shape: &[usize], o: FlagOrder) -> Vec<Vec<usize>> {
    match o {
        FlagOrder::C => indices(shape),
        FlagOrder::F => indices_f(shape),
    }
}
pub fn addr(shape: &[usize], stride: &[isize], offset: usize, idx: &[usize]) -> isize {
    assert_eq!(shape.len(), idx.len());
    let mut a = offset as isize;
    for k in 0..idx.len() {
        a += idx[k] as isize * stride[k];
    }
    a
}
pub fn l_addr(l: &L, idx: &[usize]) -> isize {
    addr(l.shape(), l.stride(), l.offset(), idx)
}
pub fn mk(shape: &[usize], stride: &[isize], offset: usize) -> L {
    unsafe { Layout::new_unchecked(shape.to_vec(), stride.to_vec(), offset) }
}
pub fn cstride(shape: &[usize]) -> Vec<isize> {
    let mut s = vec![0; shape.len()];
    let mut a = 1isize;
    for k in (0..shape.len()).rev() {
        s[k] = a;
        a *= shape[k].max(1) as isize;
    }
    s
}
pub fn fstride(shape: &[usize]) -> Vec<isize> {
    let mut s = vec![0; shape.len()];
    let mut a = 1isize;
    for k in 0..shape.len() {
        s[k] = a;
        a *= shape[k].max(1) as isize;
    }
    s
}
/// (min, max+1) address, None if empty
pub fn bounds(shape: &[usize], stride: &[isize], offset: isize) -> Option<(isize, isize)> {
    if size(shape) == 0 {
        return None;
    }
    let (mut lo, mut hi) = (offset, offset);
    for k in 0..shape.len() {
        let e = stride[k] * (shape[k] as isize - 1);
        if e > 0 {
            hi += e
        } else {
            lo += e
        }
    }
    Some((lo, hi + 1))
}
/// buffer length needed
pub fn need(l: &L) -> usize {
    bounds(l.shape(), l.stride(), l.offset() as isize).map(|b| b.1 as usize).unwrap_or(l.offset())
}

// ------------------------------------------------------------------ model arrays
#[derive(Clone, Debug, PartialEq)]
pub struct Nd<T> {
    pub shape: Vec<usize>,
    pub data: Vec<T>, // row-major
}
impl<T: Clone + std::fmt::Debug> Nd<T> {
    pub fn from_fn(shape: &[usize], f: impl Fn(&[usize]) -> T) -> Self {
        Nd { shape: shape.to_vec(), data: indices(shape).iter().map(|i| f(i)).collect() }
    }
    pub fn get(&self, idx: &[usize]) -> T {
        let mut p = 0;
        for k in 0..self.shape.len() {
            p = p * self.shape[k] + idx[k];
        }
        self.data[p].clone()
    }
    pub fn pos(&self, idx: &[usize]) -> usize {
        let mut p = 0;
        for k in 0..self.shape.len() {
            p = p * self.shape[k] + idx[k];
        }
        p
    }
    pub fn set(&mut self, idx: &[usize], v: T) {
        let p = self.pos(idx);
        self.data[p] = v;
    }
    pub fn map<U>(&self, f: impl Fn(&T) -> U) -> Nd<U> {
        Nd { shape: self.shape.clone(), data: self.data.iter().map(f).collect() }
    }
}
/// logical test values: distinct integers
pub fn iota(shape: &[usize], base: i64) -> Nd<i64> {
    Nd { shape: shape.to_vec(), data: (0..size(shape) as i64).map(|x| x + base).collect() }
}
/// buffer in which the layout addresses the elements of `a`; other positions hold `fill`
pub fn buffer<T: Clone + std::fmt::Debug>(a: &Nd<T>, l: &L, fill: T, extra: usize) -> Vec<T> {
    let mut v = vec![fill; need(l) + extra];
    for i in indices(&a.shape) {
        v[l_addr(l, &i) as usize] = a.get(&i);
    }
    v
}
/// read a layout over a slice
pub fn read<T: Clone + std::fmt::Debug>(buf: &[T], l: &L) -> Result<Nd<T>, String> {
    if let Some((lo, hi)) = bounds(l.shape(), l.stride(), l.offset() as isize) {
        if lo < 0 || hi > buf.len() as isize {
            return Err(format!(
                "layout shape {:?} stride {:?} offset {} reaches [{}, {}) outside buffer of length {}",
                l.shape(),
                l.stride(),
                l.offset(),
                lo,
                hi,
                buf.len()
            ));
        }
    }
    Ok(Nd::from_fn(l.shape(), |i| buf[l_addr(l, i) as usize].clone()))
}
pub fn same<T: Clone + PartialEq + std::fmt::Debug>(got: &Nd<T>, want: &Nd<T>) -> Res {
    if got.shape != want.shape {
        return Err(format!("shape {:?}, expected {:?}", got.shape, want.shape));
    }
    for i in indices(&want.shape) {
        if got.get(&i) != want.get(&i) {
            return Err(format!("at {:?} got {:?}, expected {:?}", i, got.get(&i), want.get(&i)));
        }
    }
    Ok(())
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ok {
    ($e:expr) => { match $e { Ok(x) => x, Err(e) => return Err(format!("rejected with {:?}", e.inner)) } };
}

// ------------------------------------------------------------------ layouts of a given shape
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            out.push(q);
        }
    }
    out
}
/// stride assignment visiting axes in `order` (fastest first), gap multiplier and sign per axis
pub fn strided(shape: &[usize], order: &[usize], gap: &[usize], neg: &[bool], off: usize) -> L {
    let n = shape.len();
    let mut st = vec![0isize; n];
    let mut a = 1isize;
    for &k in order {
        let s = a * gap[k] as isize;
        st[k] = if neg[k] { -s } else { s };
        a = s * shape[k].max(1) as isize;
    }
    let mut o = off as isize;
    for k in 0..n {
        if st[k] < 0 && shape[k] > 0 {
            o += -st[k] * (shape[k] as isize - 1);
        }
    }
    mk(shape, &st, o as usize)
}
/// a small diverse family of non-overlapping layouts for a shape
pub fn family(shape: &[usize]) -> Vec<(String, L)> {
    let n = shape.len();
    let fwd: Vec<usize> = (0..n).collect();
    let bwd: Vec<usize> = (0..n).rev().collect();
    let one = vec![1; n];
    let pos = vec![false; n];
    let mut v = vec![
        ("c".to_string(), strided(shape, &bwd, &one, &pos, 0)),
        ("f".to_string(), strided(shape, &fwd, &one, &pos, 0)),
        ("c+off".to_string(), strided(shape, &bwd, &one, &pos, 3)),
    ];
    if n >= 1 {
        v.push(("c-rev".into(), strided(shape, &bwd, &one, &vec![true; n], 1)));
        let mut g = one.clone();
        g[n - 1] = 2;
        v.push(("c-gap-last".into(), strided(shape, &bwd, &g, &pos, 0)));
        let mut g = one.clone();
        g[0] = 3;
        v.push(("c-gap-first".into(), strided(shape, &bwd, &g, &pos, 2)));
        v.push(("f-gap-first".into(), strided(shape, &fwd, &g, &pos, 2)));
        let mut ng = pos.clone();
        ng[n - 1] = true;
        v.push(("c-neg-last".into(), strided(shape, &bwd, &one, &ng, 0)));
        v.push(("f-neg-last".into(), strided(shape, &fwd, &one, &ng, 2)));
        let mut ng = pos.clone();
        ng[0] = true;
        v.push(("c-neg-first".into(), strided(shape, &bwd, &one, &ng, 0)));
    }
    if n >= 3 {
        let mut o = fwd.clone();
        o.swap(0, n - 1);
        o.swap(0, 1);
        v.push(("perm".into(), strided(shape, &o, &one, &pos, 0)));
        let mut g = one.clone();
        g[1] = 2;
        let mut ng = pos.clone();
        ng[1] = true;
        v.push(("perm-gap-neg".into(), strided(shape, &o, &g, &ng, 5)));
    }
    v
}
/// random non-overlapping layout
pub fn rand_layout(shape: &[usize], r: &mut Rng) -> L {
    let n = shape.len();
    let mut o: Vec<usize> = (0..n).collect();
    for k in (1..n).rev() {
        o.swap(k, r.below(k + 1));
    }
    let g: Vec<usize> = (0..n).map(|_| if r.below(3) == 0 { 1 + r.below(3) } else { 1 }).collect();
    let ng: Vec<bool> = (0..n).map(|_| r.below(3) == 0).collect();
    strided(shape, &o, &g, &ng, if r.below(2) == 0 { 0 } else { r.below(7) })
}
/// all shapes of rank `n` with lengths from `lens`
pub fn shapes(n: usize, lens: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        let mut nx = vec![];
        for s in &out {
            for &l in lens {
                let mut t: Vec<usize> = s.clone();
                t.push(l);
                nx.push(t);
            }
        }
        out = nx;
    }
    out
}
pub fn fmt_l(l: &L) -> String {
    format!("shape {:?} stride {:?} offset {}", l.shape(), l.stride(), l.offset())
}
