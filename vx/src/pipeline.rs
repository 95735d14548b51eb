//! `for` loops and iterator chains over slices, ranges and named iterators -> indexed `while` loops.
//!
//! The order of evaluation, the element selected at each step and early exit are those of the std
//! adaptor; the cursor is advanced before the body runs, so `continue` keeps its meaning.
use crate::norm;
use crate::rules::{macro_args, Tr};
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
enum Item {
    Ref(Expr),
    Mut(Expr),
    Val(Expr),
    Tup(Vec<Item>),
}

enum Dom {
    Range(Expr, Expr),
    Len(Expr),
    Next,
}

struct Src {
    pre: Vec<Stmt>,
    dom: Dom,
    rev: bool,
    item: Item,
    steps: Vec<Stmt>,
    skip: Option<Expr>,
}

const CONSUMERS: &[&str] = &[
    "collect", "collect_vec", "product", "sum", "fold", "all", "any", "for_each", "max", "min", "position", "count", "try_for_each", "last", "try_fold", "max_by_key",
];

fn peel(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        _ => e.clone(),
    }
}

fn subst_ident(e: &Expr, from: &Ident, to: &Expr) -> Expr {
    struct S<'a>(&'a Ident, &'a Expr);
    impl<'a> VisitMut for S<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e {
                if p.path.is_ident(self.0) {
                    *e = self.1.clone();
                    return;
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut e = e.clone();
    S(from, to).visit_expr_mut(&mut e);
    e
}

fn map_item(i: &Item, f: &dyn Fn(&Expr) -> Expr) -> Item {
    match i {
        Item::Ref(e) => Item::Ref(f(e)),
        Item::Mut(e) => Item::Mut(f(e)),
        Item::Val(e) => Item::Val(f(e)),
        Item::Tup(v) => Item::Tup(v.iter().map(|x| map_item(x, f)).collect()),
    }
}

fn item_expr(i: &Item) -> Expr {
    match i {
        Item::Ref(e) => parse_quote!(&#e),
        Item::Mut(e) => parse_quote!(&mut #e),
        Item::Val(e) => e.clone(),
        Item::Tup(v) => {
            let es: Vec<Expr> = v.iter().map(item_expr).collect();
            parse_quote!((#(#es),*))
        },
    }
}

/// bind a pattern to an item; `subst` receives (name, place) for `iter_mut` items
fn bind(p: &Pat, i: &Item, out: &mut Vec<Stmt>, subst: &mut Vec<(Ident, Expr)>) {
    match (p, i) {
        (Pat::Type(t), _) => bind(&t.pat, i, out, subst),
        (Pat::Paren(t), _) => bind(&t.pat, i, out, subst),
        (Pat::Wild(_), _) => {},
        (Pat::Tuple(t), Item::Tup(v)) if t.elems.len() == v.len() => {
            for (a, b) in t.elems.iter().zip(v) {
                bind(a, b, out, subst);
            }
        },
        (Pat::Reference(r), Item::Ref(e)) => {
            let q = &r.pat;
            out.push(parse_quote!(let #q = #e;));
        },
        (Pat::Ident(id), Item::Mut(e)) if id.subpat.is_none() => subst.push((id.ident.clone(), e.clone())),
        (_, _) => {
            let e = item_expr(i);
            out.push(parse_quote!(let #p = #e;));
        },
    }
}

struct MutSubst(Vec<(Ident, Expr)>);
impl VisitMut for MutSubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if let UnOp::Deref(_) = u.op {
                if let Expr::Path(p) = &*u.expr {
                    for (n, place) in &self.0 {
                        if p.path.is_ident(n) {
                            *e = place.clone();
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            for (n, place) in &self.0 {
                if p.path.is_ident(n) {
                    *e = place.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Ctx {
    k: usize,
    j: std::collections::BTreeMap<String, usize>,
}

impl Ctx {
    fn id(&mut self, p: &str) -> Ident {
        let j = self.j.entry(p.to_string()).or_insert(0);
        let s = if *j == 0 { format!("vx_{}{}", p, self.k) } else { format!("vx_{}{}_{}", p, self.k, j) };
        *j += 1;
        Ident::new(&s, proc_macro2::Span::call_site())
    }
    fn fixed(&self, p: &str) -> Ident {
        Ident::new(&format!("vx_{}{}", p, self.k), proc_macro2::Span::call_site())
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Index(x) => is_place(&x.expr) && !matches!(&*x.index, Expr::Range(_)),
        _ => false,
    }
}

fn slice_src(base: &Expr, p: &Ident, c: &mut Ctx, kind: u8) -> Src {
    let mut base = peel(base);
    loop {
        base = match &base {
            Expr::Reference(r) if is_place(&peel(&r.expr)) => peel(&r.expr),
            Expr::MethodCall(m)
                if m.args.is_empty()
                    && ["as_ref", "as_mut", "as_slice", "as_mut_slice"].contains(&m.method.to_string().as_str()) =>
            {
                peel(&m.receiver)
            },
            _ => break,
        };
    }
    let mut pre = vec![];
    // a range of a slice: positions lo.. of the slice itself, after the bounds check of the indexing
    if let Expr::Index(ix) = &base {
        if let Expr::Range(r) = peel(&ix.index) {
            if let (true, true, Some(hi), RangeLimits::HalfOpen(_)) = (kind < 2, is_place(&peel(&ix.expr)), &r.end, &r.limits) {
                let x = peel(&ix.expr);
                let lo: Expr = r.start.as_ref().map(|v| (**v).clone()).unwrap_or(parse_quote!(0usize));
                let (l, s) = (c.id("o"), c.id("s"));
                pre.push(parse_quote!(let #l = #lo;));
                pre.push(parse_quote!(let #s = vx_span(#x.len(), #l, #hi);));
                let place: Expr = parse_quote!(#x[#l + #p]);
                let item = if kind == 0 { Item::Ref(place) } else { Item::Mut(place) };
                return Src { pre, dom: Dom::Len(parse_quote!(#s)), rev: false, item, steps: vec![], skip: None };
            }
        }
    }
    let b = if is_place(&base) {
        base
    } else {
        let s = c.id("s");
        if matches!(&base, Expr::Index(i) if matches!(&*i.index, Expr::Range(_))) {
            if kind == 1 {
                pre.push(parse_quote!(let #s = &mut #base;));
            } else {
                pre.push(parse_quote!(let #s = &#base;));
            }
        } else {
            pre.push(parse_quote!(let #s = #base;));
        }
        parse_quote!(#s)
    };
    let place: Expr = parse_quote!(#b[#p]);
    let item = match kind {
        0 => Item::Ref(place),
        1 => Item::Mut(place),
        _ => Item::Val(place),
    };
    Src { pre, dom: Dom::Len(parse_quote!(#b.len())), rev: false, item, steps: vec![], skip: None }
}

fn to_len(s: &mut Src, p: &Ident, c: &mut Ctx) {
    if let Dom::Range(lo, hi) = &s.dom {
        let (l, h) = (c.id("lo"), c.id("hi"));
        let (lo, hi) = (lo.clone(), hi.clone());
        s.pre.push(parse_quote!(let #l = #lo;));
        s.pre.push(parse_quote!(let #h = #hi;));
        let to: Expr = parse_quote!((#l + #p));
        s.item = map_item(&s.item, &|e| subst_ident(e, p, &to));
        s.dom = Dom::Len(parse_quote!((if #h > #l { #h - #l } else { 0 })));
    }
}

/// a reversed source as a forward one: step p reads position len-1-p
fn unrev(s: &mut Src, p: &Ident, c: &mut Ctx) {
    if !s.rev {
        return;
    }
    to_len(s, p, c);
    let Dom::Len(l) = &s.dom else { return };
    let l = l.clone();
    let v = c.id("r");
    s.pre.push(parse_quote!(let #v = #l;));
    let to: Expr = parse_quote!((#v - 1 - #p));
    s.item = map_item(&s.item, &|e| subst_ident(e, p, &to));
    s.dom = Dom::Len(parse_quote!(#v));
    s.rev = false;
}

fn zip(mut a: Src, mut b: Src, p: &Ident, c: &mut Ctx, flat: bool) -> Option<Src> {
    if a.skip.is_some() || b.skip.is_some() || (a.rev && !a.steps.is_empty()) || (b.rev && !b.steps.is_empty()) {
        return None;
    }
    unrev(&mut a, p, c);
    unrev(&mut b, p, c);
    let nxt = matches!(a.dom, Dom::Next) || matches!(b.dom, Dom::Next);
    if nxt && !(matches!(a.dom, Dom::Next) && matches!(b.dom, Dom::Next)) {
        return None;
    }
    let item = match (a.item.clone(), flat) {
        (Item::Tup(mut v), true) => {
            v.push(b.item.clone());
            Item::Tup(v)
        },
        _ => Item::Tup(vec![a.item.clone(), b.item.clone()]),
    };
    let mut pre = vec![];
    let mut steps = a.steps.clone();
    steps.append(&mut b.steps);
    if nxt {
        pre.append(&mut a.pre);
        pre.append(&mut b.pre);
        return Some(Src { pre, dom: Dom::Next, rev: false, item, steps, skip: None });
    }
    to_len(&mut a, p, c);
    to_len(&mut b, p, c);
    pre.append(&mut a.pre);
    pre.append(&mut b.pre);
    let (Dom::Len(la), Dom::Len(lb)) = (&a.dom, &b.dom) else { return None };
    let (m, n) = (c.id("la"), c.id("lb"));
    pre.push(parse_quote!(let #m = #la;));
    pre.push(parse_quote!(let #n = #lb;));
    let len: Expr = parse_quote!((if #m < #n { #m } else { #n }));
    Some(Src { pre, dom: Dom::Len(len), rev: false, item, steps, skip: None })
}

fn parse_src(tr: &mut Tr, e: &Expr, p: &Ident, c: &mut Ctx, into: bool) -> Option<Src> {
    let e = peel(e);
    match &e {
        Expr::Range(r) => {
            let lo: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
            let hi = r.end.as_ref()?;
            let hi: Expr = match r.limits {
                RangeLimits::HalfOpen(_) => (**hi).clone(),
                RangeLimits::Closed(_) => parse_quote!((#hi) + 1),
            };
            Some(Src {
                pre: vec![],
                dom: Dom::Range(lo, hi),
                rev: false,
                item: Item::Val(parse_quote!(#p)),
                steps: vec![],
                skip: None,
            })
        },
        Expr::Macro(m) if m.mac.path.segments.last().unwrap().ident == "izip" => {
            let args = macro_args(&m.mac.tokens);
            let mut acc: Option<Src> = None;
            for a in args {
                let x = syn::parse2::<Expr>(a).ok()?;
                let s = parse_src(tr, &x, p, c, true)?;
                acc = Some(match acc {
                    None => {
                        let mut s = s;
                        s.item = Item::Tup(vec![s.item]);
                        s
                    },
                    Some(a) => zip(a, s, p, c, true)?,
                });
            }
            acc
        },
        Expr::MethodCall(m) => {
            let name = m.method.to_string();
            let rcv = &m.receiver;
            match name.as_str() {
                "iter" if m.args.is_empty() => Some(slice_src(rcv, p, c, 0)),
                "iter_mut" if m.args.is_empty() => Some(slice_src(rcv, p, c, 1)),
                "as_mut" if m.args.is_empty() && into => Some(slice_src(rcv, p, c, 1)),
                "into_iter" if m.args.is_empty() => {
                    if let Some(s) = parse_src(tr, rcv, p, c, false) {
                        return Some(s);
                    }
                    Some(slice_src(rcv, p, c, 2))
                },
                "copied" | "cloned" if m.args.is_empty() => {
                    let mut s = parse_src(tr, rcv, p, c, false)?;
                    s.item = match s.item {
                        Item::Ref(e) if name == "copied" => Item::Val(e),
                        Item::Ref(e) => Item::Val(parse_quote!(#e.clone())),
                        _ => return None,
                    };
                    Some(s)
                },
                "rev" if m.args.is_empty() => {
                    let mut s = parse_src(tr, rcv, p, c, false)?;
                    if matches!(s.dom, Dom::Next) {
                        return None;
                    }
                    s.rev = !s.rev;
                    Some(s)
                },
                "enumerate" if m.args.is_empty() => {
                    let mut s = parse_src(tr, rcv, p, c, false)?;
                    if s.skip.is_some() || s.rev && !s.steps.is_empty() {
                        return None;
                    }
                    unrev(&mut s, p, c);
                    if matches!(s.dom, Dom::Next) {
                        return None;
                    }
                    to_len(&mut s, p, c);
                    s.item = Item::Tup(vec![Item::Val(parse_quote!(#p)), s.item]);
                    Some(s)
                },
                // overlapping windows of a literal width
                "windows" if m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(_)) => {
                    let w = &m.args[0];
                    let mut s = slice_src(rcv, p, c, 0);
                    let (Dom::Len(l), Item::Ref(Expr::Index(x))) = (&s.dom, &s.item) else { return None };
                    let b = &x.expr;
                    let (l, it): (Expr, Expr) =
                        (parse_quote!((if #l < #w { 0 } else { #l - #w + 1 })), parse_quote!(#b[#p..#p + #w]));
                    s.dom = Dom::Len(l);
                    s.item = Item::Ref(it);
                    Some(s)
                },
                "zip" if m.args.len() == 1 => {
                    let a = parse_src(tr, rcv, p, c, false)?;
                    let b = parse_src(tr, &m.args[0], p, c, true)?;
                    zip(a, b, p, c, false)
                },
                "step_by" if m.args.len() == 1 => {
                    let mut s = parse_src(tr, rcv, p, c, false)?;
                    if s.skip.is_some() || !s.steps.is_empty() || matches!(s.dom, Dom::Next) {
                        return None;
                    }
                    unrev(&mut s, p, c);
                    to_len(&mut s, p, c);
                    let Dom::Len(l) = &s.dom else { return None };
                    let (q, ln) = (c.id("k"), c.id("l"));
                    let a = &m.args[0];
                    s.pre.push(parse_quote!(let #q = #a;));
                    s.pre.push(parse_quote!(let #ln = vx_steps(#l, #q);));
                    let to: Expr = parse_quote!((#p * #q));
                    s.item = map_item(&s.item, &|e| subst_ident(e, p, &to));
                    s.dom = Dom::Len(parse_quote!(#ln));
                    Some(s)
                },
                "skip" | "take" if m.args.len() == 1 => {
                    let mut s = parse_src(tr, rcv, p, c, false)?;
                    if s.skip.is_some() || (s.rev && !s.steps.is_empty()) || matches!(s.dom, Dom::Next) {
                        return None;
                    }
                    unrev(&mut s, p, c);
                    to_len(&mut s, p, c);
                    let Dom::Len(l) = &s.dom else { return None };
                    let q = c.id("k");
                    let a = &m.args[0];
                    s.pre.push(parse_quote!(let #q = #a;));
                    let ln = c.id("l");
                    s.pre.push(parse_quote!(let #ln = #l;));
                    if name == "skip" {
                        let to: Expr = parse_quote!((#q + #p));
                        s.item = map_item(&s.item, &|e| subst_ident(e, p, &to));
                        s.dom = Dom::Len(parse_quote!((if #ln > #q { #ln - #q } else { 0 })));
                    } else {
                        s.dom = Dom::Len(parse_quote!((if #ln < #q { #ln } else { #q })));
                    }
                    Some(s)
                },
                "map" | "filter" if m.args.len() == 1 => {
                    let mut s = parse_src(tr, rcv, p, c, false)?;
                    if name == "filter" {
                        let Expr::Closure(cl) = &m.args[0] else { return None };
                        let (st, cond) = inline(cl, &Item::Val({
                            let e = item_expr(&s.item);
                            e
                        }), true, &s.item)?;
                        s.steps.extend(st);
                        s.steps.push(parse_quote!(if !(#cond) { continue; }));
                        s.skip = Some(parse_quote!(true)); // positions no longer match
                        return Some(s);
                    }
                    let v = c.id("m");
                    match &m.args[0] {
                        Expr::Closure(cl) => {
                            let (st, e) = inline(cl, &s.item, false, &s.item)?;
                            s.steps.push(parse_quote!(let #v = { #(#st)* #e };));
                        },
                        Expr::Path(f) => {
                            let e = item_expr(&s.item);
                            s.steps.push(parse_quote!(let #v = #f(#e);));
                        },
                        _ => return None,
                    }
                    s.item = Item::Val(parse_quote!(#v));
                    Some(s)
                },
                _ if into => named_or_slice(tr, &e, p, c),
                _ => None,
            }
        },
        Expr::Reference(r) if into => {
            let k = if r.mutability.is_some() { 1 } else { 0 };
            Some(slice_src(&r.expr, p, c, k))
        },
        _ if into => named_or_slice(tr, &e, p, c),
        // a named iterator used as receiver
        Expr::Path(_) => {
            let n = norm(&e.to_token_stream().to_string());
            if iters(tr).contains(&n) {
                named_or_slice(tr, &e, p, c)
            } else {
                None
            }
        },
        _ => None,
    }
}

fn iters(tr: &Tr) -> Vec<String> {
    tr.b.opts.iter().filter_map(|o| o.strip_prefix("iters:")).flat_map(|s| s.split(',').map(|x| x.to_string())).collect()
}

fn named_or_slice(tr: &mut Tr, e: &Expr, p: &Ident, c: &mut Ctx) -> Option<Src> {
    let n = norm(&e.to_token_stream().to_string());
    if iters(tr).iter().any(|x| *x == n || n.starts_with(&format!("{}::", x)) || n.starts_with(&format!("{}(", x))) {
        let it = c.id("it");
        let v = c.id("v");
        return Some(Src {
            pre: vec![parse_quote!(let mut #it = #e;)],
            dom: Dom::Next,
            rev: false,
            item: Item::Val(parse_quote!(#v)),
            steps: vec![parse_quote!(let #v = match #it.next() { Some(vx_x) => vx_x, None => { break; } };)],
            skip: None,
        });
    }
    // a named slice reference whose elements are plain numbers: the pattern names the place
    if tr.b.opts.iter().filter_map(|o| o.strip_prefix("places:")).any(|s| s.split(',').any(|x| x == n)) {
        return Some(slice_src(e, p, c, 1));
    }
    // by-value / by-reference collection: elements are bound by value (Copy elements)
    match e {
        Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) => Some(slice_src(e, p, c, 2)),
        _ => None,
    }
}

struct HasRet(bool);
impl VisitMut for HasRet {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(_) => self.0 = true,
            Expr::Closure(_) => {},
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

pub fn has_return(e: &Expr) -> bool {
    let mut h = HasRet(false);
    h.visit_expr_mut(&mut e.clone());
    h.0
}

fn inline(cl: &ExprClosure, item: &Item, filter: bool, orig: &Item) -> Option<(Vec<Stmt>, Expr)> {
    if cl.inputs.len() != 1 {
        return None;
    }
    let mut body = (*cl.body).clone();
    let mut h = HasRet(false);
    h.visit_expr_mut(&mut body);
    if h.0 {
        return None;
    }
    let mut st = vec![];
    let mut sub = vec![];
    if filter {
        // filter closures take a reference to the item
        let p = &cl.inputs[0];
        match (p, orig) {
            (Pat::Reference(r), o) => bind(&r.pat, o, &mut st, &mut sub),
            (p, _) => {
                let e = item_expr(item);
                st.push(parse_quote!(let #p = &#e;));
            },
        }
    } else {
        bind(&cl.inputs[0], item, &mut st, &mut sub);
    }
    if !sub.is_empty() {
        MutSubst(sub).visit_expr_mut(&mut body);
    }
    Some((st, body))
}

fn build(s: Src, c: &mut Ctx, p: &Ident, guard: Option<Expr>, body: Vec<Stmt>) -> (Vec<Stmt>, Expr) {
    let mut out = s.pre;
    let i = c.fixed("i");
    let n = c.fixed("n");
    let steps = s.steps;
    let g: Expr = match guard {
        Some(g) => parse_quote!(&& #g),
        None => parse_quote!(true),
    };
    let _ = g;
    match s.dom {
        Dom::Next => {
            let w: Expr = parse_quote!(loop { #(#steps)* #(#body)* });
            (out, w)
        },
        Dom::Range(..) | Dom::Len(..) => {
            let (lo, hi): (Expr, Expr) = match s.dom {
                Dom::Range(lo, hi) => (lo, hi),
                Dom::Len(l) => (parse_quote!(0), l),
                _ => unreachable!(),
            };
            let _ = &s.skip;
            (
                {
                    if !s.rev {
                        out.push(parse_quote!(let #n = #hi;));
                        out.push(parse_quote!(let mut #i = #lo;));
                    } else {
                        out.push(parse_quote!(let #n = #lo;));
                        out.push(parse_quote!(let mut #i = #hi;));
                    }
                    out
                },
                {
                    let cond: Expr = if !s.rev { parse_quote!(#i < #n) } else { parse_quote!(#i > #n) };
                    let cond = match guard_of(&c.k) {
                        _ => cond,
                    };
                    let adv: Vec<Stmt> = if !s.rev {
                        vec![parse_quote!(let #p = #i;), parse_quote!(#i = #i + 1;)]
                    } else {
                        vec![parse_quote!(#i = #i - 1;), parse_quote!(let #p = #i;)]
                    };
                    parse_quote!(while #cond { #(#adv)* #(#steps)* #(#body)* })
                },
            )
        },
    }
}

fn guard_of(_: &usize) {}

fn add_guard(w: &mut Expr, g: Expr) {
    if let Expr::While(w) = w {
        let c = w.cond.clone();
        *w.cond = parse_quote!(#c && #g);
    }
}

thread_local! { static K: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
thread_local! { static LASTFN: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn next_k(tr: &Tr) -> usize {
    let key = format!("{}:{}", tr.b.path, tr.b.line);
    LASTFN.with(|l| {
        if *l.borrow() != key {
            *l.borrow_mut() = key;
            K.with(|k| k.set(0));
        }
    });
    K.with(|k| {
        let v = k.get();
        k.set(v + 1);
        v
    })
}

pub fn rewrite(tr: &mut Tr, e: &Expr) -> Option<Expr> {
    let (core, is_try) = match e {
        Expr::Try(t) => (peel(&t.expr), true),
        _ => (e.clone(), false),
    };
    match &core {
        Expr::ForLoop(f) if !is_try => {
            if tr.b.opts.iter().any(|o| o == "keepfor") {
                return None;
            }
            let k = next_k(tr);
            let mut c = Ctx { k, j: Default::default() };
            let p = c.fixed("p");
            let s = parse_src(tr, &f.expr, &p, &mut c, true)?;
            let mut st = vec![];
            let mut sub = vec![];
            bind(&f.pat, &s.item, &mut st, &mut sub);
            let mut body = f.body.clone();
            if !sub.is_empty() {
                MutSubst(sub).visit_block_mut(&mut body);
            }
            st.extend(body.stmts);
            // a tail expression statement of unit type
            if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
                *semi = Some(Default::default());
            }
            let (pre, mut w) = build(s, &mut c, &p, None, st);
            if let Some(l) = &f.label {
                match &mut w {
                    Expr::While(x) => x.label = Some(l.clone()),
                    Expr::Loop(x) => x.label = Some(l.clone()),
                    _ => {},
                }
            }
            Some(parse_quote!({ #(#pre)* #w }))
        },
        Expr::MethodCall(m) => {
            let name = m.method.to_string();
            // v.sort_by_key(|&k| E): the keys are evaluated once per element, then the sort contract applies
            if (name == "sort_by_key" || name == "sort_unstable_by_key") && m.args.len() == 1 {
                let r = &m.receiver;
                let cl = &m.args[0];
                return Some(parse_quote!({ let vx_keys = #r.iter().map(#cl).collect::<Vec<_>>(); vx_sort_by_key(&mut #r, &vx_keys); }));
            }
            // v.sort_by(cmp): only that the result is a permutation is used, the comparator is dropped
            if (name == "sort_by" || name == "sort_unstable_by") && m.args.len() == 1 {
                let r = &m.receiver;
                return Some(parse_quote!(vx_sort_by(&mut #r)));
            }
            if !CONSUMERS.contains(&name.as_str()) {
                return None;
            }
            // `collect` into Result only together with `?`
            let tf = m.turbofish.as_ref().map(|t| norm(&t.to_token_stream().to_string())).unwrap_or_default();
            let mut res = (name == "collect" && tf.contains("Result")) || name == "try_for_each";
            // collect into the Result the function returns (value position of the body)
            let tail = !is_try && name == "collect" && tr.b.opts.iter().any(|o| o == "rescollect");
            if tail {
                res = true;
            } else if res != is_try {
                return None;
            }
            // x.sorted().collect(): collected, then sorted
            if let ("collect" | "collect_vec", Expr::MethodCall(r)) = (name.as_str(), &*m.receiver) {
                if r.method == "sorted" && r.args.is_empty() {
                    let x = &r.receiver;
                    return Some(parse_quote!({ let mut vx_sorted = #x.collect_vec(); vx_sort(&mut vx_sorted); vx_sorted }));
                }
            }
            // only real chains: the receiver must be a recognised source
            let save = K.with(|k| k.get());
            let k = next_k(tr);
            let mut c = Ctx { k, j: Default::default() };
            let p = c.fixed("p");
            let Some(s) = parse_src(tr, &m.receiver, &p, &mut c, false) else {
                K.with(|k| k.set(save));
                return None;
            };
            let acc = c.fixed("acc");
            let item = s.item.clone();
            let val = |i: &Item| -> Expr {
                match i {
                    Item::Ref(e) | Item::Mut(e) | Item::Val(e) => e.clone(),
                    t => item_expr(t),
                }
            };
            let mk = |pre: Vec<Stmt>, init: Expr, w: Expr| -> Expr { parse_quote!({ #(#pre)* let mut #acc = #init; #w #acc }) };
            match name.as_str() {
                "collect" | "collect_vec" => {
                    let e = item_expr(&item);
                    let e: Expr = if res { parse_quote!(match #e { Ok(vx_x) => vx_x, Err(vx_e) => { return Err(vx_e); } }) } else { e };
                    let (pre, w) = build(s, &mut c, &p, None, vec![parse_quote!(#acc.push(#e);)]);
                    let x = mk(pre, parse_quote!(Vec::new()), w);
                    Some(if tail { parse_quote!(Ok(#x)) } else { x })
                },
                "product" | "sum" => {
                    let e = val(&item);
                    let ty = m.turbofish.as_ref().and_then(|t| t.args.first().cloned()).map(|t| t.to_token_stream().to_string());
                    let suffix = match ty.as_deref() {
                        Some(t) if ["usize", "isize"].contains(&t.trim()) => t.trim().to_string(),
                        _ => tr.b.opts.iter().find_map(|o| o.strip_prefix("numty:")).unwrap_or("usize").to_string(),
                    };
                    let lit: Expr = syn::parse_str(&format!("{}{}", if name == "product" { 1 } else { 0 }, suffix)).unwrap();
                    let st: Stmt = if name == "product" { parse_quote!(#acc = #acc * #e;) } else { parse_quote!(#acc = #acc + #e;) };
                    let (pre, w) = build(s, &mut c, &p, None, vec![st]);
                    Some(mk(pre, lit, w))
                },
                "count" => {
                    let (pre, w) = build(s, &mut c, &p, None, vec![parse_quote!(#acc = #acc + 1;)]);
                    Some(mk(pre, parse_quote!(0usize), w))
                },
                "fold" | "try_fold" => {
                    let tryf = name == "try_fold"; // over Option: None is kept once reached
                    let init = m.args[0].clone();
                    let Expr::Closure(cl) = &m.args[1] else { return None };
                    if cl.inputs.len() != 2 {
                        return None;
                    }
                    let mut st: Vec<Stmt> = vec![];
                    let mut sub = vec![];
                    let pa = &cl.inputs[0];
                    if tryf {
                        bind(&cl.inputs[1], &item, &mut st, &mut sub);
                    } else {
                        st.push(parse_quote!(let #pa = #acc;));
                        bind(&cl.inputs[1], &item, &mut st, &mut sub);
                    }
                    let mut body = (*cl.body).clone();
                    MutSubst(sub).visit_expr_mut(&mut body);
                    st.push(if tryf {
                        parse_quote!(#acc = match #acc { Some(#pa) => #body, None => None };)
                    } else {
                        parse_quote!(#acc = #body;)
                    });
                    let (pre, w) = build(s, &mut c, &p, None, st);
                    let init: Expr = if tryf { parse_quote!(Some(#init)) } else { init };
                    Some(mk(pre, init, w))
                },
                "all" | "any" | "position" => {
                    let Expr::Closure(cl) = &m.args[0] else { return None };
                    let (mut st, e) = inline(cl, &item, false, &item)?;
                    let (init, g): (Expr, Expr) = match name.as_str() {
                        "all" => (parse_quote!(true), parse_quote!(#acc)),
                        "any" => (parse_quote!(false), parse_quote!(!#acc)),
                        _ => (parse_quote!(None), parse_quote!(#acc.is_none())),
                    };
                    if name == "position" {
                        if s.rev || s.skip.is_some() {
                            return None;
                        }
                        st.push(parse_quote!(if #e { #acc = Some(#p); }));
                    } else {
                        st.push(parse_quote!(#acc = #e;));
                    }
                    let (pre, mut w) = build(s, &mut c, &p, None, st);
                    add_guard(&mut w, g);
                    Some(mk(pre, init, w))
                },
                "for_each" => {
                    // a callback passed on by name: recorded
                    if let Expr::Path(f) = &m.args[0] {
                        let e = item_expr(&item);
                        let (pre, w) = build(s, &mut c, &p, None, vec![parse_quote!(#f.push(#e);)]);
                        return Some(parse_quote!({ #(#pre)* #w }));
                    }
                    let Expr::Closure(cl) = &m.args[0] else { return None };
                    let (mut st, e) = inline(cl, &item, false, &item)?;
                    st.push(Stmt::Expr(e, Some(Default::default())));
                    let (pre, w) = build(s, &mut c, &p, None, st);
                    Some(parse_quote!({ #(#pre)* #w }))
                },
                "try_for_each" => {
                    let Expr::Closure(cl) = &m.args[0] else { return None };
                    let (mut st, e) = inline(cl, &item, false, &item)?;
                    match &e {
                        Expr::Block(b) => {
                            let mut ss = b.block.stmts.clone();
                            if let Some(Stmt::Expr(t, None)) = ss.pop() {
                                let t2 = norm(&t.to_token_stream().to_string());
                                if t2 != "Ok(())" {
                                    ss.push(parse_quote!(#t?;));
                                }
                            } else {
                                return None;
                            }
                            st.extend(ss);
                        },
                        _ => st.push(parse_quote!(#e?;)),
                    }
                    let (pre, w) = build(s, &mut c, &p, None, st);
                    Some(parse_quote!({ #(#pre)* #w }))
                },
                "max_by_key" => {
                    // last element with the maximal key
                    let Expr::Closure(cl) = &m.args[0] else { return None };
                    let e = item_expr(&item);
                    let it: Item = match &item {
                        Item::Tup(v) => Item::Tup(v.iter().map(|x| Item::Ref(match x { Item::Ref(e) => parse_quote!((&#e)), Item::Val(e) | Item::Mut(e) => e.clone(), t => item_expr(t) })).collect()),
                        Item::Ref(e) => Item::Ref(parse_quote!((&#e))),
                        Item::Val(e) => Item::Ref(e.clone()),
                        x => x.clone(),
                    };
                    let (mut st, k) = inline(cl, &it, false, &it)?;
                    st.push(parse_quote!(let vx_k = #k;));
                    st.push(parse_quote!(#acc = match #acc { None => Some((vx_k, #e)), Some((vx_b, vx_m)) => if vx_k >= vx_b { Some((vx_k, #e)) } else { Some((vx_b, vx_m)) } };));
                    let (pre, w) = build(s, &mut c, &p, None, st);
                    Some(parse_quote!({ #(#pre)* let mut #acc = None; #w match #acc { Some((_, vx_m)) => Some(vx_m), None => None } }))
                },
                "max" | "min" => {
                    // last maximal element for max, first minimal one for min (std semantics); by reference or value
                    let e = if tr.b.opts.iter().any(|o| o == "copymax") { val(&item) } else { item_expr(&item) };
                    let cmp: Expr = if name == "max" { parse_quote!(vx_x >= vx_m) } else { parse_quote!(vx_x < vx_m) };
                    let (pre, w) = build(
                        s,
                        &mut c,
                        &p,
                        None,
                        vec![
                            parse_quote!(let vx_x = #e;),
                            parse_quote!(#acc = match #acc { None => Some(vx_x), Some(vx_m) => if #cmp { Some(vx_x) } else { Some(vx_m) } };),
                        ],
                    );
                    Some(mk(pre, parse_quote!(None), w))
                },
                _ => None,
            }
        },
        _ => None,
    }
}

#[allow(dead_code)]
fn unused() {
    let _ = quote!();
}
