//! Lookup of functions and the AST rewrite rules (each rule is listed in DESIGN.md).
use crate::pipeline;
use crate::{norm, Block};
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type R<T> = std::result::Result<T, (String, String)>;

pub fn lost<T>(m: impl Into<String>) -> R<T> {
    Err(("LOST".into(), m.into()))
}
pub fn unsup<T>(m: impl Into<String>) -> R<T> {
    Err(("UNSUPPORTED".into(), m.into()))
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| norm(&a.to_token_stream().to_string()).contains("cfg(test)"))
}

fn impl_header(i: &ItemImpl) -> String {
    let t = norm(&i.self_ty.to_token_stream().to_string());
    match &i.trait_ {
        Some((_, p, _)) => norm(&format!("impl{}for{}", p.to_token_stream(), t)),
        None => norm(&format!("impl{}", t)),
    }
}

pub struct Found {
    pub sig: Signature,
    pub block: syn::Block,
    pub line: usize,
}

fn find(items: &[Item], target: &[String], out: &mut Vec<Found>) {
    for it in items {
        match it {
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    find(its, target, out);
                }
            },
            Item::Fn(f) if target.len() == 1 && !is_test(&f.attrs) => {
                if f.sig.ident == target[0] {
                    out.push(Found {
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        line: f.sig.ident.span().start().line,
                    });
                }
            },
            Item::Impl(im) if target.len() == 2 && !is_test(&im.attrs) => {
                if impl_header(im) == norm(&target[0]) {
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            if f.sig.ident == target[1] {
                                out.push(Found {
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    line: f.sig.ident.span().start().line,
                                });
                            }
                        }
                    }
                }
            },
            Item::Trait(tr) if target.len() == 2 && norm(&format!("trait{}", tr.ident)) == norm(&target[0]) => {
                for ii in &tr.items {
                    if let TraitItem::Fn(f) = ii {
                        if f.sig.ident == target[1] {
                            if let Some(bl) = &f.default {
                                out.push(Found {
                                    sig: f.sig.clone(),
                                    block: bl.clone(),
                                    line: f.sig.ident.span().start().line,
                                });
                            }
                        }
                    }
                }
            },
            _ => {},
        }
    }
}

/// `#[duplicate_item(names..; [row]..; ..)]` functions, replaced by their rows
pub fn expand_duplicates(f: &mut syn::File) {
    use proc_macro2::TokenTree as T;
    let mut out = vec![];
    for it in f.items.drain(..) {
        let Item::Fn(func) = &it else {
            out.push(it);
            continue;
        };
        let Some(a) = func.attrs.iter().find(|a| a.path().is_ident("duplicate_item")) else {
            out.push(it);
            continue;
        };
        let Meta::List(ml) = &a.meta else { continue };
        let mut parts: Vec<Vec<T>> = vec![vec![]];
        for t in ml.tokens.clone() {
            match &t {
                T::Punct(p) if p.as_char() == ';' => parts.push(vec![]),
                _ => parts.last_mut().unwrap().push(t),
            }
        }
        let names: Vec<String> = parts[0].iter().map(|t| t.to_string()).collect();
        let mut g = func.clone();
        g.attrs.retain(|a| !a.path().is_ident("duplicate_item"));
        let toks = g.to_token_stream();
        for row in parts[1..].iter().filter(|r| r.len() == names.len()) {
            let vals: Vec<TokenStream> = row
                .iter()
                .map(|t| match t {
                    T::Group(g) => g.stream(),
                    o => TokenStream::from(o.clone()),
                })
                .collect();
            let sub = dup_sub(toks.clone(), &names, &vals);
            if let Ok(x) = syn::parse2::<ItemFn>(sub) {
                out.push(Item::Fn(x));
            }
        }
    }
    f.items = out;
}

fn dup_sub(ts: TokenStream, names: &[String], vals: &[TokenStream]) -> TokenStream {
    use proc_macro2::TokenTree as T;
    let mut out = TokenStream::new();
    for t in ts {
        match t {
            T::Ident(i) => match names.iter().position(|n| i == n.as_str()) {
                Some(k) => out.extend(vals[k].clone()),
                None => out.extend([T::Ident(i)]),
            },
            T::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), dup_sub(g.stream(), names, vals));
                n.set_span(g.span());
                out.extend([T::Group(n)]);
            },
            o => out.extend([o]),
        }
    }
    out
}

/// `#[cfg(..)]` under the verified configuration (default features; no per-rank dispatch)
fn cfg_on(attrs: &[Attribute]) -> bool {
    attrs.iter().filter(|a| a.path().is_ident("cfg")).all(|a| {
        let s = norm(&a.to_token_stream().to_string());
        match s.as_str() {
            "#[cfg(feature=\"dispatch_dim_layout_iter\")]" => false,
            "#[cfg(not(feature=\"dispatch_dim_layout_iter\"))]" => true,
            "#[cfg(test)]" => false,
            _ => true,
        }
    })
}
fn stmt_cfg(s: &Stmt) -> bool {
    match s {
        Stmt::Local(l) => cfg_on(&l.attrs),
        Stmt::Expr(Expr::Block(b), _) => cfg_on(&b.attrs),
        Stmt::Expr(Expr::If(b), _) => cfg_on(&b.attrs),
        Stmt::Expr(Expr::ForLoop(b), _) => cfg_on(&b.attrs),
        _ => true,
    }
}

/// the closure bound by `let NAME = |..| ..;` in a body
fn find_closure(b: &syn::Block, name: &str) -> Option<ExprClosure> {
    struct V<'a>(&'a str, Option<ExprClosure>);
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_local(&mut self, l: &'b Local) {
            if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                if i.ident == self.0 {
                    if let Expr::Closure(c) = &*init.expr {
                        self.1 = Some(c.clone());
                    }
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut v = V(name, None);
    syn::visit::Visit::visit_block(&mut v, b);
    v.1
}

fn find_macro(items: &[Item], name: &str) -> Option<(TokenStream, usize)> {
    for it in items {
        match it {
            Item::Macro(m) => {
                if m.ident.as_ref().is_some_and(|i| i == name) {
                    return Some((m.mac.tokens.clone(), m.span().start().line));
                }
            },
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    if let Some(x) = find_macro(its, name) {
                        return Some(x);
                    }
                }
            },
            _ => {},
        }
    }
    None
}

/// `$x` -> `x`, `$crate` -> `crate`
fn strip_dollar(ts: TokenStream) -> TokenStream {
    use proc_macro2::TokenTree as T;
    let mut out = TokenStream::new();
    for t in ts {
        match t {
            T::Punct(p) if p.as_char() == '$' => {},
            T::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), strip_dollar(g.stream()));
                n.set_span(g.span());
                out.extend([T::Group(n)]);
            },
            o => out.extend([o]),
        }
    }
    out
}

pub struct Tr<'a> {
    pub types: &'a [(String, String)],
    pub degeneric: &'a [String],
    pub b: &'a Block,
    pub err: Option<(String, String)>,
    pub n: usize,
    pub self_ty: Option<String>,
}

impl<'a> Tr<'a> {
    pub fn fail(&mut self, m: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(("UNSUPPORTED".into(), m.into()));
        }
    }
    pub fn fresh(&mut self, p: &str) -> Ident {
        let i = Ident::new(&format!("vx_{}{}", p, self.n), proc_macro2::Span::call_site());
        self.n += 1;
        i
    }
    fn opt(&self, s: &str) -> bool {
        self.b.opts.iter().any(|x| x == s)
    }
    fn lookup(&self, key: &str) -> Option<&'a str> {
        self.types.iter().find(|(k, _)| k == key).map(|(_, v)| v.as_str())
    }
}

fn err_kind(e: &Expr) -> Option<Expr> {
    // Error { inner: RSTSRError::Kind(..) | Kind {..}, .. }  ->  Error::Kind
    if let Expr::Struct(s) = e {
        if s.path.segments.last().is_some_and(|x| x.ident == "Error") {
            for f in &s.fields {
                if norm(&f.member.to_token_stream().to_string()) == "inner" {
                    let p = match &f.expr {
                        Expr::Struct(x) => Some(x.path.clone()),
                        Expr::Call(c) => match &*c.func {
                            Expr::Path(p) => Some(p.path.clone()),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(p) = p {
                        let k = &p.segments.last().unwrap().ident;
                        return Some(parse_quote!(Error::#k));
                    }
                }
            }
        }
    }
    None
}

/// Parse macro arguments leniently: the first `n` comma separated expressions.
pub fn macro_args(ts: &TokenStream) -> Vec<TokenStream> {
    use proc_macro2::TokenTree as T;
    let mut v = vec![TokenStream::new()];
    for t in ts.clone() {
        match &t {
            T::Punct(p) if p.as_char() == ',' => v.push(TokenStream::new()),
            _ => v.last_mut().unwrap().extend([t]),
        }
    }
    if v.last().unwrap().is_empty() {
        v.pop();
    }
    v
}

impl<'a> Tr<'a> {
    /// condition under which the checking macro yields Ok, and the error kind
    fn check_macro(&mut self, m: &Macro) -> Option<(Expr, Expr)> {
        let name = m.path.segments.last()?.ident.to_string();
        let a = macro_args(&m.tokens);
        let ex = |t: &TokenStream| syn::parse2::<Expr>(t.clone()).ok();
        match name.as_str() {
            "rstsr_assert" => {
                let c = ex(&a[0])?;
                let k = syn::parse2::<Ident>(a[1].clone()).ok()?;
                Some((c, parse_quote!(Error::#k)))
            },
            "rstsr_assert_eq" => {
                let (x, y) = (ex(&a[0])?, ex(&a[1])?);
                let k = syn::parse2::<Ident>(a[2].clone()).ok()?;
                Some((parse_quote!((#x) == (#y)), parse_quote!(Error::#k)))
            },
            "rstsr_pattern" => {
                let v = ex(&a[0])?;
                let k = syn::parse2::<Ident>(a[2].clone()).ok()?;
                let p = ex(&a[1])?;
                let p = match p {
                    Expr::Paren(p) => *p.expr,
                    p => p,
                };
                let Expr::Range(r) = p else { return None };
                let mut c: Expr = parse_quote!(true);
                if let Some(lo) = &r.start {
                    c = parse_quote!((#lo) <= (#v));
                }
                if let Some(hi) = &r.end {
                    let h: Expr = match r.limits {
                        RangeLimits::HalfOpen(_) => parse_quote!((#v) < (#hi)),
                        RangeLimits::Closed(_) => parse_quote!((#v) <= (#hi)),
                    };
                    c = if r.start.is_some() { parse_quote!(#c && #h) } else { h };
                }
                Some((c, parse_quote!(Error::#k)))
            },
            _ => None,
        }
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        if let Some((c, k)) = self.check_macro(m) {
            return Some(parse_quote!((if #c { Ok(()) } else { Err(#k) })));
        }
        let a = macro_args(&m.tokens);
        let ex = |t: &TokenStream| syn::parse2::<Expr>(t.clone()).ok();
        match name.as_str() {
            "rstsr_invalid" => Some(parse_quote!(Err(Error::InvalidValue))),
            "rstsr_raise" => {
                let k = syn::parse2::<Ident>(a[0].clone()).ok()?;
                Some(parse_quote!(Err(Error::#k)))
            },
            "rstsr_error" => {
                let k = syn::parse2::<Ident>(a[0].clone()).ok()?;
                Some(parse_quote!(Error::#k))
            },
            "rstsr_axis_error" => Some(parse_quote!(Error::AxisError)),
            "rstsr_check_axis" => {
                let (x, y) = (ex(&a[0])?, ex(&a[1])?);
                Some(parse_quote!(rstsr_check_axis(#x, #y)))
            },
            "rstsr_check_axis_insert" => {
                let (x, y) = (ex(&a[0])?, ex(&a[1])?);
                Some(parse_quote!(rstsr_check_axis_insert(#x, #y)))
            },
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(parse_quote!(vx_unreachable())),
            "assert" | "debug_assert" => {
                let x = ex(&a[0])?;
                Some(parse_quote!(vx_assert(#x)))
            },
            "assert_eq" | "debug_assert_eq" => {
                let (x, y) = (ex(&a[0])?, ex(&a[1])?);
                Some(parse_quote!(vx_assert((#x) == (#y))))
            },
            "vec" => {
                if m.tokens.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                let parts = {
                    // `x; n`
                    let mut it = vec![TokenStream::new()];
                    for t in m.tokens.clone() {
                        if let proc_macro2::TokenTree::Punct(p) = &t {
                            if p.as_char() == ';' {
                                it.push(TokenStream::new());
                                continue;
                            }
                        }
                        it.last_mut().unwrap().extend([t]);
                    }
                    it
                };
                if parts.len() == 2 {
                    let (x, y) = (ex(&parts[0])?, ex(&parts[1])?);
                    return Some(parse_quote!(vx_vec_fill(#x, #y)));
                }
                let es: Vec<Expr> = a.iter().filter_map(ex).collect();
                let v = self.fresh("vec");
                Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#es);)* #v }))
            },
            "slice" => {
                let arg = |t: &TokenStream| -> Option<Expr> {
                    let e = ex(t)?;
                    let lit = matches!(&e, Expr::Lit(_)) || matches!(&e, Expr::Unary(u) if matches!(*u.expr, Expr::Lit(_)));
                    Some(if lit { parse_quote!(Some(#e)) } else { e })
                };
                let (x, y, z): (Expr, Expr, Expr) = match a.len() {
                    1 => (parse_quote!(None), arg(&a[0])?, parse_quote!(None)),
                    2 => (arg(&a[0])?, arg(&a[1])?, parse_quote!(None)),
                    _ => (arg(&a[0])?, arg(&a[1])?, arg(&a[2])?),
                };
                Some(parse_quote!(Slice::new(#x, #y, #z)))
            },
            "matches" => None,
            _ => None,
        }
    }
}

impl<'a> VisitMut for Tr<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let k = norm(&t.to_token_stream().to_string());
        if let Some(v) = self.lookup(&k) {
            match syn::parse_str::<Type>(v) {
                Ok(n) => {
                    *t = n;
                    return;
                },
                Err(_) => return self.fail(format!("type subst {} -> {}", k, v)),
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        let k = norm(&p.to_token_stream().to_string());
        if let Some(v) = self.lookup(&k) {
            if let Ok(n) = syn::parse_str::<Path>(v) {
                *p = n;
                return;
            }
        }
        for s in p.segments.iter_mut() {
            if self.degeneric.iter().any(|d| s.ident == d) {
                s.arguments = PathArguments::None;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // drop `use` items in bodies
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))) && stmt_cfg(s));
        // lifted closures (each is extracted as a function of its own)
        let lifted: Vec<String> = self.b.opts.iter().filter_map(|o| o.strip_prefix("noclosures:")).flat_map(|s| s.split(',').map(|x| x.to_string())).collect();
        b.stmts.retain(|s| match s {
            Stmt::Local(Local { pat: Pat::Ident(i), init: Some(init), .. }) => {
                !(lifted.iter().any(|n| i.ident == n) && matches!(&*init.expr, Expr::Closure(_)))
            },
            _ => true,
        });
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                let semi = m.semi_token;
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                *s = Stmt::Expr(e, semi);
            }
            // `let [a, b] = *x;` on a shape of fixed rank
            if let Stmt::Local(Local { pat, init: Some(init), .. }) = s {
                if let Pat::Slice(ps) = &*pat {
                    if ps.elems.iter().all(|p| matches!(p, Pat::Ident(i) if i.subpat.is_none()) || matches!(p, Pat::Wild(_))) {
                        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*init.expr {
                            let es: Vec<Expr> = (0..ps.elems.len()).map(|i| { let i = syn::Index::from(i); parse_quote!(#expr[#i]) }).collect();
                            let el = &ps.elems;
                            *init.expr = parse_quote!((#(#es),*));
                            let el: Vec<Pat> = el.iter().cloned().collect();
                            *pat = Pat::Tuple(PatTuple { attrs: vec![], paren_token: Default::default(), elems: el.into_iter().collect() });
                        }
                    }
                }
            }
            // drop attributes on statements (#[allow], ...)
            match s {
                Stmt::Local(l) => l.attrs.clear(),
                Stmt::Expr(e, _) => strip_attrs(e),
                _ => {},
            }
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- before children: forms that consume whole chains
        // NAME(args, |pat| body) with NAME generic in a callback: NAME records the arguments of the
        // calls, the closure's body runs over the record in order
        if let Expr::Call(c) = e {
            let n = norm(&c.func.to_token_stream().to_string());
            if self.b.opts.iter().filter_map(|o| o.strip_prefix("dispatch:")).any(|s| s.split(',').any(|x| x == n)) {
                if let Some(Expr::Closure(cl)) = c.args.last() {
                    if cl.inputs.len() != 1 || pipeline::has_return(&cl.body) {
                        return self.fail("callback with return");
                    }
                    let (pat, body, f) = (&cl.inputs[0], &cl.body, &c.func);
                    let args: Vec<&Expr> = c.args.iter().take(c.args.len() - 1).collect();
                    let mut ne: Expr = parse_quote!({
                        let mut vx_rec = Vec::new();
                        match #f(#(#args,)* &mut vx_rec) {
                            Ok(_) => { for #pat in vx_rec.into_iter() { #body; } Ok(()) },
                            Err(vx_e) => Err(vx_e),
                        }
                    });
                    self.visit_expr_mut(&mut ne);
                    *e = ne;
                    return;
                }
            }
        }
        if let Expr::Try(t) = e {
            if let Expr::Macro(m) = &*t.expr {
                if let Some((c, k)) = self.check_macro(&m.mac) {
                    let mut ne: Expr = parse_quote!(if !(#c) { return Err(#k); });
                    self.visit_expr_mut(&mut ne);
                    *e = ne;
                    return;
                }
            }
        }
        if let Expr::Macro(m) = e {
            let mac = m.mac.clone();
            if let Some(mut ne) = self.macro_expr(&mac) {
                self.visit_expr_mut(&mut ne);
                *e = ne;
                return;
            }
            let n = mac.path.segments.last().unwrap().ident.to_string();
            if n == "matches" {
                // matches!(e, pat) -> match e { pat => true, _ => false }
                let a = macro_args(&mac.tokens);
                if a.len() == 2 {
                    let (x, p) = (&a[0], &a[1]);
                    if let Ok(ne) = syn::parse2::<Expr>(quote!(match #x { #p => true, _ => false })) {
                        let mut ne = ne;
                        self.visit_expr_mut(&mut ne);
                        *e = ne;
                        return;
                    }
                }
            }
            if n == "format" {
                // format!("lit{}lit", x, ..): the pieces are appended to a list of characters
                let a = macro_args(&mac.tokens);
                let a: Vec<Expr> = a.into_iter().filter_map(|t| syn::parse2(t).ok()).collect();
                if let Some(ne) = format_pieces(&a) {
                    let mut ne = ne;
                    self.visit_expr_mut(&mut ne);
                    *e = ne;
                    return;
                }
            }
            if n != "izip" {
                self.fail(format!("macro {}!", n));
            }
            return;
        }
        // (A..=B).chain(C..=D).map(|c| c as char): a named generator of characters
        if let Some(ne) = label_chain(e) {
            *e = ne;
            return;
        }
        if let Some(mut ne) = pipeline::rewrite(self, e) {
            // children of the pipeline are visited now
            self.visit_expr_mut(&mut ne);
            *e = ne;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        // ---- after children
        strip_attrs(e);
        if let Some(k) = err_kind(e) {
            *e = k;
            return;
        }
        match e {
            Expr::Binary(b)
                if matches!(b.op, BinOp::Eq(_))
                    && self.b.opts.iter().any(|o| *o == format!("unit:{}", norm(&b.right.to_token_stream().to_string()))) =>
            {
                let (x, p) = (&b.left, &b.right);
                *e = parse_quote!(match #x { #p => true, _ => false });
            },
            // raw pointer casts: the pointer stand-in carries the elements
            Expr::Cast(c) if self.opt("rawcast") && matches!(&*c.ty, Type::Ptr(_)) => {
                let x = (*c.expr).clone();
                *e = x;
            },
            Expr::Unsafe(u) => {
                let b = &u.block;
                *e = parse_quote!(#b);
            },
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if m.args.is_empty() && (name == "as_ref" || name == "as_mut") && !self.opt("keep_asref") {
                    let r = (*m.receiver).clone();
                    *e = match (&r, name.as_str()) {
                        (Expr::Field(_), "as_ref") => parse_quote!((&#r)),
                        (Expr::Field(_), _) => parse_quote!((&mut #r)),
                        _ => r,
                    };
                    return;
                }
                if (m.args.is_empty() && self.b.opts.iter().any(|o| *o == format!("drop:{}", name)))
                    || self.b.opts.iter().any(|o| *o == format!("dropargs:{}", name))
                {
                    let r = (*m.receiver).clone();
                    *e = r;
                    return;
                }
                // MaybeUninit::write: an assignment of the element
                if name == "write" && m.args.len() == 1 && !self.b.calls.iter().any(|(k, _)| k == ".write") {
                    let (x, v) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(#x = #v);
                    return;
                }
                if name == "copy_from_slice" && m.args.len() == 1 {
                    if let Expr::Index(ix) = &*m.receiver {
                        if let Expr::Range(r) = &*ix.index {
                            let x = &ix.expr;
                            let src = &m.args[0];
                            let lo: Expr = r.start.as_ref().map(|v| (**v).clone()).unwrap_or(parse_quote!(0));
                            let hi: Expr = r.end.as_ref().map(|v| (**v).clone()).unwrap_or(parse_quote!(#x.len()));
                            *e = parse_quote!(vx_copy_into(&mut #x, #lo, #hi, #src));
                            return;
                        }
                    }
                }
                if name == "ok_or_else" && m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        if c.inputs.is_empty() {
                            let (x, b) = (&m.receiver, &c.body);
                            *e = parse_quote!(match #x { Some(vx_v) => Ok(vx_v), None => Err(#b) });
                            return;
                        }
                    }
                }
                if name == "map" && m.args.len() == 1 && (self.opt("resmap") || self.opt("optmap")) {
                    if let Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 {
                            let (x, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                            *e = if self.opt("resmap") {
                                parse_quote!(match #x { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) })
                            } else {
                                parse_quote!(match #x { Some(#p) => Some(#b), None => None })
                            };
                            return;
                        }
                    }
                }
                m.turbofish = None;
                if let Some((_, v)) = self.b.methods.iter().find(|(k, _)| *k == name) {
                    m.method = Ident::new(v, m.method.span());
                }
                // calls of free functions given as `.name -> func`
                let key = format!(".{}", name);
                if let Some((_, v)) = self.b.calls.iter().find(|(k, _)| *k == key) {
                    // `&mut f` / `& f`: the receiver is borrowed
                    let (v, bor) = match (v.strip_prefix("&mut ").or(v.strip_prefix("&mut* ")), v.strip_prefix("& ").or(v.strip_prefix("&* "))) {
                        // `&mut*`: a receiver that is a variable is a reference already
                        (Some(x), _) if v.starts_with("&mut* ") && matches!(&*m.receiver, Expr::Path(_)) => (x, 3),
                        (Some(x), _) => (x, 2),
                        (_, Some(x)) if v.starts_with("&* ") && matches!(&*m.receiver, Expr::Path(_)) && !self.b.opts.iter().filter_map(|o| o.strip_prefix("vals:")).any(|s| s.split(',').any(|y| y == norm(&m.receiver.to_token_stream().to_string()))) => (x, 4),
                        (_, Some(x)) => (x, 1),
                        _ => (v.as_str(), 0),
                    };
                    let f: Expr = syn::parse_str(v).unwrap();
                    let r = &m.receiver;
                    let r: Expr = match bor {
                        2 => parse_quote!(&mut #r),
                        3 => parse_quote!(&mut *#r),
                        4 => parse_quote!(&*#r),
                        1 => parse_quote!(&#r),
                        _ => parse_quote!(#r),
                    };
                    let a = &m.args;
                    *e = if a.is_empty() { parse_quote!(#f(#r)) } else { parse_quote!(#f(#r, #a)) };
                    return;
                }
            },
            // `&x[lo..hi]` of a slice
            Expr::Reference(r) if self.opt("subslice") && r.mutability.is_none() && matches!(&*r.expr, Expr::Index(i) if matches!(&*i.index, Expr::Range(_)) && matches!(&*i.expr, Expr::Path(_))) => {
                let Expr::Index(ix) = &*r.expr else { return };
                let Expr::Range(rg) = &*ix.index else { return };
                if !matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                    return self.fail("closed range");
                }
                let x = &ix.expr;
                let lo: Expr = rg.start.as_ref().map(|v| (**v).clone()).unwrap_or(parse_quote!(0));
                *e = match &rg.end {
                    Some(hi) => parse_quote!(vx_sub(#x, #lo, #hi)),
                    None => parse_quote!(vx_sub_from(#x, #lo)),
                };
            },
            Expr::Call(c) => {
                let no: Vec<String> = noargs(self.b);
                if !no.is_empty() {
                    let keep: Vec<Expr> = c.args.iter().filter(|a| {
                        let n = norm(&a.to_token_stream().to_string());
                        !no.iter().any(|x| *x == n.trim_start_matches('&').trim())
                    }).cloned().collect();
                    c.args = keep.into_iter().collect();
                }
                let name = norm(&c.func.to_token_stream().to_string());
                if let Some((_, v)) = self.b.calls.iter().find(|(k, _)| *k == name) {
                    c.func = syn::parse_str(v).unwrap();
                }
            },
            Expr::Block(b) if b.attrs.is_empty() && b.label.is_none() => {},
            _ => {},
        }
    }
}

/// `noarg:a,b`: callback parameters that are represented by fixed functions; removed here and where they are passed on
fn noargs(b: &crate::Block) -> Vec<String> {
    b.opts.iter().filter_map(|o| o.strip_prefix("noarg:")).flat_map(|s| s.split(',').map(|x| x.to_string())).collect()
}

fn strip_attrs(e: &mut Expr) {
    match e {
        Expr::If(x) => x.attrs.clear(),
        Expr::ForLoop(x) => x.attrs.clear(),
        Expr::Block(x) => x.attrs.clear(),
        Expr::Match(x) => x.attrs.clear(),
        Expr::Unsafe(x) => x.attrs.clear(),
        Expr::Call(x) => x.attrs.clear(),
        Expr::MethodCall(x) => x.attrs.clear(),
        _ => {},
    }
}

/// Number loops (while / loop) in source order, put `vx_loop!(k);` first in each body.
struct Loops {
    n: usize,
    for_left: bool,
}
impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                let k = proc_macro2::Literal::usize_unsuffixed(self.n);
                self.n += 1;
                w.body.stmts.insert(0, parse_quote!(vx_loop!(#k);));
                visit_mut::visit_expr_while_mut(self, w);
            },
            Expr::Loop(w) => {
                let k = proc_macro2::Literal::usize_unsuffixed(self.n);
                self.n += 1;
                w.body.stmts.insert(0, parse_quote!(vx_loop!(#k);));
                visit_mut::visit_expr_loop_mut(self, w);
            },
            Expr::ForLoop(_) => self.for_left = true,
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// Insert `vx_anchor!(k);` statements at anchors.
struct Anchor<'a> {
    kind: &'a str,
    arg: String,
    occ: usize,
    seen: usize,
    done: bool,
    mark: Stmt,
}
impl<'a> VisitMut for Anchor<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.done {
                return;
            }
            match self.kind {
                "let" => {
                    let hit = match &b.stmts[i] {
                        Stmt::Local(l) => pat_names(&l.pat).contains(&self.arg),
                        _ => false,
                    };
                    // descend first into the initialiser
                    if !hit {
                        self.visit_stmt_mut(&mut b.stmts[i]);
                    } else {
                        if self.seen == self.occ {
                            b.stmts.insert(i + 1, self.mark.clone());
                            self.done = true;
                            return;
                        }
                        self.seen += 1;
                        self.visit_stmt_mut(&mut b.stmts[i]);
                    }
                },
                "before" | "after" => {
                    let txt = norm(&b.stmts[i].to_token_stream().to_string());
                    if txt.starts_with(&self.arg) {
                        if self.seen == self.occ {
                            let p = if self.kind == "before" { i } else { i + 1 };
                            b.stmts.insert(p, self.mark.clone());
                            self.done = true;
                            return;
                        }
                        self.seen += 1;
                    }
                    self.visit_stmt_mut(&mut b.stmts[i]);
                },
                "return" => {
                    let is_ret = matches!(&b.stmts[i], Stmt::Expr(Expr::Return(_), _));
                    if is_ret {
                        if self.seen == self.occ {
                            b.stmts.insert(i, self.mark.clone());
                            self.done = true;
                            return;
                        }
                        self.seen += 1;
                    }
                    self.visit_stmt_mut(&mut b.stmts[i]);
                },
                "loop" => {
                    // arg: "K before|after|top|bottom"
                    let (k, w) = self.arg.split_once(' ').unwrap();
                    let marker = norm(&format!("vx_loop!({});", k));
                    let is = |e: &Expr| match e {
                        Expr::While(x) => norm(&x.body.stmts[0].to_token_stream().to_string()) == marker,
                        Expr::Loop(x) => norm(&x.body.stmts[0].to_token_stream().to_string()) == marker,
                        _ => false,
                    };
                    let w = w.to_string();
                    let mark = self.mark.clone();
                    let hit = match &mut b.stmts[i] {
                        Stmt::Expr(e, _) if is(e) => {
                            let body = match e {
                                Expr::While(x) => &mut x.body,
                                Expr::Loop(x) => &mut x.body,
                                _ => unreachable!(),
                            };
                            match w.as_str() {
                                "top" => body.stmts.insert(1, mark.clone()),
                                "bottom" => body.stmts.push(mark.clone()),
                                _ => {},
                            }
                            true
                        },
                        _ => false,
                    };
                    if hit {
                        match w.as_str() {
                            "before" => b.stmts.insert(i, mark),
                            "after" => b.stmts.insert(i + 1, mark),
                            _ => {},
                        }
                        self.done = true;
                        return;
                    }
                    self.visit_stmt_mut(&mut b.stmts[i]);
                },
                _ => {},
            }
            i += 1;
        }
    }
}

pub fn pat_names(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            self.0.push(i.ident.to_string());
        }
    }
    let mut v = V(vec![]);
    syn::visit::visit_pat(&mut v, p);
    v.0
}

pub fn extract_fn(f: &syn::File, b: &Block, degeneric: &[String]) -> R<(String, usize, usize)> {
    let mut types = b.types.clone();
    let found = if let Some(mname) = &b.macrofn {
        let Some((ts, line)) = find_macro(&f.items, mname) else { return lost(format!("macro {}", mname)) };
        // last group after `=>`
        let mut body = None;
        for t in ts {
            if let proc_macro2::TokenTree::Group(g) = t {
                body = Some(g.stream());
            }
        }
        let body = strip_dollar(body.unwrap());
        let block: syn::Block = match syn::parse2(body) {
            Ok(x) => x,
            Err(e) => return unsup(format!("macro body: {}", e)),
        };
        let sig: Signature = syn::parse_str(b.sig.as_ref().unwrap()).map_err(|e| ("SPEC".to_string(), e.to_string()))?;
        Found { sig, block, line }
    } else {
        let mut v = vec![];
        let occ = b.opts.iter().find_map(|o| o.strip_prefix("occ:").map(|x| x.parse::<usize>().unwrap())).unwrap_or(0);
        find(&f.items, &b.target, &mut v);
        if v.len() <= occ {
            return lost("function not found");
        }
        v.swap_remove(occ)
    };
    let Found { mut sig, mut block, line } = found;
    if let Some(n) = b.opts.iter().find_map(|o| o.strip_prefix("closure:")) {
        let Some(c) = find_closure(&block, n) else { return lost(format!("closure {}", n)) };
        sig = syn::parse_str(b.sig.as_ref().unwrap()).map_err(|e| ("SPEC".to_string(), e.to_string()))?;
        let names: Vec<Pat> = c.inputs.iter().cloned().collect();
        if names.len() != sig.inputs.len() {
            return lost("closure arity");
        }
        let body = &c.body;
        block = match &*c.body {
            Expr::Block(x) => x.block.clone(),
            _ => parse_quote!({ #body }),
        };
        let ps: Vec<Stmt> = names
            .iter()
            .zip(sig.inputs.iter())
            .filter_map(|(p, a)| {
                let FnArg::Typed(t) = a else { return None };
                let p = match p {
                    Pat::Type(x) => (*x.pat).clone(),
                    o => o.clone(),
                };
                let q = &t.pat;
                if norm(&p.to_token_stream().to_string()) == norm(&q.to_token_stream().to_string()) {
                    return None;
                }
                Some(parse_quote!(let #p = #q;))
            })
            .collect();
        for (i, s) in ps.into_iter().enumerate() {
            block.stmts.insert(i, s);
        }
    }
    if let Some(n) = &b.rename {
        sig.ident = Ident::new(n, sig.ident.span());
    }
    // generics dropped (they are instantiated by the type map) unless given
    for (k, v) in &b.types {
        types.push((k.clone(), v.clone()));
    }
    sig.generics = Generics::default();
    sig.unsafety = None;
    let self_ty = if b.target.len() == 2 { Some(b.target[0].clone()) } else { None };
    let no = noargs(b);
    if !no.is_empty() {
        let keep: Vec<FnArg> = sig.inputs.iter().filter(|i| match i {
            FnArg::Typed(p) => !no.contains(&norm(&p.pat.to_token_stream().to_string())),
            _ => true,
        }).cloned().collect();
        sig.inputs = keep.into_iter().collect();
    }
    let mut tr = Tr { types: &types, degeneric, b, err: None, n: 0, self_ty };
    let mut muts: Vec<Stmt> = vec![];
    for inp in sig.inputs.iter_mut() {
        if let FnArg::Typed(p) = inp {
            p.attrs.clear();
            let name = norm(&p.pat.to_token_stream().to_string());
            let name = name.strip_prefix("mut").map(|s| s.to_string()).filter(|_| matches!(&*p.pat, Pat::Ident(i) if i.mutability.is_some())).unwrap_or(name);
            if let Some((_, t)) = b.params.iter().find(|(k, _)| *k == name) {
                *p.ty = syn::parse_str(t).map_err(|e| ("SPEC".to_string(), e.to_string()))?;
            } else {
                tr.visit_type_mut(&mut p.ty);
            }
            // `arg:x`: the argument is called vx_x, x is bound to it (for parameters that the body shadows)
            if b.opts.iter().any(|o| *o == format!("arg:{}", name)) {
                if let Pat::Ident(i) = &mut *p.pat {
                    let id = i.ident.clone();
                    let na = Ident::new(&format!("vx_{}", id), id.span());
                    i.ident = na.clone();
                    i.mutability = None;
                    muts.push(parse_quote!(let #id = #na;));
                    continue;
                }
            }
            // `mut x: T` parameters: bind inside the body (contracts speak about the argument)
            if let Pat::Ident(i) = &mut *p.pat {
                if i.mutability.is_some() {
                    i.mutability = None;
                    let id = &i.ident;
                    if b.opts.iter().any(|o| *o == format!("nomut:{}", id)) {
                        continue;
                    }
                    muts.push(parse_quote!(let mut #id = #id;));
                }
            }
        } else if let FnArg::Receiver(rc) = inp {
            // `mut self`
            if rc.reference.is_none() && rc.mutability.is_some() {
                rc.mutability = None;
                muts.push(parse_quote!(let mut vx_self = self;));
            }
        }
    }
    let retty: Option<Type> = match (&b.retty, &sig.output) {
        (Some(t), _) => Some(syn::parse_str(t).map_err(|e| ("SPEC".to_string(), e.to_string()))?),
        (None, ReturnType::Default) => None,
        (None, ReturnType::Type(_, t)) => {
            let mut t = (**t).clone();
            tr.visit_type_mut(&mut t);
            Some(t)
        },
    };
    if muts.iter().any(|m| norm(&m.to_token_stream().to_string()).contains("vx_self")) {
        struct S;
        impl VisitMut for S {
            fn visit_ident_mut(&mut self, i: &mut Ident) {
                if i == "self" {
                    *i = Ident::new("vx_self", i.span());
                }
            }
            fn visit_macro_mut(&mut self, m: &mut Macro) {
                m.tokens = sub_self(m.tokens.clone());
            }
        }
        fn sub_self(ts: TokenStream) -> TokenStream {
            use proc_macro2::TokenTree as T;
            ts.into_iter()
                .map(|t| match t {
                    T::Ident(i) if i == "self" => T::Ident(Ident::new("vx_self", i.span())),
                    T::Group(g) => T::Group(proc_macro2::Group::new(g.delimiter(), sub_self(g.stream()))),
                    o => o,
                })
                .collect()
        }
        S.visit_block_mut(&mut block);
    }
    tr.visit_block_mut(&mut block);
    if let Some(e) = tr.err.take() {
        return Err(e);
    }
    for (i, m) in muts.into_iter().enumerate() {
        block.stmts.insert(i, m);
    }
    let mut lp = Loops { n: 0, for_left: false };
    lp.visit_block_mut(&mut block);
    if lp.for_left {
        return unsup("a for loop over an iterator outside the supported forms remains");
    }
    if let Some(n) = b.nloops {
        if n != lp.n {
            return Err(("LOST".into(), format!("{} loops expected, {} found", n, lp.n)));
        }
    }
    if let Some((k, _)) = b.loops.iter().find(|(k, _)| **k >= lp.n) {
        return lost(format!("contract for loop {} but only {} loops", k, lp.n));
    }
    // anchors
    for (i, (a, _)) in b.anchors.iter().enumerate() {
        let k = proc_macro2::Literal::usize_unsuffixed(i);
        let mark: Stmt = parse_quote!(vx_anchor!(#k););
        let (kind, rest) = match a.find(' ') {
            Some(p) => (&a[..p], a[p + 1..].trim().to_string()),
            None => (a.as_str(), String::new()),
        };
        match kind {
            "start" => block.stmts.insert(0, mark),
            "end" => {
                let n = block.stmts.len();
                let tail = matches!(block.stmts.last(), Some(Stmt::Expr(_, None)) | Some(Stmt::Expr(Expr::Return(_), _)));
                block.stmts.insert(if tail { n - 1 } else { n }, mark);
            },
            "bottom" => {
                // after the last statement of a body without a value
                if let Some(Stmt::Expr(_, semi)) = block.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                block.stmts.push(mark);
            },
            "tail" => {
                // bind the tail value to `vx_ret`, then the proof, then return it
                let n = block.stmts.len();
                match block.stmts.pop() {
                    Some(Stmt::Expr(Expr::Return(r), _)) if r.expr.is_some() => {
                        let e = r.expr.unwrap();
                        block.stmts.push(parse_quote!(let vx_ret = #e;));
                    },
                    Some(Stmt::Expr(e, None)) => {
                        block.stmts.push(parse_quote!(let vx_ret = #e;));
                    },
                    _ => return lost(format!("anchor tail ({} stmts)", n)),
                }
                block.stmts.push(mark);
                block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
            },
            _ => {
                let (arg, occ) = if kind == "loop" {
                    (rest.clone(), 0)
                } else if kind == "return" {
                    (String::new(), rest.parse().unwrap_or(0))
                } else {
                    match rest.rsplit_once('#') {
                        Some((x, n)) if n.trim().parse::<usize>().is_ok() => (norm(x), n.trim().parse().unwrap()),
                        _ => (norm(&rest), 0),
                    }
                };
                let mut an = Anchor { kind, arg, occ, seen: 0, done: false, mark };
                an.visit_block_mut(&mut block);
                if !an.done {
                    return lost(format!("anchor `{}`", a));
                }
            },
        }
    }
    // ---- print
    let mut s = String::new();
    for a in &b.attrs {
        s.push_str(a);
        s.push('\n');
    }
    let vis = if b.opts.iter().any(|o| o == "private") { "" } else { "pub " };
    let name = &sig.ident;
    let ins = &sig.inputs;
    let gen = b.generics.clone().unwrap_or_default();
    let (g1, g2) = match gen.find("where") {
        Some(p) => (gen[..p].to_string(), gen[p..].to_string()),
        None => (gen.clone(), String::new()),
    };
    s.push_str(&format!("{}fn {}{}({})", vis, name, g1, crate::emit::flat(&ins.to_token_stream())));
    if let Some(t) = &retty {
        s.push_str(&format!(" -> ({}: {})", b.ret, crate::emit::flat(&t.to_token_stream())));
    }
    if !g2.is_empty() {
        s.push_str(&format!("\n    {}", g2));
    }
    s.push('\n');
    if !b.requires.trim().is_empty() {
        s.push_str("    requires\n");
        s.push_str(&b.requires);
    }
    if !b.ensures.trim().is_empty() {
        s.push_str("    ensures\n");
        s.push_str(&b.ensures);
    }
    s.push_str(&b.other);
    if b.assumed {
        return Ok((format!("#[verifier::external_body]\n{}{{ unimplemented!() }} // vx_assumed", s), line, lp.n));
    }
    let body = crate::emit::body(&block, b);
    if std::env::var("VX_PROBE").is_ok() {
        // vacuity probe: the body must be reachable under its preconditions
        let p = body.find('{').unwrap() + 1;
        s.push_str(&body[..p]);
        s.push_str("\n assert(false); // vx_probe_false\n");
        s.push_str(&body[p..]);
    } else {
        s.push_str(&body);
    }
    Ok((s, line, lp.n))
}

pub fn extract_struct(f: &syn::File, name: &str, types: &[(String, String)], degeneric: &[String]) -> String {
    fn go<'a>(items: &'a [Item], name: &str) -> Option<&'a ItemStruct> {
        for it in items {
            match it {
                Item::Struct(s) if s.ident == name => return Some(s),
                Item::Mod(m) => {
                    if let Some((_, its)) = &m.content {
                        if let Some(x) = go(its, name) {
                            return Some(x);
                        }
                    }
                },
                _ => {},
            }
        }
        None
    }
    for it in &f.items {
        if let Item::Enum(e) = it {
            if e.ident == name {
                let mut e = e.clone();
                let b = Block::default();
                let mut tr = Tr { types, degeneric, b: &b, err: None, n: 0, self_ty: None };
                e.generics = Generics::default();
                e.attrs.clear();
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                    v.discriminant = None;
                    for fl in v.fields.iter_mut() {
                        fl.attrs.clear();
                        tr.visit_type_mut(&mut fl.ty);
                    }
                }
                let vs: Vec<String> = e.variants.iter().map(|v| format!("    {},", crate::emit::flat(&v.to_token_stream()))).collect();
                let plain = e.variants.iter().all(|v| v.fields.is_empty());
                let derive = if plain { "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" } else { "" };
                return format!("{}pub enum {} {{\n{}\n}}", derive, name, vs.join("\n"));
            }
        }
    }
    let Some(s) = go(&f.items, name) else {
        eprintln!("VX-LOST: struct {}", name);
        std::process::exit(2)
    };
    let mut s = s.clone();
    let b = Block::default();
    let mut tr = Tr { types, degeneric, b: &b, err: None, n: 0, self_ty: None };
    s.generics = Generics::default();
    s.attrs.clear();
    for fl in s.fields.iter_mut() {
        fl.attrs.clear();
        fl.vis = parse_quote!(pub);
        tr.visit_type_mut(&mut fl.ty);
    }
    s.vis = parse_quote!(pub);
    let id = &s.ident;
    let fields: Vec<String> =
        s.fields.iter().map(|x| format!("    {},", crate::emit::flat(&x.to_token_stream()))).collect();
    format!("pub struct {} {{\n{}\n}}", id, fields.join("\n"))
}

pub fn extract_const(f: &syn::File, name: &str) -> String {
    for it in &f.items {
        if let Item::Const(c) = it {
            if c.ident == name {
                let t = &c.ty;
                let e = &c.expr;
                return format!(
                    "pub const {}: {} = {};",
                    name,
                    crate::emit::flat(&t.to_token_stream()),
                    crate::emit::flat(&e.to_token_stream())
                );
            }
        }
    }
    eprintln!("VX-LOST: const {}", name);
    std::process::exit(2)
}

/// format!("..{}..", a, b) with plain placeholders only
fn format_pieces(a: &[Expr]) -> Option<Expr> {
    let lit = match a.first()? {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let pieces: Vec<&str> = lit.split("{}").collect();
    if pieces.len() != a.len() || pieces.iter().any(|p| p.contains('{') || p.contains('}')) {
        return None;
    }
    let mut st: Vec<Stmt> = vec![parse_quote!(let mut vx_f = Vec::new();)];
    for (k, p) in pieces.iter().enumerate() {
        for c in p.chars() {
            st.push(parse_quote!(vx_f.push(#c);));
        }
        if k + 1 < a.len() {
            let x = &a[k + 1];
            st.push(parse_quote!(vx_push_all(&mut vx_f, &#x);));
        }
    }
    Some(parse_quote!({ #(#st)* vx_f }))
}

/// (A..=B).chain(C..=D).map(|c| c as char)
fn label_chain(e: &Expr) -> Option<Expr> {
    fn range(e: &Expr) -> Option<(Expr, Expr)> {
        match e {
            Expr::Paren(p) => range(&p.expr),
            Expr::Range(r) if matches!(r.limits, RangeLimits::Closed(_)) => {
                Some(((**r.start.as_ref()?).clone(), (**r.end.as_ref()?).clone()))
            },
            _ => None,
        }
    }
    let m = match e {
        Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => m,
        _ => return None,
    };
    match &m.args[0] {
        Expr::Closure(c) if c.inputs.len() == 1 => {
            let p = c.inputs[0].to_token_stream().to_string();
            if c.body.to_token_stream().to_string() != format!("{} as char", p) {
                return None;
            }
        },
        _ => return None,
    }
    let ch = match &*m.receiver {
        Expr::MethodCall(c) if c.method == "chain" && c.args.len() == 1 => c,
        _ => return None,
    };
    let (a, b) = range(&ch.receiver)?;
    let (c, d) = range(&ch.args[0])?;
    Some(parse_quote!(VxChars::new(#a, #b, #c, #d)))
}
