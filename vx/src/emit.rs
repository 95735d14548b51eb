//! Token printing with the contract clauses put in place.
use crate::Block;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;

pub fn flat(ts: &TokenStream) -> String {
    let mut s = String::new();
    let mut p = P { s: &mut s, ind: 0, b: None, flat: true };
    p.run(ts.clone());
    s.trim().to_string()
}

pub fn body(b: &syn::Block, spec: &Block) -> String {
    let mut s = String::new();
    {
        let mut p = P { s: &mut s, ind: 0, b: Some(spec), flat: false };
        p.run(b.to_token_stream());
    }
    s
}

struct P<'a> {
    s: &'a mut String,
    ind: usize,
    b: Option<&'a Block>,
    flat: bool,
}

impl<'a> P<'a> {
    fn nl(&mut self) {
        if self.flat {
            self.s.push(' ');
            return;
        }
        while self.s.ends_with(' ') {
            self.s.pop();
        }
        if !self.s.ends_with('\n') {
            self.s.push('\n');
        }
        for _ in 0..self.ind {
            self.s.push_str("    ");
        }
    }
    fn sp(&mut self) {
        if !self.s.is_empty() && !self.s.ends_with([' ', '\n', '(', '[', '!', '.', '&']) {
            self.s.push(' ');
        }
    }
    fn run(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut joint = false;
        while i < v.len() {
            // vx_loop!(k); / vx_anchor!(k);
            if let TokenTree::Ident(id) = &v[i] {
                let n = id.to_string();
                if (n == "vx_anchor" || n == "vx_loop") && i + 3 < v.len() + 1 {
                    if let TokenTree::Group(g) = &v[i + 2] {
                        let k: usize = g.stream().to_string().trim().parse().unwrap();
                        if n == "vx_anchor" {
                            let t = self.b.unwrap().anchors[k].1.clone();
                            self.nl();
                            self.s.push('\n');
                            self.s.push_str(&t);
                            self.nl();
                        }
                        i += 4;
                        joint = false;
                        continue;
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace && !self.flat {
                        // loop clauses
                        let inner: Vec<TokenTree> = g.stream().into_iter().take(3).collect();
                        if inner.len() == 3 && inner[0].to_string() == "vx_loop" {
                            if let TokenTree::Group(gg) = &inner[2] {
                                let k: usize = gg.stream().to_string().trim().parse().unwrap();
                                if let Some(c) = self.b.unwrap().loops.get(&k) {
                                    self.nl();
                                    self.s.push('\n');
                                    self.s.push_str(c);
                                }
                            }
                        }
                        self.sp();
                        self.s.push_str(o);
                        self.ind += 1;
                        self.nl();
                        self.run(g.stream());
                        self.ind -= 1;
                        self.nl();
                        self.s.push_str(c);
                        // keep `else`, `?`, `.`, `)` on the line
                        let next = v.get(i + 1).map(|t| t.to_string()).unwrap_or_default();
                        if !["else", "?", ".", ",", ";", ")"].contains(&next.as_str()) && i + 1 < v.len() {
                            self.nl();
                        }
                    } else {
                        if g.delimiter() != Delimiter::None {
                            let prev_word = i > 0
                                && match &v[i - 1] {
                                    TokenTree::Ident(x) => {
                                        ["return", "if", "match", "while", "in", "else", "let"].contains(&x.to_string().as_str())
                                    },
                                    TokenTree::Punct(p) => !['.', '!', '&', '>', '*'].contains(&p.as_char()),
                                    _ => false,
                                };
                            if prev_word {
                                self.sp();
                            }
                        }
                        self.s.push_str(o);
                        self.run(g.stream());
                        while self.s.ends_with(' ') {
                            self.s.pop();
                        }
                        self.s.push_str(c);
                    }
                    joint = false;
                },
                TokenTree::Ident(id) => {
                    if !joint {
                        let prev_dot = i > 0
                            && matches!(&v[i-1], TokenTree::Punct(p) if p.as_char()=='.' || (p.as_char()==':' && self.s.ends_with("::")) );
                        if !prev_dot {
                            self.sp();
                        }
                    }
                    self.s.push_str(&id.to_string());
                    joint = false;
                },
                TokenTree::Literal(l) => {
                    if !joint && !self.s.ends_with('.') {
                        self.sp();
                    }
                    self.s.push_str(&l.to_string());
                    joint = false;
                },
                TokenTree::Punct(p) => {
                    let ch = p.as_char();
                    if !joint && !['.', ',', ';', '?', '!'].contains(&ch) {
                        let colon2 = ch == ':' && p.spacing() == Spacing::Joint;
                        if !(ch == ':' || colon2) {
                            self.sp();
                        }
                    }
                    if ch == '!' && !joint {
                        // macro bang or negation
                        let macro_bang = matches!(v.get(i + 1), Some(TokenTree::Group(_)))
                            && i > 0
                            && matches!(&v[i - 1], TokenTree::Ident(x) if !["if","while","return","match","in"].contains(&x.to_string().as_str()));
                        if !macro_bang {
                            self.sp();
                        }
                    }
                    self.s.push(ch);
                    joint = p.spacing() == Spacing::Joint;
                    if ch == '\'' {
                        joint = true;
                    }
                    if !joint {
                        if ch == ';' {
                            if i + 1 < v.len() {
                                self.nl();
                            }
                        } else if !['.', '&', '!'].contains(&ch) && !self.s.ends_with("::") {
                            self.s.push(' ');
                        } else if self.s.ends_with("..") || self.s.ends_with("&&") || self.s.ends_with("= ") {
                            self.s.push(' ');
                        }
                    }
                },
            }
            i += 1;
        }
    }
}
