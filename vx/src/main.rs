//! vx: mechanical extraction of functions of /repo into a Verus file.
//!
//! usage: vx REPO SPEC OUT MAP
//!
//! SPEC is a Verus source text with `//@fn FILE :: [impl HEADER ::] NAME` ... `//@end` blocks. Each
//! block is replaced by the *current* text of that function in REPO, transformed by the rules in
//! rules.rs, with the contract clauses of the block attached. Nothing of the executable text comes
//! from SPEC.
mod emit;
mod pipeline;
mod rules;

use std::collections::BTreeMap;
use std::fs;

#[derive(Debug, Default, Clone)]
pub struct Block {
    pub path: String,
    pub target: Vec<String>,
    pub types: Vec<(String, String)>,
    pub attrs: Vec<String>,
    pub rename: Option<String>,
    pub ret: String,
    pub requires: String,
    pub ensures: String,
    pub other: String, // decreases, opens_invariants ...
    pub loops: BTreeMap<usize, String>,
    pub nloops: Option<usize>,
    pub anchors: Vec<(String, String)>,
    pub params: Vec<(String, String)>, // override of a parameter's type
    pub generics: Option<String>,
    pub retty: Option<String>,
    pub keep_asref: bool,
    pub macrofn: Option<String>,
    pub sig: Option<String>,
    pub calls: Vec<(String, String)>,
    pub methods: Vec<(String, String)>,
    pub opts: Vec<String>,
    pub line: usize,
    pub assumed: bool,
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn fail(kind: &str, msg: &str) -> ! {
    // kind: LOST (anchor lost) | UNSUPPORTED | SPEC
    eprintln!("VX-{}: {}", kind, msg);
    std::process::exit(if kind == "SPEC" { 3 } else { 2 });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 5 {
        eprintln!("usage: vx REPO SPEC OUT MAP");
        std::process::exit(3);
    }
    let repo = &args[1];
    let spec_path = std::path::Path::new(&args[2]);
    let spec = expand_includes(spec_path, 0);
    let mut out = String::new();
    let mut map: Vec<String> = vec![];
    let mut defaults: Vec<(String, String)> = vec![];
    let mut dcalls: Vec<(String, String)> = vec![];
    let mut dmethods: Vec<(String, String)> = vec![];
    let mut degeneric: Vec<String> = vec![];
    let mut assumed = false; // contracts used here, discharged in another contract file
    let mut files: BTreeMap<String, syn::File> = BTreeMap::new();
    let lines: Vec<&str> = spec.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim_start();
        if let Some(rest) = l.strip_prefix("//@types ") {
            add_types(&mut defaults, rest);
        } else if let Some(rest) = l.strip_prefix("//@calls ") {
            add_types(&mut dcalls, rest);
        } else if let Some(rest) = l.strip_prefix("//@methods ") {
            add_types(&mut dmethods, rest);
        } else if let Some(rest) = l.strip_prefix("//@degeneric ") {
            degeneric.extend(rest.split_whitespace().map(|s| s.to_string()));
        } else if l.starts_with("//@assume_bodies") {
            assumed = true;
        } else if l.starts_with("//@verify_bodies") {
            assumed = false;
        } else if let Some(rest) = l.strip_prefix("//@struct ") {
            let parts: Vec<String> = rest.split(" :: ").map(|s| s.trim().to_string()).collect();
            let f = load(&mut files, repo, &parts[0]);
            out.push_str(&rules::extract_struct(f, &parts[1], &defaults, &degeneric));
            out.push('\n');
        } else if let Some(rest) = l.strip_prefix("//@const ") {
            let parts: Vec<String> = rest.split(" :: ").map(|s| s.trim().to_string()).collect();
            let f = load(&mut files, repo, &parts[0]);
            out.push_str(&rules::extract_const(f, &parts[1]));
            out.push('\n');
        } else if let Some(rest) = l.strip_prefix("//@fn ") {
            let mut b = Block { line: i + 1, ret: "r".into(), ..Default::default() };
            let parts: Vec<String> = rest.split(" :: ").map(|s| s.trim().to_string()).collect();
            b.path = parts[0].clone();
            b.target = parts[1..].to_vec();
            b.types = defaults.clone();
            b.calls = dcalls.clone();
            b.methods = dmethods.clone();
            b.assumed = assumed;
            i += 1;
            let mut cur: Option<(String, String)> = None; // (section, text)
            loop {
                if i >= lines.len() {
                    fail("SPEC", &format!("unterminated block at line {}", b.line));
                }
                let t = lines[i].trim_start();
                if let Some(d) = t.strip_prefix("//@") {
                    if let Some((s, txt)) = cur.take() {
                        store(&mut b, &s, txt);
                    }
                    let d = d.trim();
                    if d == "end" {
                        break;
                    }
                    let (key, arg) = match d.find(' ') {
                        Some(p) => (&d[..p], d[p + 1..].trim()),
                        None => (d, ""),
                    };
                    match key {
                        "types" => {
                            let mut t = vec![];
                            add_types(&mut t, arg);
                            t.extend(b.types.clone());
                            b.types = t;
                        },
                        "calls" => add_types(&mut b.calls, arg),
                        "methods" => add_types(&mut b.methods, arg),
                        "attr" => b.attrs.push(arg.to_string()),
                        "rename" => b.rename = Some(arg.to_string()),
                        "ret" => b.ret = arg.to_string(),
                        "retty" => b.retty = Some(arg.to_string()),
                        "generics" => b.generics = Some(arg.to_string()),
                        "param" => {
                            let p = arg.find('=').unwrap();
                            b.params.push((arg[..p].trim().into(), arg[p + 1..].trim().into()));
                        },
                        "loops" => b.nloops = Some(arg.parse().unwrap()),
                        "opt" => b.opts.extend(arg.split_whitespace().map(|s| s.to_string())),
                        "macrofn" => b.macrofn = Some(arg.to_string()),
                        "sig" => b.sig = Some(arg.to_string()),
                        "requires" | "ensures" | "clauses" => cur = Some((key.to_string(), String::new())),
                        "loop" => cur = Some((format!("loop {}", arg), String::new())),
                        "at" => cur = Some((format!("at {}", arg), String::new())),
                        _ => fail("SPEC", &format!("unknown directive {} at line {}", key, i + 1)),
                    }
                } else if let Some((_, txt)) = cur.as_mut() {
                    txt.push_str(lines[i]);
                    txt.push('\n');
                } else if !t.is_empty() && !t.starts_with("//") {
                    fail("SPEC", &format!("stray text at line {}: {}", i + 1, t));
                }
                i += 1;
            }
            let f = load(&mut files, repo, &b.path);
            let start_line = out.lines().count() + 1;
            match rules::extract_fn(f, &b, &degeneric) {
                Ok((text, src_line, nloops)) => {
                    out.push_str(&text);
                    out.push('\n');
                    let end_line = out.lines().count();
                    map.push(format!(
                        "{{\"file\":{:?},\"target\":{:?},\"src_line\":{},\"start\":{},\"end\":{},\"loops\":{},\"assumed\":{}}}",
                        b.path,
                        b.target.join(" :: "),
                        src_line,
                        start_line,
                        end_line,
                        nloops,
                        b.assumed
                    ));
                },
                Err((kind, msg)) => fail(&kind, &format!("{} :: {}: {}", b.path, b.target.join(" :: "), msg)),
            }
        } else {
            out.push_str(lines[i]);
            out.push('\n');
        }
        i += 1;
    }
    fs::write(&args[3], out).unwrap();
    fs::write(&args[4], format!("[{}]\n", map.join(",\n"))).unwrap();
}

fn expand_includes(p: &std::path::Path, depth: usize) -> String {
    let s = fs::read_to_string(p).unwrap_or_else(|e| fail("SPEC", &format!("{}: {}", p.display(), e)));
    if depth > 4 {
        fail("SPEC", "include depth");
    }
    let mut out = String::new();
    for l in s.lines() {
        if let Some(rest) = l.trim_start().strip_prefix("//@include ") {
            out.push_str(&expand_includes(&p.parent().unwrap().join(rest.trim()), depth + 1));
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}

fn add_types(v: &mut Vec<(String, String)>, s: &str) {
    // K=V separated by ` ; `
    for kv in s.split(" ; ") {
        if let Some(p) = kv.find('=') {
            v.push((norm(&kv[..p]), kv[p + 1..].trim().to_string()));
        }
    }
}

fn store(b: &mut Block, s: &str, txt: String) {
    if s == "requires" {
        b.requires.push_str(&txt)
    } else if s == "ensures" {
        b.ensures.push_str(&txt)
    } else if s == "clauses" {
        b.other.push_str(&txt)
    } else if let Some(n) = s.strip_prefix("loop ") {
        b.loops.insert(n.trim().parse().unwrap(), txt);
    } else if let Some(n) = s.strip_prefix("at ") {
        b.anchors.push((n.trim().to_string(), txt));
    }
}

fn load<'a>(files: &'a mut BTreeMap<String, syn::File>, repo: &str, path: &str) -> &'a syn::File {
    if !files.contains_key(path) {
        let full = format!("{}/{}", repo, path);
        let txt = fs::read_to_string(&full).unwrap_or_else(|e| fail("LOST", &format!("{}: {}", full, e)));
        let mut f = syn::parse_file(&txt).unwrap_or_else(|e| fail("LOST", &format!("{}: {}", full, e)));
        rules::expand_duplicates(&mut f);
        files.insert(path.to_string(), f);
    }
    files.get(path).unwrap()
}
