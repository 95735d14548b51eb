#![allow(clippy::all)]
#[macro_use]
mod base;
mod layout;
mod layout2;

use base::*;

mod serial {
    macro_rules! serial_only { ($($t:tt)*) => { $($t)* } }
    pub use rstsr_core::prelude::rstsr_structs::DeviceCpuSerial as Dev;
    pub const NAME: &str = "serial";
    pub mod ops { include!("ops.rs"); }
    pub mod ops2 { include!("ops2.rs"); }
    pub mod ops3 { include!("ops3.rs"); }
    pub mod ops4 { include!("ops4.rs"); }
    pub mod ops5 { include!("ops5.rs"); }
    pub mod ops6 { include!("ops6.rs"); }
}
mod par {
    macro_rules! serial_only { ($($t:tt)*) => {} }
    pub use rstsr_core::prelude::rstsr_structs::DeviceFaer as Dev;
    pub const NAME: &str = "parallel";
    pub mod ops { include!("ops.rs"); }
    pub mod ops2 { include!("ops2.rs"); }
    pub mod ops3 { include!("ops3.rs"); }
    pub mod ops4 { include!("ops4.rs"); }
    pub mod ops5 { include!("ops5.rs"); }
    pub mod ops6 { include!("ops6.rs"); }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a[1].clone();
    let mut seed = 1u64;
    let mut c = Ctx {
        thorough: false,
        trace: false,
        only: None,
        seed,
        section: String::new(),
        cases: Default::default(),
        fails: vec![],
        nfail: Default::default(),
        known: vec![],
        known_hit: Default::default(),
        samples: Default::default(),
        rng: Rng(1),
    };
    let mut i = 2;
    while i < a.len() {
        match a[i].as_str() {
            "--thorough" => c.thorough = true,
            "--trace" => c.trace = true,
            "--seed" => {
                seed = a[i + 1].parse().unwrap();
                i += 1;
            },
            "--only" => {
                c.only = Some(a[i + 1].clone());
                i += 1;
            },
            "--known" => {
                let t = std::fs::read_to_string(&a[i + 1]).unwrap();
                c.known = t.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect();
                i += 1;
            },
            x => panic!("argument {}", x),
        }
        i += 1;
    }
    c.seed = seed;
    c.rng = Rng(seed ^ 0x5eed);
    std::panic::set_hook(Box::new(|_| {}));
    layout::run(&id, &mut c);
    layout2::run(&id, &mut c);
    serial::ops::run(&id, &mut c);
    serial::ops2::run(&id, &mut c);
    serial::ops3::run(&id, &mut c);
    serial::ops4::run(&id, &mut c);
    serial::ops5::run(&id, &mut c);
    serial::ops6::run(&id, &mut c);
    par::ops::run(&id, &mut c);
    par::ops2::run(&id, &mut c);
    par::ops3::run(&id, &mut c);
    par::ops4::run(&id, &mut c);
    par::ops5::run(&id, &mut c);
    par::ops6::run(&id, &mut c);
    // report
    let esc = |s: &str| {
        let mut o = String::from("\"");
        for ch in s.chars() {
            match ch {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    };
    let cases: Vec<String> = c.cases.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let samples: Vec<String> = c.samples.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(&v[0]))).collect();
    let fails: Vec<String> = c
        .fails
        .iter()
        .map(|(s, d, m)| format!("{{\"section\":{},\"case\":{},\"message\":{}}}", esc(s), esc(d), esc(m)))
        .collect();
    let known: Vec<String> =
        c.known_hit.iter().map(|(k, v)| format!("{{\"id\":{},\"n\":{},\"example\":{}}}", esc(k), v.0, esc(&v.1))).collect();
    let nf: u64 = c.nfail.values().sum();
    println!(
        "{{\"id\":{},\"total\":{},\"failed\":{},\"cases\":{{{}}},\"samples\":{{{}}},\"fails\":[{}],\"known\":[{}]}}",
        esc(&id),
        c.cases.values().sum::<u64>(),
        nf,
        cases.join(","),
        samples.join(","),
        fails.join(","),
        known.join(",")
    );
}
