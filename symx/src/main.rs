//! symx: `symx run PROP TIER SECONDS` explores, `symx replay PROP HARNESS K=V...` replays.
#![allow(dead_code, unused_imports, unused_macros, unconditional_panic)]
mod eng;
mod elem;
mod shapes;
mod leib;
mod own;
mod drive;
use std::time::{Duration, Instant};

pub struct H { pub name: &'static str, pub tier: u8, pub f: fn() }
#[macro_export]
macro_rules! h { ($($name:ident $tier:literal $b:block)*) => { pub fn table() -> Vec<$crate::H> { let mut v: Vec<$crate::H> = vec![]; $( { fn $name() $b v.push($crate::H { name: stringify!($name), tier: $tier, f: $name }); } )* v } } }

macro_rules! props { ($($m:ident $f:literal),*) => {
    $( #[cfg(feature = $f)] mod $m; )*
    fn table(p: &str) -> Vec<H> { match p { $( #[cfg(feature = $f)] $f => $m::table(), )* _ => panic!("property {} not built in", p) } }
} }
props!(c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c07 "c07", c08 "c08", c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17", c18 "c18", c19 "c19", c21 "c21");

fn esc(s: &str) -> String { s.chars().flat_map(|c| match c { '"' => "\\\"".chars().collect::<Vec<_>>(), '\\' => "\\\\".chars().collect(), '\n' => "\\n".chars().collect(), c if (c as u32) < 32 => " ".chars().collect(), c => vec![c] }).collect() }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verbose = std::env::var("SYMX_VERBOSE").is_ok();
    if !verbose { std::panic::set_hook(Box::new(|_| {})) }
    match a[1].as_str() {
        "list" => for x in table(&a[2]) { println!("{} {}", x.name, x.tier) },
        "run" => {
            let (tier, secs): (u8, u64) = (if a[3] == "thorough" { 1 } else { 0 }, a[4].parse().unwrap());
            let deadline = Instant::now() + Duration::from_secs(secs);
            // worker w of n takes every n-th harness
            let (w, n): (usize, usize) = (a[5].parse().unwrap(), a[6].parse().unwrap());
            let hs: Vec<H> = table(&a[2]).into_iter().filter(|x| x.tier <= tier).filter(|x| a.len() < 8 || x.name == a[7]).collect();
            for (i, x) in hs.iter().enumerate() {
                if i % n != w { continue }
                println!("{{\"start\":\"{}\"}}", x.name);
                let t0 = Instant::now();
                let r = eng::explore(&x.f, 200000, deadline);
                let (v, vals) = match &r.violation {
                    Some(o) => (format!("\"{}\"", esc(&o.msg)), o.values.iter().map(|(k, v)| format!("[\"{}\",\"{}\"]", esc(k), esc(v))).collect::<Vec<_>>().join(",")),
                    None => ("null".into(), String::new()),
                };
                // the native confirmation happens in a separate process
                println!("{{\"name\":\"{}\",\"paths\":{},\"branches\":{},\"obligations\":{},\"queries\":{},\"lemmas\":{},\"solver_ms\":{:.1},\"ms\":{:.1},\"error\":{},\"violation\":{},\"values\":[{}]}}",
                    x.name, r.stats.paths, r.stats.branches, r.stats.obligations, r.stats.queries, r.stats.lemmas, r.stats.solver_ms, t0.elapsed().as_secs_f64() * 1000.0,
                    r.error.map(|e| format!("\"{}\"", esc(&e))).unwrap_or("null".into()), v, vals);
            }
        }
        "replay" => {
            let x = table(&a[2]).into_iter().find(|x| x.name == a[3]).expect("harness");
            let vals: Vec<(String, String)> = a[4..].iter().map(|s| { let k = s.find('=').unwrap(); (s[..k].to_string(), s[k + 1..].to_string()) }).collect();
            match eng::replay(&x.f, &vals) {
                Some(m) => { println!("REPRODUCED: {}", m); std::process::exit(10) }
                None => println!("HELD"),
            }
        }
        _ => panic!("usage"),
    }
}
