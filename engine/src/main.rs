#![allow(non_snake_case)]
mod exec; mod expr; mod ir; mod real; mod solver;
use std::collections::{BTreeMap, BTreeSet};

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } } o + "\"" }
fn list<T: std::fmt::Display>(v: &[T]) -> String { format!("[{}]", v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(",")) }

fn main() { std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap().join().unwrap(); }
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { eprintln!("usage: symex IR ENTRY [--params a,b,..] [--paths N] [--secs S] [--insts N] [--qtimeout MS] [--samples N] [--keep-going] [--fp] [--merge N] [--repo DIR]"); std::process::exit(64); }
    let opt = |n: &str, d: &str| -> String { a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.into()) };
    let num = |n: &str, d: f64| -> f64 { opt(n, "").parse().unwrap_or(d) };
    let params: Vec<u64> = opt("--params", "").split(',').filter(|x| !x.is_empty()).map(|x| if let Some(h) = x.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { x.parse().unwrap() }).collect();
    let cfg = exec::Cfg { params, max_paths: num("--paths", 1e6) as u64, max_secs: num("--secs", 600.0), max_insts: num("--insts", 2e10) as u64, keep_going: a.iter().any(|x| x == "--keep-going"), samples: num("--samples", 4.0) as usize, verbose: false, merge: num("--merge", 64.0) as u64, fp: a.iter().any(|x| x == "--fp" || x == "--real"), path_insts: num("--path-insts", 2e7) as u64 };
    let repo = opt("--repo", "/repo");
    let m = ir::Module::load(&a[1]);
    let t0 = std::time::Instant::now();
    let mut x = exec::Exec::new(m, cfg, a.iter().any(|x| x == "--fp"), num("--qtimeout", 120000.0) as u32);
    if a.iter().any(|x| x == "--real") { x.sv.rl = Some(real::Real::new(x.sv.c)); x.real = true; }
    let entry = a[2].clone();
    // deep recursion in merge exploration
    let r = x.start(&entry);
    let secs = t0.elapsed().as_secs_f64();
    // executed functions and lines of the code under test
    let mut lines: BTreeSet<(String, u32)> = BTreeSet::new(); let mut fns: BTreeMap<(String, String), BTreeSet<u32>> = BTreeMap::new();
    for (i, b) in x.dbg_seen.iter().enumerate() { if *b { for (f, l, n) in x.m.dbg_chain(i as u32) { if let Some(f) = f.strip_prefix(&format!("{}/", repo)).map(|s| s.to_string()) { lines.insert((f.clone(), l)); fns.entry((f, n)).or_default().insert(l); } } } }
    let mut o = String::from("{");
    o += &format!("\"entry\":{},\"secs\":{:.3},\"paths\":{},\"infeasible\":{},\"panics_expected\":{},\"forks\":{},\"merges\":{},\"instructions\":{},\"checks\":{},\"symbolic_checks\":{},", esc(&entry), secs, x.paths, x.infeasible, x.panics_ok, x.forks, x.merges, x.insts, x.checks, x.checks_symbolic);
    let st = &x.sv.st;
    o += &format!("\"solver\":{{\"name\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"folded\":{},\"secs\":{:.3},\"max_query_secs\":{:.3}}},", esc(&format!("z3 {}", solver::Solver::version())), st.queries, st.sat, st.unsat, st.unknown, st.cached, x.folded, st.secs, st.max);
    if let Some(r) = &x.sv.rl { o += &format!("\"real\":{{\"ln_lemmas\":{},\"slivers\":{}}},", r.lemmas, r.slivers); }
    o += &format!("\"max_symbols\":{},\"max_symbolic_bits\":{},\"max_path_condition\":{},\"expr_nodes\":{},", x.max_syms, x.sym_bits, x.max_pc, x.ar.n.len());
    o += &format!("\"check_ids\":{{{}}},", x.check_ids.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    o += &format!("\"reach\":{{{}}},", x.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    o += &format!("\"functions\":[{}],", fns.iter().map(|((f, n), l)| format!("{{\"file\":{},\"fn\":{},\"lines\":[{}]}}", esc(f), esc(n), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    o += &format!("\"samples\":[{}],", x.samples.iter().map(|s| format!("{{\"values\":{},\"notes\":{},\"panicked\":{}}}", list(&s.values), list(&s.notes), s.panicked)).collect::<Vec<_>>().join(","));
    o += &format!("\"violations\":[{}],", x.violations.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"panic_fn\":{},\"loc\":[{}],\"values\":{}}}", esc(&v.kind), v.id, esc(&v.panic_fn), v.loc.iter().map(|l| esc(&format!("{}:{} {}", l.0, l.1, l.2))).collect::<Vec<_>>().join(","), list(&v.values))).collect::<Vec<_>>().join(","));
    o += &format!("\"stuck\":{},", match &x.stuck { Some(v) => list(v), None => "null".into() });
    if x.under.is_none() { x.under = x.sv.rl.as_ref().and_then(|r| r.cut.clone()); }
    let (status, err) = match &r { _ if !x.violations.is_empty() => ("violation", r.as_ref().err().cloned().unwrap_or_default()), Ok(()) if x.under.is_some() => ("incomplete", x.under.clone().unwrap()), Ok(()) => ("complete", String::new()), Err(e) => ("incomplete", e.clone()) };
    o += &format!("\"status\":\"{}\",\"error\":{}}}", status, esc(&err));
    println!("{}", o);
    std::process::exit(match status { "complete" => 0, "violation" => 1, _ => 3 });
}
