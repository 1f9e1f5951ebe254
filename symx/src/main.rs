mod exec;
mod expr;
mod ir;
mod z3;

use exec::{Exec, Shared, Stats};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String { format!("[{}]", v.into_iter().map(|s| format!("\"{}\"", esc(&s))).collect::<Vec<_>>().join(",")) }

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut file, mut entry, mut threads, mut limit, mut max_steps, mut max_found, mut names) = (None, None, 8usize, 600u64, 50_000_000u64, 1usize, false);
    while let Some(a) = args.next() {
        let mut next = || args.next().expect("value");
        match a.as_str() {
            "--entry" => entry = Some(next()),
            "--threads" => threads = next().parse().unwrap(),
            "--limit" => limit = next().parse().unwrap(),
            "--max-steps" => max_steps = next().parse().unwrap(),
            "--max-found" => max_found = next().parse().unwrap(),
            "--entries" => names = true,
            _ => file = Some(a),
        }
    }
    let file = file.expect("usage: symx FILE.ll --entry NAME");
    let text: &'static str = Box::leak(std::fs::read_to_string(&file).expect("read IR").into_boxed_str());
    if names {
        let m = ir::Module::load(text);
        for (n, _) in &m.func_src { if n.starts_with("q_") || n.starts_with("t_") || n.contains("::q_") { println!("{n}") } }
        return;
    }
    let entry = entry.expect("--entry");
    let sh = Shared {
        queue: Mutex::new(vec![vec![]]), cv: Condvar::new(), idle: AtomicUsize::new(0), stop: AtomicBool::new(false), threads,
        found: Mutex::new(vec![]), incomplete: Mutex::new(vec![]), start: Instant::now(), limit_s: limit, max_steps, max_found, paths: AtomicU64::new(0),
    };
    let mut all: Vec<Stats> = Vec::new();
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|_| {
            let (sh, entry) = (&sh, &entry);
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                let m = ir::Module::load(text);
                let f = *m.func_ids.get(entry.as_str()).unwrap_or_else(|| { eprintln!("no entry {entry}"); std::process::exit(4) });
                let mut e = Exec::new(&m, sh);
                e.run(f as u32);
                std::mem::take(&mut e.st)
            }).unwrap()
        }).collect();
        for h in hs { all.push(h.join().expect("worker")); }
    });
    let mut t = Stats::default();
    for s in all {
        t.paths += s.paths; t.assumed += s.assumed; t.steps += s.steps; t.forks += s.forks; t.confirmed += s.confirmed;
        t.decided_by_table += s.decided_by_table; t.multi_queries += s.multi_queries; t.cache_hits += s.cache_hits;
        t.queries += s.queries; t.sat += s.sat; t.unsat += s.unsat; t.unknown += s.unknown; t.nanos += s.nanos;
        t.max_vars = t.max_vars.max(s.max_vars); t.terms += s.terms;
        t.samples.extend(s.samples); t.funcs.extend(s.funcs); t.dbg.extend(s.dbg); t.exts.extend(s.exts);
        for (k, v) in s.reached { *t.reached.entry(k).or_default() += v; }
    }
    let found = sh.found.into_inner().unwrap();
    let mut inc = sh.incomplete.into_inner().unwrap();
    inc.sort();
    inc.dedup();
    let status = if !found.is_empty() { "violated" } else if !inc.is_empty() { "incomplete" } else { "held" };
    let mut o = String::new();
    let mut fs: Vec<_> = t.funcs.into_iter().collect();
    fs.sort();
    let mut ex: Vec<_> = t.exts.into_iter().collect();
    ex.sort();
    let _ = write!(o, "{{\"entry\":\"{}\",\"status\":\"{status}\",\"seconds\":{:.2},\"paths\":{},\"assumed_away\":{},\"instructions\":{},\"forks\":{},\"terms\":{},\"symbolic_bytes\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_seconds\":{:.3},\"branch_verdicts\":{},\"branch_verdicts_confirmed\":{},\"multi_byte_queries\":{},\"cache_hits\":{},\"reached\":{{{}}},\"incomplete\":{},\"functions\":{},\"externals\":{},\"found\":[",
        esc(&entry), sh.start.elapsed().as_secs_f64(), t.paths, t.assumed, t.steps, t.forks, t.terms, t.max_vars, t.queries, t.sat, t.unsat, t.unknown,
        t.nanos as f64 / 1e9, t.decided_by_table, t.confirmed, t.multi_queries, t.cache_hits,
        t.reached.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","), list(inc), list(fs), list(ex));
    for (i, f) in found.iter().enumerate() {
        let _ = write!(o, "{}{{\"kind\":\"{}\",\"what\":\"{}\",\"stack\":{},\"input\":{:?}}}", if i > 0 { "," } else { "" }, f.kind, esc(&f.what), list(f.stack.clone()), f.input);
    }
    let _ = write!(o, "],\"samples\":{:?},\"dbg\":{:?}", t.samples, t.dbg.iter().collect::<Vec<_>>());
    o.push('}');
    println!("{o}");
}
