//! Decides the properties of the library by symbolic execution of its compiler IR.
mod calls;
mod drive;
mod exec;
mod ir;
mod jobs;
mod mock;
mod props;
mod scen;
mod smt;
mod spec;
mod term;
use drive::*;
use std::path::PathBuf;
use std::time::{Duration, Instant};

fn load(dir: &PathBuf) -> Result<exec::Prog, String> {
    let deps = dir.join("x86_64-unknown-linux-gnu/release/deps");
    let mut v: Vec<PathBuf> = std::fs::read_dir(&deps).map_err(|e| format!("{}: {e}", deps.display()))?.flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "ll")).collect();
    v.sort();
    let mut m = vec![];
    for p in v {
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if !n.starts_with("dcv_color_primitives-") && !n.starts_with("harness-") { continue; }
        m.push(ir::parse(&std::fs::read_to_string(&p).map_err(|e| format!("{}: {e}", p.display()))?)?);
    }
    if m.len() != 2 { return Err(format!("{} modules in {}", m.len(), deps.display())); }
    Ok(exec::Prog::new(m))
}

fn main() {
    let t0 = Instant::now();
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let verif = PathBuf::from(get("--verif").unwrap_or("/verif".into()));
    let paths = Paths { build: verif.join("build"), verif };
    let prop = get("--prop").expect("--prop");
    let tier = get("--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1u64);
    let fail = |e: String| -> ! { println!("cannot check {prop}: {e}"); std::process::exit(2) };
    let rel = load(&paths.build.join("ir-rel")).unwrap_or_else(|e| fail(e));
    let ovf = if jobs::needs_checked(&prop) { Some(load(&paths.build.join("ir-ovf")).unwrap_or_else(|e| fail(e))) } else { None };
    let progs = Progs { rel, ovf };
    let cx = Cx { progs: &progs, prop: &prop, thorough, seed, timeout_ms: if thorough { 30_000 } else { 10_000 }, ovf: false };
    let Some((list, meta)) = jobs::plan(&cx) else { fail("no such property".into()) };
    let mut list = list;
    if let Some(f) = get("--only") { list.retain(|j| j.name.contains(&f)); }
    if let Some(f) = get("--max") { list.truncate(f.parse().unwrap()); }
    if a.iter().any(|x| x == "--list") { for j in &list { println!("{}", j.name); } return; }
    println!("{prop}: {} scenarios, encoding read in {:.1} s", list.len(), t0.elapsed().as_secs_f64());
    let budget = Duration::from_secs(get("--budget").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3600 } else { 420 }));
    let threads = std::thread::available_parallelism().map_or(8, |x| x.get()).min(16);
    let tot = run_jobs(&cx, &list, threads, budget);
    let st = conclude(&cx, &paths, &tier, t0, &tot, &meta);
    std::process::exit(st);
}
