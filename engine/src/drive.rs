//! Runs the jobs of a property, replays counterexamples against the real code and writes the evidence.
use crate::exec::*;
use crate::smt::{Smt, Stats};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Paths {
    pub verif: PathBuf,
    pub build: PathBuf,
}

/// Programs under analysis: as released, and with arithmetic overflow checks
pub struct Progs {
    pub rel: Prog,
    pub ovf: Option<Prog>,
}

pub struct Cx<'a> {
    pub progs: &'a Progs,
    pub prop: &'a str,
    pub thorough: bool,
    pub seed: u64,
    pub timeout_ms: u64,
    /// Jobs use the build with overflow checks
    pub ovf: bool,
}
impl<'a> Cx<'a> {
    pub fn prog(&self) -> Result<&'a Prog, String> { if self.ovf { self.progs.ovf.as_ref().ok_or("no checked build".into()) } else { Ok(&self.progs.rel) } }
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// What fails, stable from run to run
    pub key: String,
    pub what: String,
    /// Text of the case to replay
    pub case: String,
    /// Flavour of the replay binary
    pub bin: Bin,
    /// Reported only if the real code agrees: the path was not followed to its end
    pub soft: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Bin { Default, Sets, Checked, CheckedSets, Mock, None }

#[derive(Default)]
pub struct JobOut {
    pub paths: u64,
    pub steps: u64,
    pub obligations: u64,
    pub discharged: u64,
    pub viols: Vec<Viol>,
    pub inconclusive: Vec<String>,
    pub cov: HashSet<String>,
    /// Cases predicted by the encoding, to be confirmed by the real code
    pub traces: Vec<(Bin, String)>,
    pub sample: Option<String>,
    pub reached: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, i128>,
}
impl JobOut {
    pub fn reach(&mut self, s: &str) { *self.reached.entry(s.to_string()).or_insert(0) += 1; }
    pub fn oblige(&mut self, ok: bool) { self.obligations += 1; if ok { self.discharged += 1; } }
}

pub struct Job {
    pub name: String,
    pub run: Box<dyn Fn(&Cx, &mut Smt, &mut JobOut) -> Result<(), String> + Send + Sync>,
}

#[derive(Default)]
pub struct Total {
    pub jobs: u64,
    pub skipped: u64,
    pub out: JobOut,
    pub stats: Stats,
    pub names: Vec<String>,
}

pub fn run_jobs(cx: &Cx, jobs: &[Job], threads: usize, budget: Duration) -> Total {
    let next = AtomicUsize::new(0);
    let total = Mutex::new(Total::default());
    let t0 = Instant::now();
    let order: Vec<usize> = {
        // spread the expensive jobs, in an order that depends on the seed only
        let mut v: Vec<usize> = (0..jobs.len()).collect();
        let mut x = cx.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
        for i in (1..v.len()).rev() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; v.swap(i, (x % (i as u64 + 1)) as usize); }
        v
    };
    let stop = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(s, || {
                let mut smt = Smt::new(cx.timeout_ms);
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= order.len() { break; }
                    let job = &jobs[order[i]];
                    if t0.elapsed() > budget || stop.load(Ordering::SeqCst) > 40 { total.lock().unwrap().skipped += 1; continue; }
                    let mut o = JobOut::default();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (job.run)(cx, &mut smt, &mut o)));
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => o.inconclusive.push(format!("{}: {e}", job.name)),
                        Err(e) => {
                            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                            o.inconclusive.push(format!("{}: engine: {m}", job.name));
                        }
                    }
                    if !o.viols.is_empty() { stop.fetch_add(1, Ordering::SeqCst); }
                    let mut t = total.lock().unwrap();
                    t.jobs += 1;
                    if t.names.len() < 12 { t.names.push(job.name.clone()); }
                    let a = &mut t.out;
                    a.paths += o.paths;
                    a.steps += o.steps;
                    a.obligations += o.obligations;
                    a.discharged += o.discharged;
                    a.viols.extend(o.viols);
                    a.inconclusive.extend(o.inconclusive);
                    a.cov.extend(o.cov);
                    a.traces.extend(o.traces);
                    if a.sample.is_none() { a.sample = o.sample; }
                    for (k, v) in o.reached { *a.reached.entry(k).or_insert(0) += v; }
                    for (k, v) in o.maxima { let e = a.maxima.entry(k).or_insert(v); *e = (*e).max(v); }
                }
                total.lock().unwrap().stats.add(&smt.stats);
            }).unwrap();
        }
    });
    total.into_inner().unwrap()
}

// ---------------------------------------------------------------------- replay
pub struct Replayer<'a> { pub paths: &'a Paths, ready: BTreeSet<Bin>, mocked: bool }

impl<'a> Replayer<'a> {
    pub fn new(paths: &'a Paths) -> Self { Replayer { paths, ready: BTreeSet::new(), mocked: false } }
    fn spec(b: Bin) -> (&'static str, &'static str, bool) {
        match b {
            Bin::Default | Bin::Mock => ("rp-def", "release", false),
            Bin::Sets => ("rp-tis", "release", true),
            Bin::Checked => ("rp-def", "checked", false),
            Bin::CheckedSets | Bin::None => ("rp-tis", "checked", true),
        }
    }
    pub fn exe(&mut self, b: Bin) -> Result<PathBuf, String> {
        let (dir, profile, sets) = Self::spec(b);
        let target = self.paths.build.join(dir);
        let exe = target.join(profile).join("replay");
        if self.ready.insert(b) {
            let mut c = std::process::Command::new("cargo");
            c.current_dir(self.paths.verif.join("replay")).env("RUSTUP_TOOLCHAIN", "stable").env_remove("RUSTFLAGS").env_remove("CARGO_ENCODED_RUSTFLAGS");
            c.args(["build", "--offline", "--locked", "--profile", profile, "--target-dir"]).arg(&target);
            if sets { c.args(["--features", "test_instruction_sets"]); }
            let o = c.output().map_err(|e| e.to_string())?;
            if !o.status.success() { return Err(format!("replay does not build: {}", String::from_utf8_lossy(&o.stderr))); }
        }
        if b == Bin::Mock {
            let to = self.paths.build.join("replay-mock");
            if self.mocked { return Ok(to); }
            self.mocked = true;
            let _ = std::fs::remove_file(&to);
            return crate::mock::patched(&exe, &to);
        }
        Ok(exe)
    }
    /// For each case: Some(reason) if the real code breaks its expectations
    pub fn run(&mut self, b: Bin, files: &[String]) -> Result<Vec<Result<Option<String>, String>>, String> {
        let exe = self.exe(b)?;
        let mut out = vec![];
        for ch in files.chunks(64) {
            let o = std::process::Command::new(&exe).args(ch).output().map_err(|e| e.to_string())?;
            let text = String::from_utf8_lossy(&o.stdout).to_string();
            for f in ch {
                let l = text.lines().find(|l| l.split(' ').nth(1) == Some(f.as_str()));
                out.push(match l {
                    Some(l) if l.starts_with("REPRODUCED") => Ok(Some(l.splitn(3, ' ').nth(2).unwrap_or("").to_string())),
                    Some(l) if l.starts_with("HOLDS") => Ok(None),
                    Some(l) => Err(l.to_string()),
                    None => Err(format!("no answer for {f}: {text}")),
                });
            }
        }
        Ok(out)
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
pub fn jlist(v: &[String]) -> String { format!("[{}]", v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")) }

pub struct Meta {
    pub bounds: Vec<String>,
    pub outside: Vec<String>,
    pub assumptions: Vec<String>,
}

/// Judges the outcome, writes the evidence, and returns the exit status
pub fn conclude(cx: &Cx, paths: &Paths, tier: &str, t0: Instant, tot: &Total, meta: &Meta) -> i32 {
    let prop = cx.prop;
    let dir = paths.build.join("cases").join(prop);
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::create_dir_all(&dir);
    let mut rp = Replayer::new(paths);
    let known: Vec<(String, String)> = std::fs::read_to_string(paths.verif.join("known-findings.txt")).unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={prop} "))).map(|l| { let (k, w) = l.split_once(" : ").unwrap_or((l, l)); (k.to_string(), w.to_string()) }).collect();
    for (_, w) in &known { println!("KNOWN-FINDING: property={prop} {w}"); }

    // counterexamples, replayed against the real code
    let mut seen = BTreeSet::new();
    let mut confirmed: Vec<(String, String)> = vec![];
    let mut unconfirmed: Vec<String> = vec![];
    let mut suppressed = 0;
    let mut viols: Vec<&Viol> = tot.out.viols.iter().collect();
    viols.sort_by(|a, b| (a.case.len(), &a.key).cmp(&(b.case.len(), &b.key)));
    // by kind; some of each kind are tried until one is reproduced
    let mut kinds: Vec<(String, Vec<&Viol>)> = vec![];
    for v in viols {
        if known.iter().any(|k| v.key.contains(&k.0)) { suppressed += 1; continue; }
        if !seen.insert((v.key.clone(), v.case.clone())) { continue; }
        match kinds.iter_mut().find(|k| k.0 == v.key) { Some(k) => k.1.push(v), None => kinds.push((v.key.clone(), vec![v])) }
    }
    let mut tried = 0;
    for (_, vs) in kinds {
        if confirmed.len() >= 5 || tried >= 60 { continue; }
        let mut missed: Option<String> = None;
        let step = (vs.len() / 6).max(1);
        for v in vs.iter().step_by(step).take(7) {
            tried += 1;
            let f = dir.join(format!("{tried}.case"));
            let _ = std::fs::write(&f, format!("# {prop}: {}\n# replay: {:?}\n{}", v.what.replace('\n', " "), v.bin, v.case));
            let fs = f.to_string_lossy().to_string();
            let why = match rp.run(v.bin, &[fs.clone()]) {
                Ok(r) => match &r[0] {
                    Ok(Some(why)) => { println!("counterexample: {}: {}", v.what, why); confirmed.push((fs, v.what.clone())); missed = None; break; }
                    Ok(None) if v.soft => continue,
                    Ok(None) => format!("{} ({})", v.what, fs),
                    Err(e) => format!("{} ({}): {e}", v.what, fs),
                },
                Err(e) => format!("{}: {e}", v.what),
            };
            missed.get_or_insert(why);
        }
        if let Some(m) = missed { unconfirmed.push(m); }
    }

    // traces: predictions of the encoding, compared with the real code
    let mut validated = 0u64;
    let mut mismatches: Vec<String> = vec![];
    let mut by: BTreeMap<Bin, Vec<String>> = BTreeMap::new();
    let cap = if cx.thorough { 1500 } else { 240 };
    let step = (tot.out.traces.len() / cap).max(1);
    for (i, (b, text)) in tot.out.traces.iter().enumerate() {
        if i % step != 0 { continue; }
        let f = dir.join(format!("t{i}.trace"));
        let _ = std::fs::write(&f, text);
        by.entry(*b).or_default().push(f.to_string_lossy().to_string());
    }
    for (b, files) in by {
        match rp.run(b, &files) {
            Ok(r) => for (f, x) in files.iter().zip(r) {
                match x { Ok(None) => { validated += 1; let _ = std::fs::remove_file(f); } Ok(Some(w)) => mismatches.push(format!("{f}: {w}")), Err(e) => mismatches.push(format!("{f}: {e}")) }
            },
            Err(e) => mismatches.push(e),
        }
    }

    let s = &tot.stats;
    let inc = tot.out.inconclusive.len() as u64;
    for i in tot.out.inconclusive.iter().take(20) { println!("inconclusive: {i}"); }
    for u in unconfirmed.iter().take(20) { println!("not reproduced: {u}"); }
    for m in mismatches.iter().take(20) { println!("encoding differs from the code: {m}"); }
    let status = if !confirmed.is_empty() {
        for (f, _) in &confirmed { println!("VIOLATION property={prop} replay={f}"); }
        1
    } else if !unconfirmed.is_empty() || !mismatches.is_empty() {
        2
    } else if tot.jobs == 0 || tot.out.obligations == 0 || inc * 5 > tot.jobs {
        println!("too much is undecided: {inc} of {} jobs", tot.jobs);
        2
    } else { 0 };

    let mut funcs: Vec<String> = tot.out.cov.iter().filter(|x| !x.contains(" block ")).cloned().collect();
    funcs.sort();
    let nblocks = tot.out.cov.len() - funcs.len();
    let mut e = String::new();
    let _ = write!(e, "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n", jstr(prop), jstr(tier), cx.seed);
    let _ = write!(e, "  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n", tot.out.paths, tot.out.steps, validated);
    let _ = write!(e, "  \"scenarios\": {}, \"scenarios_not_run\": {}, \"scenarios_undecided\": {inc},\n", tot.jobs, tot.skipped);
    let _ = write!(e, "  \"obligations\": {}, \"discharged\": {},\n", tot.out.obligations, tot.out.discharged);
    let _ = write!(e, "  \"solver\": {{\"queries\": {}, \"unsat\": {}, \"sat\": {}, \"unknown\": {}, \"answered_from_cache\": {}, \"hard\": {}, \"answered_by_cvc5\": {}, \"seconds\": {:.3}, \"longest\": {:.3}}},\n", s.queries, s.unsat, s.sat, s.unknown, s.cached, s.hard, s.cvc5, s.secs, s.max_secs);
    let reached: Vec<String> = tot.out.reached.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
    let _ = write!(e, "  \"reached\": {{{}}},\n", reached.join(", "));
    let maxima: Vec<String> = tot.out.maxima.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
    let _ = write!(e, "  \"largest\": {{{}}},\n", maxima.join(", "));
    let _ = write!(e, "  \"blocks_encoded\": {nblocks}, \"functions_encoded\": {},\n", jlist(&funcs));
    let _ = write!(e, "  \"bounds\": {}, \"outside\": {},\n", jlist(&meta.bounds), jlist(&meta.outside));
    let mut samples = tot.names.clone();
    if let Some(x) = &tot.out.sample { samples.push(x.clone()); }
    let _ = write!(e, "  \"samples\": {}\n }},\n", jlist(&samples));
    let _ = write!(e, " \"assumptions\": {},\n \"violations\": {}, \"known_findings\": {suppressed}, \"not_reproduced\": {}, \"wall_s\": {:.3}\n}}\n", jlist(&meta.assumptions), confirmed.len(), jlist(&unconfirmed), t0.elapsed().as_secs_f64());
    let evd = paths.verif.join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    let _ = std::fs::write(evd.join(format!("{prop}.json")), e);
    println!("{prop} {tier}: {} scenarios, {} paths, {} obligations ({} discharged), {} queries, {:.1} s in the solver, {} traces confirmed, {:.1} s", tot.jobs, tot.out.paths, tot.out.obligations, tot.out.discharged, s.queries, s.secs, validated, t0.elapsed().as_secs_f64());
    if tot.skipped > 0 { println!("not run within the time budget: {} scenarios", tot.skipped); }
    status
}
