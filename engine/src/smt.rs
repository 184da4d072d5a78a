//! SMT-LIB back end: satisfiability of conjunctions of formulas over bounded integers.
use crate::term::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Mutex, Once};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Sat {
    Unsat,
    Sat(HashMap<u32, i128>),
    Unknown,
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub queries: u64,
    pub cached: u64,
    pub trivial: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub hard: u64,
    pub cvc5: u64,
    pub secs: f64,
    pub max_secs: f64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.cached += o.cached;
        self.trivial += o.trivial;
        self.unsat += o.unsat;
        self.sat += o.sat;
        self.unknown += o.unknown;
        self.hard += o.hard;
        self.cvc5 += o.cvc5;
        self.secs += o.secs;
        self.max_secs = self.max_secs.max(o.max_secs);
    }
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

/// Solvers that are working, and when they must have answered: the solvers' own time limits are not reliable
static BUSY: Mutex<Vec<(u32, Instant)>> = Mutex::new(Vec::new());
/// unknown | unsat | model in canonical order
type Answer = Option<Option<Vec<i128>>>;
/// Answers, shared by the workers; None while one of them is asking
static CACHE: Mutex<Option<HashMap<String, Option<Answer>>>> = Mutex::new(None);
static ANSWERED: std::sync::Condvar = std::sync::Condvar::new();
static WATCH: Once = Once::new();
fn watch() {
    WATCH.call_once(|| { std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(100));
        for (pid, t) in BUSY.lock().unwrap().iter() {
            if Instant::now() > *t { let _ = Command::new("kill").args(["-9", &pid.to_string()]).status(); }
        }
    }); });
}

pub struct Smt {
    proc: Option<Proc>,
    pub stats: Stats,
    pub timeout_ms: u64,
    pub dump: Option<String>,
    /// No question is asked after this
    pub deadline: Option<Instant>,
}

struct Enc<'a> {
    linear: bool,
    prods: Vec<(T, T)>,
    c: &'a Ctx,
    names: HashMap<T, String>,
    bnames: HashMap<B, String>,
    divs: HashMap<(T, u32), String>,
    bitmemo: HashMap<(String, u32), Vec<String>>,
    syms: Vec<u32>,
    out: String,
    n: usize,
    env: &'a Env,
    ranges: HashMap<T, (i128, i128)>,
}

fn num(c: i128) -> String { if c < 0 { format!("(- {})", c.unsigned_abs()) } else { c.to_string() } }

impl<'a> Enc<'a> {
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{p}{}", self.n) }
    fn term(&mut self, t: T) -> String {
        if let Some(n) = self.names.get(&t) { return n.clone(); }
        let c = self.c;
        let s = match &c.nodes[t as usize] {
            Node::Const(k) => num(*k),
            Node::Sym(s) => {
                let n = format!("s{}", self.syms.len());
                self.syms.push(*s);
                let y = &c.syms[*s as usize];
                let (mut lo, mut hi) = (y.lo, y.hi);
                if let Some(e) = self.env.sym.get(s) { lo = lo.max(e.0); hi = hi.min(e.1); }
                let _ = writeln!(self.out, "(declare-const {n} Int)");
                if lo > -INF { let _ = writeln!(self.out, "(assert (<= {} {n}))", num(lo)); }
                if hi < INF { let _ = writeln!(self.out, "(assert (<= {n} {}))", num(hi)); }
                n
            }
            Node::Sum(k, v) => {
                let mut parts = vec![];
                if *k != 0 { parts.push(num(*k)); }
                // by coefficient, so that questions which differ by the order of their symbols look the same
                let mut v: Vec<(i128, M)> = v.to_vec();
                v.sort_by_key(|x| (c.monos[x.1 as usize].len(), x.0, x.1));
                for (q, m) in v.iter() {
                    let fs: Vec<T> = c.monos[*m as usize].to_vec();
                    if fs.len() > 1 { self.linear = false; if fs.len() == 2 && !self.prods.contains(&(fs[0], fs[1])) { self.prods.push((fs[0], fs[1])); } }
                    let mut f: Vec<String> = vec![];
                    if *q != 1 { f.push(num(*q)); }
                    for x in fs { f.push(self.term(x)); }
                    parts.push(if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) });
                }
                let e = if parts.len() == 1 { parts.pop().unwrap() } else { format!("(+ {})", parts.join(" ")) };
                let n = self.fresh("t");
                let _ = writeln!(self.out, "(define-fun {n} () Int {e})");
                n
            }
            Node::Mod(u, k) => {
                let q = self.divq(*u, *k);
                let x = self.term(*u);
                format!("(- {x} (* {} {q}))", p2(*k))
            }
            Node::Div(u, k) => self.divq(*u, *k),
            Node::UDiv(a, b) | Node::URem(a, b) => {
                self.linear = false;
                let isdiv = matches!(c.nodes[t as usize], Node::UDiv(..));
                let (a, b) = (*a, *b);
                let (x, y) = (self.term(a), self.term(b));
                let key = (a, 1000 + b);
                let q = match self.divs.get(&key) {
                    Some(q) => q.clone(),
                    None => {
                        let q = self.fresh("q");
                        let _ = writeln!(self.out, "(declare-const {q} Int)\n(assert (>= {q} 0))");
                        let _ = writeln!(self.out, "(assert (=> (> {y} 0) (and (<= (* {y} {q}) {x}) (< {x} (+ {y} (* {y} {q}))))))");
                        self.divs.insert(key, q.clone());
                        q
                    }
                };
                if isdiv { q } else { format!("(- {x} (* {y} {q}))") }
            }
            Node::Ite(b, x, y) => {
                let (b, x, y) = (self.bool(*b), self.term(*x), self.term(*y));
                let n = self.fresh("t");
                let _ = writeln!(self.out, "(define-fun {n} () Int (ite {b} {x} {y}))");
                n
            }
            Node::B2I(b) => { let b = self.bool(*b); format!("(ite {b} 1 0)") }
            Node::Clamp(u, lo, hi) => {
                let x = self.term(*u);
                let n = self.fresh("t");
                let mut e = x.clone();
                if *hi < INF { e = format!("(ite (<= {x} {}) {e} {})", num(*hi), num(*hi)); }
                if *lo > -INF { e = format!("(ite (>= {x} {}) {e} {})", num(*lo), num(*lo)); }
                let _ = writeln!(self.out, "(define-fun {n} () Int {e})");
                n
            }
            Node::BAnd(a, b) | Node::BXor(a, b) | Node::BOr(a, b) => {
                let op = match c.nodes[t as usize] { Node::BAnd(..) => 0, Node::BXor(..) => 1, _ => 2 };
                let (a, b) = (*a, *b);
                let bits = {
                    let r = self.ranges.get(&a).copied().unwrap_or((0, INF)).1.max(self.ranges.get(&b).copied().unwrap_or((0, INF)).1);
                    if r >= INF { 64 } else { (128 - r.leading_zeros()).max(1) }
                };
                let (x, y) = (self.term(a), self.term(b));
                let mut ps = vec![];
                let (xb, yb) = (self.bits(&x, bits), self.bits(&y, bits));
                for i in 0..bits as usize {
                    let p = match op { 0 => format!("(and (= {} 1) (= {} 1))", xb[i], yb[i]), 1 => format!("(not (= {} {}))", xb[i], yb[i]), _ => format!("(or (= {} 1) (= {} 1))", xb[i], yb[i]) };
                    ps.push(format!("(ite {p} {} 0)", p2(i as u32)));
                }
                let n = self.fresh("t");
                let e = if ps.len() == 1 { ps.pop().unwrap() } else { format!("(+ {})", ps.join(" ")) };
                let _ = writeln!(self.out, "(define-fun {n} () Int {e})");
                n
            }
        };
        self.names.insert(t, s.clone());
        s
    }
    fn bits(&mut self, x: &str, n: u32) -> Vec<String> {
        if let Some(v) = self.bitmemo.get(&(x.to_string(), n)) { return v.clone(); }
        let mut v = vec![];
        for _ in 0..n {
            let b = self.fresh("b");
            let _ = writeln!(self.out, "(declare-const {b} Int)\n(assert (and (<= 0 {b}) (<= {b} 1)))");
            v.push(b);
        }
        let s: Vec<String> = v.iter().enumerate().map(|(i, b)| format!("(* {} {b})", p2(i as u32))).collect();
        let _ = writeln!(self.out, "(assert (= {x} (+ 0 {})))", s.join(" "));
        self.bitmemo.insert((x.to_string(), n), v.clone());
        v
    }
    fn divq(&mut self, u: T, k: u32) -> String {
        if let Some(q) = self.divs.get(&(u, k)) { return q.clone(); }
        let x = self.term(u);
        let q = self.fresh("q");
        let m = p2(k);
        let _ = writeln!(self.out, "(declare-const {q} Int)\n(assert (<= (* {m} {q}) {x}))\n(assert (<= {x} (+ {} (* {m} {q}))))", m - 1);
        self.divs.insert((u, k), q.clone());
        q
    }
    fn bool(&mut self, b: B) -> String {
        if let Some(n) = self.bnames.get(&b) { return n.clone(); }
        let c = self.c;
        let s = match &c.bnodes[b as usize] {
            BNode::True => "true".to_string(),
            BNode::False => "false".to_string(),
            BNode::Le0(t) => { let x = self.term(*t); format!("(<= {x} 0)") }
            BNode::Eq0(t) => { let x = self.term(*t); format!("(= {x} 0)") }
            BNode::Ne0(t) => { let x = self.term(*t); format!("(not (= {x} 0))") }
            BNode::And(v) | BNode::Or(v) => {
                let op = if matches!(c.bnodes[b as usize], BNode::And(_)) { "and" } else { "or" };
                let ps: Vec<String> = v.iter().map(|x| self.bool(*x)).collect();
                let n = self.fresh("b");
                let _ = writeln!(self.out, "(define-fun {n} () Bool ({op} {}))", ps.join(" "));
                n
            }
        };
        self.bnames.insert(b, s.clone());
        s
    }
}

impl Smt {
    pub fn new(timeout_ms: u64) -> Smt { Smt { proc: None, stats: Stats::default(), timeout_ms, dump: std::env::var("SMT_DUMP").ok(), deadline: None } }
    fn start(bin: &str) -> Proc {
        let mut child = Command::new(bin).arg("-in").arg("-smt2").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("z3 does not start");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Proc { child, inp, out }
    }
    fn kill(&mut self) {
        if let Some(mut p) = self.proc.take() { let _ = p.child.kill(); let _ = p.child.wait(); }
    }
    /// Is the conjunction of `asserts`, under the facts of `env` that share symbols with it, satisfiable?
    pub fn check(&mut self, c: &mut Ctx, env: &std::rc::Rc<Env>, asserts: &[B]) -> Sat {
        c.set_env(env);
        if asserts.iter().any(|x| *x == FALSE) || env.infeasible { self.stats.trivial += 1; return Sat::Unsat; }
        // cone of influence
        let mut cone: std::collections::HashSet<u32> = c.collect_syms(asserts, &[]).into_iter().collect();
        let cons: Vec<(B, Vec<u32>)> = env.cons.iter().map(|b| (*b, c.collect_syms(&[*b], &[]))).collect();
        let mut used = vec![false; cons.len()];
        loop {
            let mut ch = false;
            for (i, (_, s)) in cons.iter().enumerate() {
                if !used[i] && (s.is_empty() || s.iter().any(|x| cone.contains(x))) {
                    used[i] = true;
                    ch = true;
                    cone.extend(s.iter());
                }
            }
            if !ch { break; }
        }
        let mut all: Vec<B> = asserts.to_vec();
        let mut seen: std::collections::HashSet<B> = all.iter().copied().collect();
        for (i, (b, _)) in cons.iter().enumerate() { if used[i] && *b != TRUE && seen.insert(*b) { all.push(*b); } }
        let ranges = collect_ranges(c, &all);
        let (mut text, syms, linear, prods) = {
            let mut e = Enc { c, names: HashMap::new(), bnames: HashMap::new(), divs: HashMap::new(), bitmemo: HashMap::new(), syms: vec![], out: String::new(), n: 0, env, ranges, linear: true, prods: vec![] };
            for b in &all {
                let s = e.bool(*b);
                let _ = writeln!(e.out, "(assert {s})");
            }
            let prods: Vec<(T, T, String, String)> = e.prods.clone().into_iter().map(|(a, b)| { let (x, y) = (e.term(a), e.term(b)); (a, b, x, y) }).collect();
            (e.out, e.syms, e.linear, prods)
        };
        // what the bounds of two factors say about their product
        for (a, b, x, y) in prods {
            let ((la, ha), (lb, hb)) = (c.range(a), c.range(b));
            let small = |k: i128| k.abs() < p2(40);
            for (p, q, le) in [(la, lb, false), (ha, hb, false), (la, hb, true), (ha, lb, true)] {
                // (x - p)(y - q)
                if !small(p) || !small(q) { continue; }
                let op = if le { "<=" } else { ">=" };
                let _ = writeln!(text, "(assert ({op} (* {x} {y}) (+ (* {} {y}) (* {} {x}) {})))", num(p), num(q), num(-p * q));
            }
        }
        let sat = |r: Answer| match r {
            None => Sat::Unknown,
            Some(None) => Sat::Unsat,
            Some(Some(m)) => Sat::Sat(syms.iter().copied().zip(m).collect()),
        };
        {
            let mut g = CACHE.lock().unwrap();
            loop {
                match g.get_or_insert_with(HashMap::new).get(&text) {
                    None => { g.as_mut().unwrap().insert(text.clone(), None); break; }
                    Some(Some(r)) => { self.stats.cached += 1; return sat(r.clone()); }
                    Some(None) => g = ANSWERED.wait(g).unwrap(),
                }
            }
        }
        let t0 = Instant::now();
        if self.deadline.map_or(false, |d| t0 > d) {
            self.stats.unknown += 1;
            CACHE.lock().unwrap().as_mut().unwrap().remove(&text);
            ANSWERED.notify_all();
            return Sat::Unknown;
        }
        let r = self.ask(&text, syms.len(), linear);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.secs += dt;
        self.stats.max_secs = self.stats.max_secs.max(dt);
        if let Some(d) = &self.dump {
            if dt > 0.5 { let _ = std::fs::write(format!("{d}/q{}.smt2", self.stats.queries), format!("{text}(check-sat)\n; {dt}")); }
        }
        match &r { None => self.stats.unknown += 1, Some(None) => self.stats.unsat += 1, Some(Some(_)) => self.stats.sat += 1 }
        CACHE.lock().unwrap().as_mut().unwrap().insert(text, Some(r.clone()));
        ANSWERED.notify_all();
        sat(r)
    }
    /// An incremental session answers the easy queries; what it leaves open goes to a second solver from scratch
    fn ask(&mut self, text: &str, nsyms: usize, linear: bool) -> Option<Option<Vec<i128>>> {
        if self.proc.is_none() {
            let mut p = Self::start("z3");
            let _ = p.inp.write_all(format!("(set-option :timeout {})\n", self.timeout_ms.min(1500)).as_bytes());
            self.proc = Some(p);
        }
        let r = Self::ask1(self.proc.as_mut().unwrap(), &format!("(push)\n{text}(check-sat)\n"), nsyms, 1500);
        match r {
            Ok(Some(x)) => { let _ = self.proc.as_mut().unwrap().inp.write_all(b"(pop)\n"); return Some(x); }
            Ok(None) => { let _ = self.proc.as_mut().unwrap().inp.write_all(b"(pop)\n"); }
            Err(e) => { eprintln!("z3: {e}"); self.kill(); }
        }
        self.stats.hard += 1;
        self.race(text, nsyms, linear)
    }
    /// Two other solvers, from scratch and at the same time: the first answer counts
    fn race(&mut self, text: &str, nsyms: usize, linear: bool) -> Option<Option<Vec<i128>>> {
        let limit = self.timeout_ms;
        let (tx, rx) = std::sync::mpsc::channel();
        let mut pids = vec![];
        let z = format!("(set-option :timeout {limit})\n{text}(check-sat)\n");
        let c = format!("(set-logic {})\n{text}(check-sat)\n", if linear { "QF_LIA" } else { "QF_NIA" });
        let opt = format!("--tlimit={limit}");
        for (bin, args, msg) in [("z3-new", vec!["-in", "-smt2"], z), ("cvc5", vec!["--lang=smt2", "--produce-models", opt.as_str()], c)] {
            let Ok(mut child) = Command::new(bin).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else { continue };
            let inp = child.stdin.take().unwrap();
            let out = BufReader::new(child.stdout.take().unwrap());
            let mut p = Proc { child, inp, out };
            pids.push(p.child.id());
            let tx = tx.clone();
            std::thread::spawn(move || {
                let r = Self::ask1(&mut p, &msg, nsyms, limit);
                let _ = p.child.kill();
                let _ = p.child.wait();
                let _ = tx.send((bin, r.unwrap_or(None)));
            });
        }
        drop(tx);
        let mut ans = None;
        while let Ok((bin, r)) = rx.recv() {
            if r.is_some() && ans.is_none() {
                if bin == "cvc5" { self.stats.cvc5 += 1; }
                ans = r;
                // the other one has nothing to add
                for p in &pids { let mut b = BUSY.lock().unwrap(); for x in b.iter_mut() { if x.0 == *p { x.1 = Instant::now(); } } }
                break;
            }
        }
        ans
    }
    fn ask1(p: &mut Proc, msg: &str, nsyms: usize, limit: u64) -> Result<Option<Option<Vec<i128>>>, String> {
        watch();
        let pid = p.child.id();
        BUSY.lock().unwrap().push((pid, Instant::now() + Duration::from_millis(limit + 5000)));
        let r = Self::ask2(p, msg, nsyms);
        BUSY.lock().unwrap().retain(|x| x.0 != pid);
        r
    }
    fn ask2(p: &mut Proc, msg: &str, nsyms: usize) -> Result<Option<Option<Vec<i128>>>, String> {
        p.inp.write_all(msg.as_bytes()).map_err(|e| e.to_string())?;
        p.inp.flush().map_err(|e| e.to_string())?;
        let mut l = String::new();
        p.out.read_line(&mut l).map_err(|e| e.to_string())?;
        match l.trim() {
            "unsat" => Ok(Some(None)),
            "unknown" | "timeout" => Ok(None),
            "sat" => {
                if nsyms == 0 { return Ok(Some(Some(vec![]))); }
                let names: Vec<String> = (0..nsyms).map(|i| format!("s{i}")).collect();
                let msg = format!("(get-value ({}))\n", names.join(" "));
                p.inp.write_all(msg.as_bytes()).map_err(|e| e.to_string())?;
                p.inp.flush().map_err(|e| e.to_string())?;
                let mut s = String::new();
                let mut depth = 0i32;
                loop {
                    let mut l = String::new();
                    if p.out.read_line(&mut l).map_err(|e| e.to_string())? == 0 { return Err("eof".into()); }
                    for ch in l.chars() { if ch == '(' { depth += 1 } else if ch == ')' { depth -= 1 } }
                    s.push_str(&l);
                    if depth == 0 { break; }
                }
                // ((s0 5) (s1 (- 3)) ...)
                let toks: Vec<String> = s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
                let mut vals = vec![0i128; nsyms];
                let mut i = 0;
                while i < toks.len() {
                    if let Some(n) = toks[i].strip_prefix('s') {
                        let k: usize = n.parse().map_err(|_| format!("model {s}"))?;
                        let mut j = i + 1;
                        let mut neg = false;
                        if toks[j] == "(" { j += 2; neg = true; }
                        let v: i128 = toks[j].parse().map_err(|_| format!("model {s}"))?;
                        vals[k] = if neg { -v } else { v };
                        i = j;
                    }
                    i += 1;
                }
                Ok(Some(Some(vals)))
            }
            x => Err(format!("unexpected answer {x}\n{msg}")),
        }
    }
}

impl Drop for Smt {
    fn drop(&mut self) { self.kill(); }
}

/// Upper bounds of the operands of bitwise nodes
fn collect_ranges(c: &mut Ctx, bs: &[B]) -> HashMap<T, (i128, i128)> {
    let mut out = HashMap::new();
    let ops = c.bit_operands(bs);
    for t in ops { let r = c.range(t); out.insert(t, r); }
    out
}
