//! The properties: scenarios, obligations, bounds.
use crate::drive::*;
use crate::exec::*;
use crate::scen::*;
use crate::smt::{Sat, Smt};
use crate::spec::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

pub type Model = HashMap<u32, i128>;

/// Runs `f` with an executor that uses the worker's solver
pub fn with_ex<'p, R>(p: &'p Prog, cx: &Cx, smt: &mut Smt, out: &mut JobOut, f: impl FnOnce(&mut Ex<'p>, &mut JobOut) -> R) -> R {
    let mut ex = Ex::new(p, cx.timeout_ms);
    std::mem::swap(&mut ex.smt, smt);
    let end = std::time::Instant::now() + std::time::Duration::from_secs(if cx.thorough { 300 } else { 60 });
    ex.deadline = Some(end);
    ex.smt.deadline = Some(end);
    let r = f(&mut ex, out);
    std::mem::swap(&mut ex.smt, smt);
    out.paths += ex.paths;
    out.steps += ex.total_steps;
    for (f, b) in &ex.cov {
        out.cov.insert(p.short(*f));
        out.cov.insert(format!("{} block {b}", p.funcs[*f as usize].name));
    }
    if ex.unknown_forks > 0 { out.inconclusive.push(format!("{} branch conditions left open by the solver", ex.unknown_forks)); }
    r
}

/// A model of the path and `extra`, with small sizes if there is one. Bytes of one address have one value
pub fn model(ex: &mut Ex, st: &State, extra: &[B], sizes: &[T]) -> Option<Model> {
    let mut more = extra.to_vec();
    for round in 0..8 {
        let m = model_with(ex, st, &more, sizes)?;
        // rows that overlap the end of others: pixels of the same address may have got two values
        let mut pix: Vec<(u32, T, u32)> = m.keys().filter_map(|s| ex.c.syms[*s as usize].pix.map(|(o, off)| (o, off, *s))).collect();
        pix.sort();
        let mut seen: HashMap<(u32, i128), (T, u32)> = HashMap::new();
        let mut memo = HashMap::new();
        let mut clashes = vec![];
        for (o, off, s) in pix {
            let a = ex.c.eval(off, &m, &mut memo);
            match seen.get(&(o, a)) { Some((off2, s2)) => if m[s2] != m[&s] { clashes.push((*off2, *s2, off, s)); }, None => { seen.insert((o, a), (off, s)); } }
        }
        if clashes.is_empty() { return Some(m); }
        ex.c.set_env(&st.env);
        if round == 0 {
            // rows far apart do not overlap
            let k = ex.c.k(1200);
            let mut far = extra.to_vec();
            for t in sizes { if let Node::Sym(s) = ex.c.nodes[*t as usize] { if ex.c.syms[s as usize].name.contains("stride") { far.push(ex.c.le(k, *t)); } } }
            if far.len() > extra.len() && model_with(ex, st, &far, sizes).is_some() { more = far; continue; }
        }
        for (off2, s2, off, s) in clashes {
            let (a, b) = (ex.c.sym_term(s2), ex.c.sym_term(s));
            let same = ex.c.eq(a, b);
            let e = ex.c.eq(off2, off);
            let apart = ex.c.not(e);
            more.push(ex.c.or(&[apart, same]));
        }
    }
    None
}

fn model_with(ex: &mut Ex, st: &State, extra: &[B], sizes: &[T]) -> Option<Model> {
    let mut open = 0;
    for lim in [7u32, 12, 16, 20, 24, 30, 34, 64] {
        if open >= 2 && lim < 64 { continue; }
        let mut a: Vec<B> = extra.to_vec();
        a.extend(st.env.cons.iter().copied());
        ex.c.set_env(&st.env);
        let k = ex.c.k(p2(lim));
        for t in sizes { let b = ex.c.le(*t, k); if b != TRUE { a.push(b); } }
        match ex.smt.check(&mut ex.c, &st.env, &a) {
            Sat::Sat(m) => {
                // variables the query does not mention keep the smallest value the path allows
                let mut m = m;
                for (s, r) in &st.env.sym { m.entry(*s).or_insert_with(|| { let y = &ex.c.syms[*s as usize]; let lo = y.lo.max(r.0); let hi = y.hi.min(r.1); if lo <= 0 && hi >= 0 { 0 } else { lo } }); }
                return Some(m);
            }
            Sat::Unknown => open += 1,
            Sat::Unsat => {}
        }
    }
    None
}

/// Is `b` impossible on this path? Some(true): proved; Some(false): there is a model; None: unknown
pub fn impossible(ex: &mut Ex, st: &State, b: &[B]) -> Option<bool> {
    ex.c.set_env(&st.env);
    let b: Vec<B> = b.iter().map(|x| ex.c.simp(*x)).collect();
    if b.contains(&FALSE) { return Some(true); }
    match ex.smt.check(&mut ex.c, &st.env, &b) { Sat::Unsat => Some(true), Sat::Sat(_) => Some(false), Sat::Unknown => None }
}

pub fn list(v: impl IntoIterator<Item = i128>) -> String { v.into_iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }

pub fn sizes_of(call: &Call) -> Vec<T> {
    let mut v = vec![call.w, call.h];
    for i in [&call.src, &call.dst] { v.extend(i.lens.iter().copied()); v.extend(i.strides.iter().copied()); }
    v
}

fn image_case(ex: &Ex, s: &mut String, tag: &str, im: &Img, sy: &ImgSym, m: &Model, c_api: bool) {
    let mut memo = HashMap::new();
    let _ = writeln!(s, "{tag}={},{},{}", im.pf, im.cs, im.np);
    if im.mode == Mode::Absent { let _ = writeln!(s, "{tag}_strides=none"); } else { let _ = writeln!(s, "{tag}_strides={}", list(sy.strides.iter().map(|t| ex.c.eval(*t, m, &mut memo)))); }
    let lens: Vec<i128> = if c_api {
        // no lengths in the C interface: as many bytes as the layout takes
        let mut v = vec![1; sy.lens.len()];
        for p in &sy.planes {
            let (st, r, n) = (ex.c.eval(p.stride, m, &mut memo), ex.c.eval(p.row, m, &mut memo), ex.c.eval(p.rows, m, &mut memo));
            v[p.buf] = if n > 0 && r > 0 { st.checked_mul(n - 1).and_then(|x| x.checked_add(r)).unwrap_or(1).min(1 << 40) } else { 1 };
        }
        v
    } else { sy.lens.iter().map(|t| ex.c.eval(*t, m, &mut memo)).collect() };
    let _ = writeln!(s, "{tag}_lens={}", list(lens));
}

/// The call with the values of the model
pub fn case_of(ex: &Ex, sc: &Scn, call: &Call, m: &Model, lines: &[String]) -> String {
    let mut s = String::new();
    let mut memo = HashMap::new();
    let _ = writeln!(s, "api={}\nset={}\nw={}\nh={}", if sc.c_api { "cconvert" } else { "convert" }, SET_NAME[sc.set as usize], ex.c.eval(call.w, m, &mut memo), ex.c.eval(call.h, m, &mut memo));
    image_case(ex, &mut s, "src", &sc.src, &call.src, m, sc.c_api);
    image_case(ex, &mut s, "dst", &sc.dst, &call.dst, m, sc.c_api);
    let mut px = vec![];
    for (sym, v) in m {
        if let Some((o, off)) = ex.c.syms[*sym as usize].pix {
            if let Some(b) = call.src.objs.iter().position(|x| *x == o) { px.push((b, ex.c.eval(off, m, &mut memo), *v)); }
        }
    }
    px.sort();
    if !ex.dull.is_empty() { let _ = writeln!(s, "rest=0"); }
    if !px.is_empty() { let _ = writeln!(s, "pix={}", px.iter().map(|(b, o, v)| format!("{b}:{o}:{v}")).collect::<Vec<_>>().join(" ")); }
    for l in lines { let _ = writeln!(s, "{l}"); }
    s
}

pub fn bin_of(sc: &Scn) -> Bin { if sc.c_api { Bin::Default } else { Bin::Sets } }

#[derive(Clone, Copy, Default)]
pub struct Chk {
    pub mem: bool,
    pub accept: bool,
    pub writes: bool,
    pub panics: bool,
    pub values: bool,
    pub grey: bool,
    pub perm: bool,
}

/// One name for a byte, whichever way the code computes its offset: sizes that the path has fixed to one value are
/// replaced with it, and sums that the path keeps below 2^64 do not wrap
#[derive(Default)]
pub struct Canon { stages: Vec<Stage> }
#[derive(Default)]
struct Stage { map: HashMap<T, T>, memo: HashMap<T, T>, bmemo: HashMap<B, B> }
impl Canon {
    pub fn new(ex: &mut Ex, st: &State) -> Option<Canon> {
        let mut cn = Canon::default();
        let fixed: Vec<(u32, i128)> = st.env.sym.iter().filter(|(s, r)| r.0 == r.1 && ex.c.syms[**s as usize].refinable).map(|(s, r)| (*s, r.0)).collect();
        let empty = std::rc::Rc::new(Env::default());
        if !fixed.is_empty() {
            ex.c.set_env(&empty);
            let map = fixed.into_iter().map(|(s, v)| (ex.c.sym_term(s), ex.c.k(v))).collect();
            cn.stages.push(Stage { map, ..Stage::default() });
        }
        // offsets
        let mut pix: Vec<(u32, T, T)> = ex.pix.iter().map(|(k, v)| (k.0, k.1, *v)).collect();
        pix.sort();
        let mut offs: Vec<T> = pix.iter().map(|x| x.1).collect();
        for o in &st.mem { if let Obj::Buf(b) = o { offs.extend(b.writes.keys().copied()); } }
        let mut mods: std::collections::BTreeSet<T> = Default::default();
        for o in offs {
            ex.c.set_env(&empty);
            let t = cn.term(ex, o);
            for a in ex.c.atoms(t) { if matches!(ex.c.nodes[a as usize], Node::Mod(_, 62..=64)) { mods.insert(a); } }
        }
        // sums that differ by a constant are decided together
        let mut groups: BTreeMap<(T, u32), Vec<(T, i128)>> = BTreeMap::new();
        for a in mods {
            let Node::Mod(u, bits) = ex.c.nodes[a as usize] else { continue };
            let (c, v) = ex.c.parts(u);
            let h = ex.c.sum(0, v);
            groups.entry((h, bits)).or_default().push((a, c.rem_euclid(p2(bits))));
        }
        let mut map = HashMap::new();
        for ((h, bits), v) in groups {
            let m = p2(bits);
            let (lo, hi) = (v.iter().map(|x| x.1).min().unwrap_or(0), v.iter().map(|x| x.1).max().unwrap_or(0));
            let mut sets = vec![v.clone()];
            if v.len() > 1 && hi - lo > m / 2 { sets = v.iter().map(|x| vec![*x]).collect(); }
            while let Some(g) = sets.pop() {
                let (lo, hi) = (g.iter().map(|x| x.1).min().unwrap_or(0), g.iter().map(|x| x.1).max().unwrap_or(0));
                let mut found = None;
                for q in [0, -m, m] {
                    ex.c.set_env(&st.env);
                    let (a, b) = (ex.c.addk(h, lo + q + 1), ex.c.addk(h, hi + q));
                    let (a, k) = (ex.c.le0(a), ex.c.k(m));
                    let b = ex.c.le(k, b);
                    if impossible(ex, st, &[a]) == Some(true) && impossible(ex, st, &[b]) == Some(true) { found = Some(q); break; }
                }
                ex.c.set_env(&empty);
                match found {
                    Some(q) => for (a, c) in g { let t = ex.c.addk(h, c + q); map.insert(a, t); },
                    None if g.len() > 1 => sets.extend(g.into_iter().map(|x| vec![x])),
                    None => {}
                }
            }
        }
        if !map.is_empty() { cn.stages.push(Stage { map, ..Stage::default() }); }
        if cn.stages.is_empty() { return None; }
        ex.c.set_env(&empty);
        // pixels follow their offsets
        let mut more = HashMap::new();
        for (o, off, t) in pix {
            let n = cn.term(ex, off);
            if n == off { continue; }
            let Node::Sym(s) = ex.c.nodes[t as usize] else { continue };
            let name = ex.c.syms[s as usize].name.split('[').next().unwrap_or("").to_string();
            more.insert(t, ex.pixel(o, &name, n));
        }
        cn.stages.push(Stage { map: more, ..Stage::default() });
        Some(cn)
    }
    pub fn term(&mut self, ex: &mut Ex, t: T) -> T {
        let mut t = t;
        for s in &mut self.stages { t = ex.c.subst(t, &s.map, &mut s.memo, &mut s.bmemo); }
        t
    }
    /// What is written to a buffer
    pub fn buf(&mut self, ex: &mut Ex, b: &Buf) -> Result<Buf, String> {
        let empty = std::rc::Rc::new(Env::default());
        ex.c.set_env(&empty);
        let mut r = b.clone();
        r.len = self.term(ex, b.len);
        r.writes.clear();
        for (k, v) in &b.writes {
            let k = self.term(ex, *k);
            let v = match v {
                V::Opq | V::Undef => v.clone(),
                v => { let t = ex.int(v).map_err(|e| format!("{e:?}"))?; V::I(self.term(ex, t)) }
            };
            if let Some(o) = r.writes.insert(k, v.clone()) { if o != v { return Err("a byte is written under two names".into()); } }
        }
        for x in &mut r.ranges { *x = (self.term(ex, x.0), self.term(ex, x.1)); }
        Ok(r)
    }
    fn img(&mut self, ex: &mut Ex, i: &ImgSym) -> ImgSym {
        let mut i = i.clone();
        for v in [&mut i.strides, &mut i.lens, &mut i.eff] { for t in v.iter_mut() { *t = self.term(ex, *t); } }
        for p in &mut i.planes { p.stride = self.term(ex, p.stride); p.start = self.term(ex, p.start); p.row = self.term(ex, p.row); p.rows = self.term(ex, p.rows); }
        i
    }
    pub fn call(&mut self, ex: &mut Ex, c: &Call) -> Call {
        let mut c = c.clone();
        c.w = self.term(ex, c.w);
        c.h = self.term(ex, c.h);
        c.src = self.img(ex, &c.src);
        c.dst = self.img(ex, &c.dst);
        c
    }
    pub fn state(&mut self, ex: &mut Ex, st: &State, objs: &[u32]) -> Result<State, String> {
        let mut st = st.clone();
        for o in objs { if let Obj::Buf(b) = &st.mem[*o as usize] { let b = b.clone(); st.mem[*o as usize] = Obj::Buf(std::rc::Rc::new(self.buf(ex, &b)?)); } }
        Ok(st)
    }
}
/// The state and the call under these names
pub fn canon(ex: &mut Ex, st: &State, call: &Call) -> Result<Option<(State, Call)>, String> {
    let Some(mut cn) = Canon::new(ex, st) else { return Ok(None) };
    let c = cn.call(ex, call);
    let objs: Vec<u32> = call.src.objs.iter().chain(&call.dst.objs).copied().collect();
    let s = cn.state(ex, st, &objs)?;
    Ok(Some((s, c)))
}

fn where_key(ex: &Ex, l: Loc) -> String { ex.p.short(l.f) }

/// Obligations at the end of a path of a conversion
pub fn at_end(ex: &mut Ex, out: &mut JobOut, cx: &Cx, sc: &Scn, call: &Call, st: &State, end: &End, chk: Chk, ovf: bool) -> Result<(), String> {
    let name = sc.name();
    let sizes = sizes_of(call);
    let bin = if ovf { if sc.c_api { Bin::Checked } else { Bin::CheckedSets } } else { bin_of(sc) };
    let report = |ex: &mut Ex, out: &mut JobOut, key: String, what: String, extra: &[B], lines: &dyn Fn(&Ex, &Model) -> Vec<String>| {
        out.obligations += 1;
        match model(ex, st, extra, &sizes) {
            Some(m) => { let l = lines(ex, &m); out.viols.push(Viol { key, what: format!("{name}: {what}"), case: case_of(ex, sc, call, &m, &l), bin, soft: matches!(end, End::Cut(_)) }); }
            None => out.inconclusive.push(format!("{name}: no model for: {what}")),
        }
    };
    let nolines = |_: &Ex, _: &Model| -> Vec<String> { vec![] };
    let v = match end {
        End::Panic(s, l) => {
            out.reach("panic");
            if chk.panics || chk.accept || chk.values || chk.perm {
                let k = format!("panic in {}", where_key(ex, *l));
                let w = format!("panics: {s} in {}", ex.p.loc(*l));
                report(ex, out, k, w, &[], &nolines);
            }
            return Ok(());
        }
        End::Ub(s, l) => {
            out.reach("undefined behaviour");
            if chk.mem || chk.panics {
                let k = format!("undefined behaviour in {}", where_key(ex, *l));
                let w = format!("{s} in {}", ex.p.loc(*l));
                report(ex, out, k, w, &[], &nolines);
            } else {
                out.inconclusive.push(format!("{name}: {s} in {}", ex.p.loc(*l)));
            }
            return Ok(());
        }
        End::Cut(_) => V::Undef,
        End::Ret(v) => v.clone(),
    };
    let cut = matches!(end, End::Cut(_));
    let ret = if cut { 0 } else { ret_int(ex, &v).ok_or("result is not determined on a path")? };
    let ret = if cut { 0 } else if sc.c_api { if ret == 0 { 0 } else { 100 + c_error(ex, st, call)?.unwrap_or(99) } } else { ret };
    if cut { out.reach("not followed further"); } else { out.reach(&format!("returns {}", if ret >= 100 { err_name(ret - 100 + 1) } else { err_name(ret) })); }
    if chk.panics || chk.accept { out.oblige(true); }
    if chk.mem {
        let mut k: Vec<_> = st.acc.iter().map(|(k, a)| (*k, *a)).collect();
        k.sort_by_key(|x| (x.0 .0, x.0 .1));
        for ((o, h, w), a) in k {
            let Obj::Buf(b) = &st.mem[o as usize] else { continue };
            let (len, bname) = (b.len, b.name.clone());
            ex.c.set_env(&st.env);
            let lo = ex.c.addk(h, a.min);
            let hi = ex.c.addk(h, a.max);
            let under = ex.c.addk(lo, 1);
            let under = ex.c.le0(under);
            let over = ex.c.lt(len, hi);
            for (bad, l, dir) in [(under, a.lmin, "before the start"), (over, a.lmax, "past the end")] {
                match impossible(ex, st, &[bad]) {
                    Some(true) => out.oblige(true),
                    Some(false) => {
                        let kind = if w { "writes" } else { "reads" };
                        let key = format!("{kind} {dir} of {} in {}", bname.trim_end_matches(char::is_numeric), where_key(ex, l));
                        let what = format!("{kind} {dir} of {bname} in {}", ex.p.loc(l));
                        report(ex, out, key, what, &[bad], &nolines);
                    }
                    None => { out.oblige(false); out.inconclusive.push(format!("{name}: bounds of {bname} unknown")); }
                }
            }
        }
        for (o, off, len, w, l) in st.racc.clone() {
            let Obj::Buf(b) = &st.mem[o as usize] else { continue };
            let (blen, bname) = (b.len, b.name.clone());
            ex.c.set_env(&st.env);
            let e = ex.c.add(off, len);
            let over = ex.c.lt(blen, e);
            let u = ex.c.addk(off, 1);
            let u = ex.c.le0(u);
            let bad = ex.c.or(&[over, u]);
            let one = ex.c.one;
            let nz = ex.c.le(one, len);
            match impossible(ex, st, &[bad, nz]) {
                Some(true) => out.oblige(true),
                Some(false) => { let key = format!("transfer outside of {} in {}", bname.trim_end_matches(char::is_numeric), where_key(ex, l)); report(ex, out, key, format!("{} {bname} outside of it in {}", if w { "writes" } else { "reads" }, ex.p.loc(l)), &[bad, nz], &nolines); }
                None => { out.oblige(false); out.inconclusive.push(format!("{name}: bounds of {bname} unknown")); }
            }
        }
    }
    if chk.accept { accept(ex, out, sc, call, st, ret, &name, &report)?; }
    if !(chk.writes || chk.values || chk.perm || chk.grey) { return Ok(()); }
    let cn = canon(ex, st, call)?;
    let (st, call) = match &cn { Some((s, c)) => (s, c), None => (st, call) };
    if chk.writes && (ex.c.konst(call.w).is_none() || ex.c.konst(call.h).is_none()) { some_writes(ex, out, sc, call, st, ret, &name, &report)?; }
    else if chk.writes && !cut { writes(ex, out, sc, call, st, ret, &name, &report)?; }
    if !(chk.values || chk.perm || chk.grey) { return Ok(()); }
    if !cut && ex.c.konst(call.w).is_some() && ex.c.konst(call.h).is_some() { values(ex, out, cx, sc, call, st, ret, &name, chk, &report)?; }
    else { some_values(ex, out, sc, call, st, &name, chk, &report)?; }
    Ok(())
}

/// Value the C interface stored through its error pointer
pub fn c_error(ex: &mut Ex, st: &State, call: &Call) -> Result<Option<i128>, String> {
    let Some(e) = call.err else { return Ok(None) };
    let Obj::Small(b) = &st.mem[e as usize] else { return Ok(None) };
    let b = b.clone();
    if b.iter().any(|x| matches!(x, V::Undef)) { return Ok(None); }
    let v = ex.from_bytes(&crate::ir::Type::Int(32), &b).map_err(|e| format!("{e:?}"))?;
    Ok(ret_int(ex, &v))
}

type Report<'r> = dyn Fn(&mut Ex, &mut JobOut, String, String, &[B], &dyn Fn(&Ex, &Model) -> Vec<String>) + 'r;

/// Requirements on the lengths of the buffers: conjunction of these
pub fn requirements(ex: &mut Ex, sc: &Scn, call: &Call) -> Vec<B> {
    let mut v = vec![];
    for (im, sy) in [(&sc.src, &call.src), (&sc.dst, &call.dst)] {
        let n = im.np as usize;
        if im.nbuf < n || (im.mode != Mode::Absent && im.nstr < n) { v.push(FALSE); continue; }
        for p in &sy.planes {
            let need = need(&mut ex.c, p);
            let ok = ex.c.le(need, sy.lens[p.buf]);
            let one = ex.c.one;
            let (r0, n0) = (ex.c.lt(p.row, one), ex.c.lt(p.rows, one));
            let b = ex.c.or(&[ok, r0, n0]);
            v.push(b);
        }
    }
    v
}

fn accept(ex: &mut Ex, out: &mut JobOut, sc: &Scn, call: &Call, st: &State, ret: i128, name: &str, report: &Report) -> Result<(), String> {
    ex.c.set_env(&st.env);
    let z = ex.c.zero;
    let (w0, h0) = (ex.c.eq(call.w, z), ex.c.eq(call.h, z));
    let empty = ex.c.or(&[w0, h0]);
    let req = requirements(ex, sc, call);
    // widths and heights that the formats allow
    let mut odd = vec![];
    for pf in [sc.src.pf, sc.dst.pf] {
        let (a, b) = dims_mult(pf);
        for (x, k) in [(call.w, a), (call.h, b)] { if k == 2 { let q = ex.c.div(x, 1); let q = ex.c.scale(q, 2); let e = ex.c.eq(q, x); odd.push(ex.c.not(e)); } }
    }
    let odd = ex.c.or(&odd);
    if ret == 1 && odd != FALSE {
        let even = ex.c.not(odd);
        match impossible(ex, st, &[even]) {
            Some(true) => out.oblige(true),
            Some(false) => report(ex, out, format!("rejects a size: {}", conv_key(sc)), "returns InvalidValue for a size that the formats allow".into(), &[even], &|_, _| vec!["expect=ret 0 3".into()]),
            None => { out.oblige(false); out.inconclusive.push(format!("{name}: size rules unknown")); }
        }
        return Ok(());
    }
    if odd != FALSE {
        match impossible(ex, st, &[odd]) {
            Some(true) => out.oblige(true),
            Some(false) => report(ex, out, format!("takes an odd size: {}", conv_key(sc)), format!("returns {} for a size that the formats do not allow", err_name(ret)), &[odd], &|_, _| vec!["expect=ret 1".into()]),
            None => { out.oblige(false); out.inconclusive.push(format!("{name}: size rules unknown")); }
        }
    }
    match ret {
        0 => for (i, r) in req.iter().enumerate() {
            let nr = ex.c.not(*r);
            let ne = ex.c.not(empty);
            match impossible(ex, st, &[nr, ne]) {
                Some(true) => out.oblige(true),
                Some(false) => report(ex, out, format!("accepts a short buffer: {}", conv_key(sc)), format!("succeeds although requirement {i} on the buffers does not hold"), &[nr, ne], &|_, _| vec!["expect=ret 3".into()]),
                None => { out.oblige(false); out.inconclusive.push(format!("{name}: acceptance unknown")); }
            }
        },
        3 => {
            // rows that overlap are left to the implementation
            let mut all = req.clone();
            for pl in call.src.planes.iter().chain(&call.dst.planes) { let b = ex.c.le(pl.row, pl.stride); all.push(b); }
            let all = ex.c.and(&all);
            // an image without pixels needs no bytes, but has planes
            let missing = req.contains(&FALSE);
            let b = if missing { all } else { ex.c.or(&[all, empty]) };
            match impossible(ex, st, &[b]) {
                Some(true) => out.oblige(true),
                Some(false) => report(ex, out, format!("rejects a sufficient buffer: {}", conv_key(sc)), "fails although every buffer is large enough".into(), &[b], &|_, _| vec!["expect=ret 0".into()]),
                None => { out.oblige(false); out.inconclusive.push(format!("{name}: rejection unknown")); }
            }
        }
        _ => report(ex, out, format!("unexpected result {}: {}", err_name(ret), conv_key(sc)), format!("returns {} for a valid conversion", err_name(ret)), &[], &|_, _| vec!["expect=ret 0 3".into()]),
    }
    Ok(())
}

pub fn conv_key(sc: &Scn) -> String { format!("{} {} to {}", SET_NAME[sc.set as usize], PF_NAME[sc.src.pf as usize], PF_NAME[sc.dst.pf as usize]) }

/// Exactly the bytes of the image are written
fn writes(ex: &mut Ex, out: &mut JobOut, sc: &Scn, call: &Call, st: &State, ret: i128, name: &str, report: &Report) -> Result<(), String> {
    // images that are read stay as they are
    for o in &call.src.objs {
        let Obj::Buf(b) = &st.mem[*o as usize] else { continue };
        if b.writes.is_empty() && b.ranges.is_empty() { out.oblige(true); } else { report(ex, out, format!("writes to the source: {}", conv_key(sc)), "writes to the source image".into(), &[], &|_, _| vec!["expect=ret 99".into()]); }
    }
    let empty = ex.c.konst(call.w) == Some(0) || ex.c.konst(call.h) == Some(0);
    if ret != 0 || empty {
        for o in &call.dst.objs {
            let Obj::Buf(b) = &st.mem[*o as usize] else { continue };
            let b = b.clone();
            if b.writes.is_empty() && b.ranges.is_empty() { out.oblige(true); continue; }
            report(ex, out, format!("writes although it fails: {}", conv_key(sc)), "writes to the destination although nothing is converted".into(), &[], &|_, _| vec!["expect=nowrites".into()]);
        }
        return Ok(());
    }
    for p in call.dst.planes.clone() {
        let Obj::Buf(b) = &st.mem[p.obj as usize] else { return Err("plane without a buffer".into()) };
        let b = b.clone();
        if !b.ranges.is_empty() { return Err("writes of symbolic length".into()); }
        let (Some(row), Some(rows)) = (ex.c.konst(p.row), ex.c.konst(p.rows)) else { return Err("symbolic dimensions".into()) };
        // intervals by homogeneous part
        let mut g: BTreeMap<T, Vec<i128>> = BTreeMap::new();
        for t in b.writes.keys() { let (c, v) = ex.c.parts(*t); let h = ex.c.sum(0, v); g.entry(h).or_default().push(c); }
        let contiguous = ex.c.as_const(p.stride).is_some();
        let mut starts = vec![];
        for y in 0..rows { let t = ex.c.scale(p.stride, y); starts.push(ex.c.add(p.start, t)); }
        let mut covered = vec![vec![false; row as usize]; rows as usize];
        let mut by_start: HashMap<T, usize> = HashMap::new();
        for (y, s) in starts.iter().enumerate() { let (c, v) = ex.c.parts(*s); if c == 0 || contiguous { let h = ex.c.sum(0, v); by_start.entry(h).or_insert(y); } }
        for (h, mut cs) in g {
            cs.sort();
            cs.dedup();
            let mut stray: Option<i128> = None;
            for c in cs {
                // the row this byte belongs to, when that is plain
                let hit = if contiguous {
                    let k = ex.c.as_const(p.stride).unwrap();
                    let s0 = ex.c.as_const(p.start).unwrap_or(0);
                    let d = c - s0;
                    if ex.c.as_const(h) == Some(0) && d >= 0 { let (y, x) = if k > 0 { (d / k, d % k) } else { (0, d) }; if y < rows && x < row { Some((y as usize, x as usize)) } else { None } } else { None }
                } else { by_start.get(&h).filter(|_| c >= 0 && c < row).map(|y| (*y, c as usize)) };
                match hit { Some((y, x)) => covered[y][x] = true, None => if stray.is_none() { stray = Some(c) } }
            }
            match stray {
                None => out.oblige(true),
                Some(c) => {
                    ex.c.set_env(&st.env);
                    let t = ex.c.addk(h, c);
                    let mut conds = vec![];
                    for s in &starts {
                        let lo = ex.c.lt(t, *s);
                        let e = ex.c.addk(*s, row);
                        let hi = ex.c.le(e, t);
                        conds.push(ex.c.or(&[lo, hi]));
                    }
                    match impossible(ex, st, &conds) {
                        Some(true) => out.oblige(true),
                        Some(false) => report(ex, out, format!("writes outside of the rows: {}", conv_key(sc)), format!("writes to {} outside of the pixels", b.name), &conds, &|ex, m| { let o = ex.c.eval(t, m, &mut HashMap::new()); vec![format!("expect=untouched {} {o}", p.buf)] }),
                        None => { out.oblige(false); out.inconclusive.push(format!("{name}: stray write unknown")); }
                    }
                }
            }
        }
        for (y, r) in covered.iter().enumerate() {
            match r.iter().position(|x| !*x) {
                None => out.oblige(true),
                Some(x) => {
                    ex.c.set_env(&st.env);
                    let t = ex.c.addk(starts[y], x as i128);
                    let mut conds = vec![];
                    for k in b.writes.keys() { let e = ex.c.eq(t, *k); if e == FALSE { continue; } conds.push(ex.c.not(e)); }
                    match impossible(ex, st, &conds) {
                        Some(true) => out.oblige(true),
                        Some(false) => report(ex, out, format!("pixels not written: {}", conv_key(sc)), format!("byte {x} of row {y} of plane {} is not written", p.buf), &conds, &|ex, m| { let o = ex.c.eval(t, m, &mut HashMap::new()); vec![format!("expect=written {} {o}", p.buf)] }),
                        None => { out.oblige(false); out.inconclusive.push(format!("{name}: missing write unknown")); }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Images of any size: what has been written is inside of the rows
fn some_writes(ex: &mut Ex, out: &mut JobOut, sc: &Scn, call: &Call, st: &State, ret: i128, name: &str, report: &Report) -> Result<(), String> {
    if ret != 0 { return writes(ex, out, sc, call, st, ret, name, report); }
    let empty = std::rc::Rc::new(Env::default());
    for o in &call.src.objs {
        let Obj::Buf(b) = &st.mem[*o as usize] else { continue };
        if b.writes.is_empty() && b.ranges.is_empty() { out.oblige(true); } else { report(ex, out, format!("writes to the source: {}", conv_key(sc)), "writes to the source image".into(), &[], &|_, _| vec!["expect=ret 99".into()]); }
    }
    for obj in call.dst.objs.clone() {
        let Obj::Buf(b) = &st.mem[obj as usize] else { continue };
        let b = b.clone();
        if !b.ranges.is_empty() { return Err("writes of symbolic length".into()); }
        let planes: Vec<Plane> = call.dst.planes.iter().filter(|p| p.obj == obj).cloned().collect();
        let mut keys: Vec<T> = b.writes.keys().copied().collect();
        keys.sort();
        // by what the offset is apart from its constant: (plane, row) and the range of constants
        let mut g: BTreeMap<T, (i128, i128)> = BTreeMap::new();
        for at in keys { let (c, v) = ex.c.parts(at); let h = ex.c.sum(0, v); let e = g.entry(h).or_insert((c, c)); e.0 = e.0.min(c); e.1 = e.1.max(c); }
        for (h, (lo, hi)) in g {
            let mut left = vec![];
            for c in [lo, hi] {
                ex.c.set_env(&st.env);
                let at = ex.c.addk(h, c);
                // all that can tell it from the bytes of the rows
                let mut found = false;
                'planes: for p in &planes {
                    for y in 0..6 {
                        ex.c.set_env(&empty);
                        let t = ex.c.scale(p.stride, y);
                        let t = ex.c.add(t, p.start);
                        let d = ex.c.sub(at, t);
                        let ss: Vec<u32> = ex.c.collect_syms(&[], &[p.stride]);
                        if !ss.is_empty() && ex.c.collect_syms(&[], &[d]).iter().any(|x| ss.contains(x)) { continue; }
                        ex.c.set_env(&st.env);
                        let under = ex.c.addk(d, 1);
                        let under = ex.c.le0(under);
                        let over = ex.c.le(p.row, d);
                        let yk = ex.c.k(y);
                        let below = ex.c.le(p.rows, yk);
                        if [under, over, below].iter().all(|b| impossible(ex, st, &[*b]) == Some(true)) { found = true; break 'planes; }
                    }
                }
                if found { out.oblige(true); if lo == hi { break; } } else { left.push(at); }
            }
            for at in left {
                // not plain: a counterexample has to show it
                ex.c.set_env(&st.env);
                let mut conds = vec![];
                for p in &planes {
                    for y in 0..6 {
                        let t = ex.c.scale(p.stride, y);
                        let s = ex.c.add(t, p.start);
                        let lo = ex.c.lt(at, s);
                        let e = ex.c.add(s, p.row);
                        let hi = ex.c.le(e, at);
                        let yk = ex.c.k(y);
                        let off = ex.c.le(p.rows, yk);
                        conds.push(ex.c.or(&[lo, hi, off]));
                    }
                    let six = ex.c.k(6);
                    conds.push(ex.c.le(p.rows, six));
                }
                match impossible(ex, st, &conds) {
                    Some(true) => out.oblige(true),
                    Some(false) => { let pb = planes[0].buf; report(ex, out, format!("writes outside of the rows: {}", conv_key(sc)), format!("writes to {} outside of the pixels", b.name), &conds, &|ex, m| { let o = ex.c.eval(at, m, &mut HashMap::new()); vec![format!("expect=untouched {pb} {o}")] }) }
                    None => out.reach("write of any size without a plain position"),
                }
            }
        }
    }
    Ok(())
}

/// Conditions under which no write has hit the byte `at`; None when that cannot be
pub fn not_written(ex: &mut Ex, st: &State, at: T, b: &Buf) -> Option<Vec<B>> {
    ex.c.set_env(&st.env);
    let mut conds = vec![];
    for k in b.writes.keys() { let e = ex.c.eq(at, *k); if e == FALSE { continue; } conds.push(ex.c.not(e)); }
    if impossible(ex, st, &conds) == Some(false) { Some(conds) } else { None }
}

/// The value of one byte: plane, column and row of the byte, height of the image. False: enough has been found
fn check_value(ex: &mut Ex, out: &mut JobOut, sc: &Scn, call: &Call, st: &State, name: &str, chk: Chk, report: &Report, pos: (usize, i128, i128, i128), at: T, got: T) -> Result<bool, String> {
    let empty = std::rc::Rc::new(Env::default());
    let (x, y) = (pos.1, pos.2);
    for sp in expected(ex, sc, call, pos.0, x, y, pos.3, chk) {
        let bad = sp.violated(ex, got);
        ex.c.set_env(&empty);
        let bad = ex.c.simp(bad);
        if bad == FALSE { out.oblige(true); continue; }
        let mut q = vec![bad];
        q.extend(sp.given.iter().copied());
        match ex.smt.check(&mut ex.c, &empty, &q) {
            Sat::Unsat => out.oblige(true),
            Sat::Unknown => { out.oblige(false); out.inconclusive.push(format!("{name}: value of byte {x} of row {y} of plane {} unknown", pos.0)); }
            Sat::Sat(_) if !st.env.cons.is_empty() && impossible(ex, st, &q) == Some(true) => out.oblige(true),
            Sat::Sat(_) => {
                let chan = sp.label.clone();
                report(ex, out, format!("wrong {chan}: {} {}", conv_key(sc), CS_NAME[sc.src.cs.max(sc.dst.cs) as usize]), format!("byte {x} of row {y} of plane {} ({chan}) has the wrong value", pos.0), &q, &|ex, m| {
                    let o = ex.c.eval(at, m, &mut HashMap::new());
                    let (lo, hi) = sp.interval(ex, m);
                    vec![format!("expect=byte {} {o} {lo} {hi}", pos.0)]
                });
                if out.viols.len() >= 4 { return Ok(false); }
            }
        }
    }
    Ok(true)
}

/// Images of any size: column and row of a byte of a destination plane, and a height that tells luma from chroma
pub fn plain(ex: &mut Ex, sc: &Scn, call: &Call, p: &Plane, at: T) -> Option<(i128, i128, i128)> {
    const FAR: i128 = 1 << 40;
    let empty = std::rc::Rc::new(Env::default());
    ex.c.set_env(&empty);
    let below = if sc.dst.pf == NV12 && sc.dst.np == 1 { Some(ex.c.mul(p.stride, call.h)) } else { None };
    for (first, h) in [(Some(ex.c.zero), FAR), (below, 0)] {
        let Some(first) = first else { continue };
        for y in 0..4 {
            let t = ex.c.scale(p.stride, y);
            let t = ex.c.add(t, first);
            let d = ex.c.sub(at, t);
            let Some(x) = ex.c.as_const(d) else { continue };
            if x < 0 || x >= 1 << 16 { continue; }
            // strides of a fixed length: the row this byte belongs to
            let (x, y) = match ex.c.as_const(p.stride) { Some(k) if k > 0 => (x % k, y + x / k), _ => (x, y) };
            if ex.c.as_const(p.row).map_or(false, |r| x >= r) { continue; }
            return Some((x, y, h));
        }
    }
    None
}

/// Images of any size: the bytes whose column and row are plain
fn some_values(ex: &mut Ex, out: &mut JobOut, sc: &Scn, call: &Call, st: &State, name: &str, chk: Chk, report: &Report) -> Result<(), String> {
    let mut n = 0i128;
    for p in call.dst.planes.clone() {
        let Obj::Buf(b) = &st.mem[p.obj as usize] else { return Err("plane without a buffer".into()) };
        let b = b.clone();
        let mut keys: Vec<T> = b.writes.keys().copied().collect();
        keys.sort();
        for at in keys {
            let Some((x, y, h)) = plain(ex, sc, call, &p, at) else { out.reach("bytes of any size without a plain position"); continue };
            let got = ex.int(&b.writes[&at]).map_err(|e| format!("{e:?}"))?;
            n += 1;
            if !check_value(ex, out, sc, call, st, name, chk, report, (p.buf, x, y, h), at, got)? { return Ok(()); }
        }
    }
    let e = out.maxima.entry("values checked on a path of any size".into()).or_insert(0);
    *e = (*e).max(n);
    Ok(())
}

/// Values of the destination bytes
fn values(ex: &mut Ex, out: &mut JobOut, cx: &Cx, sc: &Scn, call: &Call, st: &State, ret: i128, name: &str, chk: Chk, report: &Report) -> Result<(), String> {
    if ret != 0 { return Err(format!("returns {}", err_name(ret))); }
    let (Some(w), Some(h)) = (ex.c.konst(call.w), ex.c.konst(call.h)) else { return Err("symbolic dimensions".into()) };
    if w == 0 || h == 0 { return Ok(()); }
    let mut trace: Vec<(usize, T, T)> = vec![];
    for p in call.dst.planes.clone() {
        let Obj::Buf(b) = &st.mem[p.obj as usize] else { return Err("plane without a buffer".into()) };
        let b = b.clone();
        let (Some(row), Some(rows)) = (ex.c.konst(p.row), ex.c.konst(p.rows)) else { return Err("symbolic dimensions".into()) };
        let ends = !ex.dull.is_empty();
        for y in 0..rows {
            if ends && y + 4 < rows && !(y + 4 >= h && y < h) { continue; }
            let ry = ex.c.scale(p.stride, y);
            let ry = ex.c.add(p.start, ry);
            for x in if ends { (row - 110).max(0) } else { 0 }..row {
                let at = ex.c.addk(ry, x);
                let Some(v) = b.writes.get(&at) else {
                    let Some(conds) = not_written(ex, st, at, &b) else { return Err(format!("byte {x} of row {y} of plane {} has several names", p.buf)) };
                    report(ex, out, format!("pixels not written: {}", conv_key(sc)), format!("byte {x} of row {y} of plane {} is not written", p.buf), &conds, &|ex, m| { let o = ex.c.eval(at, m, &mut HashMap::new()); vec![format!("expect=written {} {o}", p.buf)] });
                    return Ok(());
                };
                let got = ex.int(v).map_err(|e| format!("{e:?}"))?;
                trace.push((p.buf, at, got));
                if !check_value(ex, out, sc, call, st, name, chk, report, (p.buf, x, y, h), at, got)? { return Ok(()); }
            }
        }
    }
    // what the encoding predicts for some pixels
    let sizes = sizes_of(call);
    if let Some(mut m) = model(ex, st, &[], &sizes) {
        let mut x = cx.seed ^ (w as u64) << 32 ^ (h as u64) << 20 ^ (sc.src.pf as u64) << 8 ^ (sc.dst.pf as u64) << 4 ^ sc.set as u64;
        let pix: Vec<T> = { let mut v: Vec<((u32, T), T)> = ex.pix.iter().map(|(k, v)| (*k, *v)).collect(); v.sort(); v.into_iter().map(|x| x.1).collect() };
        let mut memo = HashMap::new();
        let mut seen: HashMap<(u32, i128), i128> = HashMap::new();
        for t in pix { if let Node::Sym(s) = ex.c.nodes[t as usize] {
            let (o, off) = ex.c.syms[s as usize].pix.unwrap_or((0, t));
            let a = ex.c.eval(off, &m, &mut memo);
            if let Some(v) = seen.get(&(o, a)) { m.insert(s, *v); continue; }
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let v = (x >> 33) & 0x3FF;
            let v = if v < 64 { 0 } else if v < 128 { 255 } else { (v & 255) as i128 };
            m.insert(s, v);
            seen.insert((o, a), v);
        } }
        let mut memo = HashMap::new();
        let mut l: Vec<String> = vec!["expect=ret 0".into()];
        for (b, at, got) in trace { let (o, g) = (ex.c.eval(at, &m, &mut memo), ex.c.eval(got, &m, &mut memo)); l.push(format!("expect=byte {b} {o} {g} {g}")); }
        let text = case_of(ex, sc, call, &m, &l);
        if out.sample.is_none() { out.sample = Some(format!("{name}: {}", text.lines().take(12).collect::<Vec<_>>().join("; "))); }
        out.traces.push((bin_of(sc), text));
    }
    Ok(())
}

/// Very large images: only the pixels at the ends of the last rows are symbols
pub fn dull(ex: &mut Ex, sc: &Scn, call: &Call) {
    let (Some(w), Some(h)) = (sc.w, sc.h) else { return };
    if w.max(h) <= 1 << 15 || sc.src.mode != Mode::Absent { return; }
    for p in &call.src.planes {
        let (Some(stride), Some(rows)) = (ex.c.as_const(p.stride), ex.c.as_const(p.rows)) else { continue };
        ex.dull.insert(p.obj, (stride, stride - 512, vec![(rows - 4, rows), (h as i128 - 4, h as i128)]));
    }
}

/// The job that explores one scenario and checks the obligations at the end of every path
pub fn conv_job(sc: Scn, chk: Chk, ovf: bool) -> Job {
    let name = format!("{}{}", sc.name(), if ovf { " (overflow checks)" } else { "" });
    Job {
        name: name.clone(),
        run: Box::new(move |cx, smt, out| {
            let p = if ovf { cx.progs.ovf.as_ref().ok_or("no checked build")? } else { &cx.progs.rel };
            with_ex(p, cx, smt, out, |ex, out| {
                ex.opaque = !(chk.values || chk.grey || chk.perm);
                if sc.w.is_none() || sc.h.is_none() { ex.cutoff = Some(1); }
                let (st, call) = setup(ex, &sc);
                if !ex.opaque { dull(ex, &sc, &call); }
                let mut traced = 0u32;
                ex.run(st, &mut |ex, st, end| {
                    at_end(ex, out, cx, &sc, &call, &st, &end, chk, ovf)?;
                    // the outcome of the path, for the real code to confirm
                    if ex.opaque && !ovf && !sc.c_api {
                        if let End::Ret(v) = &end {
                            let r = ret_int(ex, v).unwrap_or(-1);
                            if traced & 1 << r == 0 {
                                traced |= 1 << r;
                                let sizes = sizes_of(&call);
                                if let Some(m) = model(ex, &st, &[], &sizes[2..]) {
                                    let mut memo = HashMap::new();
                                    if sizes.iter().all(|t| ex.c.eval(*t, &m, &mut memo) < 1 << 22) || r != 0 {
                                        let t = case_of(ex, &sc, &call, &m, &[format!("expect=ret {r}")]);
                                        if out.sample.is_none() { out.sample = Some(format!("{name}: {}", t.lines().collect::<Vec<_>>().join("; "))); }
                                        out.traces.push((bin_of(&sc), t));
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                })
            })
        }),
    }
}
