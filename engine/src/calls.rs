//! Jobs that relate several calls, or check calls other than a single conversion.
use crate::drive::*;
use crate::exec::*;
use crate::ir::Type;
use crate::props::*;
use crate::scen::*;
use crate::smt::Sat;
use crate::term::*;
use std::collections::HashMap;
use std::fmt::Write as _;

pub type Rep = Result<(), String>;

/// The set that conversions use on this machine
pub fn host_set() -> u32 {
    let v = std::arch::x86_64::__cpuid(0);
    let amd = v.ebx == 0x6874_7541 || v.ebx == 0x6944_4d41;
    if !amd && std::arch::is_x86_feature_detected!("avx2") { 2 } else { 1 }
}

/// One end of a path: state and result (0..3)
pub struct Path { pub st: State, pub ret: i128, pub end: End }

/// Runs to the end, collecting the paths that return. Others are given to `bad`
pub fn paths_of(ex: &mut Ex, st: State, c_err: Option<&Call>) -> Result<Vec<Path>, String> {
    let mut v = vec![];
    ex.run(st, &mut |ex, st, end| {
        let ret = match &end {
            End::Ret(x) => {
                let r = ret_int(ex, x).ok_or("result is not determined on a path")?;
                match c_err { Some(call) => if r == 0 { 0 } else { 1 + c_error(ex, &st, call)?.unwrap_or(98) }, None => r }
            }
            End::Panic(..) => 90,
            End::Ub(..) => 91,
            End::Cut(..) => 92,
        };
        v.push(Path { st, ret, end });
        Ok(())
    })?;
    Ok(v)
}
pub fn outcome(ex: &Ex, p: &Path) -> String {
    match &p.end { End::Cut(l) => format!("loop not followed in {}", ex.p.loc(*l)), End::Ret(_) => err_name(p.ret).to_string(), End::Panic(s, l) => format!("panic {s} in {}", ex.p.loc(*l)), End::Ub(s, l) => format!("{s} in {}", ex.p.loc(*l)) }
}

/// Reports that `bad` (with the path) is possible
pub struct Rp<'a> { pub name: &'a str, pub sizes: Vec<T>, pub bin: Bin }
/// Values out of an enumeration that are also far from it show in the real code what nearby ones may hide
fn far(ex: &mut Ex, st: &State, t: T) -> Vec<B> { ex.c.set_env(&st.env); let k = ex.c.k(1 << 31); let b = ex.c.le(k, t); if b == FALSE { vec![] } else { vec![b] } }
impl Rp<'_> {
    pub fn viol(&self, ex: &mut Ex, out: &mut JobOut, st: &State, bad: &[B], key: String, what: String, case: &dyn Fn(&Ex, &Model) -> String) {
        out.obligations += 1;
        if out.viols.len() >= 3 { ex.deadline = Some(std::time::Instant::now()); return; }
        match model(ex, st, bad, &self.sizes) {
            Some(m) => out.viols.push(Viol { key, what: format!("{}: {what}", self.name), case: case(ex, &m), bin: self.bin, soft: false }),
            None => out.inconclusive.push(format!("{}: no model for: {what}", self.name)),
        }
    }
    /// `bad` cannot hold on this path
    pub fn never(&self, ex: &mut Ex, out: &mut JobOut, st: &State, bad: &[B], key: String, what: String, case: &dyn Fn(&Ex, &Model) -> String) {
        match impossible(ex, st, bad) {
            Some(true) => out.oblige(true),
            Some(false) => self.viol(ex, out, st, bad, key, what, case),
            None => { out.oblige(false); out.inconclusive.push(format!("{}: {what}: unknown", self.name)); }
        }
    }
}

/// Compares two integers byte by byte under a path
fn same_value(ex: &mut Ex, st: &State, a: &V, b: &V) -> Result<Option<B>, String> {
    if a == b { return Ok(None); }
    let (x, y) = (ex.int(a).map_err(|e| format!("{e:?}"))?, ex.int(b).map_err(|e| format!("{e:?}"))?);
    if x == y { return Ok(None); }
    ex.c.set_env(&st.env);
    let e = ex.c.eq(x, y);
    let n = ex.c.not(e);
    Ok(if n == FALSE { None } else { Some(n) })
}

/// The bytes written to the destination are the same in both states. `report` gets the offending condition
pub fn same_writes(ex: &mut Ex, out: &mut JobOut, st: &State, a: (&State, &[u32]), b: (&State, &[u32]), name: &str, report: &mut dyn FnMut(&mut Ex, &mut JobOut, &[B], String)) -> Rep {
    let mut cn = Canon::new(ex, st);
    for (k, (oa, ob)) in a.1.iter().zip(b.1).enumerate() {
        let (Obj::Buf(x), Obj::Buf(y)) = (&a.0.mem[*oa as usize], &b.0.mem[*ob as usize]) else { return Err("destination is not a buffer".into()) };
        let (mut x, mut y) = (x.clone(), y.clone());
        if let Some(cn) = &mut cn { x = std::rc::Rc::new(cn.buf(ex, &x)?); y = std::rc::Rc::new(cn.buf(ex, &y)?); }
        if !x.ranges.is_empty() || !y.ranges.is_empty() { return Err("writes of symbolic length".into()); }
        let mut keys: Vec<T> = x.writes.keys().chain(y.writes.keys()).copied().collect();
        keys.sort();
        keys.dedup();
        let mut bad = 0;
        for t in keys {
            match (x.writes.get(&t), y.writes.get(&t)) {
                (Some(V::Opq), Some(V::Opq)) => out.oblige(true),
                (Some(v), Some(w)) => match same_value(ex, st, v, w)? {
                    None => out.oblige(true),
                    Some(n) => {
                        let e = st.env.clone();
                        match impossible(ex, st, &[n]) {
                            Some(true) => out.oblige(true),
                            Some(false) => { bad += 1; let s = ex.c.show(t); report(ex, out, &[n], format!("byte {s} of buffer {k} differs")); }
                            None => { out.oblige(false); out.inconclusive.push(format!("{name}: equality of a byte unknown")); }
                        }
                        ex.c.set_env(&e);
                    }
                },
                (v, _) => {
                    let other = if v.is_some() { &y } else { &x };
                    let Some(conds) = not_written(ex, st, t, other) else { return Err(format!("a byte of buffer {k} has several names")) };
                    bad += 1;
                    let s = ex.c.show(t);
                    report(ex, out, &conds, format!("byte {s} of buffer {k} is written by one only"));
                }
            }
            if bad >= 2 { return Ok(()); }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- P08
/// The three instruction sets return and write the same
pub fn sets_job(sc: Scn, values: bool) -> Job {
    let name = format!("sets {}", &sc.name());
    Job { name: name.clone(), run: Box::new(move |cx, smt, out| with_ex(cx.prog()?, cx, smt, out, |ex, out| {
        ex.opaque = !values;
        let mut sc = sc.clone();
        sc.set = 0;
        let (st0, call) = setup(ex, &sc);
        if values { dull(ex, &sc, &call); }
        let sizes = sizes_of(&call);
        let base = paths_of(ex, st0.clone(), None)?;
        for a in &base {
            out.reach(&format!("returns {}", outcome(ex, a).split(' ').next().unwrap_or("")));
            for set in 1..3 {
                ex.cpu = Cpu::Set(set);
                let mut s = st0.clone();
                s.env = a.st.env.clone();
                let other = Scn { set, ..sc.clone() };
                let r = Rp { name: &other.name(), sizes: sizes.clone(), bin: Bin::Sets };
                let key = format!("{} differs from x86: {}", SET_NAME[set as usize], conv_key(&other));
                for b in paths_of(ex, s, None)? {
                    if a.ret != b.ret {
                        let w = format!("x86: {}, {}: {}", outcome(ex, a), SET_NAME[set as usize], outcome(ex, &b));
                        r.viol(ex, out, &b.st, &[], key.clone(), w, &|ex, m| case_of(ex, &other, &call, m, &["expect=same x86".into()]));
                        continue;
                    }
                    out.oblige(true);
                    if a.ret != 0 || !values { continue; }
                    same_writes(ex, out, &b.st, (&a.st, &call.dst.objs), (&b.st, &call.dst.objs), &name, &mut |ex, out, bad, w| {
                        r.viol(ex, out, &b.st, bad, key.clone(), w, &|ex, m| case_of(ex, &other, &call, m, &["expect=same x86".into()]));
                    })?;
                }
            }
        }
        Ok(())
    })) }
}

// ---------------------------------------------------------------------- P09
/// Is the image malformed? None: the documentation and the tests disagree
fn malformed(ex: &mut Ex, pf: u32, cs: u32, np: T, w: T, h: T) -> B {
    if is_rgb(pf) != (cs == 0) { return TRUE; }
    let mut v = vec![];
    let (dw, dh) = dims_mult(pf);
    let z = ex.c.zero;
    for (m, t) in [(dw, w), (dh, h)] { if m == 2 { let r = ex.c.wrap(t, 1); let e = ex.c.eq(r, z); v.push(ex.c.not(e)); } }
    let ok: Vec<i128> = match pf { NV12 => vec![1, 2], x if is_rgb(x) => vec![1], _ => vec![3] };
    let ok: Vec<B> = ok.into_iter().map(|k| { let k = ex.c.k(k); ex.c.eq(np, k) }).collect();
    let ok = ex.c.or(&ok);
    v.push(ex.c.not(ok));
    ex.c.or(&v)
}

pub fn rules_jobs() -> Vec<Job> {
    let mut jobs = vec![];
    let supported: std::collections::HashSet<(u32, u32, u32, u32)> = conversions().into_iter().collect();
    for set in 0..3u32 {
        for spf in 0..9u32 {
            for scs in 0..5u32 {
                // the dispatch tables depend on the instruction set, the validation does not
                if set > 0 && is_rgb(spf) != (scs == 0) { continue; }
                let supported = supported.clone();
                let name = format!("{}: {} {} to any", SET_NAME[set as usize], PF_NAME[spf as usize], CS_NAME[scs as usize]);
                jobs.push(Job { name: name.clone(), run: Box::new(move |cx, smt, out| {
                    for dpf in 0..9u32 {
                        for dcs in 0..5u32 {
                            if set > 0 && is_rgb(dpf) != (dcs == 0) { continue; }
                            with_ex(cx.prog()?, cx, smt, out, |ex, out| rules(ex, out, set, (spf, scs, None), (dpf, dcs, None), supported.contains(&(spf, scs, dpf, dcs)), &name))?;
                        }
                    }
                    Ok(())
                }) });
            }
        }
    }
    jobs
}

fn rules(ex: &mut Ex, out: &mut JobOut, set: u32, s: (u32, u32, Option<u32>), d: (u32, u32, Option<u32>), supported: bool, name: &str) -> Rep {
    ex.cpu = Cpu::Set(set);
    let mut st = ex.state();
    let (w, h) = (ex.c.sym("w", 0, p2(32) - 1, true), ex.c.sym("h", 0, p2(32) - 1, true));
    let np = |ex: &mut Ex, n: Option<u32>, t: &str| match n { Some(k) => ex.c.k(k as i128), None => ex.c.sym(t, 0, p2(32) - 1, true) };
    let (sn, dn) = (np(ex, s.2, "src_planes"), np(ex, d.2, "dst_planes"));
    let e = ex.alloc(&mut st, vec![]);
    let nul = V::P(0, ex.c.zero);
    let emp = V::P(e, ex.c.zero);
    let k = |ex: &mut Ex, x: u32| ex.kint(x as u128);
    let z = k(ex, 0);
    let args = vec![V::I(w), V::I(h), k(ex, s.0), k(ex, s.1), V::I(sn), nul.clone(), z.clone(), emp.clone(), z.clone(), k(ex, d.0), k(ex, d.1), V::I(dn), nul, z.clone(), emp, z];
    let f = ex.p.func("h_convert").ok_or("no entry")?;
    ex.call(&mut st, f, args, None).map_err(|e| format!("{e:?}"))?;
    // one plane of I422: documented as valid, refused by the library and its tests
    let (a, b) = (malformed(ex, s.0, s.1, sn, w, h), malformed(ex, d.0, d.1, dn, w, h));
    let bad = ex.c.or(&[a, b]);
    let mut excl = vec![];
    for (pf, n) in [(s.0, sn), (d.0, dn)] { if pf == I422 { let o = ex.c.one; let e = ex.c.eq(n, o); excl.push(ex.c.not(e)); } }
    let r = Rp { name, sizes: vec![w, h], bin: Bin::Sets };
    let case = |want: &str| { let want = want.to_string(); move |ex: &Ex, m: &Model| {
        let mut mm = HashMap::new();
        let mut ev = |t: T| ex.c.eval(t, m, &mut mm);
        format!("api=convert\nset={}\nw={}\nh={}\nsrc={},{},{}\nsrc_strides=none\nsrc_lens=\ndst={},{},{}\ndst_strides=none\ndst_lens=\nexpect=ret {want}\n", SET_NAME[set as usize], ev(w), ev(h), s.0, s.1, ev(sn), d.0, d.1, ev(dn))
    } };
    let what = format!("{} {} to {} {}", PF_NAME[s.0 as usize], CS_NAME[s.1 as usize], PF_NAME[d.0 as usize], CS_NAME[d.1 as usize]);
    for p in paths_of(ex, st, None)? {
        let o = outcome(ex, &p);
        out.reach(&format!("returns {}", o.split(' ').next().unwrap_or("")));
        ex.c.set_env(&p.st.env);
        let good = ex.c.not(bad);
        let with = |b: B| { let mut v = excl.clone(); v.push(b); v };
        let want = if supported { "0 3" } else { "2" };
        if p.ret != 1 { r.never(ex, out, &p.st, &with(bad), format!("malformed image not reported: {what}"), format!("{o} for a malformed image, {what}"), &case("1")); }
        if p.ret == 1 || (p.ret == 2) == supported || p.ret > 3 { r.never(ex, out, &p.st, &with(good), format!("wrong result {o}: {what}"), format!("{o} for {what}"), &case(want)); }
    }
    Ok(())
}

// ---------------------------------------------------------------------- P10
pub struct SizeCase { pub pf: u32, pub cs: u32, pub np: Option<u32>, pub strides: Option<usize>, pub sizes: usize }
impl SizeCase {
    pub fn name(&self) -> String {
        format!("{} {} planes {} strides {} sizes {}", PF_NAME[self.pf as usize], CS_NAME[self.cs as usize], self.np.map_or("5..".into(), |k| k.to_string()), self.strides.map_or("none".into(), |k| k.to_string()), self.sizes)
    }
}
pub fn size_cases() -> Vec<SizeCase> {
    let mut v = vec![];
    for pf in 0..9 {
        let mut nps: Vec<Option<u32>> = vec![Some(0), Some(1), Some(2), Some(3), Some(4)];
        nps.push(None);
        for np in nps {
            for strides in [None, Some(0), Some(1), Some(2), Some(3), Some(4)] {
                for sizes in 0..5 { v.push(SizeCase { pf, cs: if is_rgb(pf) { 0 } else { 1 + pf % 4 }, np, strides, sizes }); }
            }
        }
    }
    v
}

pub struct SizeCall { pub w: T, pub h: T, pub np: T, pub strides: Vec<T>, pub sizes: Vec<T>, pub out: u32, pub ideal: Option<Vec<T>> }

/// Enters get_buffers_size
pub fn enter_size(ex: &mut Ex, st: &mut State, k: &SizeCase, given: Option<(T, T, Vec<T>)>) -> SizeCall {
    let (w, h, strides) = match given {
        Some(g) => g,
        None => {
            let (w, h) = (ex.c.sym("w", 0, p2(32) - 1, true), ex.c.sym("h", 0, p2(32) - 1, true));
            let s = (0..k.strides.unwrap_or(0)).map(|i| ex.c.sym(&format!("stride{i}"), 0, USIZE, true)).collect();
            (w, h, s)
        }
    };
    let np = match k.np { Some(n) => ex.c.k(n as i128), None => ex.c.sym("planes", 5, p2(32) - 1, true) };
    let sizes: Vec<T> = (0..k.sizes).map(|i| ex.c.k(7_000_001 + i as i128)).collect();
    let mut b = vec![];
    for t in &sizes { let _ = ex.to_bytes(&Type::Int(64), &V::I(*t), &mut b); }
    let o = ex.alloc(st, b);
    let sp = if k.strides.is_none() { V::P(0, ex.c.zero) } else {
        let mut b = vec![];
        for t in &strides { let _ = ex.to_bytes(&Type::Int(64), &V::I(*t), &mut b); }
        let o = ex.alloc(st, b);
        V::P(o, ex.c.zero)
    };
    let kk = |ex: &mut Ex, x: usize| ex.kint(x as u128);
    let args = vec![V::I(w), V::I(h), kk(ex, k.pf as usize), kk(ex, k.cs as usize), V::I(np), sp, kk(ex, k.strides.unwrap_or(0)), V::P(o, ex.c.zero), kk(ex, k.sizes)];
    let f = ex.p.func("h_size").expect("entry");
    ex.call(st, f, args, None).map_err(|e| format!("{e:?}")).unwrap();
    let ideal = k.np.filter(|n| planes_ok(k.pf, *n)).map(|n| ideal_sizes(ex, k.pf, n, w, h, if k.strides.is_some() { Some(&strides) } else { None }));
    SizeCall { w, h, np, strides, sizes, out: o, ideal }
}

pub fn ideal_sizes(ex: &mut Ex, pf: u32, np: u32, w: T, h: T, strides: Option<&[T]>) -> Vec<T> {
    (0..np as usize).map(|i| {
        let (row, rows) = plane_dims(&mut ex.c, pf, np, i, w, h);
        let s = match strides.and_then(|s| s.get(i)) { Some(t) => { let z = ex.c.zero; let e = ex.c.eq(*t, z); ex.c.ite(e, row, *t) } None => row };
        ex.c.mul(s, rows)
    }).collect()
}
pub fn read_usizes(ex: &mut Ex, st: &State, o: u32) -> Result<Vec<T>, String> {
    let Obj::Small(b) = &st.mem[o as usize] else { return Err("sizes".into()) };
    let b = b.clone();
    let mut v = vec![];
    for ch in b.chunks(8) { let x = ex.from_bytes(&Type::Int(64), ch).map_err(|e| format!("{e:?}"))?; v.push(ex.int(&x).map_err(|e| format!("{e:?}"))?); }
    Ok(v)
}

fn size_text(ex: &Ex, k: &SizeCase, c: &SizeCall, m: &Model, api: &str, lines: &[String]) -> String {
    let mut mm = HashMap::new();
    let mut ev = |t: T| ex.c.eval(t, m, &mut mm);
    let mut s = format!("api={api}\nset=x86\nw={}\nh={}\nsrc={},{},{}\n", ev(c.w), ev(c.h), k.pf, k.cs, ev(c.np));
    if k.strides.is_none() { s.push_str("src_strides=none\n"); } else { let _ = writeln!(s, "src_strides={}", list(c.strides.iter().map(|t| ev(*t)))); }
    let _ = writeln!(s, "sizes={}", list(c.sizes.iter().map(|t| ev(*t))));
    for l in lines { let _ = writeln!(s, "{l}"); }
    s
}

/// get_buffers_size: exact, and nothing else but the documented errors. With `panics`: only that it does not panic
pub fn size_job(k: SizeCase, panics: bool) -> Job {
    let name = format!("sizes {}", k.name());
    Job { name: name.clone(), run: Box::new(move |cx, smt, out| {
        with_ex(cx.prog()?, cx, smt, out, |ex, out| {
            ex.cpu = Cpu::Set(0);
            let mut st = ex.state();
            let c = enter_size(ex, &mut st, &k, None);
            let r = Rp { name: &name, sizes: [vec![c.w, c.h], c.strides.clone()].concat(), bin: Bin::Default };
            let what = format!("{} with {} planes", PF_NAME[k.pf as usize], k.np.map_or("many".into(), |n| n.to_string()));
            let case = |lines: Vec<String>| { let (k, c) = (&k, &c); move |ex: &Ex, m: &Model| size_text(ex, k, c, m, "size", &lines) };
            for p in paths_of(ex, st, None)? {
                let o = outcome(ex, &p);
                out.reach(&format!("returns {}", o.split(' ').next().unwrap_or("")));
                if p.ret > 3 { r.viol(ex, out, &p.st, &[], format!("{what}: panic"), o, &case(vec![])); continue; }
                if panics { out.oblige(true); continue; }
                if k.pf == I422 && k.np == Some(1) { continue; }
                ex.c.set_env(&p.st.env);
                let bad = malformed(ex, k.pf, k.cs, c.np, c.w, c.h);
                let good = ex.c.not(bad);
                if p.ret != 1 { r.never(ex, out, &p.st, &[bad], format!("{what}: malformed image accepted"), format!("{o} for a malformed image"), &case(vec!["expect=ret 1".into()])); }
                match p.ret {
                    1 => r.never(ex, out, &p.st, &[good], format!("{what}: refused"), "InvalidValue for a valid image".into(), &case(vec!["expect=ret 0 3".into()])),
                    2 => r.viol(ex, out, &p.st, &[], format!("{what}: invalid operation"), o.clone(), &case(vec!["expect=ret 0 1 3".into()])),
                    _ => {}
                }
                let short = k.np.map_or(true, |n| k.strides.map_or(false, |s| s < n as usize) || k.sizes < n as usize);
                let Some(ideal) = &c.ideal else { continue };
                let max = ex.c.k(USIZE);
                let mut over = vec![];
                for t in ideal { over.push(ex.c.lt(max, *t)); }
                let over = ex.c.or(&over);
                if p.ret == 3 && !short {
                    let n = ex.c.not(over);
                    r.never(ex, out, &p.st, &[good, n], format!("{what}: size refused"), "NotEnoughData although the arrays suffice and the sizes fit".into(), &case(vec!["expect=ret 0".into()]));
                }
                if p.ret == 0 {
                    if short { r.viol(ex, out, &p.st, &[good], format!("{what}: short array accepted"), "succeeds although an array is too short".into(), &case(vec!["expect=ret 3".into()])); continue; }
                    r.never(ex, out, &p.st, &[good, over], format!("{what}: overflow"), "succeeds although a size does not fit".into(), &case(vec!["expect=ret 3".into()]));
                    let got = read_usizes(ex, &p.st, c.out)?;
                    for (i, g) in got.iter().enumerate() {
                        ex.c.set_env(&p.st.env);
                        let want = ideal.get(i).copied().unwrap_or(c.sizes[i]);
                        let e = ex.c.eq(*g, want);
                        let n = ex.c.not(e);
                        let (k, c) = (&k, &c);
                        r.never(ex, out, &p.st, &[good, n], format!("{what}: wrong size"), format!("size of plane {i} is wrong"), &|ex: &Ex, m: &Model| { let v = ex.c.eval(want, m, &mut HashMap::new()); size_text(ex, k, c, m, "size", &[format!("expect=size {i} {v}")]) });
                    }
                }
                if let Some(m) = model(ex, &p.st, &[], &[c.w, c.h]) { let t = case(vec![format!("expect=ret {}", p.ret)])(ex, &m); if out.sample.is_none() { out.sample = Some(t.replace('\n', "; ")); } out.traces.push((Bin::Default, t)); }
            }
            Ok(())
        })
    }) }
}

// ---------------------------------------------------------------------- P11
/// Sizes from get_buffers_size are accepted by the conversion
pub fn enough_job(sc: Scn) -> Job {
    let name = format!("queried sizes {}", sc.name());
    Job { name: name.clone(), run: Box::new(move |cx, smt, out| with_ex(cx.prog()?, cx, smt, out, |ex, out| {
        ex.opaque = true;
        ex.cpu = Cpu::Set(sc.set);
        let st = ex.state();
        if sc.w.is_none() || sc.h.is_none() { ex.cutoff = Some(1); }
        let dim = |ex: &mut Ex, n: &str, v: Option<u32>| match v { Some(k) => ex.c.k(k as i128), None => ex.c.sym(n, 0, p2(32) - 1, true) };
        let (w, h) = (dim(ex, "w", sc.w), dim(ex, "h", sc.h));
        // strides, shared by the queries and the conversion
        let mut st = st;
        let mut layout = vec![];
        for im in [&sc.src, &sc.dst] {
            let mut v = vec![];
            for i in 0..im.nstr {
                if im.mode == Mode::Absent { break; }
                let (row, _) = plane_dims(&mut ex.c, im.pf, im.np, i, w, h);
                let t = ex.c.sym(&format!("stride{i}"), 0, USIZE, true);
                // automatic, or not shorter than a row
                if im.mode == Mode::Zero { v.push(ex.c.zero); continue; }
                let (z, c1) = (ex.c.zero, ex.c.le(row, t));
                let c0 = ex.c.eq(t, z);
                let b = if im.mode == Mode::Wide { c1 } else { ex.c.or(&[c0, c1]) };
                st.env = ex.c.assume(&st.env, b);
                v.push(t);
            }
            layout.push(v);
        }
        let k = |im: &Img| SizeCase { pf: im.pf, cs: im.cs, np: Some(im.np), strides: if im.mode == Mode::Absent { None } else { Some(im.np as usize) }, sizes: im.np as usize };
        let (ks, kd) = (k(&sc.src), k(&sc.dst));
        let s1 = enter_size(ex, &mut st, &ks, Some((w, h, layout[0].clone())));
        for a in paths_of(ex, st, None)? {
            if a.ret != 0 { continue; }
            let mut st = a.st;
            let ssz = read_usizes(ex, &st, s1.out)?;
            let s2 = enter_size(ex, &mut st, &kd, Some((w, h, layout[1].clone())));
            for b in paths_of(ex, st, None)? {
                if b.ret != 0 { continue; }
                let mut st = b.st;
                let dsz = read_usizes(ex, &st, s2.out)?;
                for t in ssz.iter().chain(&dsz) { let m = ex.c.k(ISIZE); let c = ex.c.le(*t, m); st.env = ex.c.assume(&st.env, c); }
                if st.env.infeasible { continue; }
                let g = |l: &[T], s: &[T]| Given { lens: Some(l.to_vec()), objs: None, strides: Some(s.to_vec()) };
                let call = enter(ex, &mut st, &sc, Some((w, h)), &g(&ssz, &layout[0]), &g(&dsz, &layout[1]));
                let r = Rp { name: &name, sizes: sizes_of(&call), bin: Bin::Sets };
                for p in paths_of(ex, st, None)? {
                    let o = outcome(ex, &p);
                    out.reach(&format!("conversion returns {}", o.split(' ').next().unwrap_or("")));
                    // what happens in the loops is the subject of other properties
                    if p.ret == 0 || p.ret == 92 { out.oblige(true); continue; }
                    r.viol(ex, out, &p.st, &[], format!("queried sizes refused: {}", conv_key(&sc)), format!("{o} with buffers of the queried sizes"), &|ex, m| case_of(ex, &sc, &call, m, &["expect=ret 0".into()]));
                }
            }
        }
        Ok(())
    })) }
}

// ---------------------------------------------------------------------- P12
/// The C conversion does what the Rust conversion does
pub fn c_equal_job(sc: Scn, values: bool) -> Job {
    let name = format!("c equals rust {}", sc.name());
    Job { name: name.clone(), run: Box::new(move |cx, smt, out| with_ex(cx.prog()?, cx, smt, out, |ex, out| {
        ex.opaque = !values;
        // the C call first: buffers of exactly the bytes that the layout takes
        let cc = Scn { c_api: true, src: sc.src.clone().exact(), dst: sc.dst.clone().exact(), ..sc.clone() };
        let (st, call) = setup(ex, &cc);
        let r = Rp { name: &name, sizes: sizes_of(&call), bin: Bin::Default };
        let key = format!("c interface: {}", conv_key(&sc));
        for a in paths_of(ex, st, Some(&call))? {
            let o = outcome(ex, &a);
            out.reach(&format!("c returns {}", o.split(' ').next().unwrap_or("")));
            if a.ret > 3 { r.viol(ex, out, &a.st, &[], key.clone(), o, &|ex, m| case_of(ex, &cc, &call, m, &["expect=same_api convert".into()])); continue; }
            let end = End::Ret(V::I(ex.c.zero));
            let fake = if let End::Ret(v) = &a.end { End::Ret(v.clone()) } else { end };
            at_end(ex, out, cx, &cc, &call, &a.st, &fake, Chk { mem: true, ..Chk::default() }, false)?;
            // the Rust call from the same path, on its own destination
            let mut st = a.st.clone();
            let mut gs = Given::again(&call.src);
            let mut gd = Given::layout(&call.dst);
            // the C interface knows no lengths
            let inf = ex.c.k(ISIZE);
            gs.lens = Some(vec![inf; call.src.lens.len()]);
            gd.lens = Some(vec![inf; call.dst.lens.len()]);
            let rcall = enter(ex, &mut st, &Scn { c_api: false, ..sc.clone() }, Some((call.w, call.h)), &gs, &gd);
            for b in paths_of(ex, st, None)? {
                if a.ret != b.ret {
                    let w = format!("c: {}, rust: {}", outcome(ex, &a), outcome(ex, &b));
                    r.viol(ex, out, &b.st, &[], key.clone(), w, &|ex, m| case_of(ex, &cc, &call, m, &["expect=same_api convert".into()]));
                    continue;
                }
                out.oblige(true);
                if !values { continue; }
                same_writes(ex, out, &b.st, (&a.st, &call.dst.objs), (&b.st, &rcall.dst.objs), &name, &mut |ex, out, bad, w| {
                    r.viol(ex, out, &b.st, bad, key.clone(), w, &|ex, m| case_of(ex, &cc, &call, m, &["expect=same_api convert".into()]));
                })?;
            }
        }
        Ok(())
    })) }
}

/// What is wrong with the arguments of a C call
#[derive(Clone, Debug, PartialEq)]
pub enum Wrong { Null(&'static str), Pf(bool), Cs(bool), Np(bool), Nothing }

/// C conversion with bad arguments: InvalidValue, the error stored if wanted, no image access
pub fn c_bad_job(s: (u32, u32, u32), d: (u32, u32, u32), wrong: Wrong, err_null: bool) -> Job {
    let name = format!("c arguments {}({}) to {}({}): {wrong:?}{}", PF_NAME[s.0 as usize], s.2, PF_NAME[d.0 as usize], d.2, if err_null { ", no error pointer" } else { "" });
    Job { name: name.clone(), run: Box::new(move |cx, smt, out| with_ex(cx.prog()?, cx, smt, out, |ex, out| {
        ex.cpu = Cpu::Set(host_set());
        ex.opaque = true;
        let mut st = ex.state();
        let (w, h) = (ex.c.sym("w", 0, p2(32) - 1, true), ex.c.sym("h", 0, p2(32) - 1, true));
        let one = ex.c.one;
        let mut objs = vec![];
        let mut fields: Vec<[T; 3]> = vec![];
        let mut ptrs = vec![];
        let is = |n: String| matches!(&wrong, Wrong::Null(x) if *x == n);
        for (tag, im, src) in [("src", s, true), ("dst", d, false)] {
            let mut v = [im.0, im.1, im.2].map(|x| ex.c.k(x as i128));
            // every value outside of the enumeration, as a 32-bit integer
            match &wrong {
                Wrong::Pf(x) if *x == src => v[0] = ex.c.sym("pixel_format", 9, p2(32) - 1, true),
                Wrong::Cs(x) if *x == src => v[1] = ex.c.sym("color_space", 5, p2(32) - 1, true),
                Wrong::Np(x) if *x == src => {
                    v[2] = if im.0 == NV12 { ex.c.k(if im.2 == 1 { 3 } else { 0 }) } else {
                        let t = ex.c.sym("planes", 0, p2(32) - 1, true);
                        let k = ex.c.k(im.2 as i128);
                        let e = ex.c.eq(t, k);
                        let n = ex.c.not(e);
                        st.env = ex.c.assume(&st.env, n);
                        t
                    };
                }
                _ => {}
            }
            fields.push(v);
            let mut b = vec![];
            for t in v { let _ = ex.to_bytes(&Type::Int(32), &V::I(t), &mut b); }
            let f = ex.alloc(&mut st, b);
            let mut b = vec![];
            for i in 0..im.2 as usize {
                let o = ex.alloc_buf(&mut st, &format!("{tag}{i}"), one, src);
                objs.push(o);
                let p = if is(format!("{tag}{i}")) { V::P(0, ex.c.zero) } else { V::P(o, ex.c.zero) };
                let _ = ex.to_bytes(&Type::Ptr, &p, &mut b);
            }
            let bo = ex.alloc(&mut st, b);
            let z = ex.c.zero;
            ptrs.push(if is(format!("{tag}_format")) { V::P(0, z) } else { V::P(f, z) });
            ptrs.push(V::P(0, z));
            ptrs.push(if is(format!("{tag}_buffers")) { V::P(0, z) } else { V::P(bo, z) });
        }
        let e = ex.alloc(&mut st, vec![V::Undef; 4]);
        ptrs.push(V::P(if err_null { 0 } else { e }, ex.c.zero));
        let mut args = vec![V::I(w), V::I(h)];
        args.extend(ptrs);
        let f = ex.p.func("h_c_convert").ok_or("no entry")?;
        ex.call(&mut st, f, args, None).map_err(|e| format!("{e:?}"))?;
        let r = Rp { name: &name, sizes: vec![w, h], bin: Bin::Default };
        let mut null = vec![];
        if let Wrong::Null(n) = &wrong { null.push(n.to_string()); }
        if err_null { null.push("error".into()); }
        let case = |ex: &Ex, m: &Model| {
            let mut mm = HashMap::new();
            let mut ev = |t: T| ex.c.eval(t, m, &mut mm) as u32 as i32 as i128;
            let f: Vec<[i128; 3]> = fields.iter().map(|v| [ev(v[0]), ev(v[1]), ev(v[2])]).collect();
            let mut mm = HashMap::new();
            let mut s2 = format!("api=cconvert\nw={}\nh={}\nsrc={},{},{}\nsrc_strides=none\nsrc_lens={}\n", ex.c.eval(w, m, &mut mm), ex.c.eval(h, m, &mut mm), f[0][0], f[0][1], f[0][2], list((0..s.2).map(|_| 0)));
            let _ = writeln!(s2, "dst={},{},{}\ndst_strides=none\ndst_lens={}\nnull={}\nexpect=ret 1", f[1][0], f[1][1], f[1][2], list((0..d.2).map(|_| 0)), null.join(","));
            if !err_null { s2.push_str("expect=err 0\n"); }
            s2
        };
        let mut n = 0;
        ex.run(st, &mut |ex, st, end| {
            n += 1;
            let End::Ret(v) = &end else {
                let o = match &end { End::Panic(s, l) => format!("panics: {s} in {}", ex.p.loc(*l)), End::Ub(s, l) => format!("{s} in {}", ex.p.loc(*l)), _ => String::new() };
                let hint = match &wrong { Wrong::Pf(x) => far(ex, &st, fields[!*x as usize][0]), Wrong::Cs(x) => far(ex, &st, fields[!*x as usize][1]), _ => vec![] };
                r.viol(ex, out, &st, &hint, format!("c arguments: {wrong:?}"), o, &case);
                return Ok(());
            };
            let ret = ret_int(ex, v).ok_or("result is not determined")?;
            let stored = { let Obj::Small(b) = &st.mem[e as usize] else { return Err("error".into()) }; let b = b.clone(); if b.iter().all(|x| matches!(x, V::Undef)) { None } else { let v = ex.from_bytes(&Type::Int(32), &b).map_err(|e| format!("{e:?}"))?; ret_int(ex, &v) } };
            out.reach(&format!("returns {ret}, error {stored:?}"));
            if ret != 1 || stored != (if err_null { None } else { Some(0) }) {
                r.viol(ex, out, &st, &[], format!("c arguments: {wrong:?}"), format!("returns {ret} and stores {stored:?}"), &case);
            } else { out.oblige(true); }
            let touched = st.acc.keys().any(|k| objs.contains(&k.0)) || st.racc.iter().any(|k| objs.contains(&k.0));
            if touched { r.viol(ex, out, &st, &[], format!("c arguments: {wrong:?} image access"), "accesses the images".into(), &case); } else { out.oblige(true); }
            Ok(())
        })?;
        if n == 0 { return Err("no path".into()); }
        Ok(())
    })) }
}

/// dcp_get_buffers_size: as get_buffers_size, or InvalidValue for bad arguments
pub fn c_size_job(pf: Option<u32>, np: Option<u32>, strides: bool, null: Vec<&'static str>) -> Job {
    let name = format!("c sizes {} planes {} strides {strides} null {null:?}", pf.map_or("invalid format".into(), |p| PF_NAME[p as usize].to_string()), np.map_or("any".into(), |n| n.to_string()));
    Job { name: name.clone(), run: Box::new(move |cx, smt, out| with_ex(cx.prog()?, cx, smt, out, |ex, out| {
        ex.cpu = Cpu::Set(host_set());
        let mut st = ex.state();
        let (w, h) = (ex.c.sym("w", 0, p2(32) - 1, true), ex.c.sym("h", 0, p2(32) - 1, true));
        let pft = match pf { Some(p) => ex.c.k(p as i128), None => ex.c.sym("pixel_format", 9, p2(32) - 1, true) };
        let npt = match np { Some(p) => ex.c.k(p as i128), None => ex.c.sym("planes", 4, p2(32) - 1, true) };
        let cs = pf.map_or(0, |p| if is_rgb(p) { 0 } else { 1 });
        let valid = pf.map_or(false, |p| np.map_or(false, |n| planes_ok(p, n)));
        let n = np.unwrap_or(3).min(3) as usize;
        let mut b = vec![];
        let cst = ex.c.k(cs as i128);
        for t in [pft, cst, npt] { let _ = ex.to_bytes(&Type::Int(32), &V::I(t), &mut b); }
        let f = ex.alloc(&mut st, b);
        let sv: Vec<T> = (0..n).map(|i| ex.c.sym(&format!("stride{i}"), 0, USIZE, true)).collect();
        let mut b = vec![];
        for t in &sv { let _ = ex.to_bytes(&Type::Int(64), &V::I(*t), &mut b); }
        let so = ex.alloc(&mut st, b);
        let init: Vec<T> = (0..n).map(|i| ex.c.k(7_000_001 + i as i128)).collect();
        let mut b = vec![];
        for t in &init { let _ = ex.to_bytes(&Type::Int(64), &V::I(*t), &mut b); }
        let oo = ex.alloc(&mut st, b);
        let e = ex.alloc(&mut st, vec![V::Undef; 4]);
        let z = ex.c.zero;
        let p = |o: u32, n: &str| if null.contains(&n) { V::P(0, z) } else { V::P(o, z) };
        let args = vec![V::I(w), V::I(h), p(f, "src_format"), if strides { V::P(so, z) } else { V::P(0, z) }, p(oo, "sizes"), p(e, "error")];
        let fi = ex.p.func("h_c_size").ok_or("no entry")?;
        ex.call(&mut st, fi, args, None).map_err(|e| format!("{e:?}"))?;
        let mut sizes = vec![w, h];
        sizes.extend(&sv);
        let r = Rp { name: &name, sizes, bin: Bin::Default };
        let key = format!("c sizes {}", pf.map_or("invalid format", |p| PF_NAME[p as usize]));
        let text = |lines: Vec<String>| { let (sv, init, null) = (&sv, &init, &null); move |ex: &Ex, m: &Model| {
            let mut mm = HashMap::new();
            let mut ev = |t: T| ex.c.eval(t, m, &mut mm);
            let i32s = |x: i128| x as u32 as i32;
            let mut s = format!("api=csize\nw={}\nh={}\nsrc={},{cs},{}\n", ev(w), ev(h), i32s(ev(pft)), i32s(ev(npt)));
            if strides { let _ = writeln!(s, "src_strides={}", list(sv.iter().map(|t| ev(*t)))); } else { s.push_str("src_strides=none\n"); }
            let _ = writeln!(s, "sizes={}\nnull={}", list(init.iter().map(|t| ev(*t))), null.join(","));
            for l in &lines { let _ = writeln!(s, "{l}"); }
            s
        } };
        let bad_args = !valid || null.contains(&"src_format") || null.contains(&"sizes");
        ex.run(st, &mut |ex, st, end| {
            let End::Ret(v) = &end else {
                let o = match &end { End::Panic(s, l) => format!("panics: {s} in {}", ex.p.loc(*l)), End::Ub(s, l) => format!("{s} in {}", ex.p.loc(*l)), _ => String::new() };
                let hint = if pf.is_none() { far(ex, &st, pft) } else { vec![] };
                r.viol(ex, out, &st, &hint, key.clone(), o, &text(if bad_args { vec!["expect=ret 1".into()] } else { vec![] }));
                return Ok(());
            };
            let ret = ret_int(ex, v).ok_or("result is not determined")?;
            let stored = { let Obj::Small(b) = &st.mem[e as usize] else { return Err("error".into()) }; let b = b.clone(); if b.iter().all(|x| matches!(x, V::Undef)) { None } else { let v = ex.from_bytes(&Type::Int(32), &b).map_err(|e| format!("{e:?}"))?; ret_int(ex, &v) } };
            out.reach(&format!("returns {ret}, error {stored:?}"));
            let err_null = null.contains(&"error");
            if ret == 0 && stored.is_some() || ret == 1 && (stored.is_none() != err_null) { r.viol(ex, out, &st, &[], key.clone(), format!("returns {ret} and stores {stored:?}"), &text(vec![format!("expect=err {}", if ret == 0 { 77 } else { 0 })])); return Ok(()); }
            if bad_args {
                if ret != 1 || (!err_null && stored != Some(0)) { let mut l = vec!["expect=ret 1".to_string()]; if !err_null { l.push("expect=err 0".into()); } r.viol(ex, out, &st, &[], key.clone(), format!("returns {ret} and stores {stored:?}"), &text(l)); } else { out.oblige(true); }
                return Ok(());
            }
            // the Rust function on the same path
            let k = SizeCase { pf: pf.unwrap(), cs, np, strides: if strides { Some(n) } else { None }, sizes: n };
            let mut s2 = st.clone();
            let c = enter_size(ex, &mut s2, &k, Some((w, h, sv.clone())));
            for b in paths_of(ex, s2, None)? {
                let cr = if ret == 0 { 0 } else if err_null { b.ret.max(1) } else { 1 + stored.unwrap_or(98) };
                if cr != b.ret { r.viol(ex, out, &b.st, &[], key.clone(), format!("returns {cr}, the Rust function {}", b.ret), &text(vec!["expect=same_api size".into()])); continue; }
                out.oblige(true);
                if b.ret != 0 { continue; }
                let (x, y) = (read_usizes(ex, &b.st, oo)?, read_usizes(ex, &b.st, c.out)?);
                for (p, q) in x.into_iter().zip(y) {
                    ex.c.set_env(&b.st.env);
                    let e = ex.c.eq(p, q);
                    let ne = ex.c.not(e);
                    r.never(ex, out, &b.st, &[ne], key.clone(), "sizes differ from the Rust function".into(), &text(vec!["expect=same_api size".into()]));
                }
            }
            Ok(())
        })
    })) }
}

// ---------------------------------------------------------------------- P15
/// A second call of the same conversion, after others, writes the same and leaves no state behind
pub fn again_job(sc: Scn, between: Vec<Scn>) -> Job {
    let name = format!("again {} after {}", sc.name(), between.iter().map(|s| s.name()).collect::<Vec<_>>().join(", "));
    Job { name: name.clone(), run: Box::new(move |cx, smt, out| with_ex(cx.prog()?, cx, smt, out, |ex, out| {
        let (st, call) = setup(ex, &sc);
        let sizes = sizes_of(&call);
        let r = Rp { name: &name, sizes, bin: Bin::Sets };
        let key = format!("outcome depends on earlier calls: {}", conv_key(&sc));
        for a in paths_of(ex, st, None)? {
            out.reach(&format!("first call: {}", outcome(ex, &a).split(' ').next().unwrap_or("")));
            let mut fronts: Vec<(State, Vec<(Scn, Call)>)> = vec![(a.st.clone(), vec![])];
            for b in &between {
                let mut next = vec![];
                for (mut st, hist) in fronts {
                    st.gwrite.clear();
                    let c2 = enter(ex, &mut st, b, None, &Given::default(), &Given::default());
                    ex.opaque = b.src.mode != Mode::Absent;
                    let ps = paths_of(ex, st, None);
                    ex.opaque = false;
                    for p in ps? {
                        out.reach(&format!("call between: {}", outcome(ex, &p).split(' ').next().unwrap_or("")));
                        let mut h = hist.clone();
                        h.push((b.clone(), c2.clone()));
                        next.push((p.st, h));
                    }
                }
                fronts = next;
            }
            for (st, hist) in fronts {
                let mut st = st;
                // the second call of the same: same source memory, a destination of its own
                let c3 = enter(ex, &mut st, &sc, Some((call.w, call.h)), &Given::again(&call.src), &Given::layout(&call.dst));
                st.gwrite.clear();
                let case = |ex: &Ex, m: &Model| {
                    let mut t = case_of(ex, &sc, &call, m, &[]);
                    for (s, c) in &hist { t.push_str("then\n"); t.push_str(&case_of(ex, s, c, m, &[])); }
                    t.push_str("then\n");
                    t.push_str(&case_of(ex, &sc, &call, m, &["expect=alone".into()]));
                    t
                };
                for b in paths_of(ex, st, None)? {
                    if b.ret != a.ret { let w = format!("first {}, then {}", outcome(ex, &a), outcome(ex, &b)); r.viol(ex, out, &b.st, &[], key.clone(), w, &case); continue; }
                    out.oblige(true);
                    same_writes(ex, out, &b.st, (&a.st, &call.dst.objs), (&b.st, &c3.dst.objs), &name, &mut |ex, out, bad, w| r.viol(ex, out, &b.st, bad, key.clone(), w, &case))?;
                    *out.maxima.entry("mutable globals written after initialisation".into()).or_insert(0) += 0;
                    let n = b.st.gwrite.len() as i128;
                    let e = out.maxima.entry("mutable globals written by a later call".into()).or_insert(0);
                    *e = (*e).max(n);
                }
            }
        }
        Ok(())
    })) }
}

/// Every image a call may name, with a valid number of planes
fn images() -> Vec<(u32, u32, u32)> {
    let mut v = vec![];
    for pf in 0..9u32 { for cs in 0..5u32 { for np in 1..4u32 { if planes_ok(pf, np) { v.push((pf, cs, np)); } } } }
    v
}

/// No call leaves anything behind once the library is initialised; or, if one does, no other call can tell
pub fn state_jobs() -> Vec<Job> {
    let mut v = vec![];
    for set in 0..3u32 {
        for s in images() {
            // what is not supported does not depend on the instruction set
            if set != host_set() && is_rgb(s.0) != (s.1 == 0) { continue; }
            v.push(state_job(set, Some(s), 0));
        }
    }
    for pf in 0..9 { v.push(state_job(host_set(), None, pf)); }
    v
}

fn small(set: u32, s: (u32, u32, u32), d: (u32, u32, u32), fit: bool) -> Scn {
    let im = |(p, c, n): (u32, u32, u32)| { let i = Img::new(p, c, n, Mode::Absent); if fit { i.exact() } else { i } };
    Scn { set, w: Some(2), h: Some(2), src: im(s), dst: im(d), c_api: false }
}

fn state_job(set: u32, s: Option<(u32, u32, u32)>, size_pf: u32) -> Job {
    let name = match s { Some(s) => format!("state after {} {}{} {} to any", SET_NAME[set as usize], PF_NAME[s.0 as usize], s.2, CS_NAME[s.1 as usize]), None => format!("state after the size of {}", PF_NAME[size_pf as usize]) };
    Job { name: name.clone(), run: Box::new(move |cx, smt, out| {
        let supported: std::collections::HashSet<(u32, u32, u32, u32)> = conversions().into_iter().collect();
        let all = images();
        let firsts: Vec<Option<(u32, u32, u32)>> = if s.is_some() { all.iter().copied().map(Some).collect() } else { vec![None] };
        let mut left = 0u64;
        for d in firsts {
            if let (Some(s), Some(d)) = (s, d) { if set != host_set() && !supported.contains(&(s.0, s.1, d.0, d.1)) { continue; } }
            with_ex(cx.prog()?, cx, smt, out, |ex, out| -> Rep {
                ex.cpu = Cpu::Set(set);
                // initialise with a call that converts nothing
                let mut st = ex.state();
                let sc0 = small(set, (BGRA, 0, 1), (BGRA, 0, 1), false);
                let c0 = enter(ex, &mut st, &sc0, None, &Given::default(), &Given::default());
                ex.opaque = true;
                let mut base: Vec<State> = paths_of(ex, st, None)?.into_iter().map(|p| p.st).collect();
                let Some(mut st0) = base.pop() else { return Err("no state after initialisation".into()) };
                st0.gwrite.clear();
                let mut st = st0.clone();
                let mut size_ret = None;
                let mut first: Option<(Scn, Call)> = None;
                if let (Some(s), Some(d)) = (s, d) {
                    let sc = small(set, s, d, false);
                    let c = enter(ex, &mut st, &sc, None, &Given::default(), &Given::default());
                    first = Some((sc, c));
                } else {
                    let k = SizeCase { pf: size_pf, cs: 1, np: Some(planes_of(size_pf)), strides: None, sizes: 3 };
                    size_ret = Some(enter_size(ex, &mut st, &k, None));
                }
                let _ = size_ret;
                for a in paths_of(ex, st, None)? {
                    out.reach(&format!("call: {}", outcome(ex, &a).split(' ').next().unwrap_or("")));
                    if a.st.gwrite.is_empty() { out.oblige(true); continue; }
                    // something was written: can any call tell?
                    left += 1;
                    out.reach("calls that leave something behind");
                    let Some((sc1, c1)) = &first else { continue };
                    for x in &all {
                        for y in &all {
                            let sup = supported.contains(&(x.0, x.1, y.0, y.1));
                            let ok = supported.contains(&(sc1.src.pf, sc1.src.cs, sc1.dst.pf, sc1.dst.cs));
                            if !sup && !ok { continue; }
                            ex.opaque = !sup;
                            let sc = small(set, *x, *y, true);
                            let mut s1 = a.st.clone();
                            let c = enter(ex, &mut s1, &sc, None, &Given::default(), &Given::default());
                            // the same call in a process without the first one
                            let mut s2 = s1.clone();
                            for i in 0..st0.mem.len() { s2.mem[i] = st0.mem[i].clone(); }
                            let key = format!("outcome depends on earlier calls: {} after {}", conv_key(&sc), conv_key(sc1));
                            let case = |ex: &Ex, m: &Model| {
                                let mut t = case_of(ex, &sc0, &c0, m, &[]);
                                t.push_str("then\n");
                                t.push_str(&case_of(ex, sc1, c1, m, &[]));
                                t.push_str("then\n");
                                t.push_str(&case_of(ex, &sc, &c, m, &["expect=alone".into()]));
                                t
                            };
                            let r = Rp { name: &name, sizes: [sizes_of(&c0), sizes_of(c1), sizes_of(&c)].concat(), bin: Bin::Sets };
                            let p2s = paths_of(ex, s2, None)?;
                            for p in paths_of(ex, s1, None)? {
                                for q in &p2s {
                                    // paths of the two that go together
                                    let mut env = p.st.env.clone();
                                    for b in q.st.env.cons.iter() { env = ex.c.assume(&env, *b); }
                                    if env.infeasible { continue; }
                                    let mut j = p.st.clone();
                                    j.env = env;
                                    if p.ret != q.ret { let w = format!("{} after {}, otherwise {}", outcome(ex, &p), conv_key(sc1), outcome(ex, q)); r.viol(ex, out, &j, &[], key.clone(), w, &case); continue; }
                                    out.oblige(true);
                                    same_writes(ex, out, &j, (&q.st, &c.dst.objs), (&p.st, &c.dst.objs), &name, &mut |ex, out, bad, w| r.viol(ex, out, &j, bad, key.clone(), w, &case))?;
                                }
                            }
                            if out.viols.len() >= 3 { return Ok(()); }
                        }
                    }
                }
                Ok(())
            })?;
            if out.viols.len() >= 3 { break; }
        }
        let e = out.maxima.entry("calls that wrote mutable globals after initialisation".into()).or_insert(0);
        *e = (*e).max(left as i128);
        Ok(())
    }) }
}
fn planes_of(pf: u32) -> u32 { match pf { NV12 => 2, x if is_rgb(x) => 1, _ => 3 } }

// ---------------------------------------------------------------------- P17
/// RGB to YCbCr and back: within `tol` levels per channel
pub fn round_job(set: u32, s: u32, mid: (u32, u32, u32), d: u32, w: u32, h: u32, tol: [i128; 3]) -> Job {
    let name = format!("{} {} to {}{} {} and back to {} {w}x{h}", SET_NAME[set as usize], PF_NAME[s as usize], PF_NAME[mid.0 as usize], mid.2, CS_NAME[mid.1 as usize], PF_NAME[d as usize]);
    Job { name: name.clone(), run: Box::new(move |cx, smt, out| with_ex(cx.prog()?, cx, smt, out, |ex, out| {
        let im = |pf, cs, np| Img::new(pf, cs, np, Mode::Absent).exact();
        let there = Scn { set, w: Some(w), h: Some(h), src: im(s, 0, 1), dst: im(mid.0, mid.1, mid.2), c_api: false };
        let back = Scn { set, w: Some(w), h: Some(h), src: im(mid.0, mid.1, mid.2), dst: im(d, 0, 1), c_api: false };
        let (st, call) = setup(ex, &there);
        let obj = call.src.objs[0];
        let sub = mid.0 != I444;
        let dep = depth(s);
        let ch = crate::spec::channels(s);
        let mut px: HashMap<(i128, i128), [T; 3]> = HashMap::new();
        for y in 0..h as i128 {
            for x in 0..w as i128 {
                let (bx, by) = if sub { (x & !1, y & !1) } else { (x, y) };
                let row = w as i128 * dep;
                let at = |ex: &mut Ex, x: i128, y: i128, c: usize| { let t = ex.c.k(y * row + x * dep + ch[c]); (t, ex.pixel(obj, "src0", t)) };
                let mut v = [0; 3];
                for c in 0..3 {
                    let (_, base) = at(ex, bx, by, c);
                    v[c] = base;
                    // pixels of a block share one colour
                    if (bx, by) != (x, y) { let t = ex.c.k(y * row + x * dep + ch[c]); ex.pix.insert((obj, t), base); }
                }
                px.insert((x, y), v);
            }
        }
        let empty = std::rc::Rc::new(Env::default());
        for a in paths_of(ex, st, None)? {
            if a.ret != 0 { return Err(format!("conversion: {}", outcome(ex, &a))); }
            let mut st = a.st;
            let c2 = enter(ex, &mut st, &back, Some((call.w, call.h)), &Given::again(&call.dst), &Given::default());
            for b in paths_of(ex, st, None)? {
                if b.ret != 0 { return Err(format!("conversion back: {}", outcome(ex, &b))); }
                let Obj::Buf(buf) = &b.st.mem[c2.dst.objs[0] as usize] else { return Err("destination".into()) };
                let buf = buf.clone();
                let (dd, dch) = (depth(d), crate::spec::channels(d));
                for y in 0..h as i128 {
                    for x in 0..w as i128 {
                        for c in 0..3 {
                            let off = (y * w as i128 + x) * dd + dch[c];
                            let t = ex.c.k(off);
                            let Some(v) = buf.writes.get(&t) else { return Err("byte not written".into()) };
                            let got = ex.int(v).map_err(|e| format!("{e:?}"))?;
                            let df = ex.c.sub(got, px[&(x, y)][c]);
                            ex.c.set_env(&empty);
                            let (hi, lo) = (ex.c.k(tol[c]), ex.c.k(-tol[c]));
                            let (p, q) = (ex.c.lt(hi, df), ex.c.lt(df, lo));
                            for bad in [p, q] {
                                let bad = ex.c.simp(bad);
                                if bad == FALSE { out.oblige(true); continue; }
                                match ex.smt.check(&mut ex.c, &empty, &[bad]) {
                                    Sat::Unsat => out.oblige(true),
                                    Sat::Unknown => { out.oblige(false); out.inconclusive.push(format!("{name}: {c} of {x},{y} unknown")); }
                                    Sat::Sat(m) => {
                                        out.obligations += 1;
                                        if out.viols.len() >= 2 { return Ok(()); }
                                        // three cases in one: the real code encodes, then decodes
                                        let mut mm = HashMap::new();
                                        let rgb: Vec<i128> = (0..3).map(|k| ex.c.eval(px[&(x, y)][k], &m, &mut mm)).collect();
                                        let mut t = format!("api=roundtrip\nset={}\nw={w}\nh={h}\nsrc={s},0,1\nsrc_strides=none\ndst={d},0,1\ndst_strides=none\nmid={},{},{}\n", SET_NAME[set as usize], mid.0, mid.1, mid.2);
                                        let _ = writeln!(t, "src_lens={}\ndst_lens={}", w as i128 * h as i128 * dep, w as i128 * h as i128 * dd);
                                        let mut pixs = vec![];
                                        for yy in 0..h as i128 { for xx in 0..w as i128 { for k in 0..3 { pixs.push(format!("0:{}:{}", (yy * w as i128 + xx) * dep + ch[k], rgb[k])); } } }
                                        let _ = writeln!(t, "pix={}\nexpect=byte 0 {off} {} {}", pixs.join(" "), (rgb[c] - tol[c]).max(0), (rgb[c] + tol[c]).min(255));
                                        out.viols.push(Viol { key: format!("round trip {} {} through {}", ["red", "green", "blue"][c], SET_NAME[set as usize], CS_NAME[mid.1 as usize]), what: format!("{name}: {} of {rgb:?} is {}", ["red", "green", "blue"][c], ex.c.eval(got, &m, &mut mm)), case: t, bin: Bin::Sets, soft: false });
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    })) }
}

// ---------------------------------------------------------------------- P18
/// Every sample is the same function of its pixels as in the smallest image
pub fn uniform_job(sc: Scn) -> Job {
    let name = format!("uniform {}", sc.name());
    Job { name: name.clone(), run: Box::new(move |cx, smt, out| with_ex(cx.prog()?, cx, smt, out, |ex, out| {
        let yuv = !is_rgb(sc.dst.pf);
        let sub = yuv && sc.dst.pf != I444;
        // the reference: planar, smallest image
        let rf = if yuv { Scn { set: sc.set, w: Some(2), h: Some(2), src: Img::new(ARGB, 0, 1, Mode::Absent).exact(), dst: Img::new(if sub { I420 } else { I444 }, sc.dst.cs, 3, Mode::Absent).exact(), c_api: false } }
            else { Scn { set: sc.set, w: Some(1), h: Some(1), src: Img::new(I444, sc.src.cs, 3, Mode::Absent).exact(), dst: Img::new(RGBA, 0, 1, Mode::Absent).exact(), c_api: false } };
        let (rst, rcall) = setup(ex, &rf);
        let rp = paths_of(ex, rst, None)?;
        if rp.len() != 1 || rp[0].ret != 0 { return Err("the reference fails".into()); }
        let rst = &rp[0].st;
        let val = |ex: &mut Ex, st: &State, o: u32, t: T| -> Result<T, String> {
            let Obj::Buf(b) = &st.mem[o as usize] else { return Err("destination".into()) };
            let v = b.writes.get(&t).ok_or("byte not written")?.clone();
            ex.int(&v).map_err(|e| format!("{e:?}"))
        };
        // reference terms and the symbols of their pixels
        let mut terms = vec![];
        let mut syms: Vec<T> = vec![];
        if yuv {
            for p in 0..3 { let z = ex.c.zero; terms.push(val(ex, rst, rcall.dst.objs[p], z)?); }
            for (x, y) in [(0, 0), (1, 0), (0, 1), (1, 1)] { syms.extend(crate::spec::rgb_at(ex, &rf, &rcall, x, y)); }
        } else {
            for c in 0..3 { let t = ex.c.k(c); terms.push(val(ex, rst, rcall.dst.objs[0], t)?); }
            syms.extend(crate::spec::ycc_at(ex, &rf, &rcall, 0, 0));
        }
        // the images of the scenario must not share objects with the reference
        let mut st = ex.state();
        for _ in 0..64 { st.mem.push(Obj::Dead); }
        let call = enter(ex, &mut st, &sc, None, &Given::default(), &Given::default());
        let r = Rp { name: &name, sizes: sizes_of(&call), bin: Bin::Sets };
        let any = sc.w.is_none() || sc.h.is_none();
        if any { ex.cutoff = Some(1); }
        let mut checked = 0i128;
        for a in paths_of(ex, st, None)? {
            // malformed images have no values
            if any && (1..=3).contains(&a.ret) { continue; }
            if a.ret != 0 && !(any && a.ret == 92) { return Err(format!("conversion: {}", outcome(ex, &a))); }
            let (cst, call) = canon(ex, &a.st, &call)?.unwrap_or((a.st.clone(), call.clone()));
            let a = Path { st: cst, ..a };
            for p in call.dst.planes.clone() {
                let h = sc.h.unwrap_or(0) as i128;
                let mut bytes: Vec<(i128, i128, i128, T, T)> = vec![];
                if any {
                    // what has been written, at the places that are plain
                    let Obj::Buf(b) = &a.st.mem[p.obj as usize] else { return Err("destination".into()) };
                    let b = b.clone();
                    let mut keys: Vec<T> = b.writes.keys().copied().collect();
                    keys.sort();
                    for t in keys {
                        let Some((x, y, h)) = plain(ex, &sc, &call, &p, t) else { out.reach("bytes of any size without a plain position"); continue };
                        let g = ex.int(&b.writes[&t]).map_err(|e| format!("{e:?}"))?;
                        bytes.push((x, y, h, t, g));
                    }
                } else {
                    let (Some(row), Some(rows)) = (ex.c.konst(p.row), ex.c.konst(p.rows)) else { return Err("dimensions".into()) };
                    for y in 0..rows {
                        for x in 0..row {
                            let t = ex.c.scale(p.stride, y);
                            let t = ex.c.addk(t, x);
                            match val(ex, &a.st, p.obj, t) { Ok(g) => bytes.push((x, y, h, t, g)), Err(_) => {
                                let Obj::Buf(b) = &a.st.mem[p.obj as usize] else { return Err("destination".into()) };
                                let b = b.clone();
                                let Some(conds) = not_written(ex, &a.st, t, &b) else { return Err("a byte has several names".into()) };
                                r.viol(ex, out, &a.st, &conds, format!("pixels not written: {}", conv_key(&sc)), format!("byte {x} of row {y} of plane {} is not written", p.buf), &|ex, m| { let o = ex.c.eval(t, m, &mut HashMap::new()); case_of(ex, &sc, &call, m, &[format!("expect=written {} {o}", p.buf)]) });
                                return Ok(());
                            } }
                        }
                    }
                }
                checked = checked.max(bytes.len() as i128);
                {
                    for (x, y, h, t, got) in bytes {
                        let (comp, mut from): (usize, Vec<T>) = if yuv {
                            let (c, cx_, cy) = sample_of(&sc, p.buf, x, y, h);
                            let mut f = vec![];
                            if c == 0 || !sub { for _ in 0..4 { f.extend(crate::spec::rgb_at(ex, &sc, &call, cx_, cy)); } } else { for (i, j) in [(0, 0), (1, 0), (0, 1), (1, 1)] { f.extend(crate::spec::rgb_at(ex, &sc, &call, 2 * cx_ + i, 2 * cy + j)); } }
                            (c, f)
                        } else {
                            let d = depth(sc.dst.pf);
                            let o = x % d;
                            if crate::spec::alpha(sc.dst.pf) == Some(o) { let k = ex.c.k(255); if got == k { out.oblige(true); } else { return Err("alpha is not 255".into()); } continue; }
                            let ch = crate::spec::channels(sc.dst.pf).iter().position(|k| *k == o).unwrap();
                            (ch, crate::spec::ycc_at(ex, &sc, &call, x / d, y).to_vec())
                        };
                        from.truncate(syms.len());
                        let empty = std::rc::Rc::new(Env::default());
                        ex.c.set_env(&empty);
                        let map: HashMap<T, T> = syms.iter().copied().zip(from.iter().copied()).collect();
                        let want = ex.c.subst(terms[comp], &map, &mut HashMap::new(), &mut HashMap::new());
                        if want == got { out.oblige(true); continue; }
                        let e = ex.c.eq(want, got);
                        let n = ex.c.not(e);
                        if n == FALSE { out.oblige(true); continue; }
                        match ex.smt.check(&mut ex.c, &empty, &[n]) {
                            Sat::Unsat => out.oblige(true),
                            Sat::Unknown => { out.oblige(false); out.inconclusive.push(format!("{name}: byte {x} of row {y} of plane {} unknown", p.buf)); }
                            Sat::Sat(_) if any && impossible(ex, &a.st, &[n]) == Some(true) => out.oblige(true),
                            Sat::Sat(_) => {
                                r.viol(ex, out, &a.st, &[n], format!("position dependent: {}", conv_key(&sc)), format!("byte {x} of row {y} of plane {} differs from the smallest image", p.buf), &|ex, m| {
                                    let v = ex.c.eval(want, m, &mut HashMap::new());
                                    let o = ex.c.eval(t, m, &mut HashMap::new());
                                    case_of(ex, &sc, &call, m, &[format!("expect=byte {} {o} {v} {v}", p.buf)])
                                });
                                if out.viols.len() >= 3 { return Ok(()); }
                            }
                        }
                    }
                }
            }
        }
        if any { let e = out.maxima.entry("values checked on a path of any size".into()).or_insert(0); *e = (*e).max(checked); }
        Ok(())
    })) }
}

/// Component and position (of the pixel or of the block) of a sample of a YCbCr destination
pub fn sample_of(sc: &Scn, plane: usize, x: i128, y: i128, h: i128) -> (usize, i128, i128) {
    match sc.dst.pf {
        NV12 => if (sc.dst.np == 1 && y < h) || (sc.dst.np == 2 && plane == 0) { (0, x, y) } else { (1 + (x % 2) as usize, x / 2, if sc.dst.np == 1 { y - h } else { y }) },
        _ => (plane, x, y),
    }
}

/// The job on the build with overflow checks: only panics count
pub fn checked(j: Job) -> Job {
    let Job { name, run } = j;
    Job { name: format!("{name} (overflow checks)"), run: Box::new(move |cx, smt, out| {
        let cx2 = Cx { ovf: true, ..*cx };
        let mut o = JobOut::default();
        let r = run(&cx2, smt, &mut o);
        let to = |b: Bin| match b { Bin::Default => Bin::Checked, Bin::Sets => Bin::CheckedSets, b => b };
        o.viols.retain(|v| v.what.contains("panic"));
        for v in &mut o.viols { v.bin = to(v.bin); }
        for t in &mut o.traces { t.0 = to(t.0); }
        *out = o;
        r
    }) }
}

// ---------------------------------------------------------------------- P13
/// What the processor answers in a model
fn processor(ex: &Ex, m: &Model) -> String {
    let mut mm = HashMap::new();
    let mut leaves = vec![];
    let mut order: Vec<((T, T), Vec<V>)> = ex.cpuid_order.iter().map(|k| (*k, ex.cpuid_syms[k].to_vec())).collect();
    order.sort_by_key(|x| x.0);
    for ((leaf, sub), v) in order {
        let mut ev = |t: T| ex.c.eval(t, m, &mut mm);
        let r: Vec<i128> = v.iter().map(|x| if let V::I(t) = x { ev(*t) } else { 0 }).collect();
        // ebx, eax, ecx, edx
        leaves.push(format!("{}:{}:{}:{}:{}:{}", ev(leaf), ev(sub), r[1], r[0], r[2], r[3]));
    }
    let x = ex.xgetbv_sym.map_or(7, |t| ex.c.eval(t, m, &mut mm));
    format!("cpuid={}\nxcr0={x}\n", leaves.join(" "))
}

/// Register of a leaf; a fresh value when the code never asked for it
fn register(ex: &mut Ex, leaf: i128, i: usize) -> T {
    let (l, z) = (ex.c.k(leaf), ex.c.zero);
    if !ex.cpuid_syms.contains_key(&(l, z)) {
        let v: Vec<V> = ["ebx", "eax", "ecx", "edx"].iter().map(|r| V::I(ex.c.sym(&format!("cpuid{leaf}.{r}"), 0, p2(32) - 1, true))).collect();
        ex.cpuid_syms.insert((l, z), v.into());
        ex.cpuid_order.push((l, z));
    }
    let V::I(t) = ex.cpuid_syms[&(l, z)][i] else { unreachable!() };
    t
}
fn bits(ex: &mut Ex, t: T, mask: i128) -> B { let k = ex.c.k(mask); let x = ex.c.band(t, k, 64); ex.c.eq(x, k) }

/// Any processor: the code of a conversion, and the description
pub fn cpu_job(sc: Scn, describe: bool) -> Job {
    let name = if describe { format!("any processor, {} to {}, described", PF_NAME[sc.src.pf as usize], PF_NAME[sc.dst.pf as usize]) } else { format!("any processor, {}", sc.name()) };
    Job { name: name.clone(), run: Box::new(move |cx, smt, out| with_ex(cx.prog()?, cx, smt, out, |ex, out| {
        ex.opaque = true;
        let (st, call) = setup(ex, &sc);
        ex.cpu = Cpu::Symbolic;
        let r = Rp { name: &name, sizes: sizes_of(&call), bin: Bin::Mock };
        // what a processor must report for the code to run on it
        let (ebx, eax, ecx, edx) = (0, 1, 2, 3);
        let max = register(ex, 0, eax);
        let (l1c, l1d, l7b) = (register(ex, 1, ecx), register(ex, 1, edx), register(ex, 7, ebx));
        let xcr0 = ex.c.sym("xcr0", 0, p2(64) - 1, true);
        ex.xgetbv_sym = Some(xcr0);
        let osxsave = bits(ex, l1c, 1 << 27);
        let (k1, k7) = (ex.c.one, ex.c.k(7));
        let avx = { let v = [bits(ex, l1c, 1 << 28), bits(ex, xcr0, 6), osxsave, ex.c.le(k1, max)]; ex.c.and(&v) };
        let avx2 = { let v = [avx, bits(ex, l7b, 1 << 5), ex.c.le(k7, max)]; ex.c.and(&v) };
        let sse2 = { let v = [bits(ex, l1d, 1 << 26), ex.c.le(k1, max)]; ex.c.and(&v) };
        let word = |ex: &mut Ex, i: usize, s: &str| { let t = register(ex, 0, i); let k = ex.c.k(u32::from_le_bytes(s.as_bytes().try_into().unwrap()) as i128); ex.c.eq(t, k) };
        let maker = |ex: &mut Ex, s: &str| { let v = [word(ex, ebx, &s[0..4]), word(ex, edx, &s[4..8]), word(ex, ecx, &s[8..12])]; ex.c.and(&v) };
        let intel = maker(ex, "GenuineIntel");
        let amd = { let v = [maker(ex, "AuthenticAMD"), maker(ex, "AMDisbetter!")]; ex.c.or(&v) };
        let case = |ex: &Ex, m: &Model, lines: &[String]| { let mut s = case_of(ex, &sc, &call, m, &[]); s.push_str(&processor(ex, m)); for l in lines { s.push_str(l); s.push('\n'); } s };
        for a in paths_of(ex, st, None)? {
            if a.ret != 0 { let o = outcome(ex, &a); r.viol(ex, out, &a.st, &[], "fails on some processor".into(), format!("some processor: {o}"), &|ex, m| case(ex, m, &["expect=ret 0".into()])); continue; }
            let ev = |s: &str| a.st.events.iter().any(|e| e == s);
            let runs = if ev("enter avx2") { "avx2" } else if ev("enter avx") { "avx" } else if ev("enter sse2") { "sse2" } else { "x86" };
            out.reach(&format!("runs {runs}"));
            for (e, what, need) in [("enter avx2", "avx2", avx2), ("enter avx", "avx", avx), ("enter sse2", "sse2", sse2), ("xgetbv", "xgetbv", osxsave)] {
                if !ev(e) { continue; }
                let bad = ex.c.not(need);
                let tag = if what == "avx" { "avx2" } else { what };
                r.never(ex, out, &a.st, &[bad], format!("{what} on an unsupported processor"), format!("runs {what} code on a processor or system that does not support it"), &|ex, m| case(ex, m, &[format!("expect=notruns {tag}")]));
            }
            if !describe { continue; }
            if let Some(m) = model(ex, &a.st, &[], &r.sizes) {
                let tag = if runs == "avx" { "avx2" } else { runs };
                let t = case(ex, &m, &[format!("expect=runs {tag}")]);
                if out.sample.is_none() { out.sample = Some(format!("{name}: {}", t.lines().filter(|l| l.starts_with("cpuid") || l.starts_with("xcr0") || l.starts_with("expect")).collect::<Vec<_>>().join("; "))); }
                out.traces.push((Bin::Mock, t));
            }
            // the description, in the same state
            let mut s = a.st.clone();
            s.frames.clear();
            s.events.clear();
            let o = ex.alloc(&mut s, vec![V::Undef; 256]);
            let f = ex.p.func("h_describe").ok_or("harness entry")?;
            let n = ex.kint(256);
            let z = ex.c.zero;
            ex.call(&mut s, f, vec![V::P(o, z), n], None).map_err(|e| format!("{e:?}"))?;
            ex.run(s, &mut |ex, st, end| {
                let End::Ret(v) = &end else {
                    r.viol(ex, out, &st, &[], "description".into(), "the description does not return".into(), &|ex, m| { let mut s = "api=describe\n".to_string(); s.push_str(&processor(ex, m)); s });
                    return Ok(());
                };
                let n = ret_int(ex, v).ok_or("length of the description")?;
                let Obj::Small(b) = &st.mem[o as usize] else { return Err("description".into()) };
                let b: Vec<V> = b[..(n as usize).min(256)].to_vec();
                let mut text = String::new();
                for v in b { let t = ex.int(&v).map_err(|e| format!("{e:?}"))?; text.push(ex.c.konst(t).ok_or("the description is not determined")? as u8 as char); }
                out.reach(&format!("describes itself as {text}"));
                let text_case = |ex: &Ex, m: &Model, l: String| { let mut s = "api=describe\n".to_string(); s.push_str(&processor(ex, m)); s.push_str(&l); s.push('\n'); s };
                if let Some(m) = model(ex, &st, &[], &r.sizes) { out.traces.push((Bin::Mock, text_case(ex, &m, format!("expect=text {text}")))); }
                let said: Vec<&str> = ["Avx2", "Sse2", "X86"].into_iter().filter(|k| text.contains(&format!("instruction-set:{k}"))).collect();
                let want = match runs { "avx2" | "avx" => "Avx2", "sse2" => "Sse2", _ => "X86" };
                if said != [want] { r.viol(ex, out, &st, &[], "description of the instruction set".into(), format!("describes itself as {text}, runs {runs}"), &|ex, m| text_case(ex, m, format!("expect=hastext instruction-set:{want}"))); } else { out.oblige(true); }
                for (who, is) in [("Intel", intel), ("Amd", amd)] {
                    let bad = if text.contains(&format!("cpu-manufacturer:{who}")) { ex.c.not(is) } else { let one = ex.c.one; let p = ex.c.le(one, max); ex.c.and(&[is, p]) };
                    let l = if text.contains(&format!("cpu-manufacturer:{who}")) { format!("expect=nottext cpu-manufacturer:{who}") } else { format!("expect=hastext cpu-manufacturer:{who}") };
                    r.never(ex, out, &st, &[bad], "description of the manufacturer".into(), format!("describes itself as {text}"), &|ex, m| text_case(ex, m, l.clone()));
                }
                Ok(())
            })?;
        }
        Ok(())
    })) }
}

pub fn cpu_jobs(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    for (sp, sc, dp, dc) in conversions() {
        let np = |p: u32| if is_rgb(p) { 1 } else if p == NV12 { 2 } else { 3 };
        let mk = |w: u32, h: u32| { let mut s = Scn { set: 2, w: Some(w), h: Some(h), src: Img::new(sp, sc, np(sp), Mode::Absent), dst: Img::new(dp, dc, np(dp), Mode::Absent), c_api: false }; s.src.fit = true; s.dst.fit = true; s };
        for (w, h) in if thorough { vec![(2, 2), (18, 2), (34, 4), (64, 2), (130, 2)] } else { vec![(2, 2), (66, 4)] } { v.push(cpu_job(mk(w, h), false)); }
        // conversions that every instruction set has code of its own for
        if sp == BGRA && (dp == I420 || dp == I444) || dp == BGRA && (sp == I444 || sp == NV12) { v.push(cpu_job(mk(64, 2), true)); }
    }
    v
}
