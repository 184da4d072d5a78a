//! What each property explores.
use crate::calls::*;
use crate::drive::*;
use crate::props::*;
use crate::scen::*;

pub fn needs_checked(p: &str) -> bool { p == "P14" }

/// Quick runs that take every width
fn chk_all(cx: &Cx) -> bool { !cx.thorough && (cx.prop == "P02" || cx.prop == "P03") }

/// Bounds, what lies outside of them, and what is assumed
fn meta_of(cx: &Cx) -> Meta {
    let t = cx.thorough;
    let width = |v: Vec<u32>| format!("widths {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    let all = "all 67 conversions, with 1 and 2 planes for NV12, scalar, SSE2 and AVX2 code";
    let own = [
        "LLVM IR of the library as rustc 1.99.1 emits it (release, x86_64) is what runs",
        "the executor's reading of that IR and of the SSE2/AVX2 intrinsics, compared on every run with the real code on the traces counted in traces_validated_against_impl",
        "answers of z3 and cvc5",
        "detection of the processor is replaced by the choice of the instruction set (P13 covers the detection)",
    ];
    let (mut b, mut o, mut a): (Vec<String>, Vec<String>, Vec<String>) = (vec![], vec![], own.iter().map(|x| x.to_string()).collect());
    let lay = || { let mut v = vec![all.to_string(), width(widths(t)) + if t { ", heights 1 2 3 4 6" } else { ", heights 1 2 3 4 (BT.601; the other color spaces, that share the kernels, a few widths each)" }]; if chk_all(cx) { v[1] = "widths 1-140 160 191-193 254-258 (BT.601), fewer for the other color spaces; heights 1 2 3 4".into(); } v.push("strides: absent, zero, any non-zero value, any value (64 bits); buffer lengths: any value below 2^63; both symbolic".into()); v };
    let big = if t { "258x2 258x4 514x2 514x4 1030x2 2050x2 4098x2 2x66 2x258 2x514 2x1030 18x130 34x258 66x66 130x130" } else { "258x2 514x4 1030x2 4098x2 2x66 2x514 18x18 66x34 130x130" };
    let bigv = if t { "258x2 514x2 1030x2 2050x2 2x66 2x258 2x514 34x34 66x18" } else { "258x2 514x2 1030x2 2x66 2x258 34x18 (one color space each)" };
    let arr = || "arrays of strides and of buffers with any smaller number of entries than planes (any width and height), and with one more".to_string();
    let any = || "any width and height (32 bits, symbolic) up to the second iteration of every loop that depends on them".to_string();
    let val = || { let mut v = vec![all.to_string(), if t { "widths 1-70 96 98 128 130, heights 1 2 3 4 6" } else { "widths 1 2 6 14 15 16 18 30 32 33 34 46 50 64 66, height 2 and for some widths 1 2 3 4" }.to_string(), format!("larger images: {bigv}; 65570x2 and 2x65570, where only the pixels at the ends of the last rows are symbols and the others are zero"), "any width and height (32 bits, symbolic): the pixels at the start of the rows, up to the second iteration of every loop that depends on the size".to_string()]; v.push("pixels: every value (8 bits each, symbolic); strides: absent, or any value not less than a row, symbolic".into()); v };
    let out_size = || "larger images: the loops over columns and rows are followed for the sizes listed, that span every vector body and every length of the tail".to_string();
    match cx.prop {
        "P01" | "P02" => { b = lay(); b.push(arr()); b.push(format!("larger images: {big}; 65570x2 2x65570")); b.push(any()); o.push(out_size()); o.push("iterations after the first one of the images of any size".into()); }
        "P03" => { b = lay(); b.push("any width and height (32 bits, symbolic) up to the second iteration of every loop that depends on them: what is written is inside of the rows".into()); b.push(format!("larger images: {big}; 65570x2 2x65570")); b[2] = "strides: absent, or any value not less than a row; buffer lengths: any value below 2^63; both symbolic".into(); b.push(arr()); o.push(out_size()); o.push("strides shorter than a row (rows overlap, and the outcome depends on the order of writes)".into()); }
        "P04" | "P05" | "P06" => { b = val(); o.push(out_size()); a.push("tolerance: 0.51 levels (RGB to YCbCr), 0.55 levels (YCbCr to RGB) against the exact equations".into()); }
        "P07" => { b = val(); o.push(out_size()); }
        "P08" => { b = val(); b.drain(2..4); b.push(format!("larger images: {}", if t { "258x2 514x2 1030x2 2x66 2x258 2x514 34x34" } else { "258x2 514x2 2x66 2x258 34x18" })); b.push("65570x2 and 2x65570, where only the pixels at the ends of the last rows are symbols".into()); b.push("results also for any strides and lengths (symbolic), widths ".to_string() + if t { "1-40" } else { "1 2 8 16 18 33 34" } + ", heights 1 2 4"); o.push(out_size()); }
        "P09" => { b = vec!["every pair of formats and color spaces (45 x 45), any width, height and number of planes (32 bits, symbolic), every instruction set".into()]; o.push("I422 with one plane: the documentation and the tests of the library disagree".into()); a.push("buffers are empty: P02 decides what happens with others".into()); }
        "P10" => { b = vec!["every format; any width and height (32 bits), any stride (64 bits), any number of planes (0-4 apart, the rest together), 0-4 strides or none, 0-4 sizes; all symbolic".into()]; o.push("I422 with one plane".into()); o.push("more than 4 array entries".into()); a.push("which error an image reports that is malformed in several ways is not determined".into()); }
        "P11" => { b = vec![all.to_string(), format!("widths {}, heights 1 2 4{}", if t { "1-70 130 258 514" } else { "1 2 3 4 7 8 14 16 18 31 32 34 64 66 130 258" }, if t { " 3 6" } else { "" }), "strides: absent, zero, or any value not less than a row (64 bits, symbolic)".into()]; b.push(any()); o.push(out_size()); o.push("strides shorter than a row: sizes are stride times rows there, by P10".into()); }
        "P12" => { b = vec![all.to_string() + " (calls of the C functions and of the Rust functions from one state)", format!("widths {}, heights 1 2 4", if t { "1-40 62 64 66 130 258" } else { "1 2 7 8 18 34 130" }), "every null pointer, any invalid format or color space (32 bits) and any wrong number of planes, one at a time, with and without an error pointer".into()]; o.push(out_size()); o.push("pointers that are neither null nor valid (the caller's contract)".into()); }
        "P13" => { b = vec!["any answer of cpuid (every leaf and register, symbolic) and of xgetbv (64 bits); every conversion, sizes 2x2 and 66x4 or more".into()]; o.push("processors whose answers change from one query to the next".into()); a.retain(|x| !x.starts_with("detection")); a.push("replays run a copy of the real program in which the cpuid and xgetbv instructions are traps that answer with the values of the case".into()); }
        "P14" => { b = lay(); b.push(arr()); b.push(format!("larger images: {big}; 65570x2 2x65570")); b.push(any()); b.push("malformed arguments: those of P09, P10 and P12; calls of the C functions with strides; the IR is that of a build with overflow checks and debug assertions, where every overflow and every violated precondition of an unsafe function of the standard library is a panic".into()); o.push(out_size()); }
        "P15" => { b = vec![all.to_string(), "a call, up to two other calls (same and other conversions and sizes, failing ones), and the first again; pixels symbolic".into(), "every static of the library: none but the dispatch state is written by any call, that any sequence of calls reduces to".into()]; o.push("calls from several threads at once (P20)".into()); }
        "P16" => { b = val(); o.push(out_size()); a.push("in a first step the solver shows what the kernel computes for any pixels; greys are one variable for the three channels".into()); }
        "P17" => { b = vec!["ARGB, BGRA, BGR to I444, I420, NV12 and back to RGBA, BGRA, RGB, 4 color spaces, scalar, SSE2 and AVX2 code".into(), format!("sizes {}; every colour (24 bits, symbolic)", if t { "1x1 to 66x2" } else { "1x1 and 34x2 (all positions)" })]; o.push("pairs of formats whose quick runs are thinned out (the thorough runs have them all)".into()); }
        "P18" => { b = val(); b.drain(2..3); b[1] = if t { "widths 1-70 96 98 130 258, heights 1 2 4" } else { "widths 1 2 7 16 18 33 34 66 130, heights 2 4" }.into(); o.push(out_size()); a.push("the reference is the conversion of a single pixel (or block) by the same instruction set".into()); }
        _ => {}
    }
    o.push("ARM and WebAssembly code (P19)".into());
    Meta { bounds: b, outside: o, assumptions: a }
}

fn planes_of(pf: u32) -> Vec<u32> { match pf { NV12 => vec![1, 2], x if is_rgb(x) => vec![1], _ => vec![3] } }

/// Conversions with every number of planes: (source, destination)
fn pairs() -> Vec<(u32, u32, u32, u32, u32, u32)> {
    let mut v = vec![];
    for (sp, sc, dp, dc) in conversions() { for sn in planes_of(sp) { for dn in planes_of(dp) { v.push((sp, sc, sn, dp, dc, dn)); } } }
    v
}
fn fits(w: u32, h: u32, sp: u32, dp: u32) -> bool {
    let ok = |p: u32| { let (a, b) = dims_mult(p); w as i128 % a == 0 && h as i128 % b == 0 };
    ok(sp) && ok(dp)
}

fn widths(thorough: bool) -> Vec<u32> {
    if thorough { (1..=140).chain([160, 191, 192, 193, 254, 255, 256, 257, 258]).collect() }
    else { (1..=36).chain([40, 48, 49, 63, 64, 65, 66, 96, 97, 98]).collect() }
}

/// Large images: counters and thresholds
fn large(thorough: bool) -> Vec<(u32, u32)> {
    if thorough { vec![(258, 2), (258, 4), (514, 2), (514, 4), (1030, 2), (2050, 2), (4098, 2), (2, 66), (2, 258), (2, 514), (2, 1030), (18, 130), (34, 258), (66, 66), (130, 130), (65570, 2), (2, 65570)] }
    else { vec![(258, 2), (514, 4), (1030, 2), (4098, 2), (2, 66), (2, 514), (18, 18), (66, 34), (130, 130), (65570, 2), (2, 65570)] }
}

/// Scenarios where pixels are not tracked
fn layout(cx: &Cx, chk: Chk, ovf: bool, modes: &dyn Fn(u32, u32, u32) -> Vec<Mode>) -> Vec<Job> {
    let mut v = vec![];
    for (sp, sc, sn, dp, dc, dn) in pairs() {
        let cs = sc.max(dc);
        for set in 0..3 {
            if cs <= 1 {
                for (w, h) in large(cx.thorough) {
                    let m = *modes(w, h, cs).iter().find(|m| **m != Mode::Absent).unwrap_or(&Mode::Absent);
                    for m in if cx.thorough { vec![Mode::Absent, m] } else if w + h < 70 || h == 2 && w < 300 { vec![m] } else { vec![Mode::Absent] } {
                        v.push(conv_job(Scn { set, w: Some(w), h: Some(h), src: Img::new(sp, sc, sn, m), dst: Img::new(dp, dc, dn, m), c_api: false }, chk, ovf));
                    }
                }
            }
            for w in widths(cx.thorough || (chk.writes || chk.accept) && cs <= 1) {
                // the other color spaces share the kernels: a few widths each
                if cs > 1 && !cx.thorough && !(w % 7 == cs % 7 && w < 40 || w == 64 + cs % 2 * 2) { continue; }
                let hs: &[u32] = if cx.thorough { &[1, 2, 3, 4, 6] } else if w % 5 == 3 || w % 8 == 2 { &[2, 4, 3, 1] } else { &[2] };
                for h in hs {
                    if !fits(w, *h, sp, dp) { continue; }
                    for m in modes(w, *h, cs) {
                        let s = Scn { set, w: Some(w), h: Some(*h), src: Img::new(sp, sc, sn, m), dst: Img::new(dp, dc, dn, m), c_api: false };
                        v.push(conv_job(s, chk, ovf));
                    }
                }
            }
        }
    }
    v
}

fn both(mut a: Vec<Job>, b: Vec<Job>) -> Vec<Job> { a.extend(b); a }

/// Scenarios with any width and height
fn any_size(cx: &Cx, chk: Chk, ovf: bool) -> Vec<Job> {
    let mut v = vec![];
    for (sp, sc, sn, dp, dc, dn) in pairs() {
        if sc.max(dc) > 1 && !cx.thorough { continue; }
        for set in 0..3 {
            for m in if chk.writes { vec![Mode::Wide] } else { vec![Mode::Absent, Mode::Full] } {
                v.push(conv_job(Scn { set, w: None, h: None, src: Img::new(sp, sc, sn, m), dst: Img::new(dp, dc, dn, m), c_api: false }, chk, ovf));
            }
        }
    }
    v
}

/// Arrays of strides and of buffers with fewer or more entries than there are planes
fn arrays(cx: &Cx, chk: Chk, ovf: bool) -> Vec<Job> {
    let mut v = vec![];
    for (sp, sc, sn, dp, dc, dn) in pairs() {
        if sc.max(dc) > 1 && !cx.thorough { continue; }
        for set in 0..3 {
            let m = if chk.writes { Mode::Wide } else { Mode::Full };
            let base = Scn { set, w: None, h: None, src: Img::new(sp, sc, sn, m), dst: Img::new(dp, dc, dn, m), c_api: false };
            let mut add = |f: &dyn Fn(&mut Scn)| { let mut s = base.clone(); f(&mut s); v.push(conv_job(s, chk, ovf)); };
            for k in 0..sn as usize { add(&|s| s.src.nbuf = k); add(&|s| s.src.nstr = k); }
            for k in 0..dn as usize { add(&|s| s.dst.nbuf = k); add(&|s| s.dst.nstr = k); }
            // more than needed: the rest is not used
            for (w, h) in if cx.thorough { vec![(2, 2), (34, 4), (66, 2)] } else { vec![(34, 2)] } {
                add(&|s| { s.w = Some(w); s.h = Some(h); s.src.nbuf += 1; s.dst.nbuf += 1; if !chk.writes { s.src.nstr += 1; s.dst.nstr += 1; } });
            }
        }
    }
    v
}

fn value_jobs(cx: &Cx, chk: Chk, sel: &dyn Fn(u32, u32) -> bool) -> Vec<Job> {
    let mut v = vec![];
    // any width and height, the first pixels
    for (sp, sc, sn, dp, dc, dn) in pairs() {
        if !sel(sp, dp) { continue; }
        for set in 0..3 {
            for m in [Mode::Absent, Mode::Wide] {
                if m == Mode::Wide && !cx.thorough && sc.max(dc) > 1 { continue; }
                v.push(conv_job(Scn { set, w: None, h: None, src: Img::new(sp, sc, sn, m).fit(), dst: Img::new(dp, dc, dn, m).fit(), c_api: false }, chk, false));
            }
        }
    }
    let ws: Vec<u32> = if cx.thorough { (1..=70).chain([96, 98, 128, 130]).collect() } else { vec![1, 2, 6, 14, 15, 16, 18, 30, 32, 33, 34, 46, 50, 64, 66] };
    for (sp, sc, sn, dp, dc, dn) in pairs() {
        if !sel(sp, dp) { continue; }
        for set in 0..3 {
            let big: &[(u32, u32)] = if cx.thorough { &[(258, 2), (514, 2), (1030, 2), (2050, 2), (2, 66), (2, 258), (2, 514), (34, 34), (66, 18)] } else { &[(258, 2), (514, 2), (1030, 2), (2, 66), (2, 258), (34, 18)] };
            // beyond 16 bits
            if sc.max(dc) <= 1 { for (w, h) in [(65570, 2), (2, 65570)] { v.push(conv_job(Scn { set, w: Some(w), h: Some(h), src: Img::new(sp, sc, sn, Mode::Absent).fit(), dst: Img::new(dp, dc, dn, Mode::Absent).fit(), c_api: false }, chk, false)); } }
            for (i, (w, h)) in big.iter().enumerate() {
                if !cx.thorough && i as u32 % 4 + 1 != sc.max(dc) && sc.max(dc) > 0 { continue; }
                for m in if cx.thorough { vec![Mode::Absent, Mode::Wide] } else { vec![Mode::Absent] } {
                    v.push(conv_job(Scn { set, w: Some(*w), h: Some(*h), src: Img::new(sp, sc, sn, m).fit(), dst: Img::new(dp, dc, dn, m).fit(), c_api: false }, chk, false));
                }
            }
            for w in &ws {
                let hs: &[u32] = if cx.thorough { &[1, 2, 3, 4, 6] } else if [2, 18, 33].contains(w) { &[1, 2, 3, 4] } else { &[2] };
                for h in hs {
                    if !fits(*w, *h, sp, dp) { continue; }
                    for m in [Mode::Absent, Mode::Wide] {
                        if m == Mode::Wide && !cx.thorough && (*h != 2 && *h != 3 || ![2, 18, 34].contains(w)) { continue; }
                        let s = Scn { set, w: Some(*w), h: Some(*h), src: Img::new(sp, sc, sn, m).fit(), dst: Img::new(dp, dc, dn, m).fit(), c_api: false };
                        v.push(conv_job(s, chk, false));
                    }
                }
            }
        }
    }
    v
}

pub fn plan(cx: &Cx) -> Option<(Vec<Job>, Meta)> {
    let std_modes = |w: u32, h: u32, cs: u32| -> Vec<Mode> {
        let mut m = vec![Mode::Any];
        if cs == 1 { m.push(Mode::Absent); if w % 6 == 2 || w == 1 { m.push(Mode::Zero); } if w % 10 == 4 && h == 2 { m.push(Mode::Full); } }
        m
    };
    Some(match cx.prop {
        "P01" => (both(both(any_size(cx, Chk { mem: true, ..Chk::default() }, false), arrays(cx, Chk { mem: true, ..Chk::default() }, false)), layout(cx, Chk { mem: true, ..Chk::default() }, false, &std_modes)), meta_of(cx)),
        "P02" => (both(both(any_size(cx, Chk { accept: true, ..Chk::default() }, false), arrays(cx, Chk { accept: true, ..Chk::default() }, false)), layout(cx, Chk { accept: true, ..Chk::default() }, false, &std_modes)), meta_of(cx)),
        "P03" => (both(both(any_size(cx, Chk { writes: true, ..Chk::default() }, false), arrays(cx, Chk { writes: true, ..Chk::default() }, false)), layout(cx, Chk { writes: true, ..Chk::default() }, false, &|_, _, cs| if cs <= 1 { vec![Mode::Wide, Mode::Absent] } else { vec![Mode::Wide] })), meta_of(cx)),
        "P04" => (value_jobs(cx, Chk { values: true, ..Chk::default() }, &|s, d| is_rgb(s) && d == I444), meta_of(cx)),
        "P05" => (value_jobs(cx, Chk { values: true, ..Chk::default() }, &|s, d| is_rgb(s) && !is_rgb(d) && d != I444), meta_of(cx)),
        "P06" => (value_jobs(cx, Chk { values: true, ..Chk::default() }, &|s, d| !is_rgb(s) && is_rgb(d)), meta_of(cx)),
        "P07" => (value_jobs(cx, Chk { perm: true, ..Chk::default() }, &|s, d| is_rgb(s) && is_rgb(d)), meta_of(cx)),
        "P08" => (sets_jobs(cx), meta_of(cx)),
        "P09" => (rules_jobs(), meta_of(cx)),
        "P10" => (size_cases().into_iter().map(|k| size_job(k, false)).collect(), meta_of(cx)),
        "P11" => (enough_jobs(cx), meta_of(cx)),
        "P12" => (c_jobs(cx), meta_of(cx)),
        "P13" => (cpu_jobs(cx.thorough), meta_of(cx)),
        "P15" => (again_jobs(cx), meta_of(cx)),
        "P17" => (round_jobs(cx), meta_of(cx)),
        "P18" => (uniform_jobs(cx), meta_of(cx)),
        "P14" => (both(no_panic_jobs(cx), both(both(any_size(cx, Chk { panics: true, ..Chk::default() }, true), arrays(cx, Chk { panics: true, ..Chk::default() }, true)), layout(cx, Chk { panics: true, ..Chk::default() }, true, &|w, _, cs| if cs == 1 && w % 6 == 2 { vec![Mode::Full, Mode::Absent] } else { vec![Mode::Full] }))), meta_of(cx)),
        "P16" => (value_jobs(cx, Chk { grey: true, ..Chk::default() }, &|s, d| is_rgb(s) != is_rgb(d)), meta_of(cx)),
        _ => return None,
    })
}

/// Calls other than conversions of valid images, on the build with overflow checks
fn no_panic_jobs(cx: &Cx) -> Vec<Job> {
    let mut v: Vec<Job> = rules_jobs();
    v.extend(size_cases().into_iter().map(|k| size_job(k, true)));
    v.extend(c_jobs(cx).into_iter().filter(|j| !j.name.contains(" -> ") || j.name.contains('*') || j.name.contains("/2x2:") || j.name.contains("/7x1:")));
    v.into_iter().map(checked).collect()
}

/// The values, with every byte of the destination, for each conversion
fn grid(cx: &Cx, ws: &[u32], hs: &[u32], sel: &dyn Fn(u32, u32) -> bool, modes: &[Mode], f: &mut dyn FnMut(Scn)) {
    let _ = cx;
    for (sp, sc, sn, dp, dc, dn) in pairs() {
        if !sel(sp, dp) { continue; }
        for w in ws {
            for h in hs {
                if !fits(*w, *h, sp, dp) { continue; }
                for m in modes { f(Scn { set: 0, w: Some(*w), h: Some(*h), src: Img::new(sp, sc, sn, *m).fit(), dst: Img::new(dp, dc, dn, *m).fit(), c_api: false }); }
            }
        }
    }
}

fn sets_jobs(cx: &Cx) -> Vec<Job> {
    let mut v = vec![];
    let ws: Vec<u32> = if cx.thorough { (1..=70).chain([96, 98, 128, 130]).collect() } else { vec![1, 2, 3, 6, 8, 14, 16, 17, 18, 24, 30, 32, 33, 34, 46, 50, 64, 66] };
    grid(cx, &ws, if cx.thorough { &[1, 2, 4] } else { &[2] }, &|_, _| true, &[Mode::Absent], &mut |s| v.push(sets_job(s, true)));
    let ws: Vec<u32> = if cx.thorough { (1..=70).collect() } else { vec![2, 6, 18, 34] };
    grid(cx, &ws, &[2], &|_, _| true, &[Mode::Wide], &mut |s| v.push(sets_job(s, true)));
    for (w, h) in if cx.thorough { vec![(258, 2), (514, 2), (1030, 2), (2, 66), (2, 258), (2, 514), (34, 34)] } else { vec![(258, 2), (514, 2), (2, 66), (2, 258), (34, 18)] } { grid(cx, &[w], &[h], &|_, _| true, &[Mode::Absent], &mut |s| if cx.thorough || s.src.cs.max(s.dst.cs) as u32 * 3 % 5 == (w + h) % 5 || s.src.cs == s.dst.cs { v.push(sets_job(s, true)); }); }
    // beyond 16 bits
    for (w, h) in [(65570, 2), (2, 65570)] { grid(cx, &[w], &[h], &|_, _| true, &[Mode::Absent], &mut |s| if s.src.cs.max(s.dst.cs) <= 1 { v.push(sets_job(s, true)); }); }
    // results with any strides and lengths
    let ws: Vec<u32> = if cx.thorough { (1..=40).collect() } else { vec![1, 2, 8, 16, 18, 33, 34] };
    grid(cx, &ws, &[1, 2, 4], &|_, _| true, &[Mode::Full, Mode::Absent], &mut |mut s| { s.src.fit = false; s.dst.fit = false; if s.src.cs.max(s.dst.cs) <= 1 { v.push(sets_job(s, false)); } });
    v
}

fn enough_jobs(cx: &Cx) -> Vec<Job> {
    let mut v = vec![];
    for (sp, sc, sn, dp, dc, dn) in pairs() {
        if sc.max(dc) > 1 && !cx.thorough { continue; }
        for set in 0..3 {
            for m in [Mode::Absent, Mode::Full] { v.push(enough_job(Scn { set, w: None, h: None, src: Img::new(sp, sc, sn, m), dst: Img::new(dp, dc, dn, m), c_api: false })); }
        }
    }
    let ws: Vec<u32> = if cx.thorough { (1..=70).chain([130, 258, 514]).collect() } else { vec![1, 2, 3, 4, 7, 8, 14, 16, 18, 31, 32, 34, 64, 66, 130, 258] };
    for set in 0..3 {
        grid(cx, &ws, if cx.thorough { &[1, 2, 3, 4, 6] } else { &[1, 2, 4] }, &|_, _| true, &[Mode::Absent, Mode::Full], &mut |mut s| {
            s.set = set;
            s.src.fit = false;
            s.dst.fit = false;
            if s.src.cs.max(s.dst.cs) <= 1 { v.push(enough_job(s)); }
        });
    }
    v
}

fn c_jobs(cx: &Cx) -> Vec<Job> {
    let mut v = vec![];
    let host = host_set();
    let ws: Vec<u32> = if cx.thorough { (1..=40).chain([62, 64, 66, 130, 258]).collect() } else { vec![1, 2, 8, 18, 34, 130] };
    grid(cx, &ws, &[1, 2], &|_, _| true, &[Mode::Absent], &mut |mut s| { s.set = host; s.src.fit = false; s.dst.fit = false; v.push(c_equal_job(s, true)); });
    let ws: Vec<u32> = if cx.thorough { (1..=40).collect() } else { vec![2, 7, 18, 34] };
    grid(cx, &ws, &[1, 2, 4], &|_, _| true, &[Mode::Wide, Mode::Full], &mut |mut s| { s.set = host; s.src.fit = false; s.dst.fit = false; if s.src.cs.max(s.dst.cs) <= 1 { v.push(c_equal_job(s, false)); } });
    for (sp, sc, sn, dp, dc, dn) in pairs() {
        if sc.max(dc) > 1 { continue; }
        for e in [false, true] {
            let mut bad = vec![Wrong::Null("src_format"), Wrong::Null("dst_format"), Wrong::Null("src_buffers"), Wrong::Null("dst_buffers"), Wrong::Pf(true), Wrong::Pf(false), Wrong::Cs(true), Wrong::Cs(false), Wrong::Np(true), Wrong::Np(false)];
            for i in 0..sn { bad.push(Wrong::Null(["src0", "src1", "src2"][i as usize])); }
            for i in 0..dn { bad.push(Wrong::Null(["dst0", "dst1", "dst2"][i as usize])); }
            for b in bad { v.push(c_bad_job((sp, sc, sn), (dp, dc, dn), b, e)); }
        }
    }
    for pf in 0..9u32 {
        for np in [Some(0), Some(1), Some(2), Some(3), None] {

            if pf == I422 && np == Some(1) { continue; }
            for strides in [false, true] { for null in [vec![], vec!["error"], vec!["sizes"], vec!["src_format"], vec!["sizes", "error"], vec!["src_format", "error"]] { v.push(c_size_job(Some(pf), np, strides, null)); } }
        }
    }
    for np in [Some(1), Some(2), Some(3)] { for null in [vec![], vec!["error"]] { v.push(c_size_job(None, np, false, null)); } }
    v
}

fn again_jobs(cx: &Cx) -> Vec<Job> {
    let mut v = state_jobs();
    let all = pairs();
    let ws: Vec<u32> = if cx.thorough { vec![1, 2, 8, 16, 18, 32, 34, 50, 66] } else { vec![2, 18, 34] };
    let mut k = 0usize;
    for set in 0..3 {
        for (i, (sp, sc, sn, dp, dc, dn)) in all.iter().copied().enumerate() {
            for w in &ws {
                if !fits(*w, 2, sp, dp) { continue; }
                let mk = |w: u32, h: u32, (sp, sc, sn, dp, dc, dn): (u32, u32, u32, u32, u32, u32), m: Mode, fit: bool| { let mut s = Scn { set, w: Some(w), h: Some(h), src: Img::new(sp, sc, sn, m), dst: Img::new(dp, dc, dn, m), c_api: false }; if fit { s.src.fit = true; s.dst.fit = true; } s };
                let a = mk(*w, 2, (sp, sc, sn, dp, dc, dn), Mode::Absent, true);
                let n = all.len();
                k += 1;
                // the same conversion of another size, another conversion, and calls that may fail
                v.push(again_job(a.clone(), vec![]));
                v.push(again_job(a.clone(), vec![mk(w + 16, 4, (sp, sc, sn, dp, dc, dn), Mode::Absent, true), mk(2, 2, all[(i * 7 + k) % n], Mode::Absent, true)]));
                v.push(again_job(a.clone(), vec![mk(16, 2, all[(i * 11 + k) % n], Mode::Full, false)]));
                let mut b = mk(8, 2, (sp, sc, sn, dp, dc, dn), Mode::Absent, false);
                b.dst.np = 4;
                b.dst.nbuf = 0;
                b.dst.nstr = 0;
                v.push(again_job(a, vec![b]));
            }
        }
    }
    v
}

fn round_jobs(cx: &Cx) -> Vec<Job> {
    let mut v = vec![];
    let ws: &[(u32, u32)] = if cx.thorough { &[(1, 1), (2, 2), (16, 2), (18, 2), (34, 2), (50, 2), (66, 2)] } else { &[(1, 1), (34, 2)] };
    for set in 0..3 {
        for s in [ARGB, BGRA, BGR] {
            for (mid, np) in [(I444, 3), (I420, 3), (NV12, 1), (NV12, 2)] {
                for d in [RGBA, BGRA, RGB] {
                    if d == RGB && mid != NV12 { continue; }
                    for cs in 1..5 {
                        for (w, h) in ws {
                            if mid != I444 && w % 2 == 1 { continue; }
                            if !cx.thorough && mid != I444 && (s + d + np) % 3 != cs % 3 { continue; }
                            v.push(round_job(set, s, (mid, cs, np), d, *w, *h, if cs >= 3 { [1, 1, 2] } else { [2, 2, 2] }));
                        }
                    }
                }
            }
        }
    }
    v
}

fn uniform_jobs(cx: &Cx) -> Vec<Job> {
    let mut v = vec![];
    // any width and height, the first pixels
    for (sp, sc, sn, dp, dc, dn) in pairs() {
        if is_rgb(sp) == is_rgb(dp) { continue; }
        for set in 0..3 {
            for m in [Mode::Absent, Mode::Wide] {
                if m == Mode::Wide && !cx.thorough && sc.max(dc) > 1 { continue; }
                v.push(uniform_job(Scn { set, w: None, h: None, src: Img::new(sp, sc, sn, m).fit(), dst: Img::new(dp, dc, dn, m).fit(), c_api: false }));
            }
        }
    }
    let ws: Vec<u32> = if cx.thorough { (1..=70).chain([96, 98, 130, 258]).collect() } else { vec![1, 2, 7, 16, 18, 33, 34, 66, 130] };
    for set in 0..3 {
        grid(cx, &ws, if cx.thorough { &[1, 2, 4] } else { &[2, 4] }, &|s, d| is_rgb(s) != is_rgb(d), &[Mode::Absent], &mut |mut s| { s.set = set; if cx.thorough || s.h == Some(2) || s.w.unwrap() % 16 == 2 { v.push(uniform_job(s)); } });
        let ws: Vec<u32> = if cx.thorough { (1..=40).collect() } else { vec![2, 18, 34] };
        grid(cx, &ws, &[2], &|s, d| is_rgb(s) != is_rgb(d), &[Mode::Wide], &mut |mut s| { s.set = set; v.push(uniform_job(s)); });
    }
    v
}
