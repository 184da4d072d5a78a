//! Runs one case (a call of the public API with concrete arguments) against the real code and
//! decides whether what the case expects holds.
//!
//! `replay CASE...`: for each file prints `REPRODUCED file reason` when an expectation fails, or `HOLDS file`.
//! The call runs in a child process, every buffer ends at (or starts after) an inaccessible page.
use dcp::{ColorSpace, ErrorKind, ImageFormat, PixelFormat};
use dcv_color_primitives as dcp;
use std::collections::HashMap;
use std::os::unix::process::ExitStatusExt;
use std::process::Command;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn sigaction(s: i32, a: *const SigAction, old: *mut SigAction) -> i32;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}

#[repr(C)]
struct SigAction { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }

/// Answers of the processor that a case describes: (leaf, sub-leaf, eax, ebx, ecx, edx)
static mut LEAVES: [(u32, u32, u32, u32, u32, u32); 16] = [(0, 0, 0, 0, 0, 0); 16];
static mut XCR0: u64 = 0;
/// Code that is expected to run, or not to: the marks of the copy of this program that has its processor made up
static mut RUNS: u8 = 0;
static mut NOT_RUNS: u8 = 0;
const KINDS: [&str; 5] = ["", "avx2", "sse2", "xgetbv", "x86"];

unsafe fn say(s: &str) { write(1, s.as_ptr(), s.len()); }
unsafe fn marked(kind: u8) -> ! {
    say("ran ");
    say(KINDS[kind as usize]);
    say("\n");
    if NOT_RUNS == kind { say("fail runs code that the processor does not support\n"); }
    else if RUNS != 0 && RUNS != kind { say("fail runs other code than expected\n"); }
    say("done\n");
    _exit(0)
}
/// Invalid instructions of that copy
unsafe extern "C" fn invalid(_: i32, _: *mut u8, context: *mut u8) {
    let r = context.add(40) as *mut u64;
    let (rbx, rdx, rax, rcx, rip) = (r.add(11), r.add(12), r.add(13), r.add(14), r.add(16));
    let at = *rip as *const u8;
    match (*at, *at.add(1), *at.add(2)) {
        (0x0f, 0xff, _) => {
            let (leaf, sub) = (*rax as u32, *rcx as u32);
            let all = &*std::ptr::addr_of!(LEAVES);
            // leaves that have no sub-leaves answer the same for all of them
            let v = all.iter().find(|x| x.0 == leaf && x.1 == sub).or_else(|| all.iter().find(|x| x.0 == leaf && leaf < 2)).copied().unwrap_or_default();
            let v = if leaf > 0 && v.0 == 0 { (0, 0, 0, 0, 0, 0) } else { v };
            *rax = v.2 as u64;
            *rbx = v.3 as u64;
            *rcx = v.4 as u64;
            *rdx = v.5 as u64;
            *rip += 2;
        }
        (0x0f, 0xb9, 0xd0) => {
            let all = &*std::ptr::addr_of!(LEAVES);
            let enabled = all.iter().any(|x| x.0 == 1 && x.4 >> 27 & 1 == 1);
            if !enabled && NOT_RUNS == 3 { marked(3); }
            *rax = XCR0 & 0xffff_ffff;
            *rdx = XCR0 >> 32;
            *rip += 3;
        }
        (0x0f, 0xb9, 0xc0) => marked(1),
        (0x0f, 0xb9, 0xc1) => marked(2),
        _ => { say("error invalid instruction\n"); _exit(8) }
    }
}
/// Takes the processor from the case
fn processor(text: &str, c: &Case) {
    let Some(l) = text.lines().find_map(|l| l.strip_prefix("cpuid=")) else { return };
    let kind = |n: &str| c.expect.iter().find(|e| e[0] == n).map_or(0, |e| KINDS.iter().position(|k| *k == e[1]).unwrap_or(0) as u8);
    unsafe {
        for (i, p) in l.split(' ').filter(|x| !x.is_empty()).enumerate() {
            let n: Vec<u32> = p.split(':').map(|x| x.parse().unwrap()).collect();
            LEAVES[i] = (n[0], n[1], n[2], n[3], n[4], n[5]);
        }
        XCR0 = text.lines().find_map(|l| l.strip_prefix("xcr0=")).map_or(0, |x| x.parse().unwrap());
        RUNS = kind("runs");
        NOT_RUNS = kind("notruns");
        let a = SigAction { handler: invalid as usize, mask: [0; 16], flags: 4, restorer: 0 };
        sigaction(4, &a, std::ptr::null_mut());
    }
}

const PAGE: usize = 4096;
const CAP: u128 = 1 << 34;

/// `len` bytes between two inaccessible pages. Touches the upper one, or the lower one
fn guarded(len: u128, at_end: bool) -> *mut u8 {
    let real = len.min(CAP) as usize;
    let body = (real + PAGE - 1) / PAGE * PAGE;
    unsafe {
        let p = mmap(std::ptr::null_mut(), body + 2 * PAGE, 0, 0x4022, -1, 0);
        if p as isize == -1 { println!("error mmap"); std::process::exit(9); }
        if body > 0 && mprotect(p.add(PAGE), body, 3) != 0 { println!("error mprotect"); std::process::exit(9); }
        if at_end { p.add(PAGE + body - real) } else { p.add(PAGE) }
    }
}

fn pf(v: i64) -> PixelFormat {
    [PixelFormat::Argb, PixelFormat::Bgra, PixelFormat::Bgr, PixelFormat::Rgba, PixelFormat::Rgb, PixelFormat::I444, PixelFormat::I422, PixelFormat::I420, PixelFormat::Nv12][v as usize]
}
fn cs(v: i64) -> ColorSpace { [ColorSpace::Rgb, ColorSpace::Bt601, ColorSpace::Bt709, ColorSpace::Bt601FR, ColorSpace::Bt709FR][v as usize] }
fn res(r: Result<(), ErrorKind>) -> i64 {
    match r { Ok(()) => 0, Err(ErrorKind::InvalidValue) => 1, Err(ErrorKind::InvalidOperation) => 2, Err(ErrorKind::NotEnoughData) => 3 }
}

#[derive(Default, Clone, Debug)]
struct Image {
    fmt: [i64; 3],
    strides: Option<Vec<usize>>,
    lens: Vec<u128>,
}
#[derive(Default, Clone, Debug)]
struct Call {
    api: String,
    set: String,
    w: u32,
    h: u32,
    src: Image,
    dst: Image,
    mid: Image,
    pix: Vec<(usize, usize, u8)>,
    sizes: Vec<usize>,
    null: Vec<String>,
    seed: u64,
    /// Pixels that are not listed are zero
    rest: bool,
}
#[derive(Default, Clone, Debug)]
struct Case {
    calls: Vec<Call>,
    expect: Vec<Vec<String>>,
}

fn parse(text: &str) -> Case {
    let mut c = Case { calls: vec![Call::default()], expect: vec![] };
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') { continue; }
        let Some((k, v)) = l.split_once('=') else { if l == "then" { c.calls.push(Call::default()); } continue };
        let cur = c.calls.last_mut().unwrap();
        let nums = |v: &str| -> Vec<i128> { v.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect() };
        match k {
            "api" => cur.api = v.into(),
            "set" => cur.set = v.into(),
            "w" => cur.w = v.parse().unwrap(),
            "h" => cur.h = v.parse().unwrap(),
            "src" | "dst" => { let n = nums(v); let i = if k == "src" { &mut cur.src } else { &mut cur.dst }; i.fmt = [n[0] as i64, n[1] as i64, n[2] as i64]; }
            "mid" => { let n = nums(v); cur.mid.fmt = [n[0] as i64, n[1] as i64, n[2] as i64]; }
            "src_strides" | "dst_strides" => { let s = if v == "none" { None } else { Some(nums(v).iter().map(|x| *x as usize).collect()) }; if k == "src_strides" { cur.src.strides = s } else { cur.dst.strides = s } }
            "src_lens" | "dst_lens" => { let s = nums(v).iter().map(|x| *x as u128).collect(); if k == "src_lens" { cur.src.lens = s } else { cur.dst.lens = s } }
            "sizes" => cur.sizes = nums(v).iter().map(|x| *x as usize).collect(),
            "null" => cur.null = v.split(',').map(|x| x.to_string()).collect(),
            "rest" => cur.rest = v == "0",
            "seed" => cur.seed = v.parse().unwrap(),
            "pix" => for p in v.split(' ').filter(|x| !x.is_empty()) { let n: Vec<usize> = p.split(':').map(|x| x.parse().unwrap()).collect(); cur.pix.push((n[0], n[1], n[2] as u8)); },
            "expect" => c.expect.push(v.split_whitespace().map(|x| x.to_string()).collect()),
            _ => {}
        }
    }
    c
}

struct Out { ret: i64, err: i64, dst: Vec<(*mut u8, u128)>, sizes: Vec<usize>, text: String }

#[repr(C)]
#[allow(dead_code)]
struct CFormat { pixel_format: i32, color_space: i32, num_planes: u32 }
#[cfg(not(feature = "test_instruction_sets"))]
extern "C" {
    fn dcp_get_buffers_size(width: u32, height: u32, format: *const CFormat, strides: *const usize, buffers_size: *mut usize, error: *mut i32) -> i32;
    fn dcp_convert_image(width: u32, height: u32, sf: *const CFormat, ss: *const usize, sb: *const *const u8, df: *const CFormat, ds: *const usize, db: *const *mut u8, error: *mut i32) -> i32;
}

fn place<T: Copy>(v: &[T], at_end: bool) -> *mut T {
    let p = guarded((v.len() * std::mem::size_of::<T>()) as u128, at_end) as *mut T;
    for (i, x) in v.iter().enumerate() { unsafe { p.add(i).write(*x); } }
    p
}

fn run(c: &Call, fill: u8, at_end: bool) -> Out {
    #[cfg(feature = "test_instruction_sets")]
    dcp::initialize_with_instruction_set(&c.set);
    let mut o = Out { ret: -1, err: -1, dst: vec![], sizes: vec![], text: String::new() };
    let mut x = c.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678;
    let src: Vec<(*mut u8, u128)> = c.src.lens.iter().map(|l| (guarded(*l, at_end), *l)).collect();
    let dst: Vec<(*mut u8, u128)> = c.dst.lens.iter().map(|l| (guarded(*l, at_end), *l)).collect();
    for (p, l) in &src {
        for i in 0..(*l).min(1 << 22) as usize { x ^= x << 13; x ^= x >> 7; x ^= x << 17; unsafe { p.add(i).write(if c.rest { 0 } else { (x >> 24) as u8 }); } }
    }
    for (p, l) in &dst { for i in 0..(*l).min(1 << 26) as usize { unsafe { p.add(i).write(fill); } } }
    for (b, off, v) in &c.pix { if *b < src.len() && (*off as u128) < src[*b].1 { unsafe { src[*b].0.add(*off).write(*v); } } }
    unsafe {
        let ss = c.src.strides.as_ref().map(|s| std::slice::from_raw_parts(place(s, at_end), s.len()));
        let ds = c.dst.strides.as_ref().map(|s| std::slice::from_raw_parts(place(s, at_end), s.len()));
        match c.api.as_str() {
            "convert" => {
                let sb: Vec<&[u8]> = src.iter().map(|(p, l)| std::slice::from_raw_parts(*p as *const u8, *l as usize)).collect();
                let mut db: Vec<&mut [u8]> = dst.iter().map(|(p, l)| std::slice::from_raw_parts_mut(*p, *l as usize)).collect();
                let f = |f: &[i64; 3]| ImageFormat { pixel_format: pf(f[0]), color_space: cs(f[1]), num_planes: f[2] as u32 };
                o.ret = res(dcp::convert_image(c.w, c.h, &f(&c.src.fmt), ss, &sb, &f(&c.dst.fmt), ds, &mut db));
            }
            "roundtrip" => {
                // to YCbCr and back, through packed buffers of the exact size
                let sb: Vec<&[u8]> = src.iter().map(|(p, l)| std::slice::from_raw_parts(*p as *const u8, *l as usize)).collect();
                let mut db: Vec<&mut [u8]> = dst.iter().map(|(p, l)| std::slice::from_raw_parts_mut(*p, *l as usize)).collect();
                let f = |f: &[i64; 3]| ImageFormat { pixel_format: pf(f[0]), color_space: cs(f[1]), num_planes: f[2] as u32 };
                let (w, h) = (c.w as u128, c.h as u128);
                let lens: Vec<u128> = match (c.mid.fmt[0], c.mid.fmt[2]) { (5, _) => vec![w * h; 3], (7, _) => vec![w * h, w * h / 4, w * h / 4], (8, 1) => vec![w * h * 3 / 2], (8, _) => vec![w * h, w * h / 2], _ => vec![] };
                let mid: Vec<(*mut u8, usize)> = lens.iter().map(|l| (guarded(*l, at_end), *l as usize)).collect();
                let mut mb: Vec<&mut [u8]> = mid.iter().map(|(p, l)| std::slice::from_raw_parts_mut(*p, *l)).collect();
                o.ret = res(dcp::convert_image(c.w, c.h, &f(&c.src.fmt), None, &sb, &f(&c.mid.fmt), None, &mut mb));
                if o.ret == 0 {
                    let mb: Vec<&[u8]> = mid.iter().map(|(p, l)| std::slice::from_raw_parts(*p as *const u8, *l)).collect();
                    o.ret = res(dcp::convert_image(c.w, c.h, &f(&c.mid.fmt), None, &mb, &f(&c.dst.fmt), None, &mut db));
                }
            }
            "size" => {
                let n = c.sizes.len();
                let p = place(&c.sizes, at_end);
                let f = ImageFormat { pixel_format: pf(c.src.fmt[0]), color_space: cs(c.src.fmt[1]), num_planes: c.src.fmt[2] as u32 };
                o.ret = res(dcp::get_buffers_size(c.w, c.h, &f, ss, std::slice::from_raw_parts_mut(p, n)));
                o.sizes = std::slice::from_raw_parts(p, n).to_vec();
            }
            "describe" => o.text = dcp::describe_acceleration(),
            #[cfg(not(feature = "test_instruction_sets"))]
            "cconvert" | "csize" => {
                let is = |n: &str| c.null.iter().any(|x| x == n);
                let fm = |f: &[i64; 3]| { let v = [CFormat { pixel_format: f[0] as i32, color_space: f[1] as i32, num_planes: f[2] as u32 }]; let p = guarded(12, at_end) as *mut CFormat; let [a] = v; p.write_unaligned(a); p as *const CFormat };
                let e = [77i32];
                let e = place(&e, at_end);
                let ep = if is("error") { std::ptr::null_mut() } else { e };
                let sp = ss.map_or(std::ptr::null(), |s| s.as_ptr());
                let dp = ds.map_or(std::ptr::null(), |s| s.as_ptr());
                let sf = if is("src_format") { std::ptr::null() } else { fm(&c.src.fmt) };
                if c.api == "csize" {
                    let n = c.sizes.len();
                    let p = place(&c.sizes, at_end);
                    o.ret = dcp_get_buffers_size(c.w, c.h, sf, sp, if is("sizes") { std::ptr::null_mut() } else { p }, ep) as i64;
                    o.sizes = std::slice::from_raw_parts(p, n).to_vec();
                } else {
                    let df = if is("dst_format") { std::ptr::null() } else { fm(&c.dst.fmt) };
                    let sb: Vec<*const u8> = src.iter().enumerate().map(|(i, x)| if is(&format!("src{i}")) { std::ptr::null() } else { x.0 as *const u8 }).collect();
                    let db: Vec<*mut u8> = dst.iter().enumerate().map(|(i, x)| if is(&format!("dst{i}")) { std::ptr::null_mut() } else { x.0 }).collect();
                    let (sb, db) = (place(&sb, at_end), place(&db, at_end));
                    o.ret = dcp_convert_image(c.w, c.h, sf, sp, if is("src_buffers") { std::ptr::null() } else { sb }, df, dp, if is("dst_buffers") { std::ptr::null() } else { db }, ep) as i64;
                }
                o.err = *e as i64;
            }
            x => { println!("error api {x}"); std::process::exit(9); }
        }
    }
    o.dst = dst;
    o
}

fn at(o: &Out, b: usize, off: usize) -> u8 { if b < o.dst.len() && (off as u128) < o.dst[b].1.min(CAP) { unsafe { o.dst[b].0.add(off).read() } } else { 0 } }
fn snap(o: &Out) -> Vec<Vec<u8>> { o.dst.iter().map(|(p, l)| unsafe { std::slice::from_raw_parts(*p, (*l).min(1 << 26) as usize).to_vec() }).collect() }

/// In the child: prints the expectations that fail
fn child(case: &Case, at_end: bool) {
    unsafe { alarm(60); }
    std::panic::set_hook(Box::new(|i| println!("panic {}", i.to_string().replace('\n', " "))));
    let n = case.calls.len();
    let last = &case.calls[n - 1];
    let go = |fill: u8| -> Out {
        for c in &case.calls[..n - 1] { let _ = std::panic::catch_unwind(|| run(c, 0x33, at_end)); }
        match std::panic::catch_unwind(|| run(last, fill, at_end)) { Ok(o) => o, Err(_) => std::process::exit(4) }
    };
    let a = go(0xA5);
    let b = go(0x5A);
    println!("ret {} err {} text {}", a.ret, a.err, a.text);
    let mut bad = |s: String| println!("fail {s}");
    if a.ret != b.ret { bad(format!("the result differs between two runs: {} and {}", a.ret, b.ret)); }
    for e in &case.expect {
        let n = |i: usize| -> i128 { e[i].parse().unwrap() };
        match e[0].as_str() {
            "ret" => if e[1..].iter().all(|x| x.parse::<i64>().unwrap() != a.ret) { bad(format!("returns {} instead of {}", a.ret, e[1..].join(" or "))); },
            "err" => if n(1) as i64 != a.err { bad(format!("error is {} instead of {}", a.err, e[1])); },
            "written" | "untouched" => {
                let (k, off) = (n(1) as usize, n(2) as usize);
                let w = at(&a, k, off) != 0xA5 || at(&b, k, off) != 0x5A;
                if w != (e[0] == "written") { bad(format!("destination buffer {k} offset {off} is {}", if w { "written" } else { "not written" })); }
            }
            "nowrites" => for (k, (s, t)) in snap(&a).iter().zip(snap(&b).iter()).enumerate() {
                if let Some(i) = (0..s.len()).find(|i| s[*i] != 0xA5 || t[*i] != 0x5A) { bad(format!("destination buffer {k} offset {i} is written")); }
            },
            "byte" => {
                let (k, off) = (n(1) as usize, n(2) as usize);
                for v in [at(&a, k, off), at(&b, k, off)] { if (v as i128) < n(3) || (v as i128) > n(4) { bad(format!("destination buffer {k} offset {off} is {v}, not in {}..={}", e[3], e[4])); break; } }
            }
            "eqbytes" => { let (k, i, k2, j) = (n(1) as usize, n(2) as usize, n(3) as usize, n(4) as usize); if at(&a, k, i) != at(&a, k2, j) { bad(format!("bytes {i} and {j} are {} and {}", at(&a, k, i), at(&a, k2, j))); } }
            "size" => if a.sizes.get(n(1) as usize).copied() != Some(n(2) as usize) { bad(format!("size {} is {:?} instead of {}", e[1], a.sizes.get(n(1) as usize), e[2])); },
            "text" => { let want = e[1..].join(" "); if a.text != want { bad(format!("text is {} instead of {want}", a.text)); } }
            "hastext" => { let want = e[1..].join(" "); if !a.text.contains(&want) { bad(format!("text is {}", a.text)); } }
            // no marked code has run
            "runs" => if e[1] != "x86" { bad(format!("does not run {} code", e[1])); },
            "notruns" => {}
            "nottext" => { let want = e[1..].join(" "); if a.text.contains(&want) { bad(format!("text is {}", a.text)); } }
            "same" => {
                // the same call with another instruction set
                let mut c2 = last.clone();
                c2.set = e[1].clone();
                let o = run(&c2, 0xA5, at_end);
                if o.ret != a.ret { bad(format!("{} returns {}, {} returns {}", last.set, a.ret, e[1], o.ret)); }
                for (k, (s, t)) in snap(&a).iter().zip(snap(&o).iter()).enumerate() { if let Some(i) = (0..s.len()).find(|i| s[*i] != t[*i]) { bad(format!("buffer {k} offset {i}: {} gives {}, {} gives {}", last.set, s[i], e[1], t[i])); } }
            }
            "same_api" => {
                // the same call through the other interface
                let mut c2 = last.clone();
                c2.api = e[1].clone();
                let o = run(&c2, 0xA5, at_end);
                let (x, y) = (if a.ret == 0 { 0 } else if last.api.starts_with('c') && last.api != "convert" { a.err + 1 } else { a.ret }, if o.ret == 0 { 0 } else if e[1].starts_with('c') && e[1] != "convert" { o.err + 1 } else { o.ret });
                if x != y { bad(format!("outcomes {x} and {y}")); }
                for (k, (s, t)) in snap(&a).iter().zip(snap(&o).iter()).enumerate() { if let Some(i) = (0..s.len()).find(|i| s[*i] != t[*i]) { bad(format!("buffer {k} offset {i}: {} and {}", s[i], t[i])); } }
                if a.sizes != o.sizes { bad(format!("sizes {:?} and {:?}", a.sizes, o.sizes)); }
            }
            "alone" => {
                // compared by the parent: the last call in a process of its own
                let h: String = snap(&a).iter().chain(snap(&b).iter()).map(|s| format!("{:x}", s.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01b3)))).collect();
                println!("digest {} {} {:?} {h}", a.ret, a.err, a.sizes);
            }
            x => { println!("error expectation {x}"); std::process::exit(9); }
        }
    }
    println!("done");
}

fn judge(file: &str, at_end: bool, only_last: bool) -> (Result<Option<String>, String>, String) {
    let o = Command::new(std::env::current_exe().unwrap()).args(["--child", if at_end { "end" } else { "start" }, if only_last { "last" } else { "all" }, file]).output().unwrap();
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let digest = text.lines().find(|l| l.starts_with("digest")).unwrap_or("").to_string();
    if let Some(s) = o.status.signal() { return (Ok(Some(format!("the process is ended by signal {s}{}", if s == 11 || s == 7 { " (access outside of the buffers)" } else { "" }))), digest); }
    if let Some(l) = text.lines().find(|l| l.starts_with("panic")) { return (Ok(Some(l.to_string())), digest); }
    if let Some(l) = text.lines().find(|l| l.starts_with("error")) { return (Err(l.to_string()), digest); }
    if let Some(l) = text.lines().find(|l| l.starts_with("fail")) { return (Ok(Some(l.to_string())), digest); }
    if !text.contains("done") { return (Err(format!("no answer, status {:?}", o.status.code())), digest); }
    (Ok(None), digest)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map_or(false, |x| x == "--child") {
        let text = std::fs::read_to_string(&a[4]).unwrap();
        let mut c = parse(&text);
        processor(&text, &c);
        if a[3] == "last" { let l = c.calls.pop().unwrap(); c.calls = vec![l]; }
        child(&c, a[2] == "end");
        return;
    }
    if a.get(1).map_or(false, |x| x == "--describe") { println!("{}", dcp::describe_acceleration()); return; }
    let _unused: HashMap<u8, u8> = HashMap::new();
    let mut code = 0;
    for f in &a[1..] {
        let c = parse(&std::fs::read_to_string(f).unwrap());
        let mut r = None;
        let mut err = None;
        for at_end in [true, false] {
            let (x, d) = judge(f, at_end, false);
            match x {
                Ok(Some(s)) => { r = Some(s); break; }
                Ok(None) => {}
                Err(e) => err = Some(e),
            }
            if c.expect.iter().any(|e| e[0] == "alone") {
                let (_, d2) = judge(f, at_end, true);
                if d != d2 { r = Some(format!("the outcome after other calls, {d}, is not the outcome of the call alone, {d2}")); break; }
            }
        }
        match (r, err) {
            (Some(s), _) => { println!("REPRODUCED {f} {s}"); code = code.max(1); }
            (None, Some(e)) => { println!("ERROR {f} {e}"); code = 2; }
            (None, None) => println!("HOLDS {f}"),
        }
    }
    std::process::exit(code);
}
