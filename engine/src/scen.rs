//! Scenarios: calls of the public API with concrete or symbolic arguments.
use crate::exec::*;
use crate::ir::Type;
use crate::term::*;
use std::fmt::Write as _;
use std::rc::Rc;

pub const ARGB: u32 = 0;
pub const BGRA: u32 = 1;
pub const BGR: u32 = 2;
pub const RGBA: u32 = 3;
pub const RGB: u32 = 4;
pub const I444: u32 = 5;
pub const I422: u32 = 6;
pub const I420: u32 = 7;
pub const NV12: u32 = 8;
pub const PF_NAME: [&str; 9] = ["Argb", "Bgra", "Bgr", "Rgba", "Rgb", "I444", "I422", "I420", "Nv12"];
pub const CS_NAME: [&str; 5] = ["Rgb", "Bt601", "Bt709", "Bt601FR", "Bt709FR"];
pub const SET_NAME: [&str; 3] = ["x86", "sse2", "avx2"];

pub fn is_rgb(pf: u32) -> bool { pf < 5 }
pub fn depth(pf: u32) -> i128 { match pf { ARGB | BGRA | RGBA => 4, BGR | RGB => 3, _ => 1 } }
/// Valid numbers of planes
pub fn planes_ok(pf: u32, n: u32) -> bool {
    match pf { ARGB | BGRA | BGR | RGBA | RGB => n == 1, I444 | I422 | I420 => n == 3, _ => n == 1 || n == 2 }
}
pub fn dims_mult(pf: u32) -> (i128, i128) { match pf { I422 => (2, 1), I420 | NV12 => (2, 2), _ => (1, 1) } }

/// The 67 conversions that exist: (src format, src color space, dst format, dst color space)
pub fn conversions() -> Vec<(u32, u32, u32, u32)> {
    let mut v = vec![(BGR, 0, RGB, 0), (BGRA, 0, RGB, 0), (RGB, 0, BGRA, 0)];
    for s in [ARGB, BGRA, BGR] { for d in [I444, I420, NV12] { for c in 1..5 { v.push((s, 0, d, c)); } } }
    for s in [I444, I420] { for d in [RGBA, BGRA] { for c in 1..5 { v.push((s, c, d, 0)); } } }
    for d in [RGBA, BGRA, RGB] { for c in 1..5 { v.push((NV12, c, d, 0)); } }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Mode {
    /// No strides passed
    Absent,
    /// Explicit zeros
    Zero,
    /// Any value but zero
    Any,
    /// Any value not less than the length of a row
    Wide,
    /// Any value, zero included
    Full,
    /// As Wide, for the first plane only: the others pass zero
    WideFirst,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Img {
    pub pf: u32,
    pub cs: u32,
    pub np: u32,
    pub mode: Mode,
    /// Entries of the stride array and of the buffer array
    pub nstr: usize,
    pub nbuf: usize,
    /// Buffers are assumed large enough
    pub fit: bool,
    /// Buffers have exactly the bytes that the layout takes
    pub exact: bool,
}
impl Img {
    pub fn new(pf: u32, cs: u32, np: u32, mode: Mode) -> Img { Img { pf, cs, np, mode, nstr: np as usize, nbuf: np as usize, fit: false, exact: false } }
    pub fn exact(mut self) -> Img { self.exact = true; self }
    pub fn fit(mut self) -> Img { self.fit = true; self }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Scn {
    pub set: u32,
    /// None: symbolic
    pub w: Option<u32>,
    pub h: Option<u32>,
    pub src: Img,
    pub dst: Img,
    pub c_api: bool,
}

impl Scn {
    pub fn name(&self) -> String {
        let d = |x: Option<u32>| x.map_or("*".to_string(), |v| v.to_string());
        let mut e = String::new();
        for (t, i) in [("source", &self.src), ("destination", &self.dst)] {
            if i.nstr != i.np as usize { let _ = write!(e, " {t} strides: {}", i.nstr); }
            if i.nbuf != i.np as usize { let _ = write!(e, " {t} buffers: {}", i.nbuf); }
        }
        format!("{}/{}{}x{}: {}{}({}) -> {}{}({}) strides {:?}/{:?}{e}", SET_NAME[self.set as usize], if self.c_api { "c-api " } else { "" }, d(self.w), d(self.h),
            PF_NAME[self.src.pf as usize], self.src.np, CS_NAME[self.src.cs as usize], PF_NAME[self.dst.pf as usize], self.dst.np, CS_NAME[self.dst.cs as usize], self.src.mode, self.dst.mode)
    }
}

/// A plane of an image as the documentation lays it out
#[derive(Clone, Debug)]
pub struct Plane {
    /// Index of the buffer, its object and the offset of the first row
    pub buf: usize,
    pub obj: u32,
    pub start: T,
    pub stride: T,
    /// Bytes in a row and number of rows
    pub row: T,
    pub rows: T,
}

/// What the arguments of one image became
#[derive(Clone)]
pub struct ImgSym {
    pub strides: Vec<T>,
    pub lens: Vec<T>,
    pub objs: Vec<u32>,
    pub planes: Vec<Plane>,
    /// Effective strides
    pub eff: Vec<T>,
}

#[derive(Clone)]
pub struct Call {
    pub w: T,
    pub h: T,
    pub src: ImgSym,
    pub dst: ImgSym,
    pub err: Option<u32>,
}

pub const USIZE: i128 = (1 << 64) - 1;
pub const ISIZE: i128 = (1 << 63) - 1;

fn usizes(ex: &mut Ex, st: &mut State, v: &[T]) -> V {
    let mut b = vec![];
    for t in v { let _ = ex.to_bytes(&Type::Int(64), &V::I(*t), &mut b); }
    let o = ex.alloc(st, b);
    V::P(o, ex.c.zero)
}

/// Row bytes of plane `i`, and number of rows
pub fn plane_dims(c: &mut Ctx, pf: u32, np: u32, i: usize, w: T, h: T) -> (T, T) {
    let (w2, h2) = (c.div(w, 1), c.div(h, 1));
    match pf {
        I444 => (w, h),
        I422 => if i == 0 { (w, h) } else { (w2, h) },
        I420 => if i == 0 { (w, h) } else { (w2, h2) },
        NV12 => if np == 1 { (w, c.add(h, h2)) } else if i == 0 { (w, h) } else { (w, h2) },
        _ => (c.scale(w, depth(pf)), h),
    }
}

/// What an image takes from calls made before
#[derive(Clone, Default)]
pub struct Given {
    pub lens: Option<Vec<T>>,
    pub objs: Option<Vec<u32>>,
    pub strides: Option<Vec<T>>,
}
impl Given {
    /// The same memory, with the same layout
    pub fn again(s: &ImgSym) -> Given { Given { lens: Some(s.lens.clone()), objs: Some(s.objs.clone()), strides: Some(s.strides.clone()) } }
    /// The same layout, other memory
    pub fn layout(s: &ImgSym) -> Given { Given { lens: Some(s.lens.clone()), objs: None, strides: Some(s.strides.clone()) } }
}

fn image(ex: &mut Ex, st: &mut State, tag: &str, im: &Img, w: T, h: T, src: bool, c_api: bool, giv: &Given) -> (ImgSym, V, V) {
    let mut s = ImgSym { strides: vec![], lens: vec![], objs: vec![], planes: vec![], eff: vec![] };
    if let Some(v) = &giv.strides { s.strides = v.clone(); }
    for i in 0..im.nstr {
        if giv.strides.is_some() { break; }
        let t = match im.mode {
            Mode::Absent => break,
            Mode::Zero => ex.c.zero,
            Mode::Any => ex.c.sym(&format!("{tag}_stride{i}"), 1, USIZE, true),
            Mode::Full => ex.c.sym(&format!("{tag}_stride{i}"), 0, USIZE, true),
            Mode::WideFirst if i > 0 => ex.c.zero,
            Mode::Wide | Mode::WideFirst => {
                let (row, _) = plane_dims(&mut ex.c, im.pf, im.np, i, w, h);
                let lo = ex.c.konst(row).unwrap_or(1).max(1);
                let t = ex.c.sym(&format!("{tag}_stride{i}"), lo, USIZE, true);
                if ex.c.konst(row).is_none() { let b = ex.c.le(row, t); st.env = ex.c.assume(&st.env, b); }
                t
            }
        };
        s.strides.push(t);
    }
    // documented layout
    let nplanes = im.np.min(3) as usize;
    if planes_ok(im.pf, im.np) {
        for i in 0..nplanes {
            let (row, rows) = plane_dims(&mut ex.c, im.pf, im.np, i, w, h);
            let stride = match (im.mode, s.strides.get(i).copied()) {
                (Mode::Absent | Mode::Zero, _) | (_, None) => row,
                (Mode::Full, Some(t)) => { let z = ex.c.zero; let b = ex.c.eq(t, z); ex.c.ite(b, row, t) }
                (Mode::WideFirst, Some(_)) if i > 0 => row,
                (_, Some(t)) => t,
            };
            s.eff.push(stride);
            if i < im.nbuf { s.planes.push(Plane { buf: i, obj: 0, start: ex.c.zero, stride, row, rows }); }
        }
    }
    for i in 0..im.nbuf {
        let len = if let Some(l) = &giv.lens { l[i] }
            else if im.exact && i < s.planes.len() {
                let p = s.planes[i].clone();
                let n = need(&mut ex.c, &p);
                let m = ex.c.k(ISIZE);
                let b = ex.c.le(n, m);
                st.env = ex.c.assume(&st.env, b);
                n
            } else if c_api { ex.c.k(ISIZE) } else { ex.c.sym(&format!("{tag}_len{i}"), 0, ISIZE, true) };
        s.lens.push(len);
        let o = match &giv.objs { Some(o) => o[i], None => ex.alloc_buf(st, &format!("{tag}{i}"), len, src) };
        s.objs.push(o);
        if let Some(p) = s.planes.get_mut(i) { p.obj = o; }
    }
    if im.fit {
        for p in s.planes.clone() {
            let n = need(&mut ex.c, &p);
            let b = ex.c.le(n, s.lens[p.buf]);
            st.env = ex.c.assume(&st.env, b);
        }
    }
    // &[&[u8]], or an array of pointers
    let mut b = vec![];
    for i in 0..im.nbuf {
        let z = ex.c.zero;
        let _ = ex.to_bytes(&Type::Ptr, &V::P(s.objs[i], z), &mut b);
        if !c_api { let _ = ex.to_bytes(&Type::Int(64), &V::I(s.lens[i]), &mut b); }
    }
    let bo = ex.alloc(st, b);
    let bp = V::P(bo, ex.c.zero);
    let sp = if im.mode == Mode::Absent { V::P(0, ex.c.zero) } else { let v = s.strides.clone(); usizes(ex, st, &v) };
    (s, sp, bp)
}

/// Bytes that the buffer of a plane must have
pub fn need(c: &mut Ctx, p: &Plane) -> T {
    let r = c.addk(p.rows, -1);
    let m = c.mul(p.stride, r);
    let n = c.add(m, p.row);
    if c.as_const(p.rows) == Some(0) { c.zero } else { n }
}

/// State at the entry of a conversion
pub fn setup(ex: &mut Ex, sc: &Scn) -> (State, Call) {
    ex.cpu = Cpu::Set(sc.set);
    let mut st = ex.state();
    let call = enter(ex, &mut st, sc, None, &Given::default(), &Given::default());
    (st, call)
}

/// Enters a conversion in a state without activations
pub fn enter(ex: &mut Ex, st: &mut State, sc: &Scn, dims: Option<(T, T)>, gs: &Given, gd: &Given) -> Call {
    let w = match sc.w { Some(k) => ex.c.k(k as i128), None => ex.c.sym("w", 0, p2(32) - 1, true) };
    let h = match sc.h { Some(k) => ex.c.k(k as i128), None => ex.c.sym("h", 0, p2(32) - 1, true) };
    let (w, h) = dims.unwrap_or((w, h));
    let (si, ssp, sbp) = image(ex, st, "src", &sc.src, w, h, true, sc.c_api, gs);
    let (di, dsp, dbp) = image(ex, st, "dst", &sc.dst, w, h, false, sc.c_api, gd);
    let ki = |ex: &mut Ex, x: u32| ex.kint(x as u128);
    let mut err = None;
    let args = if sc.c_api {
        let fm = |ex: &mut Ex, st: &mut State, im: &Img| {
            let mut b = vec![];
            for x in [im.pf, im.cs, im.np] { let v = ex.kint(x as u128); let _ = ex.to_bytes(&Type::Int(32), &v, &mut b); }
            let o = ex.alloc(st, b);
            V::P(o, ex.c.zero)
        };
        let (f1, f2) = (fm(ex, st, &sc.src), fm(ex, st, &sc.dst));
        let e = ex.alloc(st, vec![V::Undef; 4]);
        err = Some(e);
        vec![V::I(w), V::I(h), f1, ssp, sbp, f2, dsp, dbp, V::P(e, ex.c.zero)]
    } else {
        vec![
            V::I(w), V::I(h),
            ki(ex, sc.src.pf), ki(ex, sc.src.cs), ki(ex, sc.src.np), ssp, ki(ex, si.strides.len() as u32), sbp, ki(ex, sc.src.nbuf as u32),
            ki(ex, sc.dst.pf), ki(ex, sc.dst.cs), ki(ex, sc.dst.np), dsp, ki(ex, di.strides.len() as u32), dbp, ki(ex, sc.dst.nbuf as u32),
        ]
    };
    let f = ex.p.func(if sc.c_api { "h_c_convert" } else { "h_convert" }).expect("harness entry");
    ex.call(st, f, args, None).map_err(|e| format!("{e:?}")).unwrap();
    Call { w, h, src: si, dst: di, err }
}

pub fn err_name(k: i128) -> &'static str { match k { 0 => "Ok", 1 => "InvalidValue", 2 => "InvalidOperation", 3 => "NotEnoughData", _ => "?" } }
pub fn ret_int(ex: &mut Ex, v: &V) -> Option<i128> { let t = ex.int(v).ok()?; ex.c.konst(t) }
pub fn rc<TT>(t: TT) -> Rc<TT> { Rc::new(t) }
