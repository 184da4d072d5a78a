//! What the bytes of the destination should be: the real-valued ITU equations.
use crate::exec::*;
use crate::props::{Chk, Model};
use crate::scen::*;
use crate::term::*;
use std::collections::HashMap;

/// den * byte is within tol of num (clamped to the range of a byte), whenever `given` holds
pub struct Spec {
    pub label: String,
    pub num: T,
    pub den: i128,
    pub tol: i128,
    pub given: Vec<B>,
}

impl Spec {
    pub fn violated(&self, ex: &mut Ex, got: T) -> B {
        let c = &mut ex.c;
        let g = c.scale(got, self.den);
        let lo = c.addk(g, self.tol);
        let hi = c.addk(g, -self.tol);
        let below = c.lt(lo, self.num);
        let above = c.lt(self.num, hi);
        let (k0, k255) = (c.zero, c.k(255));
        let (nf, nz) = (c.lt(got, k255), c.lt(k0, got));
        let x = c.and(&[below, nf]);
        let y = c.and(&[above, nz]);
        c.or(&[x, y])
    }
    /// Values the specification allows
    pub fn interval(&self, ex: &Ex, m: &Model) -> (i128, i128) {
        let n = ex.c.eval(self.num, m, &mut HashMap::new());
        let ok: Vec<i128> = (0..256).filter(|v| !((self.den * v + self.tol < n && *v < 255) || (self.den * v - self.tol > n && *v > 0))).collect();
        (ok.first().copied().unwrap_or(-1), ok.last().copied().unwrap_or(-1))
    }
}

/// Kr, Kg, Kb in ten thousandths
pub fn luma(cs: u32) -> (i128, i128, i128) { if cs == 1 || cs == 3 { (2990, 5870, 1140) } else { (2126, 7152, 722) } }
pub fn full_range(cs: u32) -> bool { cs >= 3 }

/// Offsets of R, G, B in a pixel
pub fn channels(pf: u32) -> [i128; 3] { match pf { ARGB => [1, 2, 3], BGRA | BGR => [2, 1, 0], _ => [0, 1, 2] } }
pub fn alpha(pf: u32) -> Option<i128> { match pf { ARGB => Some(0), BGRA | RGBA => Some(3), _ => None } }

fn at(ex: &mut Ex, sy: &ImgSym, plane: usize, x: i128, y: i128) -> T { let z = ex.c.zero; at_row(ex, sy, plane, x, z, y) }
/// Byte x of row first + y
fn at_row(ex: &mut Ex, sy: &ImgSym, plane: usize, x: i128, first: T, y: i128) -> T {
    let p = sy.planes[plane].clone();
    let r = ex.c.addk(first, y);
    let t = match ex.c.as_const(r) { Some(k) => ex.c.scale(p.stride, k), None => { let m = ex.c.mul(p.stride, first); let t = ex.c.scale(p.stride, y); ex.c.add(m, t) } };
    let t = ex.c.addk(t, x);
    let n = format!("src{}", p.buf);
    ex.pixel(p.obj, &n, t)
}
pub fn rgb_at(ex: &mut Ex, sc: &Scn, call: &Call, x: i128, y: i128) -> [T; 3] {
    let d = depth(sc.src.pf);
    channels(sc.src.pf).map(|o| at(ex, &call.src, 0, x * d + o, y))
}
/// Y, Cb, Cr of a pixel of the source
pub fn ycc_at(ex: &mut Ex, sc: &Scn, call: &Call, x: i128, y: i128) -> [T; 3] {
    let (cx, cy) = match sc.src.pf { I444 => (x, y), I422 => (x / 2, y), _ => (x / 2, y / 2) };
    let l = at(ex, &call.src, 0, x, y);
    if sc.src.pf == NV12 {
        let (p, r) = if sc.src.np == 1 { (0, call.h) } else { (1, ex.c.zero) };
        [l, at_row(ex, &call.src, p, 2 * cx, r, cy), at_row(ex, &call.src, p, 2 * cx + 1, r, cy)]
    } else { [l, at(ex, &call.src, 1, cx, cy), at(ex, &call.src, 2, cx, cy)] }
}

fn lin(c: &mut Ctx, k: i128, v: &[(i128, T)]) -> T {
    let mut s = c.k(k);
    for (q, t) in v { let x = c.scale(*t, *q); s = c.add(s, x); }
    s
}

/// (numerator, denominator) of Y, Cb or Cr of the sums of n pixels
pub fn forward(c: &mut Ctx, cs: u32, comp: usize, rgb: [T; 3], n: i128) -> (T, i128) {
    let (kr, kg, kb) = luma(cs);
    let fr = full_range(cs);
    let (ys, yo, cscale) = if fr { (255, 0, 255) } else { (219, 16, 224) };
    let m = 10000;
    match comp {
        0 => { let den = 255 * m * n; (lin(c, yo * den, &[(ys * kr, rgb[0]), (ys * kg, rgb[1]), (ys * kb, rgb[2])]), den) }
        1 => { let den = 255 * 2 * (m - kb) * n; (lin(c, 128 * den, &[(-cscale * kr, rgb[0]), (-cscale * kg, rgb[1]), (cscale * (m - kb), rgb[2])]), den) }
        _ => { let den = 255 * 2 * (m - kr) * n; (lin(c, 128 * den, &[(cscale * (m - kr), rgb[0]), (-cscale * kg, rgb[1]), (-cscale * kb, rgb[2])]), den) }
    }
}

/// (numerator, denominator) of R, G or B
pub fn backward(c: &mut Ctx, cs: u32, comp: usize, y: [T; 3]) -> (T, i128) {
    let (kr, kg, kb) = luma(cs);
    let fr = full_range(cs);
    let (ys, yo, cscale) = if fr { (255, 0, 255) } else { (219, 16, 224) };
    let m = 10000;
    // component = 255/ys (Y - yo) + 255/cscale * coefficient * (C - 128)
    match comp {
        0 => { let den = ys * cscale * m; let q = 255 * ys * 2 * (m - kr); (lin(c, -255 * cscale * m * yo - q * 128, &[(255 * cscale * m, y[0]), (q, y[2])]), den) }
        2 => { let den = ys * cscale * m; let q = 255 * ys * 2 * (m - kb); (lin(c, -255 * cscale * m * yo - q * 128, &[(255 * cscale * m, y[0]), (q, y[1])]), den) }
        _ => {
            let den = ys * cscale * m * kg;
            let (qb, qr) = (255 * ys * 2 * (m - kb) * kb, 255 * ys * 2 * (m - kr) * kr);
            (lin(c, -255 * cscale * m * kg * yo + (qb + qr) * 128, &[(255 * cscale * m * kg, y[0]), (-qb, y[1]), (-qr, y[2])]), den)
        }
    }
}

/// Tolerances, in thousandths of a level
pub const TOL_Y: i128 = 510;
pub const TOL_C: i128 = 510;
pub const TOL_C4: i128 = 510;
pub const TOL_RGB: i128 = 550;

/// What byte x of row y of a buffer of the destination must be
pub fn expected(ex: &mut Ex, sc: &Scn, call: &Call, plane: usize, x: i128, y: i128, h: i128, chk: Chk) -> Vec<Spec> {
    let mut v = vec![];
    let exact = |ex: &mut Ex, label: &str, t: T| { let _ = ex; Spec { label: label.into(), num: t, den: 1, tol: 0, given: vec![] } };
    let names = ["luma", "cb", "cr"];
    if is_rgb(sc.dst.pf) {
        let d = depth(sc.dst.pf);
        let (px, o) = (x / d, x % d);
        if alpha(sc.dst.pf) == Some(o) { let k = ex.c.k(255); v.push(exact(ex, "alpha", k)); return v; }
        let ch = channels(sc.dst.pf).iter().position(|k| *k == o).unwrap();
        let label = ["red", "green", "blue"][ch];
        if is_rgb(sc.src.pf) { let t = rgb_at(ex, sc, call, px, y)[ch]; v.push(exact(ex, label, t)); return v; }
        let ycc = ycc_at(ex, sc, call, px, y);
        if chk.values { let (num, den) = backward(&mut ex.c, sc.src.cs, ch, ycc); v.push(Spec { label: label.into(), num, den, tol: den * TOL_RGB / 1000, given: vec![] }); }
        if chk.grey {
            // neutral chroma: a grey; black and white are exact
            let k = ex.c.k(128);
            let g = vec![ex.c.eq(ycc[1], k), ex.c.eq(ycc[2], k)];
            let (b, w) = if full_range(sc.src.cs) { (0, 255) } else { (16, 235) };
            for (l, out, n) in [(b, 0, "black"), (w, 255, "white")] {
                let kl = ex.c.k(l);
                let mut given = g.clone();
                given.push(ex.c.eq(ycc[0], kl));
                let num = ex.c.k(out);
                v.push(Spec { label: format!("{label} of {n}"), num, den: 1, tol: 0, given });
            }
        }
        return v;
    }
    // to a luma or chroma plane
    let (comp, cx, cy, sub) = match sc.dst.pf {
        I444 => (plane, x, y, false),
        I420 => (plane, x, y, plane > 0),
        _ => if (sc.dst.np == 1 && y < h) || (sc.dst.np == 2 && plane == 0) { (0, x, y, false) } else { (1 + (x % 2) as usize, x / 2, if sc.dst.np == 1 { y - h } else { y }, true) },
    };
    let px: Vec<[T; 3]> = if sub { [(0, 0), (1, 0), (0, 1), (1, 1)].iter().map(|(i, j)| rgb_at(ex, sc, call, 2 * cx + i, 2 * cy + j)).collect() } else { vec![rgb_at(ex, sc, call, cx, cy)] };
    if chk.values {
        let mut s = px[0];
        for q in &px[1..] { for i in 0..3 { s[i] = ex.c.add(s[i], q[i]); } }
        let (num, den) = forward(&mut ex.c, sc.dst.cs, comp, s, px.len() as i128);
        let tol = if comp == 0 { TOL_Y } else if sub { TOL_C4 } else { TOL_C };
        v.push(Spec { label: names[comp].into(), num, den, tol: den * tol / 1000, given: vec![] });
    }
    if chk.grey {
        let mut given = vec![];
        for q in &px { given.push(ex.c.eq(q[0], q[1])); given.push(ex.c.eq(q[1], q[2])); }
        if comp > 0 { let num = ex.c.k(128); v.push(Spec { label: format!("{} of a grey", names[comp]), num, den: 1, tol: 0, given }); }
        else {
            let (b, w) = if full_range(sc.dst.cs) { (0, 255) } else { (16, 235) };
            for (l, out, n) in [(0, b, "black"), (255, w, "white")] {
                let k = ex.c.k(l);
                let mut g = given.clone();
                g.push(ex.c.eq(px[0][0], k));
                let num = ex.c.k(out);
                v.push(Spec { label: format!("luma of {n}"), num, den: 1, tol: 0, given: g });
            }
        }
    }
    v
}
