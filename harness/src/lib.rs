//! Entry points of the symbolic executor: the public API with plain scalars as arguments,
//! so that the layout of the crate's types is decided by the compiler.
use dcv_color_primitives as dcp;
use dcp::{ColorSpace, ErrorKind, ImageFormat, PixelFormat};

fn pf(v: u32) -> PixelFormat {
    match v {
        0 => PixelFormat::Argb,
        1 => PixelFormat::Bgra,
        2 => PixelFormat::Bgr,
        3 => PixelFormat::Rgba,
        4 => PixelFormat::Rgb,
        5 => PixelFormat::I444,
        6 => PixelFormat::I422,
        7 => PixelFormat::I420,
        _ => PixelFormat::Nv12,
    }
}

fn cs(v: u32) -> ColorSpace {
    match v {
        0 => ColorSpace::Rgb,
        1 => ColorSpace::Bt601,
        2 => ColorSpace::Bt709,
        3 => ColorSpace::Bt601FR,
        _ => ColorSpace::Bt709FR,
    }
}

fn res(r: Result<(), ErrorKind>) -> u32 {
    match r {
        Ok(()) => 0,
        Err(ErrorKind::InvalidValue) => 1,
        Err(ErrorKind::InvalidOperation) => 2,
        Err(ErrorKind::NotEnoughData) => 3,
        #[allow(unreachable_patterns)]
        Err(_) => 4,
    }
}

fn format(p: u32, c: u32, n: u32) -> ImageFormat {
    ImageFormat { pixel_format: pf(p), color_space: cs(c), num_planes: n }
}

#[no_mangle]
#[inline(never)]
pub fn h_convert(
    width: u32, height: u32,
    spf: u32, scs: u32, snp: u32, sstr: Option<&[usize]>, sbuf: &[&[u8]],
    dpf: u32, dcs: u32, dnp: u32, dstr: Option<&[usize]>, dbuf: &mut [&mut [u8]],
) -> u32 {
    let s = format(spf, scs, snp);
    let d = format(dpf, dcs, dnp);
    res(dcp::convert_image(width, height, &s, sstr, sbuf, &d, dstr, dbuf))
}

#[no_mangle]
#[inline(never)]
pub fn h_size(width: u32, height: u32, p: u32, c: u32, n: u32, strides: Option<&[usize]>, sizes: &mut [usize]) -> u32 {
    let f = format(p, c, n);
    res(dcp::get_buffers_size(width, height, &f, strides, sizes))
}

/// Length, and the bytes in `out`
#[no_mangle]
#[inline(never)]
pub fn h_describe(out: &mut [u8]) -> usize {
    let s = dcp::describe_acceleration();
    let b = s.as_bytes();
    let n = b.len().min(out.len());
    out[..n].copy_from_slice(&b[..n]);
    b.len()
}

#[repr(C)]
pub struct CFormat {
    pub pixel_format: i32,
    pub color_space: i32,
    pub num_planes: u32,
}

extern "C" {
    fn dcp_get_buffers_size(width: u32, height: u32, format: *const CFormat, strides: *const usize, buffers_size: *mut usize, error: *mut i32) -> i32;
    fn dcp_convert_image(
        width: u32, height: u32,
        src_format: *const CFormat, src_strides: *const usize, src_buffers: *const *const u8,
        dst_format: *const CFormat, dst_strides: *const usize, dst_buffers: *const *mut u8,
        error: *mut i32,
    ) -> i32;
}

#[no_mangle]
#[inline(never)]
pub unsafe fn h_c_size(width: u32, height: u32, format: *const CFormat, strides: *const usize, sizes: *mut usize, error: *mut i32) -> i32 {
    dcp_get_buffers_size(width, height, format, strides, sizes, error)
}

#[no_mangle]
#[inline(never)]
pub unsafe fn h_c_convert(
    width: u32, height: u32,
    sfmt: *const CFormat, sstr: *const usize, sbuf: *const *const u8,
    dfmt: *const CFormat, dstr: *const usize, dbuf: *const *mut u8,
    error: *mut i32,
) -> i32 {
    dcp_convert_image(width, height, sfmt, sstr, sbuf, dfmt, dstr, dbuf, error)
}
