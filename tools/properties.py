#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
S = "src/"
K = [S + "convert_image/x86.rs", S + "convert_image/sse2.rs", S + "convert_image/avx2.rs"]
def m(*p): return [{"name": a, "where": b} for a, b in p]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, observe_at=observe or ["convert_image", "dcp_convert_image"], hook_needed=None)))

prop("P01", "Conversions never touch memory outside the caller's buffers",
  "Whatever the formats, dimensions, strides and buffer lengths, a conversion reads only inside the source buffers and writes only inside the destination buffers it was given. When it returns an error because a buffer is too short it has not accessed anything out of bounds first.",
  ["inputs", "configurations"], "every supported conversion, plane layout, instruction set, image size, stride value (narrow, huge and overlapping ones included) and buffer length",
  "The tests call each conversion with a few widths and generously sized buffers: an over-read of a few bytes at the tail of a row, or a bounds check that overflows for a huge stride, goes unnoticed.",
  K + [S + "convert_image/common.rs", S + "lib.rs"],
  m(("length checks before the kernels", "src/convert_image/common.rs:out_of_bounds, per-converter guards in x86.rs, sse2.rs and avx2.rs"), ("vector loop limits and tail handling", "src/convert_image/sse2.rs and avx2.rs kernels"), ("scalar remainder", "src/convert_image/x86.rs")))
prop("P02", "A conversion succeeds exactly when every buffer is long enough",
  "A supported conversion of valid images succeeds if every plane's buffer holds its last row, that is stride times (rows - 1) plus the bytes of one row, and reports that there is not enough data if any of them is shorter or if an array of buffers or strides has fewer entries than the image has planes. The last row needs no padding, an image without pixels needs no bytes, and neither the instruction set nor unused plane data changes the answer.",
  ["inputs", "configurations"], "every supported conversion, plane layout, instruction set, size, stride and buffer length, including lengths one byte too short and products that overflow",
  "Tests check a handful of sizes one step away from the limit; the answer is a relation between up to three strides, three lengths and two dimensions of 64 and 32 bits.",
  K + [S + "convert_image/common.rs", S + "lib.rs"],
  m(("requirement on each plane", "src/convert_image/common.rs:out_of_bounds, guards at the top of each converter"), ("effective strides", "src/convert_image/common.rs:compute_stride, src/lib.rs:convert_image")))
prop("P03", "A conversion writes exactly the pixels of the destination image",
  "After a successful conversion every byte of every row of every destination plane has been written and no other byte of the destination buffers has changed: row padding, bytes after the last row and the source images stay as they were. A failing call changes nothing.",
  ["inputs", "configurations"], "every supported conversion, plane layout and instruction set, every stride not shorter than a row and every sufficient buffer length",
  "Tests compare pixels of a few sizes and look at padding for some strides only; vector kernels move 16 to 32 bytes at a time and the tail of a row depends on width, stride and format together.",
  K, m(("vector stores and tails", "src/convert_image/sse2.rs and avx2.rs kernels"), ("scalar remainder", "src/convert_image/x86.rs")))
prop("P04", "RGB to 4:4:4 follows the ITU equations to within rounding",
  "Every luma and chroma sample of a conversion from packed RGB to 4:4:4 planar YCbCr equals the value of the ITU-R equations of the chosen color space (BT.601 or BT.709, limited or full range), rounded to the nearest level with an error below 0.51 levels. Alpha and padding bytes have no influence.",
  ["inputs", "configurations"], "all colours (2^24 per pixel), every position in the image, source format, color space and instruction set",
  "Tests convert eight or so reference colours at a few positions.", K + [S + "convert_image/common.rs"],
  m(("forward weights", "src/convert_image/common.rs constants"), ("matrix kernels", "x86.rs, sse2.rs, avx2.rs: *_to_i444*")))
prop("P05", "RGB to 4:2:0 subsamples by averaging, to within rounding",
  "Every luma sample of a conversion from packed RGB to I420 or NV12 is the ITU value of its own pixel and every chroma sample the ITU value of the mean of its own 2x2 block of pixels, rounded to the nearest level with an error below 0.51 levels. No other pixel, alpha byte or padding has any influence.",
  ["inputs", "configurations"], "all colours of the block's four pixels (2^96), every position in the image, source format, color space, plane layout and instruction set",
  "Tests use blocks of one colour, in which neither the averaging nor the choice of the four pixels can be seen.", K + [S + "convert_image/common.rs"],
  m(("chroma averaging", "x86.rs, sse2.rs, avx2.rs: *_to_i420*, *_to_nv12*"), ("forward weights", "src/convert_image/common.rs constants")))
prop("P06", "YCbCr to RGB follows the ITU equations and saturates",
  "Every colour sample of a conversion from I444, I420 or NV12 to RGB equals the value of the ITU-R inverse equations of the color space, clamped to 0..255, with an error below 0.55 levels: values outside of the gamut saturate and never wrap. A 4:2:0 chroma sample applies to the four pixels of its block, and alpha bytes are set to 255.",
  ["inputs", "configurations"], "all 2^24 combinations of Y, Cb and Cr (also those that no RGB colour produces), every position, destination format, color space, plane layout and instruction set",
  "Tests decode only values that come from encoding in-gamut reference colours; saturation in 16-bit lanes matters for the others.", K + [S + "convert_image/common.rs"],
  m(("inverse weights and offsets", "src/convert_image/common.rs constants"), ("saturating sums", "sse2.rs and avx2.rs: *_to_bgra*, *_to_rgba*, *_to_rgb*"), ("clamping", "src/convert_image/x86.rs")))
prop("P07", "RGB to RGB conversions are exact permutations of the channels",
  "A conversion between packed RGB formats copies every colour sample unchanged to its place in the destination pixel, drops alpha where the destination has none and sets it to 255 where the source has none.",
  ["inputs", "configurations"], "all pixel values, every position, width and height, strides, and instruction set",
  "Tests check a few widths; the kernels use 3-byte to 4-byte shuffles with width-dependent tails.", K,
  m(("channel shuffles", "x86.rs, sse2.rs, avx2.rs: bgr_to_rgb, bgra_to_rgb, rgb_to_bgra")))
prop("P08", "All instruction sets produce identical output",
  "For the same call the scalar, SSE2 and AVX2 code paths return the same result and write the same bytes to the same places.",
  ["inputs", "configurations"], "every supported conversion, plane layout, stride choice, size and all pixel values; every pair of instruction sets",
  "Tests compare each path with reference colours within a tolerance and never compare the paths with each other.", K + [S + "dispatcher.rs", S + "lib.rs"],
  m(("dispatch tables", "src/lib.rs"), ("hand-written kernels", "x86.rs, sse2.rs, avx2.rs")))
prop("P09", "Which error a conversion reports follows the documented rules",
  "A conversion reports an invalid value if and only if one of the two images is malformed (color space of the wrong kind, odd dimension of a subsampled format, wrong number of planes), otherwise an invalid operation if and only if the pair of formats and color spaces is not a supported conversion. All other calls succeed or report that there is not enough data.",
  ["inputs", "configurations"], "all 45 x 45 combinations of format and color space of source and destination, all widths, heights and plane counts",
  "Tests try each rule on a few combinations; the decision is a table of 2025 format pairs times dimensions and plane counts of 32 bits.", [S + "lib.rs", S + "pixel_format.rs", S + "dispatcher.rs", S + "color_space.rs"],
  m(("validation", "src/pixel_format.rs:is_compatible, src/lib.rs:convert_image"), ("mode and dispatch tables", "src/dispatcher.rs, src/lib.rs")))
prop("P10", "Buffer sizes are exact for every format, size and stride",
  "Querying the buffer sizes of a valid image yields for each plane the stride (or the row length when none is given) times the number of rows. Malformed images are reported as invalid, and missing array entries or sizes that do not fit the address space as not enough data; nothing else is reported and no size ever wraps around.",
  ["inputs", "configurations"], "all formats, plane counts, 32-bit dimensions, 64-bit strides and array lengths",
  "Tests query a few sizes without strides.", [S + "pixel_format.rs", S + "lib.rs"],
  m(("sizes per plane", "src/pixel_format.rs:get_buffers_size*"), ("public entry", "src/lib.rs:get_buffers_size")), ["get_buffers_size", "dcp_get_buffers_size"])
prop("P11", "Buffers of the queried size are always accepted",
  "When the sizes of both images are queried with the same dimensions and strides that are then used to convert, and every stride is zero or at least a row long, buffers of exactly those sizes are large enough: the conversion never reports that there is not enough data.",
  ["inputs", "histories"], "every supported conversion, plane layout, instruction set, dimension and stride",
  "It relates two independent computations (sizes per format, requirements per kernel) over all dimensions and strides; tests run the sequence for a few images.", [S + "pixel_format.rs", S + "lib.rs"] + K,
  m(("sizes", "src/pixel_format.rs:get_buffers_size"), ("requirements", "src/convert_image/common.rs:out_of_bounds and converters")), ["get_buffers_size", "convert_image"])
prop("P12", "The C interface is safe and equivalent to the Rust interface",
  "For valid arguments the C functions return, report and write exactly what the Rust functions do for the same images, and access nothing but the arrays and planes the image formats call for. Null pointers, unknown pixel formats, wrong plane counts and (in conversions) unknown color spaces are reported as invalid values without any image access, and an absent error pointer is never written through.",
  ["inputs", "configurations"], "all conversions and plane layouts, dimensions, strides, every 32-bit enumeration value and plane count, every subset of null pointers",
  "Tests exercise a few null pointers and one or two bad values; the interface turns raw pointers and unchecked integers into slices and enums.", [S + "lib.rs"],
  m(("argument validation", "src/lib.rs:c_bindings")), ["dcp_convert_image", "dcp_get_buffers_size"])
prop("P13", "Vector code runs only on processors and systems that support it",
  "Code that uses AVX or AVX2 instructions is selected only if the processor reports AVX2 and AVX and the operating system has enabled the vector state, and SSE2 code only if the processor reports SSE2; no privileged or unsupported query instruction is executed on the way. The description of the acceleration names the instruction set that conversions then use, and the manufacturer that the processor reports.",
  ["configurations"], "every answer of the processor's identification instructions and of the extended control register",
  "Tests run on the one processor they happen to have.", [S + "cpu_info.rs", S + "lib.rs"],
  m(("detection", "src/cpu_info.rs:CpuInfo::new"), ("selection", "src/lib.rs:GlobalState::init")), ["describe_acceleration", "convert_image"])
prop("P14", "No call panics and no size arithmetic overflows",
  "No call of the interface panics, aborts or enters undefined behaviour and no arithmetic on sizes or pixels overflows, whatever dimensions, strides, lengths, formats and pixels it is given, with or without overflow checks in the build.",
  ["inputs", "configurations"], "all calls of the public interface: every dimension, stride, array length, buffer length and format, in builds with and without overflow checks",
  "The tests pass small, well-formed values; overflow needs strides or dimensions near the limits of the integer types.", [S + "lib.rs", S + "pixel_format.rs", S + "convert_image/common.rs"] + K,
  m(("checked and saturating arithmetic", "src/pixel_format.rs, src/convert_image/common.rs, converters")), ["convert_image", "get_buffers_size", "describe_acceleration", "dcp_convert_image", "dcp_get_buffers_size"])
prop("P15", "Calls are independent of one another",
  "The outcome of a call depends on its own arguments only: whatever calls were made before, failed ones included, the same arguments give the same result and the same bytes. The library keeps no state other than the instruction set selected once.",
  ["histories", "inputs"], "sequences of calls of the interface before a call, all pixel values and sizes within the bounds",
  "Tests run each call in isolation or in one fixed order.", [S + "lib.rs"] + K,
  m(("one-time initialisation", "src/lib.rs:GLOBAL_STATE")))
prop("P16", "Greys, black and white are preserved exactly",
  "Grey pixels become neutral chroma exactly (128), black and white become the nominal black and white levels of the color space, and YCbCr samples with neutral chroma at the nominal black and white levels become exactly black and white.",
  ["inputs", "configurations"], "all greys, every position, format, color space, plane layout and instruction set",
  "Tests allow a tolerance of several levels, which hides an off-by-one tint of greys and whites.", K + [S + "convert_image/common.rs"],
  m(("weights that sum to one and rounding offsets", "src/convert_image/common.rs constants")))
prop("P17", "Encoding to YCbCr and decoding again stays within a level or two",
  "An RGB image converted to YCbCr without subsampling and back, both with the same color space, differs from the original by at most two levels per colour sample, and by at most one with the full range color spaces for red and green. The same holds for 4:2:0 images whose 2x2 blocks have a single colour.",
  ["inputs", "histories", "configurations"], "all 2^24 colours, formats, color spaces, plane layouts and instruction sets",
  "Tests compare encoded and decoded reference colours separately; the error of the composition is a property of all colours.", K + [S + "convert_image/common.rs"],
  m(("forward and inverse weights", "src/convert_image/common.rs constants")))
prop("P18", "Equal pixels convert equally, wherever they are and however laid out",
  "The colour a pixel (or 2x2 block) is converted to does not depend on its position, on the dimensions or strides of the image, on the byte order of the RGB format, or on whether chroma is planar, interleaved or appended to the luma plane.",
  ["inputs", "configurations"], "all pixel values, every position in images up to the stated sizes, all layouts of the same color space",
  "Tests look at uniform images of one layout at a time.", K,
  m(("kernels per format and their scalar tails", "x86.rs, sse2.rs, avx2.rs")))
prop("P19", "The ARM and WebAssembly paths equal the scalar path",
  "On ARM processors the NEON code, and on WebAssembly the portable code, return, report and write the same as the scalar code on x86.",
  ["inputs", "configurations"], "all conversions, sizes and pixel values on the other architectures",
  "The tests run on x86 only.", [S + "convert_image/neon.rs"], m(("NEON kernels", "src/convert_image/neon.rs")))
prop("P20", "Concurrent first calls initialise the library once and safely",
  "When several threads make the first calls at the same time, every one of them sees a completely initialised library and the outcome of a single-threaded call.",
  ["schedules"], "all interleavings of first calls from several threads",
  "Tests start from one thread at a time.", [S + "lib.rs"], m(("one-time initialisation", "src/lib.rs:GLOBAL_STATE")))
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
