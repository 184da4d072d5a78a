From 1c3b911ea011b5dc28594cffffdd4595f4292006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 01/11] fix: check stride * (h - 1) + row bytes against the
 buffer length

out_of_bounds() declared its stride and width parameters in the opposite
order of the one used by every caller, so that it tested
row * (h - 1) + stride: images with padded rows were accepted with buffers
that are too short (out of bounds reads and writes), and a nonzero stride
shorter than a row was checked against the wrong limit.
---
 src/convert_image/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/convert_image/common.rs b/src/convert_image/common.rs
index fd09d25..bc34830 100644
--- a/src/convert_image/common.rs
+++ b/src/convert_image/common.rs
@@ -82,7 +82,7 @@ pub fn lower_multiple_of_pot(x: usize, p: usize) -> usize {
     x & !(p - 1)
 }
 
-pub fn out_of_bounds(size: usize, width: usize, height_minus_one: usize, stride: usize) -> bool {
+pub fn out_of_bounds(size: usize, stride: usize, height_minus_one: usize, width: usize) -> bool {
     width > size
         || (height_minus_one != 0
             && ((stride > usize::MAX / height_minus_one)
-- 
2.43.0


From 6f5c8f67a4ad4c774e77f298d562ff0e4859211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 02/11] fix: account for the pixel depth in the bounds checks
 of rgb to rgb converters

rgb_bgra, bgra_rgb and bgr_rgb passed the width in pixels instead of the
row size in bytes, so that too short buffers were accepted and then read
and written out of bounds.
---
 src/convert_image/avx2.rs | 12 ++++++------
 src/convert_image/neon.rs | 12 ++++++------
 src/convert_image/sse2.rs |  4 ++--
 src/convert_image/x86.rs  | 12 ++++++------
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index b9503ba..7fcaf0a 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -2122,8 +2122,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -2200,8 +2200,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -2250,8 +2250,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index 9d6c820..fb7d2a5 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -873,8 +873,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
@@ -950,8 +950,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1028,8 +1028,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 9a0bfba..7a4616d 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -1613,8 +1613,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index e9f0d89..12ee5c4 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -1462,8 +1462,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1511,8 +1511,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1559,8 +1559,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
-- 
2.43.0


From e9e434ee46993803c85a8f1d33331ab57301aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 03/11] fix: do not overflow the luma plane size of single
 plane nv12

A huge stride made stride * height overflow: the conversion panicked in
debug builds instead of reporting NotEnoughData.
---
 src/convert_image/avx2.rs | 4 ++--
 src/convert_image/neon.rs | 2 +-
 src/convert_image/sse2.rs | 4 ++--
 src/convert_image/x86.rs  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index 7fcaf0a..6944bae 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -1498,7 +1498,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
+        if src_buffers.0.len() < src_strides.0.saturating_mul(h) {
             return false;
         }
 
@@ -1784,7 +1784,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0.saturating_mul(h) {
         return false;
     }
 
diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index fb7d2a5..5c25782 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -456,7 +456,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0.saturating_mul(h) {
         return false;
     }
 
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 7a4616d..bdf4c3a 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -953,7 +953,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
+        if src_buffers.0.len() < src_strides.0.saturating_mul(h) {
             return false;
         }
 
@@ -1231,7 +1231,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0.saturating_mul(h) {
         return false;
     }
 
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index 12ee5c4..ba34d56 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -1018,7 +1018,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
+        if src_buffers.0.len() < src_strides.0.saturating_mul(h) {
             return false;
         }
 
@@ -1328,7 +1328,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0.saturating_mul(h) {
         return false;
     }
 
-- 
2.43.0


From 6eaad3738173d9d735a02a338ceb478c429023be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 04/11] fix: saturate the blue sum of the sse2 and avx2 ycbcr
 to rgb kernels

With limited range color spaces, luma and cb near the top of their range
make the 16-bit sum exceed 32767: it wrapped to a negative number and the
blue channel became 0 instead of 255, unlike in the scalar implementation.
---
 src/convert_image/avx2.rs | 66 +++++++++++++++++++--------------------
 src/convert_image/sse2.rs | 48 ++++++++++++++--------------
 2 files changed, 58 insertions(+), 56 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index 6944bae..f87ba02 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -23,30 +23,30 @@ use core::ptr::{read_unaligned as loadu, write_unaligned as storeu};
 
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
-    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_blend_epi32, _mm256_cmpeq_epi32,
-    _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16, _mm256_or_si256,
-    _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256, _mm256_permute4x64_epi64,
-    _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32, _mm256_set_epi16,
-    _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8, _mm256_setzero_si256,
-    _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32, _mm256_slli_si256,
-    _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256,
-    _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16,
-    _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch,
-    _mm_setzero_si128, _MM_HINT_NTA,
+    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_adds_epi16, _mm256_blend_epi32,
+    _mm256_cmpeq_epi32, _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16,
+    _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256,
+    _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32,
+    _mm256_set_epi16, _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8,
+    _mm256_setzero_si256, _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32,
+    _mm256_slli_si256, _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32,
+    _mm256_srli_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8,
+    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8,
+    _mm_prefetch, _mm_setzero_si128, _MM_HINT_NTA,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
-    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_blend_epi32, _mm256_cmpeq_epi32,
-    _mm256_extract_epi64, _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16,
-    _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256,
-    _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32,
-    _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8, _mm256_setzero_si256,
-    _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32, _mm256_slli_si256,
-    _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256,
-    _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16,
-    _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch,
-    _mm_setzero_si128, _MM_HINT_NTA,
+    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_adds_epi16, _mm256_blend_epi32,
+    _mm256_cmpeq_epi32, _mm256_extract_epi64, _mm256_extracti128_si256, _mm256_madd_epi16,
+    _mm256_mulhi_epu16, _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16,
+    _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32,
+    _mm256_set1_epi16, _mm256_set1_epi32, _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32,
+    _mm256_setr_epi8, _mm256_setzero_si256, _mm256_shuffle_epi8, _mm256_slli_epi16,
+    _mm256_slli_epi32, _mm256_slli_si256, _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16,
+    _mm256_srli_epi32, _mm256_srli_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
+    _mm256_unpackhi_epi8, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32, _mm256_unpacklo_epi64,
+    _mm256_unpacklo_epi8, _mm_prefetch, _mm_setzero_si128, _MM_HINT_NTA,
 };
 
 const LANE_COUNT: usize = 32;
@@ -724,7 +724,7 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -739,7 +739,7 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -760,7 +760,7 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -775,7 +775,7 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -843,7 +843,7 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -858,7 +858,7 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -879,7 +879,7 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -894,7 +894,7 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -963,7 +963,7 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -978,7 +978,7 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -999,7 +999,7 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -1014,7 +1014,7 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -1102,7 +1102,7 @@ unsafe fn i444_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(x, y, DST_DEPTH, dst_stride)),
                 fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y_lo), FIX6),
                 fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y_lo), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y_lo), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y_lo), FIX6),
             );
         }
     }
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index bdf4c3a..c0918b3 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -23,24 +23,26 @@ use core::ptr::{read_unaligned as loadu, write_unaligned as storeu};
 
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
-    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_and_si128, _mm_andnot_si128, _mm_cmpeq_epi32,
-    _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128, _mm_packs_epi32,
-    _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x, _mm_set_epi32,
-    _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16, _mm_shufflelo_epi16,
-    _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16, _mm_srai_epi32, _mm_srli_epi16,
-    _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16, _mm_unpackhi_epi16, _mm_unpackhi_epi8,
-    _mm_unpacklo_epi16, _mm_unpacklo_epi32, _mm_unpacklo_epi64, _mm_unpacklo_epi8,
+    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_adds_epi16, _mm_and_si128, _mm_andnot_si128,
+    _mm_cmpeq_epi32, _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128,
+    _mm_packs_epi32, _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x,
+    _mm_set_epi32, _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16,
+    _mm_shufflelo_epi16, _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16,
+    _mm_srai_epi32, _mm_srli_epi16, _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16,
+    _mm_unpackhi_epi16, _mm_unpackhi_epi8, _mm_unpacklo_epi16, _mm_unpacklo_epi32,
+    _mm_unpacklo_epi64, _mm_unpacklo_epi8,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
-    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_and_si128, _mm_andnot_si128, _mm_cmpeq_epi32,
-    _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128, _mm_packs_epi32,
-    _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x, _mm_set_epi32,
-    _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16, _mm_shufflelo_epi16,
-    _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16, _mm_srai_epi32, _mm_srli_epi16,
-    _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16, _mm_unpackhi_epi16, _mm_unpackhi_epi8,
-    _mm_unpacklo_epi16, _mm_unpacklo_epi32, _mm_unpacklo_epi64, _mm_unpacklo_epi8,
+    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_adds_epi16, _mm_and_si128, _mm_andnot_si128,
+    _mm_cmpeq_epi32, _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128,
+    _mm_packs_epi32, _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x,
+    _mm_set_epi32, _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16,
+    _mm_shufflelo_epi16, _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16,
+    _mm_srai_epi32, _mm_srli_epi16, _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16,
+    _mm_unpackhi_epi16, _mm_unpackhi_epi8, _mm_unpacklo_epi16, _mm_unpacklo_epi32,
+    _mm_unpacklo_epi64, _mm_unpacklo_epi8,
 };
 
 const LANE_COUNT: usize = 16;
@@ -642,7 +644,7 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y0), xxym);
@@ -650,7 +652,7 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -664,7 +666,7 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y1), xxym);
@@ -672,7 +674,7 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -734,7 +736,7 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y00), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y0), xxym);
@@ -742,7 +744,7 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_hi, y10), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -756,7 +758,7 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y01), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y1), xxym);
@@ -764,7 +766,7 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_hi, y11), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -832,7 +834,7 @@ unsafe fn i444_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
                 dst_group.add(wg_index(x, y, DST_DEPTH, dst_stride)),
                 fix_to_i16_8x!(_mm_add_epi16(sr_lo, y_lo), FIX6),
                 fix_to_i16_8x!(_mm_add_epi16(sg_lo, y_lo), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y_lo), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y_lo), FIX6),
             );
         }
     }
-- 
2.43.0


From d1b57d811d66a87317005e8b015d3820d7f9b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 05/11] fix: do not underflow when an rgb to rgb stride is
 shorter than a row

The rgb to rgb kernels computed stride - row bytes: with a nonzero stride
shorter than a row they panicked in debug builds, and in release builds the
wrapped difference let the scalar rgb to bgra kernel read past the end of
the source buffer.
---
 src/convert_image/avx2.rs | 21 +++++++--------------
 src/convert_image/sse2.rs | 11 +++--------
 src/convert_image/x86.rs  | 19 +++++--------------
 3 files changed, 15 insertions(+), 36 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index f87ba02..da50f9d 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -1270,15 +1270,13 @@ unsafe fn bgra_to_rgb_avx2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
     let limit_4x = lower_multiple_of_pot(width, LANE_COUNT);
     let limit = lower_multiple_of_pot(width, ITEMS_PER_ITERATION);
 
     for i in 0..height {
         let mut y = 0;
-        let mut src_offset = ((SRC_DEPTH * width) + src_stride_diff) * i;
-        let mut dst_offset = ((DST_DEPTH * width) + dst_stride_diff) * i;
+        let mut src_offset = src_stride * i;
+        let mut dst_offset = dst_stride * i;
 
         while y < limit_4x {
             let src_ptr: *const __m256i = src_group.add(src_offset).cast();
@@ -1354,8 +1352,8 @@ unsafe fn bgra_to_rgb_avx2(
                     *src_group.add((SRC_DEPTH * y) + src_offset);
             }
 
-            src_offset += (SRC_DEPTH * width) + src_stride_diff;
-            dst_offset += (DST_DEPTH * width) + dst_stride_diff;
+            src_offset += src_stride;
+            dst_offset += dst_stride;
         }
     }
 }
@@ -1382,12 +1380,10 @@ unsafe fn rgb_to_bgra_avx2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
-    let mut src_offset = 0;
-    let mut dst_offset = 0;
+    for y in 0..height {
+        let mut src_offset = src_stride * y;
+        let mut dst_offset = dst_stride * y;
 
-    for _ in 0..height {
         _mm_prefetch(src_group.cast::<i8>(), _MM_HINT_NTA);
 
         for _ in (0..width).step_by(LANE_COUNT) {
@@ -1449,9 +1445,6 @@ unsafe fn rgb_to_bgra_avx2(
             src_offset += LANE_COUNT * SRC_DEPTH;
             dst_offset += LANE_COUNT * DST_DEPTH;
         }
-
-        src_offset += src_stride_diff;
-        dst_offset += dst_stride_diff;
     }
 }
 
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index c0918b3..7621ca3 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -859,12 +859,10 @@ unsafe fn rgb_to_bgra_sse2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
-    let mut src_offset = 0;
-    let mut dst_offset = 0;
+    for y in 0..height {
+        let mut src_offset = src_stride * y;
+        let mut dst_offset = dst_stride * y;
 
-    for _ in 0..height {
         for _ in (0..width).step_by(LANE_COUNT) {
             let src_ptr: *const __m128i = src_group.add(src_offset).cast();
             let dst_ptr: *mut __m128i = dst_group.add(dst_offset).cast();
@@ -906,9 +904,6 @@ unsafe fn rgb_to_bgra_sse2(
             src_offset += LANE_COUNT * SRC_DEPTH;
             dst_offset += LANE_COUNT * DST_DEPTH;
         }
-
-        src_offset += src_stride_diff;
-        dst_offset += dst_stride_diff;
     }
 }
 
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index ba34d56..1dec7e7 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -704,16 +704,15 @@ pub fn rgb_to_bgra(
     const DST_DEPTH: usize = 4;
     const ITEMS_PER_ITERATION: usize = 8;
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
+    let src_stride_diff = src_stride.saturating_sub(SRC_DEPTH * width);
 
     unsafe {
         let src_group = src_buffer.as_ptr();
         let dst_group = dst_buffer.as_mut_ptr();
-        let mut src_offset = 0;
-        let mut dst_offset = 0;
 
         for y in 0..height {
+            let mut src_offset = src_stride * y;
+            let mut dst_offset = dst_stride * y;
             let is_last_line = y == height - 1;
 
             // For single swap iteration, since the swap is done on 32 bits while the input is only
@@ -806,13 +805,7 @@ pub fn rgb_to_bgra(
                 *dst_group.add(dst_offset + 1) = *src_group.add(src_offset + 1);
                 *dst_group.add(dst_offset + 2) = *src_group.add(src_offset);
                 *dst_group.add(dst_offset + 3) = 0xFF;
-
-                src_offset += SRC_DEPTH;
-                dst_offset += DST_DEPTH;
             }
-
-            src_offset += src_stride_diff;
-            dst_offset += dst_stride_diff;
         }
     }
 }
@@ -915,8 +908,6 @@ pub fn bgra_to_rgb(
     const HIGH_MASK: u64 = 0xFFFF_FF00_0000_0000;
     const LOW_MASK: u64 = 0x0000_00FF_FFFF_0000;
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
     let limit_4x = lower_multiple_of_pot(width, ITEMS_PER_ITERATION_4X);
 
     unsafe {
@@ -925,8 +916,8 @@ pub fn bgra_to_rgb(
 
         for i in 0..height {
             let mut y = 0;
-            let mut src_offset = ((SRC_DEPTH * width) + src_stride_diff) * i;
-            let mut dst_offset = ((DST_DEPTH * width) + dst_stride_diff) * i;
+            let mut src_offset = src_stride * i;
+            let mut dst_offset = dst_stride * i;
 
             while y < limit_4x {
                 let src_ptr: *const u64 = src_group.add(src_offset).cast();
-- 
2.43.0


From 6e6171c1ad6204a0a627a9e8cb13d8450f040603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:10 +0000
Subject: [PATCH 06/11] fix: compute the size of strided single buffer images,
 detect overflows

get_buffers_size() summed the stride of the only plane with the default
size of the other components: packed formats got (S + 3 * w) * h or
(S + 2 * w) * h bytes instead of S * h, and single plane nv12 got less
bytes than convert_image() requires. Strides beyond the number of planes
were not ignored either. When a size does not fit in usize the computation
panicked in debug builds and wrapped around in release builds: report
NotEnoughData, as convert_image() does.
---
 src/pixel_format.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index c88300d..49b6480 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -208,7 +208,7 @@ pub fn get_buffers_size(
     let pixel_format = pixel_format as usize;
     let stride_spec = STRIDE_SPECS[pixel_format];
     for i in 0..MAX_NUMBER_OF_PLANES {
-        stride[i] = if i >= strides.len() || strides[i] == STRIDE_AUTO {
+        stride[i] = if i > last_plane || i >= strides.len() || strides[i] == STRIDE_AUTO {
             get_plane_mask(stride_spec, i) * get_plane_spec(width, stride_spec, i)
         } else {
             strides[i]
@@ -217,10 +217,29 @@ pub fn get_buffers_size(
 
     let height_spec = HEIGHT_SPECS[pixel_format];
     if last_plane == 0 {
-        buffers_size[0] = ((stride[0] * get_plane_spec(height, height_spec, 0))
-            + (stride[1] * get_plane_spec(height, height_spec, 1)))
-            + ((stride[2] * get_plane_spec(height, height_spec, 2))
-                + (stride[3] * get_plane_spec(height, height_spec, 3)));
+        // All the data is stored in a single buffer, which has a single stride.
+        // Buffers of packed formats have no more rows than the image.
+        if strides[0] != STRIDE_AUTO {
+            let is_packed = get_pf_planes(PF_SPECS[pixel_format]) == 0;
+            for i in 1..MAX_NUMBER_OF_PLANES {
+                stride[i] = if is_packed {
+                    0
+                } else {
+                    get_plane_mask(stride_spec, i) * strides[0]
+                };
+            }
+        }
+
+        let mut size = 0_usize;
+        for (i, stride) in stride.iter().enumerate() {
+            let plane_size = stride.checked_mul(get_plane_spec(height, height_spec, i));
+            match plane_size.and_then(|plane_size| size.checked_add(plane_size)) {
+                Some(value) => size = value,
+                None => return false,
+            }
+        }
+
+        buffers_size[0] = size;
     } else {
         let buffer_array = &mut buffers_size[..=last_plane];
         let stride_array = &stride[..=last_plane];
@@ -228,7 +247,10 @@ pub fn get_buffers_size(
         for (buffer_size, (i, stride)) in
             buffer_array.iter_mut().zip(stride_array.iter().enumerate())
         {
-            *buffer_size = *stride * get_plane_spec(height, height_spec, i);
+            match stride.checked_mul(get_plane_spec(height, height_spec, i)) {
+                Some(value) => *buffer_size = value,
+                None => return false,
+            }
         }
     }
 
-- 
2.43.0


From 47f509f557ef41d12983e5c47e71cc6d197c26cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:10 +0000
Subject: [PATCH 07/11] fix: do not build stride slices larger than the address
 space in the C API

slice::from_raw_parts() requires the total size not to exceed isize::MAX
bytes: isize::MAX strides violate it, which aborts builds with debug
assertions. Only num_planes strides are read.
---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d7071ab..d09c414 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1154,13 +1154,19 @@ pub mod c_api {
         let src_strides = if src_strides.is_null() {
             None
         } else {
-            Some(slice::from_raw_parts(src_strides, UNBOUNDED_C_ARRAY))
+            Some(slice::from_raw_parts(
+                src_strides,
+                src_format.num_planes as usize,
+            ))
         };
 
         let dst_strides = if dst_strides.is_null() {
             None
         } else {
-            Some(slice::from_raw_parts(dst_strides, UNBOUNDED_C_ARRAY))
+            Some(slice::from_raw_parts(
+                dst_strides,
+                dst_format.num_planes as usize,
+            ))
         };
 
         match convert_image(
-- 
2.43.0


From ae93b72978fe6509ab900ddcd9c127b941627f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 08/11] fix: select avx2 only if cpuid leaf 7 exists and avx is
 enabled by the system

Leaf 7 was read even when it is above the highest supported leaf, which
returns unrelated data, and avx2 was selected even if the operating system
does not save the ymm registers, where avx2 instructions fault.
---
 src/cpu_info.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/cpu_info.rs b/src/cpu_info.rs
index 0718968..058c2df 100644
--- a/src/cpu_info.rs
+++ b/src/cpu_info.rs
@@ -14,9 +14,9 @@
 // OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE
 // SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #[cfg(target_arch = "x86")]
-use core::arch::x86::__cpuid;
+use core::arch::x86::{__cpuid, _xgetbv};
 #[cfg(target_arch = "x86_64")]
-use core::arch::x86_64::__cpuid;
+use core::arch::x86_64::{__cpuid, _xgetbv};
 #[cfg(target_arch = "aarch64")]
 use std::arch::is_aarch64_feature_detected;
 
@@ -63,6 +63,17 @@ fn compare_cpu_manufacturer(features: &[u32; 4], name: &[u8; 12]) -> u32 {
         | features[2].wrapping_sub(four_cc(name[8], name[9], name[10], name[11]))
 }
 
+/// Avx instructions are usable only if the cpu implements them and the operating system
+/// saves and restores the xmm and ymm registers
+#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+fn is_avx_enabled(features: &[u32; 4]) -> bool {
+    const OSXSAVE_AND_AVX: u32 = (1 << 27) | (1 << 28);
+    const XMM_AND_YMM: u64 = 0b110;
+
+    (features[2] & OSXSAVE_AND_AVX) == OSXSAVE_AND_AVX
+        && (unsafe { _xgetbv(0) } & XMM_AND_YMM) == XMM_AND_YMM
+}
+
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 pub fn get() -> (CpuManufacturer, InstructionSet) {
     let mut manufacturer = CpuManufacturer::Unknown;
@@ -71,7 +82,8 @@ pub fn get() -> (CpuManufacturer, InstructionSet) {
     let features = &mut [0; 4];
     cpuid(0, features);
 
-    if features[0] != 0 {
+    let max_leaf = features[0];
+    if max_leaf != 0 {
         if compare_cpu_manufacturer(features, b"GenuineIntel") == 0 {
             manufacturer = CpuManufacturer::Intel;
         } else if (compare_cpu_manufacturer(features, b"AuthenticAMD") == 0)
@@ -88,6 +100,7 @@ pub fn get() -> (CpuManufacturer, InstructionSet) {
             // See https://en.wikipedia.org/wiki/CPUID for additional details
             match manufacturer {
                 CpuManufacturer::Amd => features[1] = 0,
+                _ if max_leaf < 7 || !is_avx_enabled(features) => features[1] = 0,
                 _ => cpuid(7, features),
             }
 
-- 
2.43.0


From e77f6013724dacc1cd5d74ac91e5ebb6f2073c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:49 +0000
Subject: [PATCH 09/11] fix: do not read past packed 24-bit images in the sse2
 and avx2 kernels

---
 src/convert_image/avx2.rs | 10 +++++++---
 src/convert_image/sse2.rs | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index da50f9d..f08269f 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -55,6 +55,10 @@ const YUV_TO_RGB_WG_SIZE: usize = 1;
 const RGB_TO_YUV_WAVES: usize = LANE_COUNT / RGB_TO_YUV_WG_SIZE;
 const YUV_TO_RGB_WAVES: usize = LANE_COUNT / YUV_TO_RGB_WG_SIZE;
 
+// A group of packed 24-bit pixels is loaded with a full register: that reads 8 bytes past the
+// group, which have to be part of the line.
+const BGR_READ_AHEAD: usize = 3;
+
 const PACK_LO_DQWORD_2X256: i32 = 0x20;
 const PACK_HI_DQWORD_2X256: i32 = 0x31;
 
@@ -1798,7 +1802,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        lower_multiple_of_pot(w.saturating_sub(BGR_READ_AHEAD), RGB_TO_YUV_WAVES)
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
@@ -1888,7 +1892,7 @@ fn rgb_i420<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        lower_multiple_of_pot(w.saturating_sub(BGR_READ_AHEAD), RGB_TO_YUV_WAVES)
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
@@ -1977,7 +1981,7 @@ fn rgb_i444<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        lower_multiple_of_pot(w.saturating_sub(BGR_READ_AHEAD), RGB_TO_YUV_WAVES)
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 7621ca3..35922ce 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -51,6 +51,10 @@ const YUV_TO_RGB_WG_SIZE: usize = 1;
 const RGB_TO_YUV_WAVES: usize = LANE_COUNT / RGB_TO_YUV_WG_SIZE;
 const YUV_TO_RGB_WAVES: usize = LANE_COUNT / YUV_TO_RGB_WG_SIZE;
 
+// A group of packed 24-bit pixels is loaded with a full register: that reads 4 bytes past the
+// group, which have to be part of the line.
+const BGR_READ_AHEAD: usize = 2;
+
 #[cfg_attr(coverage_nightly, coverage(off))]
 const fn mm_shuffle(z: i32, y: i32, x: i32, w: i32) -> i32 {
     (z << 6) | (y << 4) | (x << 2) | w
@@ -1249,7 +1253,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        lower_multiple_of_pot(w.saturating_sub(BGR_READ_AHEAD), RGB_TO_YUV_WAVES)
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
@@ -1339,7 +1343,7 @@ fn rgb_i420<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        lower_multiple_of_pot(w.saturating_sub(BGR_READ_AHEAD), RGB_TO_YUV_WAVES)
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
@@ -1428,7 +1432,7 @@ fn rgb_i444<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        lower_multiple_of_pot(w.saturating_sub(BGR_READ_AHEAD), RGB_TO_YUV_WAVES)
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
-- 
2.43.0


From 056cb2ddf4c6b7915712982df54ecbc55f30ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:32 +0000
Subject: [PATCH 10/11] fix: center the chroma of full range ycbcr to rgb
 conversions on 128

---
 genweights.py               |  2 +-
 src/convert_image/common.rs | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/genweights.py b/genweights.py
index 6717b2a..89539b4 100644
--- a/genweights.py
+++ b/genweights.py
@@ -202,7 +202,7 @@ if __name__ == '__main__':
         SUFFIX = ""
 
     Y_RANGE = Y_MAX - Y_MIN
-    C_HALF = (C_MAX + C_MIN) >> 1
+    C_HALF = (C_MAX + C_MIN + 1) >> 1
     C_RANGE = C_MAX - C_MIN
     Y_SCALE = (Y_RANGE / FULL_RANGE)
     C_SCALE = (C_RANGE / FULL_RANGE)
diff --git a/src/convert_image/common.rs b/src/convert_image/common.rs
index bc34830..7952cb3 100644
--- a/src/convert_image/common.rs
+++ b/src/convert_image/common.rs
@@ -152,9 +152,9 @@ pub const RCRM_601FR: i32 = 22970;
 pub const GCRM_601FR: i32 = 11700;
 pub const GCBM_601FR: i32 = 5638;
 pub const BCBM_601FR: i32 = 29032;
-pub const RN_601FR: i32 = 11363;
-pub const GP_601FR: i32 = 8633;
-pub const BN_601FR: i32 = 14370;
+pub const RN_601FR: i32 = 11453;
+pub const GP_601FR: i32 = 8701;
+pub const BN_601FR: i32 = 14484;
 
 // Coefficient table for 709 (full range)
 pub const XR_709FR: i32 = 13933;
@@ -169,9 +169,9 @@ pub const RCRM_709FR: i32 = 25802;
 pub const GCRM_709FR: i32 = 7670;
 pub const GCBM_709FR: i32 = 3069;
 pub const BCBM_709FR: i32 = 30402;
-pub const RN_709FR: i32 = 12768;
-pub const GP_709FR: i32 = 5359;
-pub const BN_709FR: i32 = 15050;
+pub const RN_709FR: i32 = 12869;
+pub const GP_709FR: i32 = 5401;
+pub const BN_709FR: i32 = 15169;
 
 // Other defines
 pub const Y_MIN: i32 = 16;
-- 
2.43.0


From 43068d616ba3b3251415155bc0c0779fd7d63551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:12 +0000
Subject: [PATCH 11/11] fix: check the enumerations of C image formats before
 they are read as such

Reading pixel_format and color_space through the reference to ImageFormat
lets the compiler assume that they hold a valid enumerator. In optimized
builds it removes the checks, and an invalid pixel format indexes the
tables of the formats out of bounds.
---
 src/lib.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d09c414..ad3a2f5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1004,6 +1004,16 @@ pub mod c_api {
         Err,
     }
 
+    /// Reads the pixel format and the color space as stored by the caller.
+    /// If they were read as enumerations, the compiler would assume that they are valid and
+    /// remove the checks.
+    unsafe fn raw_enums(format: *const ImageFormat) -> (u32, u32) {
+        (
+            ptr::addr_of!((*format).pixel_format).cast::<u32>().read(),
+            ptr::addr_of!((*format).color_space).cast::<u32>().read(),
+        )
+    }
+
     unsafe fn set_error(error: *mut ErrorKind, value: ErrorKind) -> self::Result {
         if !error.is_null() {
             *error = value;
@@ -1045,12 +1055,13 @@ pub mod c_api {
         }
 
         // C enums are untrusted in the sense you can cast any value to an enum type
-        let format = &*format;
-        let pixel_format = format.pixel_format as u32;
+        let (pixel_format, _) = raw_enums(format);
         if !dispatcher::is_pixel_format_valid(pixel_format) {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
+        let format = &*format;
+
         // We assume there is enough data in the buffers
         // If the assumption will not hold undefined behaviour occurs (like in C)
         let num_planes = format.num_planes as usize;
@@ -1094,18 +1105,19 @@ pub mod c_api {
         }
 
         // C enums are untrusted in the sense you can cast any value to an enum type
-        let src_format: &ImageFormat = &*src_format;
-        let dst_format: &ImageFormat = &*dst_format;
-        let src_pixel_format = src_format.pixel_format as u32;
-        let dst_pixel_format = dst_format.pixel_format as u32;
+        let (src_pixel_format, src_color_space) = raw_enums(src_format);
+        let (dst_pixel_format, dst_color_space) = raw_enums(dst_format);
         if !dispatcher::is_pixel_format_valid(src_pixel_format)
             || !dispatcher::is_pixel_format_valid(dst_pixel_format)
-            || !dispatcher::is_color_space_valid(src_format.color_space as u32)
-            || !dispatcher::is_color_space_valid(dst_format.color_space as u32)
+            || !dispatcher::is_color_space_valid(src_color_space)
+            || !dispatcher::is_color_space_valid(dst_color_space)
         {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
+        let src_format: &ImageFormat = &*src_format;
+        let dst_format: &ImageFormat = &*dst_format;
+
         // We assume there is enough data in the buffers
         // If the assumption will not hold undefined behaviour occurs (like in C)
         if !are_planes_compatible(src_pixel_format, src_format.num_planes)
-- 
2.43.0

