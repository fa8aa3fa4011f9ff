From 7005acad285d02846dfd709a8ac1e3cf1bdff9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 01/16] verif: add guarded hook to force the instruction set
 per thread

---
 src/cpu_info.rs |  7 +++++++
 src/lib.rs      |  8 ++++++++
 src/verif.rs    | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 64 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/cpu_info.rs b/src/cpu_info.rs
index 0718968..c756a70 100644
--- a/src/cpu_info.rs
+++ b/src/cpu_info.rs
@@ -47,6 +47,13 @@ const fn four_cc(a: u8, b: u8, c: u8, d: u8) -> u32 {
 
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 fn cpuid(functionnumber: u32, output: &mut [u32; 4]) {
+    // Interpreters cannot execute cpuid: let verification builds see a cpu without extensions
+    #[cfg(all(dcp_verif, miri))]
+    if functionnumber <= 7 {
+        *output = [0; 4];
+        return;
+    }
+
     unsafe {
         let result = __cpuid(functionnumber);
         output[0] = result.eax;
diff --git a/src/lib.rs b/src/lib.rs
index d7071ab..b2994cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -504,6 +504,11 @@ macro_rules! set_dispatch_table {
     };
 }
 
+#[cfg(dcp_verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif;
+
 #[cfg(feature = "test_instruction_sets")]
 static TEST_SET: AtomicI32 = AtomicI32::new(-1);
 
@@ -945,6 +950,9 @@ pub fn convert_image(
             .unwrap_or(converters)
     };
 
+    #[cfg(dcp_verif)]
+    let converters = verif::forced_table().unwrap_or(converters);
+
     if index >= converters.len() {
         return Err(ErrorKind::InvalidOperation);
     }
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..89e0c30
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,49 @@
+// Copyright 2019 Amazon.com, Inc. or its affiliates. All Rights Reserved.
+// SPDX-License-Identifier: MIT-0
+
+//! Verification hooks, only compiled with `--cfg dcp_verif`.
+//!
+//! They let a test harness choose, per thread, the instruction set used by `convert_image`,
+//! whatever the running cpu would select by default.
+#![allow(clippy::wildcard_imports)]
+use super::*;
+use std::cell::Cell;
+
+thread_local! {
+    static FORCED: Cell<Option<&'static DispatchTable>> = const { Cell::new(None) };
+}
+
+macro_rules! table {
+    ($set:ident) => {{
+        static TABLE: OnceLock<DispatchTable> = OnceLock::new();
+        TABLE.get_or_init(|| {
+            let mut table: DispatchTable = [None; dispatcher::TABLE_SIZE];
+            set_dispatch_table!(table, $set);
+            table
+        })
+    }};
+}
+
+/// Selects the instruction set used by the calling thread: an empty name restores the default
+/// selection. Returns false, without changing the selection, if the name is not known to the
+/// running target or not supported by the running cpu
+pub fn force_instruction_set(name: &str) -> bool {
+    let table = match name {
+        "" => None,
+        "x86" => Some(table!(x86)),
+        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+        "sse2" if is_x86_feature_detected!("sse2") => Some(table!(sse2)),
+        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+        "avx2" if is_x86_feature_detected!("avx2") => Some(table!(avx2)),
+        #[cfg(target_arch = "aarch64")]
+        "neon" => Some(table!(neon)),
+        _ => return false,
+    };
+
+    FORCED.with(|forced| forced.set(table));
+    true
+}
+
+pub(crate) fn forced_table() -> Option<DispatchTable> {
+    FORCED.with(Cell::get).copied()
+}
-- 
2.43.0


From 44b42e343522c42ed1907768ab9b224a0f9c838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 02/16] fix: compare the last row end, not stride plus rows of
 width, with buffer sizes

out_of_bounds() declared its width and stride parameters in the opposite order to
the one all its callers use, so that it required stride + (height - 1) * width bytes
rather than stride * (height - 1) + width: images with padded rows were accepted with
buffers too small to hold them (out of bounds accesses from safe code) and tight last
rows were refused.
---
 src/convert_image/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/convert_image/common.rs b/src/convert_image/common.rs
index fd09d25..bc34830 100644
--- a/src/convert_image/common.rs
+++ b/src/convert_image/common.rs
@@ -82,7 +82,7 @@ pub fn lower_multiple_of_pot(x: usize, p: usize) -> usize {
     x & !(p - 1)
 }
 
-pub fn out_of_bounds(size: usize, width: usize, height_minus_one: usize, stride: usize) -> bool {
+pub fn out_of_bounds(size: usize, stride: usize, height_minus_one: usize, width: usize) -> bool {
     width > size
         || (height_minus_one != 0
             && ((stride > usize::MAX / height_minus_one)
-- 
2.43.0


From 36e555075677efa4430cd85d521055bfb7cd7e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 03/16] fix: count bytes, not pixels, when checking rgb to rgb
 buffer sizes

bgr_rgb, bgra_rgb and rgb_bgra compared buffer lengths with rows of width bytes
although a row takes 3 or 4 times as many: buffers that cannot hold the image were
accepted and then read or written past their end.
---
 src/convert_image/avx2.rs | 12 ++++++------
 src/convert_image/neon.rs | 12 ++++++------
 src/convert_image/sse2.rs |  4 ++--
 src/convert_image/x86.rs  | 12 ++++++------
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index b9503ba..7fcaf0a 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -2122,8 +2122,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -2200,8 +2200,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -2250,8 +2250,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index 9d6c820..fb7d2a5 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -873,8 +873,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
@@ -950,8 +950,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1028,8 +1028,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 9a0bfba..7a4616d 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -1613,8 +1613,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index e9f0d89..12ee5c4 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -1462,8 +1462,8 @@ pub fn rgb_bgra(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1511,8 +1511,8 @@ pub fn bgra_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
     {
         return false;
     }
@@ -1559,8 +1559,8 @@ pub fn bgr_rgb(
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
     {
         return false;
     }
-- 
2.43.0


From 84520cc1c89186cd54c99c1699ed84b3dcdd428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 04/16] fix: do not read past the end of bgr sources

The SSE2 and AVX2 kernels load 16 (32) bytes for every 12 (24) bytes of bgr pixels.
When the width is a multiple of the vector group, or one pixel more than that, the last
load of the last row went beyond the end of the buffer.
---
 src/convert_image/avx2.rs | 15 ++++++++++++---
 src/convert_image/sse2.rs | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index 7fcaf0a..6da4d6e 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -1805,7 +1805,10 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        // Vector loads read past the pixels they use: leave enough pixels to the scalar part, so
+        // that they never go beyond the end of the line
+        (DEPTH * RGB_TO_YUV_WAVES)
+            * (w.saturating_sub(RGB_TO_YUV_WAVES / 2) / (DEPTH * RGB_TO_YUV_WAVES))
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
@@ -1895,7 +1898,10 @@ fn rgb_i420<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        // Vector loads read past the pixels they use: leave enough pixels to the scalar part, so
+        // that they never go beyond the end of the line
+        (DEPTH * RGB_TO_YUV_WAVES)
+            * (w.saturating_sub(RGB_TO_YUV_WAVES / 2) / (DEPTH * RGB_TO_YUV_WAVES))
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
@@ -1984,7 +1990,10 @@ fn rgb_i444<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        // Vector loads read past the pixels they use: leave enough pixels to the scalar part, so
+        // that they never go beyond the end of the line
+        (DEPTH * RGB_TO_YUV_WAVES)
+            * (w.saturating_sub(RGB_TO_YUV_WAVES / 2) / (DEPTH * RGB_TO_YUV_WAVES))
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 7a4616d..302fdf9 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -1252,7 +1252,10 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        // Vector loads read past the pixels they use: leave enough pixels to the scalar part, so
+        // that they never go beyond the end of the line
+        (DEPTH * RGB_TO_YUV_WAVES)
+            * (w.saturating_sub(RGB_TO_YUV_WAVES / 2) / (DEPTH * RGB_TO_YUV_WAVES))
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
@@ -1342,7 +1345,10 @@ fn rgb_i420<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        // Vector loads read past the pixels they use: leave enough pixels to the scalar part, so
+        // that they never go beyond the end of the line
+        (DEPTH * RGB_TO_YUV_WAVES)
+            * (w.saturating_sub(RGB_TO_YUV_WAVES / 2) / (DEPTH * RGB_TO_YUV_WAVES))
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
@@ -1431,7 +1437,10 @@ fn rgb_i444<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     // Process vector part and scalar one
     let vector_part = if DEPTH == 3 {
-        (DEPTH * RGB_TO_YUV_WAVES) * (w / (DEPTH * RGB_TO_YUV_WAVES))
+        // Vector loads read past the pixels they use: leave enough pixels to the scalar part, so
+        // that they never go beyond the end of the line
+        (DEPTH * RGB_TO_YUV_WAVES)
+            * (w.saturating_sub(RGB_TO_YUV_WAVES / 2) / (DEPTH * RGB_TO_YUV_WAVES))
     } else {
         lower_multiple_of_pot(w, RGB_TO_YUV_WAVES)
     };
-- 
2.43.0


From 33b476929096f6610694fa308346a33b0ed7c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 05/16] fix: handle rgb strides narrower than a row without
 wrapping

---
 src/convert_image/avx2.rs | 26 ++++++++------------------
 src/convert_image/sse2.rs | 11 +++--------
 src/convert_image/x86.rs  | 19 +++++--------------
 3 files changed, 16 insertions(+), 40 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index 6da4d6e..ff243d8 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -1270,15 +1270,13 @@ unsafe fn bgra_to_rgb_avx2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
     let limit_4x = lower_multiple_of_pot(width, LANE_COUNT);
     let limit = lower_multiple_of_pot(width, ITEMS_PER_ITERATION);
 
     for i in 0..height {
         let mut y = 0;
-        let mut src_offset = ((SRC_DEPTH * width) + src_stride_diff) * i;
-        let mut dst_offset = ((DST_DEPTH * width) + dst_stride_diff) * i;
+        let mut src_offset = src_stride * i;
+        let mut dst_offset = dst_stride * i;
 
         while y < limit_4x {
             let src_ptr: *const __m256i = src_group.add(src_offset).cast();
@@ -1341,10 +1339,10 @@ unsafe fn bgra_to_rgb_avx2(
     }
 
     if limit != width {
-        let mut src_offset = 0;
-        let mut dst_offset = 0;
+        for i in 0..height {
+            let src_offset = src_stride * i;
+            let dst_offset = dst_stride * i;
 
-        for _ in 0..height {
             for y in limit..width {
                 *dst_group.add((DST_DEPTH * y) + dst_offset) =
                     *src_group.add((SRC_DEPTH * y) + 2 + src_offset);
@@ -1353,9 +1351,6 @@ unsafe fn bgra_to_rgb_avx2(
                 *dst_group.add((DST_DEPTH * y) + 2 + dst_offset) =
                     *src_group.add((SRC_DEPTH * y) + src_offset);
             }
-
-            src_offset += (SRC_DEPTH * width) + src_stride_diff;
-            dst_offset += (DST_DEPTH * width) + dst_stride_diff;
         }
     }
 }
@@ -1382,12 +1377,10 @@ unsafe fn rgb_to_bgra_avx2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
-    let mut src_offset = 0;
-    let mut dst_offset = 0;
+    for i in 0..height {
+        let mut src_offset = src_stride * i;
+        let mut dst_offset = dst_stride * i;
 
-    for _ in 0..height {
         _mm_prefetch(src_group.cast::<i8>(), _MM_HINT_NTA);
 
         for _ in (0..width).step_by(LANE_COUNT) {
@@ -1449,9 +1442,6 @@ unsafe fn rgb_to_bgra_avx2(
             src_offset += LANE_COUNT * SRC_DEPTH;
             dst_offset += LANE_COUNT * DST_DEPTH;
         }
-
-        src_offset += src_stride_diff;
-        dst_offset += dst_stride_diff;
     }
 }
 
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 302fdf9..e9044f0 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -857,12 +857,10 @@ unsafe fn rgb_to_bgra_sse2(
     let src_group = src_buffer.as_ptr();
     let dst_group = dst_buffer.as_mut_ptr();
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
-    let mut src_offset = 0;
-    let mut dst_offset = 0;
+    for i in 0..height {
+        let mut src_offset = src_stride * i;
+        let mut dst_offset = dst_stride * i;
 
-    for _ in 0..height {
         for _ in (0..width).step_by(LANE_COUNT) {
             let src_ptr: *const __m128i = src_group.add(src_offset).cast();
             let dst_ptr: *mut __m128i = dst_group.add(dst_offset).cast();
@@ -904,9 +902,6 @@ unsafe fn rgb_to_bgra_sse2(
             src_offset += LANE_COUNT * SRC_DEPTH;
             dst_offset += LANE_COUNT * DST_DEPTH;
         }
-
-        src_offset += src_stride_diff;
-        dst_offset += dst_stride_diff;
     }
 }
 
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index 12ee5c4..b1bf03c 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -704,16 +704,15 @@ pub fn rgb_to_bgra(
     const DST_DEPTH: usize = 4;
     const ITEMS_PER_ITERATION: usize = 8;
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
+    let src_stride_diff = src_stride.saturating_sub(SRC_DEPTH * width);
 
     unsafe {
         let src_group = src_buffer.as_ptr();
         let dst_group = dst_buffer.as_mut_ptr();
-        let mut src_offset = 0;
-        let mut dst_offset = 0;
 
         for y in 0..height {
+            let mut src_offset = src_stride * y;
+            let mut dst_offset = dst_stride * y;
             let is_last_line = y == height - 1;
 
             // For single swap iteration, since the swap is done on 32 bits while the input is only
@@ -806,13 +805,7 @@ pub fn rgb_to_bgra(
                 *dst_group.add(dst_offset + 1) = *src_group.add(src_offset + 1);
                 *dst_group.add(dst_offset + 2) = *src_group.add(src_offset);
                 *dst_group.add(dst_offset + 3) = 0xFF;
-
-                src_offset += SRC_DEPTH;
-                dst_offset += DST_DEPTH;
             }
-
-            src_offset += src_stride_diff;
-            dst_offset += dst_stride_diff;
         }
     }
 }
@@ -915,8 +908,6 @@ pub fn bgra_to_rgb(
     const HIGH_MASK: u64 = 0xFFFF_FF00_0000_0000;
     const LOW_MASK: u64 = 0x0000_00FF_FFFF_0000;
 
-    let src_stride_diff = src_stride - (SRC_DEPTH * width);
-    let dst_stride_diff = dst_stride - (DST_DEPTH * width);
     let limit_4x = lower_multiple_of_pot(width, ITEMS_PER_ITERATION_4X);
 
     unsafe {
@@ -925,8 +916,8 @@ pub fn bgra_to_rgb(
 
         for i in 0..height {
             let mut y = 0;
-            let mut src_offset = ((SRC_DEPTH * width) + src_stride_diff) * i;
-            let mut dst_offset = ((DST_DEPTH * width) + dst_stride_diff) * i;
+            let mut src_offset = src_stride * i;
+            let mut dst_offset = dst_stride * i;
 
             while y < limit_4x {
                 let src_ptr: *const u64 = src_group.add(src_offset).cast();
-- 
2.43.0


From 8e49568a718f6bc37dd4a85b29a76952be800b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 06/16] fix: do not overflow when checking single plane nv12
 buffers

---
 src/convert_image/avx2.rs | 5 +++--
 src/convert_image/neon.rs | 3 ++-
 src/convert_image/sse2.rs | 5 +++--
 src/convert_image/x86.rs  | 5 +++--
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index ff243d8..9a700f4 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -1488,7 +1488,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
+        if out_of_bounds(src_buffers.0.len(), src_strides.0, h, 0) {
             return false;
         }
 
@@ -1774,7 +1774,8 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && out_of_bounds(dst_buffers[last_dst_plane].len(), dst_strides.0, h, 0)
+    {
         return false;
     }
 
diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index fb7d2a5..21d9d67 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -456,7 +456,8 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && out_of_bounds(dst_buffers[last_dst_plane].len(), dst_strides.0, h, 0)
+    {
         return false;
     }
 
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index e9044f0..5e292b0 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -948,7 +948,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
+        if out_of_bounds(src_buffers.0.len(), src_strides.0, h, 0) {
             return false;
         }
 
@@ -1226,7 +1226,8 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && out_of_bounds(dst_buffers[last_dst_plane].len(), dst_strides.0, h, 0)
+    {
         return false;
     }
 
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index b1bf03c..07c50b8 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -1009,7 +1009,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     // to the image dimensions and computed strides
     let mut src_buffers = (src_buffers[0], src_buffers[last_src_plane]);
     if last_src_plane == 0 {
-        if src_buffers.0.len() < src_strides.0 * h {
+        if out_of_bounds(src_buffers.0.len(), src_strides.0, h, 0) {
             return false;
         }
 
@@ -1319,7 +1319,8 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = &src_buffers[0];
-    if last_dst_plane == 0 && dst_buffers[last_dst_plane].len() < dst_strides.0 * h {
+    if last_dst_plane == 0 && out_of_bounds(dst_buffers[last_dst_plane].len(), dst_strides.0, h, 0)
+    {
         return false;
     }
 
-- 
2.43.0


From 92ff2ac8483db911f242e7cc847e87121f406104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 07/16] fix: use the stride of single buffer formats once when
 computing their size

---
 src/pixel_format.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index c88300d..a54358e 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -208,7 +208,7 @@ pub fn get_buffers_size(
     let pixel_format = pixel_format as usize;
     let stride_spec = STRIDE_SPECS[pixel_format];
     for i in 0..MAX_NUMBER_OF_PLANES {
-        stride[i] = if i >= strides.len() || strides[i] == STRIDE_AUTO {
+        stride[i] = if last_plane == 0 || i >= strides.len() || strides[i] == STRIDE_AUTO {
             get_plane_mask(stride_spec, i) * get_plane_spec(width, stride_spec, i)
         } else {
             strides[i]
@@ -216,7 +216,16 @@ pub fn get_buffers_size(
     }
 
     let height_spec = HEIGHT_SPECS[pixel_format];
-    if last_plane == 0 {
+    if last_plane == 0 && strides[0] != STRIDE_AUTO {
+        // Chroma lines, if any, follow luma ones with the same stride
+        let chroma_lines = if pixel_format == (PixelFormat::Nv12 as usize) {
+            get_plane_spec(height, height_spec, 1)
+        } else {
+            0
+        };
+
+        buffers_size[0] = strides[0] * (get_plane_spec(height, height_spec, 0) + chroma_lines);
+    } else if last_plane == 0 {
         buffers_size[0] = ((stride[0] * get_plane_spec(height, height_spec, 0))
             + (stride[1] * get_plane_spec(height, height_spec, 1)))
             + ((stride[2] * get_plane_spec(height, height_spec, 2))
-- 
2.43.0


From 1df06110aa2c92174519216337a809fc6d4b6c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 08/16] fix: report an error when the size of an image does not
 fit in memory

---
 src/pixel_format.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index a54358e..cc1b57e 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -224,12 +224,22 @@ pub fn get_buffers_size(
             0
         };
 
-        buffers_size[0] = strides[0] * (get_plane_spec(height, height_spec, 0) + chroma_lines);
+        let lines = get_plane_spec(height, height_spec, 0) + chroma_lines;
+        match strides[0].checked_mul(lines) {
+            Some(size) => buffers_size[0] = size,
+            None => return false,
+        }
     } else if last_plane == 0 {
-        buffers_size[0] = ((stride[0] * get_plane_spec(height, height_spec, 0))
-            + (stride[1] * get_plane_spec(height, height_spec, 1)))
-            + ((stride[2] * get_plane_spec(height, height_spec, 2))
-                + (stride[3] * get_plane_spec(height, height_spec, 3)));
+        let mut size = 0_usize;
+        for (i, stride) in stride.iter().enumerate() {
+            let plane_size = stride.checked_mul(get_plane_spec(height, height_spec, i));
+            match plane_size.and_then(|plane_size| size.checked_add(plane_size)) {
+                Some(total) => size = total,
+                None => return false,
+            }
+        }
+
+        buffers_size[0] = size;
     } else {
         let buffer_array = &mut buffers_size[..=last_plane];
         let stride_array = &stride[..=last_plane];
@@ -237,7 +247,10 @@ pub fn get_buffers_size(
         for (buffer_size, (i, stride)) in
             buffer_array.iter_mut().zip(stride_array.iter().enumerate())
         {
-            *buffer_size = *stride * get_plane_spec(height, height_spec, i);
+            match stride.checked_mul(get_plane_spec(height, height_spec, i)) {
+                Some(size) => *buffer_size = size,
+                None => return false,
+            }
         }
     }
 
-- 
2.43.0


From 63c885815ac6016dfd6ac6c61246c90cc5d18bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 09/16] fix: saturate instead of wrapping when adding luma in
 the vector yuv to rgb paths

---
 src/convert_image/avx2.rs | 118 +++++++++++++++++++-------------------
 src/convert_image/sse2.rs |  84 ++++++++++++++-------------
 2 files changed, 102 insertions(+), 100 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index 9a700f4..f45cc14 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -23,30 +23,30 @@ use core::ptr::{read_unaligned as loadu, write_unaligned as storeu};
 
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
-    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_blend_epi32, _mm256_cmpeq_epi32,
-    _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16, _mm256_or_si256,
-    _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256, _mm256_permute4x64_epi64,
-    _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32, _mm256_set_epi16,
-    _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8, _mm256_setzero_si256,
-    _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32, _mm256_slli_si256,
-    _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256,
-    _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16,
-    _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch,
-    _mm_setzero_si128, _MM_HINT_NTA,
+    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_adds_epi16, _mm256_blend_epi32,
+    _mm256_cmpeq_epi32, _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16,
+    _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256,
+    _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32,
+    _mm256_set_epi16, _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8,
+    _mm256_setzero_si256, _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32,
+    _mm256_slli_si256, _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32,
+    _mm256_srli_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8,
+    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8,
+    _mm_prefetch, _mm_setzero_si128, _MM_HINT_NTA,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
-    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_blend_epi32, _mm256_cmpeq_epi32,
-    _mm256_extract_epi64, _mm256_extracti128_si256, _mm256_madd_epi16, _mm256_mulhi_epu16,
-    _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16, _mm256_permute2x128_si256,
-    _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32, _mm256_set1_epi16, _mm256_set1_epi32,
-    _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32, _mm256_setr_epi8, _mm256_setzero_si256,
-    _mm256_shuffle_epi8, _mm256_slli_epi16, _mm256_slli_epi32, _mm256_slli_si256,
-    _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16, _mm256_srli_epi32, _mm256_srli_si256,
-    _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi8, _mm256_unpacklo_epi16,
-    _mm256_unpacklo_epi32, _mm256_unpacklo_epi64, _mm256_unpacklo_epi8, _mm_prefetch,
-    _mm_setzero_si128, _MM_HINT_NTA,
+    __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_adds_epi16, _mm256_blend_epi32,
+    _mm256_cmpeq_epi32, _mm256_extract_epi64, _mm256_extracti128_si256, _mm256_madd_epi16,
+    _mm256_mulhi_epu16, _mm256_or_si256, _mm256_packs_epi32, _mm256_packus_epi16,
+    _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_permutevar8x32_epi32,
+    _mm256_set1_epi16, _mm256_set1_epi32, _mm256_set_epi32, _mm256_set_m128i, _mm256_setr_epi32,
+    _mm256_setr_epi8, _mm256_setzero_si256, _mm256_shuffle_epi8, _mm256_slli_epi16,
+    _mm256_slli_epi32, _mm256_slli_si256, _mm256_srai_epi16, _mm256_srai_epi32, _mm256_srli_epi16,
+    _mm256_srli_epi32, _mm256_srli_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
+    _mm256_unpackhi_epi8, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32, _mm256_unpacklo_epi64,
+    _mm256_unpacklo_epi8, _mm_prefetch, _mm_setzero_si128, _MM_HINT_NTA,
 };
 
 const LANE_COUNT: usize = 32;
@@ -722,9 +722,9 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -737,9 +737,9 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -758,9 +758,9 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -773,9 +773,9 @@ unsafe fn nv12_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -841,9 +841,9 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
             );
             pack_rgb_16x(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -856,9 +856,9 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
             );
             pack_rgb_16x(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -877,9 +877,9 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
             );
             pack_rgb_16x(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -892,9 +892,9 @@ unsafe fn nv12_to_rgb_avx2<const COLORIMETRY: usize>(
             );
             pack_rgb_16x(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -961,9 +961,9 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y00), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm256_mulhi_epu16(
@@ -976,9 +976,9 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_hi, y10), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -997,9 +997,9 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y01), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm256_mulhi_epu16(
@@ -1012,9 +1012,9 @@ unsafe fn i420_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_hi, y11), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -1100,9 +1100,9 @@ unsafe fn i444_to_bgra_avx2<const COLORIMETRY: usize, const REVERSED: bool>(
             );
             pack_i16x3_16x::<REVERSED>(
                 dst_group.add(wg_index(x, y, DST_DEPTH, dst_stride)),
-                fix_to_i16_16x!(_mm256_add_epi16(sr_lo, y_lo), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sg_lo, y_lo), FIX6),
-                fix_to_i16_16x!(_mm256_add_epi16(sb_lo, y_lo), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sr_lo, y_lo), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sg_lo, y_lo), FIX6),
+                fix_to_i16_16x!(_mm256_adds_epi16(sb_lo, y_lo), FIX6),
             );
         }
     }
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 5e292b0..49fad6d 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -23,24 +23,26 @@ use core::ptr::{read_unaligned as loadu, write_unaligned as storeu};
 
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
-    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_and_si128, _mm_andnot_si128, _mm_cmpeq_epi32,
-    _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128, _mm_packs_epi32,
-    _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x, _mm_set_epi32,
-    _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16, _mm_shufflelo_epi16,
-    _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16, _mm_srai_epi32, _mm_srli_epi16,
-    _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16, _mm_unpackhi_epi16, _mm_unpackhi_epi8,
-    _mm_unpacklo_epi16, _mm_unpacklo_epi32, _mm_unpacklo_epi64, _mm_unpacklo_epi8,
+    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_adds_epi16, _mm_and_si128, _mm_andnot_si128,
+    _mm_cmpeq_epi32, _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128,
+    _mm_packs_epi32, _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x,
+    _mm_set_epi32, _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16,
+    _mm_shufflelo_epi16, _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16,
+    _mm_srai_epi32, _mm_srli_epi16, _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16,
+    _mm_unpackhi_epi16, _mm_unpackhi_epi8, _mm_unpacklo_epi16, _mm_unpacklo_epi32,
+    _mm_unpacklo_epi64, _mm_unpacklo_epi8,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
-    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_and_si128, _mm_andnot_si128, _mm_cmpeq_epi32,
-    _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128, _mm_packs_epi32,
-    _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x, _mm_set_epi32,
-    _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16, _mm_shufflelo_epi16,
-    _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16, _mm_srai_epi32, _mm_srli_epi16,
-    _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16, _mm_unpackhi_epi16, _mm_unpackhi_epi8,
-    _mm_unpacklo_epi16, _mm_unpacklo_epi32, _mm_unpacklo_epi64, _mm_unpacklo_epi8,
+    __m128i, _mm_add_epi16, _mm_add_epi32, _mm_adds_epi16, _mm_and_si128, _mm_andnot_si128,
+    _mm_cmpeq_epi32, _mm_cvtsi128_si32, _mm_madd_epi16, _mm_mulhi_epu16, _mm_or_si128,
+    _mm_packs_epi32, _mm_packus_epi16, _mm_set1_epi16, _mm_set1_epi32, _mm_set1_epi64x,
+    _mm_set_epi32, _mm_set_epi64x, _mm_setzero_si128, _mm_shuffle_epi32, _mm_shufflehi_epi16,
+    _mm_shufflelo_epi16, _mm_slli_epi16, _mm_slli_epi32, _mm_slli_si128, _mm_srai_epi16,
+    _mm_srai_epi32, _mm_srli_epi16, _mm_srli_epi32, _mm_srli_si128, _mm_sub_epi16,
+    _mm_unpackhi_epi16, _mm_unpackhi_epi8, _mm_unpacklo_epi16, _mm_unpacklo_epi32,
+    _mm_unpacklo_epi64, _mm_unpacklo_epi8,
 };
 
 const LANE_COUNT: usize = 16;
@@ -640,17 +642,17 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
             let y00 = _mm_mulhi_epu16(_mm_unpacklo_epi8(zero!(), y0), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y0), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -662,17 +664,17 @@ unsafe fn nv12_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
             let y01 = _mm_mulhi_epu16(_mm_unpacklo_epi8(zero!(), y1), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y1), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -732,17 +734,17 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
             let y00 = _mm_mulhi_epu16(_mm_unpacklo_epi8(zero!(), y0), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_lo, y00), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_lo, y00), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y00), FIX6),
             );
 
             let y10 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y0), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_hi, y10), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_hi, y10), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y10), FIX6),
             );
 
             let y1 = loadu(
@@ -754,17 +756,17 @@ unsafe fn i420_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
             let y01 = _mm_mulhi_epu16(_mm_unpacklo_epi8(zero!(), y1), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_lo, y01), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_lo, y01), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y01), FIX6),
             );
 
             let y11 = _mm_mulhi_epu16(_mm_unpackhi_epi8(zero!(), y1), xxym);
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(2 * x + 1, 2 * y + 1, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_hi, y11), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_hi, y11), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_hi, y11), FIX6),
             );
         }
     }
@@ -830,9 +832,9 @@ unsafe fn i444_to_bgra_sse2<const COLORIMETRY: usize, const REVERSED: bool>(
 
             pack_i16x3_8x::<REVERSED>(
                 dst_group.add(wg_index(x, y, DST_DEPTH, dst_stride)),
-                fix_to_i16_8x!(_mm_add_epi16(sr_lo, y_lo), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sg_lo, y_lo), FIX6),
-                fix_to_i16_8x!(_mm_add_epi16(sb_lo, y_lo), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sr_lo, y_lo), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sg_lo, y_lo), FIX6),
+                fix_to_i16_8x!(_mm_adds_epi16(sb_lo, y_lo), FIX6),
             );
         }
     }
-- 
2.43.0


From 8757248e8087bfe82450edb5db654c3a44a2ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:24 +0000
Subject: [PATCH 10/16] fix: centre full range chroma on 128 when converting to
 rgb

---
 src/convert_image/common.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/convert_image/common.rs b/src/convert_image/common.rs
index bc34830..7952cb3 100644
--- a/src/convert_image/common.rs
+++ b/src/convert_image/common.rs
@@ -152,9 +152,9 @@ pub const RCRM_601FR: i32 = 22970;
 pub const GCRM_601FR: i32 = 11700;
 pub const GCBM_601FR: i32 = 5638;
 pub const BCBM_601FR: i32 = 29032;
-pub const RN_601FR: i32 = 11363;
-pub const GP_601FR: i32 = 8633;
-pub const BN_601FR: i32 = 14370;
+pub const RN_601FR: i32 = 11453;
+pub const GP_601FR: i32 = 8701;
+pub const BN_601FR: i32 = 14484;
 
 // Coefficient table for 709 (full range)
 pub const XR_709FR: i32 = 13933;
@@ -169,9 +169,9 @@ pub const RCRM_709FR: i32 = 25802;
 pub const GCRM_709FR: i32 = 7670;
 pub const GCBM_709FR: i32 = 3069;
 pub const BCBM_709FR: i32 = 30402;
-pub const RN_709FR: i32 = 12768;
-pub const GP_709FR: i32 = 5359;
-pub const BN_709FR: i32 = 15050;
+pub const RN_709FR: i32 = 12869;
+pub const GP_709FR: i32 = 5401;
+pub const BN_709FR: i32 = 15169;
 
 // Other defines
 pub const Y_MIN: i32 = 16;
-- 
2.43.0


From 319cd3d8e2814e24ef4f03bc3ae973c3cbc9b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 11/16] fix: validate c enums before using them as rust enums

---
 src/lib.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b2994cf..eee5b4a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1052,15 +1052,16 @@ pub mod c_api {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
-        // C enums are untrusted in the sense you can cast any value to an enum type
-        let format = &*format;
-        let pixel_format = format.pixel_format as u32;
+        // C enums are untrusted in the sense you can cast any value to an enum type:
+        // they have to be read as integers until they are validated
+        let pixel_format = ptr::addr_of!((*format).pixel_format).cast::<u32>().read();
         if !dispatcher::is_pixel_format_valid(pixel_format) {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
         // We assume there is enough data in the buffers
         // If the assumption will not hold undefined behaviour occurs (like in C)
+        let format = &*format;
         let num_planes = format.num_planes as usize;
         if !are_planes_compatible(pixel_format, format.num_planes) {
             return set_error(error, ErrorKind::InvalidValue);
@@ -1101,21 +1102,24 @@ pub mod c_api {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
-        // C enums are untrusted in the sense you can cast any value to an enum type
-        let src_format: &ImageFormat = &*src_format;
-        let dst_format: &ImageFormat = &*dst_format;
-        let src_pixel_format = src_format.pixel_format as u32;
-        let dst_pixel_format = dst_format.pixel_format as u32;
+        // C enums are untrusted in the sense you can cast any value to an enum type:
+        // they have to be read as integers until they are validated
+        let src_pixel_format = ptr::addr_of!((*src_format).pixel_format).cast::<u32>().read();
+        let dst_pixel_format = ptr::addr_of!((*dst_format).pixel_format).cast::<u32>().read();
+        let src_color_space = ptr::addr_of!((*src_format).color_space).cast::<u32>().read();
+        let dst_color_space = ptr::addr_of!((*dst_format).color_space).cast::<u32>().read();
         if !dispatcher::is_pixel_format_valid(src_pixel_format)
             || !dispatcher::is_pixel_format_valid(dst_pixel_format)
-            || !dispatcher::is_color_space_valid(src_format.color_space as u32)
-            || !dispatcher::is_color_space_valid(dst_format.color_space as u32)
+            || !dispatcher::is_color_space_valid(src_color_space)
+            || !dispatcher::is_color_space_valid(dst_color_space)
         {
             return set_error(error, ErrorKind::InvalidValue);
         }
 
         // We assume there is enough data in the buffers
         // If the assumption will not hold undefined behaviour occurs (like in C)
+        let src_format: &ImageFormat = &*src_format;
+        let dst_format: &ImageFormat = &*dst_format;
         if !are_planes_compatible(src_pixel_format, src_format.num_planes)
             || !are_planes_compatible(dst_pixel_format, dst_format.num_planes)
         {
-- 
2.43.0


From 705611f2f16bc4bc521d9a848c5c19eea22a1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 12/16] fix: do not build oversized or uninitialised slices in
 the c interface

---
 src/lib.rs | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index eee5b4a..f5e12b9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -997,15 +997,12 @@ pub mod c_api {
     use pixel_format::{are_planes_compatible, MAX_NUMBER_OF_PLANES};
     use std::cmp;
     use std::ffi::CString;
-    use std::mem::{transmute, MaybeUninit};
     use std::os::raw::c_char;
     use std::ptr;
     use std::slice;
 
     const UNBOUNDED_C_ARRAY: usize = isize::MAX as usize;
 
-    type PlaneArray<'a> = [MaybeUninit<&'a [u8]>; MAX_NUMBER_OF_PLANES];
-
     #[repr(C)]
     pub enum Result {
         Ok,
@@ -1104,10 +1101,18 @@ pub mod c_api {
 
         // C enums are untrusted in the sense you can cast any value to an enum type:
         // they have to be read as integers until they are validated
-        let src_pixel_format = ptr::addr_of!((*src_format).pixel_format).cast::<u32>().read();
-        let dst_pixel_format = ptr::addr_of!((*dst_format).pixel_format).cast::<u32>().read();
-        let src_color_space = ptr::addr_of!((*src_format).color_space).cast::<u32>().read();
-        let dst_color_space = ptr::addr_of!((*dst_format).color_space).cast::<u32>().read();
+        let src_pixel_format = ptr::addr_of!((*src_format).pixel_format)
+            .cast::<u32>()
+            .read();
+        let dst_pixel_format = ptr::addr_of!((*dst_format).pixel_format)
+            .cast::<u32>()
+            .read();
+        let src_color_space = ptr::addr_of!((*src_format).color_space)
+            .cast::<u32>()
+            .read();
+        let dst_color_space = ptr::addr_of!((*dst_format).color_space)
+            .cast::<u32>()
+            .read();
         if !dispatcher::is_pixel_format_valid(src_pixel_format)
             || !dispatcher::is_pixel_format_valid(dst_pixel_format)
             || !dispatcher::is_color_space_valid(src_color_space)
@@ -1129,8 +1134,7 @@ pub mod c_api {
         let src_buffers = {
             let src_num_planes = src_format.num_planes as usize;
             let num_planes = cmp::min(src_num_planes, MAX_NUMBER_OF_PLANES);
-            let mut src_buf: PlaneArray =
-                [MaybeUninit::uninit().assume_init(); MAX_NUMBER_OF_PLANES];
+            let mut src_buf: [&[u8]; MAX_NUMBER_OF_PLANES] = Default::default();
 
             for (plane_index, item) in src_buf.iter_mut().enumerate().take(num_planes) {
                 let ptr = *src_buffers.add(plane_index);
@@ -1138,17 +1142,16 @@ pub mod c_api {
                     return set_error(error, ErrorKind::InvalidValue);
                 }
 
-                *item = MaybeUninit::new(slice::from_raw_parts(ptr, UNBOUNDED_C_ARRAY));
+                *item = slice::from_raw_parts(ptr, UNBOUNDED_C_ARRAY);
             }
 
-            transmute::<PlaneArray, [&[u8]; MAX_NUMBER_OF_PLANES]>(src_buf)
+            src_buf
         };
 
         let mut dst_buffers = {
             let dst_num_planes = dst_format.num_planes as usize;
             let num_planes = cmp::min(dst_num_planes, MAX_NUMBER_OF_PLANES);
-            let mut dst_buf: PlaneArray =
-                [MaybeUninit::uninit().assume_init(); MAX_NUMBER_OF_PLANES];
+            let mut dst_buf: [&mut [u8]; MAX_NUMBER_OF_PLANES] = Default::default();
 
             for (plane_index, item) in dst_buf.iter_mut().enumerate().take(num_planes) {
                 let ptr = *dst_buffers.add(plane_index);
@@ -1156,23 +1159,29 @@ pub mod c_api {
                     return set_error(error, ErrorKind::InvalidValue);
                 }
 
-                *item = MaybeUninit::new(slice::from_raw_parts_mut(ptr, UNBOUNDED_C_ARRAY));
+                *item = slice::from_raw_parts_mut(ptr, UNBOUNDED_C_ARRAY);
             }
 
-            transmute::<PlaneArray, [&mut [u8]; MAX_NUMBER_OF_PLANES]>(dst_buf)
+            dst_buf
         };
 
         // Convert nullable type to Option
         let src_strides = if src_strides.is_null() {
             None
         } else {
-            Some(slice::from_raw_parts(src_strides, UNBOUNDED_C_ARRAY))
+            Some(slice::from_raw_parts(
+                src_strides,
+                src_format.num_planes as usize,
+            ))
         };
 
         let dst_strides = if dst_strides.is_null() {
             None
         } else {
-            Some(slice::from_raw_parts(dst_strides, UNBOUNDED_C_ARRAY))
+            Some(slice::from_raw_parts(
+                dst_strides,
+                dst_format.num_planes as usize,
+            ))
         };
 
         match convert_image(
-- 
2.43.0


From 6c087455c878466399da84603d0765866962b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 13/16] fix: select avx2 only if the operating system supports
 it

---
 src/cpu_info.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/cpu_info.rs b/src/cpu_info.rs
index c756a70..c4d8482 100644
--- a/src/cpu_info.rs
+++ b/src/cpu_info.rs
@@ -93,15 +93,11 @@ pub fn get() -> (CpuManufacturer, InstructionSet) {
             // On AMD cpus, all encode/decode using avx2 have worse performance than sse2 ones
             // For now, disable the avx2 path even if supported.
             // See https://en.wikipedia.org/wiki/CPUID for additional details
-            match manufacturer {
-                CpuManufacturer::Amd => features[1] = 0,
-                _ => cpuid(7, features),
-            }
-
-            set = if (features[1] & (1 << 5)) == 0 {
-                InstructionSet::Sse2
-            } else {
-                InstructionSet::Avx2
+            // Elsewhere, it can be used only if the operating system saves the ymm registers too.
+            set = match manufacturer {
+                CpuManufacturer::Amd => InstructionSet::Sse2,
+                _ if is_x86_feature_detected!("avx2") => InstructionSet::Avx2,
+                _ => InstructionSet::Sse2,
             };
         }
     }
-- 
2.43.0


From ea29d2db16485954d2862f2bd36557acf675e008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 14/16] fix: get_buffers_size: line count of a single-buffer
 image may not fit in 32 bits

On 32-bit targets the sum of luma and chroma lines overflowed: panic in debug
builds, wrapped size otherwise.
---
 src/pixel_format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index cc1b57e..ce2488b 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -224,8 +224,8 @@ pub fn get_buffers_size(
             0
         };
 
-        let lines = get_plane_spec(height, height_spec, 0) + chroma_lines;
-        match strides[0].checked_mul(lines) {
+        let lines = get_plane_spec(height, height_spec, 0).checked_add(chroma_lines);
+        match lines.and_then(|lines| strides[0].checked_mul(lines)) {
             Some(size) => buffers_size[0] = size,
             None => return false,
         }
-- 
2.43.0


From 2ec2dc248a5ae275fb777c85ac1a19d80311b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 15/16] fix: row sizes of RGB images may not fit in 32 bits

On 32-bit targets depth * width wrapped for widths above 2^30, so buffers much
shorter than one row passed the bounds check and were overrun.
---
 src/convert_image/avx2.rs | 56 +++++++++++++++++++++++++--------------
 src/convert_image/sse2.rs | 30 +++++++++++++--------
 src/convert_image/x86.rs  | 56 +++++++++++++++++++++++++--------------
 3 files changed, 91 insertions(+), 51 deletions(-)

diff --git a/src/convert_image/avx2.rs b/src/convert_image/avx2.rs
index f45cc14..30856f7 100644
--- a/src/convert_image/avx2.rs
+++ b/src/convert_image/avx2.rs
@@ -1475,7 +1475,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     let w = width as usize;
     let h = height as usize;
     let ch = h / 2;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_strides = (
@@ -1588,7 +1588,7 @@ fn i420_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     let h = height as usize;
     let cw = w / 2;
     let ch = h / 2;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_strides = (
@@ -1675,7 +1675,7 @@ fn i444_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
 
     let w = width as usize;
     let h = height as usize;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_strides = (
@@ -1762,7 +1762,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     let w = width as usize;
     let h = height as usize;
     let ch = h / 2;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_stride = compute_stride(src_strides[0], rgb_stride);
@@ -1863,7 +1863,7 @@ fn rgb_i420<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     let h = height as usize;
     let cw = w / 2;
     let ch = h / 2;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_stride = compute_stride(src_strides[0], rgb_stride);
@@ -1955,7 +1955,7 @@ fn rgb_i444<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     let w = width as usize;
     let h = height as usize;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_stride = compute_stride(src_strides[0], rgb_stride);
@@ -2115,16 +2115,24 @@ pub fn rgb_bgra(
     let h = height as usize;
 
     // Compute actual strides
-    let src_stride = compute_stride(src_strides[0], SRC_DEPTH * w);
-    let dst_stride = compute_stride(dst_strides[0], DST_DEPTH * w);
+    let src_stride = compute_stride(src_strides[0], SRC_DEPTH.saturating_mul(w));
+    let dst_stride = compute_stride(dst_strides[0], DST_DEPTH.saturating_mul(w));
 
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
-    {
+    if out_of_bounds(
+        src_buffer.len(),
+        src_stride,
+        h - 1,
+        SRC_DEPTH.saturating_mul(w),
+    ) || out_of_bounds(
+        dst_buffer.len(),
+        dst_stride,
+        h - 1,
+        DST_DEPTH.saturating_mul(w),
+    ) {
         return false;
     }
 
@@ -2193,16 +2201,24 @@ pub fn bgra_rgb(
     let h = height as usize;
 
     // Compute actual strides
-    let src_stride = compute_stride(src_strides[0], SRC_DEPTH * w);
-    let dst_stride = compute_stride(dst_strides[0], DST_DEPTH * w);
+    let src_stride = compute_stride(src_strides[0], SRC_DEPTH.saturating_mul(w));
+    let dst_stride = compute_stride(dst_strides[0], DST_DEPTH.saturating_mul(w));
 
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
-    {
+    if out_of_bounds(
+        src_buffer.len(),
+        src_stride,
+        h - 1,
+        SRC_DEPTH.saturating_mul(w),
+    ) || out_of_bounds(
+        dst_buffer.len(),
+        dst_stride,
+        h - 1,
+        DST_DEPTH.saturating_mul(w),
+    ) {
         return false;
     }
 
@@ -2243,15 +2259,15 @@ pub fn bgr_rgb(
     let h = height as usize;
 
     // Compute actual strides
-    let src_stride = compute_stride(src_strides[0], DEPTH * w);
-    let dst_stride = compute_stride(dst_strides[0], DEPTH * w);
+    let src_stride = compute_stride(src_strides[0], DEPTH.saturating_mul(w));
+    let dst_stride = compute_stride(dst_strides[0], DEPTH.saturating_mul(w));
 
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH.saturating_mul(w))
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH.saturating_mul(w))
     {
         return false;
     }
diff --git a/src/convert_image/sse2.rs b/src/convert_image/sse2.rs
index 49fad6d..00beaef 100644
--- a/src/convert_image/sse2.rs
+++ b/src/convert_image/sse2.rs
@@ -937,7 +937,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     let w = width as usize;
     let h = height as usize;
     let ch = h / 2;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_strides = (
@@ -1042,7 +1042,7 @@ fn i420_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     let h = height as usize;
     let cw = w / 2;
     let ch = h / 2;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_strides = (
@@ -1129,7 +1129,7 @@ fn i444_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
 
     let w = width as usize;
     let h = height as usize;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_strides = (
@@ -1216,7 +1216,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     let w = width as usize;
     let h = height as usize;
     let ch = h / 2;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_stride = compute_stride(src_strides[0], rgb_stride);
@@ -1317,7 +1317,7 @@ fn rgb_i420<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     let h = height as usize;
     let cw = w / 2;
     let ch = h / 2;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_stride = compute_stride(src_strides[0], rgb_stride);
@@ -1409,7 +1409,7 @@ fn rgb_i444<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     let w = width as usize;
     let h = height as usize;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_stride = compute_stride(src_strides[0], rgb_stride);
@@ -1613,16 +1613,24 @@ pub fn rgb_bgra(
     let h = height as usize;
 
     // Compute actual strides
-    let src_stride = compute_stride(src_strides[0], SRC_DEPTH * w);
-    let dst_stride = compute_stride(dst_strides[0], DST_DEPTH * w);
+    let src_stride = compute_stride(src_strides[0], SRC_DEPTH.saturating_mul(w));
+    let dst_stride = compute_stride(dst_strides[0], DST_DEPTH.saturating_mul(w));
 
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
-    {
+    if out_of_bounds(
+        src_buffer.len(),
+        src_stride,
+        h - 1,
+        SRC_DEPTH.saturating_mul(w),
+    ) || out_of_bounds(
+        dst_buffer.len(),
+        dst_stride,
+        h - 1,
+        DST_DEPTH.saturating_mul(w),
+    ) {
         return false;
     }
 
diff --git a/src/convert_image/x86.rs b/src/convert_image/x86.rs
index 07c50b8..80e8c8b 100644
--- a/src/convert_image/x86.rs
+++ b/src/convert_image/x86.rs
@@ -996,7 +996,7 @@ fn nv12_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     let w = width as usize;
     let h = height as usize;
     let ch = h / 2;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_strides = (
@@ -1070,7 +1070,7 @@ fn i420_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
     let h = height as usize;
     let cw = w / 2;
     let ch = h / 2;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_strides = (
@@ -1124,7 +1124,7 @@ fn i444_rgb<const COLORIMETRY: usize, const DEPTH: usize, const REVERSED: bool>(
 
     let w = width as usize;
     let h = height as usize;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_strides = (
@@ -1178,7 +1178,7 @@ fn rgb_i444<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
 
     let w = width as usize;
     let h = height as usize;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_stride = compute_stride(src_strides[0], rgb_stride);
@@ -1243,7 +1243,7 @@ fn rgb_i420<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     let h = height as usize;
     let cw = w / 2;
     let ch = h / 2;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_stride = compute_stride(src_strides[0], rgb_stride);
@@ -1307,7 +1307,7 @@ fn rgb_nv12<const SAMPLER: usize, const DEPTH: usize, const COLORIMETRY: usize>(
     let w = width as usize;
     let h = height as usize;
     let ch = h / 2;
-    let rgb_stride = DEPTH * w;
+    let rgb_stride = DEPTH.saturating_mul(w);
 
     // Compute actual strides
     let src_stride = compute_stride(src_strides[0], rgb_stride);
@@ -1447,16 +1447,24 @@ pub fn rgb_bgra(
     let h = height as usize;
 
     // Compute actual strides
-    let src_stride = compute_stride(src_strides[0], SRC_DEPTH * w);
-    let dst_stride = compute_stride(dst_strides[0], DST_DEPTH * w);
+    let src_stride = compute_stride(src_strides[0], SRC_DEPTH.saturating_mul(w));
+    let dst_stride = compute_stride(dst_strides[0], DST_DEPTH.saturating_mul(w));
 
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
-    {
+    if out_of_bounds(
+        src_buffer.len(),
+        src_stride,
+        h - 1,
+        SRC_DEPTH.saturating_mul(w),
+    ) || out_of_bounds(
+        dst_buffer.len(),
+        dst_stride,
+        h - 1,
+        DST_DEPTH.saturating_mul(w),
+    ) {
         return false;
     }
 
@@ -1496,16 +1504,24 @@ pub fn bgra_rgb(
     let h = height as usize;
 
     // Compute actual strides
-    let src_stride = compute_stride(src_strides[0], SRC_DEPTH * w);
-    let dst_stride = compute_stride(dst_strides[0], DST_DEPTH * w);
+    let src_stride = compute_stride(src_strides[0], SRC_DEPTH.saturating_mul(w));
+    let dst_stride = compute_stride(dst_strides[0], DST_DEPTH.saturating_mul(w));
 
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, SRC_DEPTH * w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DST_DEPTH * w)
-    {
+    if out_of_bounds(
+        src_buffer.len(),
+        src_stride,
+        h - 1,
+        SRC_DEPTH.saturating_mul(w),
+    ) || out_of_bounds(
+        dst_buffer.len(),
+        dst_stride,
+        h - 1,
+        DST_DEPTH.saturating_mul(w),
+    ) {
         return false;
     }
 
@@ -1544,15 +1560,15 @@ pub fn bgr_rgb(
     let h = height as usize;
 
     // Compute actual strides
-    let src_stride = compute_stride(src_strides[0], DEPTH * w);
-    let dst_stride = compute_stride(dst_strides[0], DEPTH * w);
+    let src_stride = compute_stride(src_strides[0], DEPTH.saturating_mul(w));
+    let dst_stride = compute_stride(dst_strides[0], DEPTH.saturating_mul(w));
 
     // Ensure there is sufficient data in the buffers according
     // to the image dimensions and computed strides
     let src_buffer = src_buffers[0];
     let dst_buffer = &mut *dst_buffers[0];
-    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH * w)
-        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH * w)
+    if out_of_bounds(src_buffer.len(), src_stride, h - 1, DEPTH.saturating_mul(w))
+        || out_of_bounds(dst_buffer.len(), dst_stride, h - 1, DEPTH.saturating_mul(w))
     {
         return false;
     }
-- 
2.43.0


From 15f1e0c3209a7e9cf33e25f792308f52d2ef9016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 16/16] fix: neon: round ties of chroma down, as the other
 instruction sets do

The columns that are not a multiple of the vector length are converted by common code,
so chroma of a flat color could change at the end of rows.
---
 src/convert_image/neon.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/convert_image/neon.rs b/src/convert_image/neon.rs
index 21d9d67..40e5733 100644
--- a/src/convert_image/neon.rs
+++ b/src/convert_image/neon.rs
@@ -150,8 +150,10 @@ unsafe fn rgb_to_s_8x(
     rgb_lo: (int16x4_t, int16x4_t, int16x4_t),
     uv_weights: (i16, i16, i16),
 ) -> int16x8_t {
-    let lo = vmull_n_s16(rgb_lo.0, uv_weights.0);
-    let hi = vmull_high_n_s16(rgb.0, uv_weights.0);
+    // Ties are rounded down, as the other instruction sets do
+    let tie = vdupq_n_s32(-1);
+    let lo = vmlal_n_s16(tie, rgb_lo.0, uv_weights.0);
+    let hi = vmlal_high_n_s16(tie, rgb.0, uv_weights.0);
     let lo = vmlal_n_s16(lo, rgb_lo.1, uv_weights.1);
     let hi = vmlal_high_n_s16(hi, rgb.1, uv_weights.1);
     let lo = vmlal_n_s16(lo, rgb_lo.2, uv_weights.2);
@@ -188,8 +190,10 @@ unsafe fn rgb_to_uv_8x(
     let g_lo = vreinterpretq_s16_u16(g);
     let b_lo = vreinterpretq_s16_u16(b);
 
-    let lo = vmull_high_n_s16(r_lo, uv_weights.0);
-    let hi = vmull_high_n_s16(r_lo, uv_weights.3);
+    // Ties are rounded down, as the other instruction sets do
+    let tie = vdupq_n_s32(-1);
+    let lo = vmlal_high_n_s16(tie, r_lo, uv_weights.0);
+    let hi = vmlal_high_n_s16(tie, r_lo, uv_weights.3);
     let lo = vmlal_high_n_s16(lo, g_lo, uv_weights.1);
     let hi = vmlal_high_n_s16(hi, g_lo, uv_weights.2);
     let lo = vmlal_high_n_s16(lo, b_lo, uv_weights.3);
-- 
2.43.0

