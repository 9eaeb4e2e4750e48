From d5bba2a6795f6e85bdba5b9452d74ce30febdb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 01/44] fix: advance by 16 taps in the 16-tap block of the
 single-row f32 plane kernel

---
 src/sse/plane_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sse/plane_f32.rs b/src/sse/plane_f32.rs
index 7c83a9a..c80c729 100644
--- a/src/sse/plane_f32.rs
+++ b/src/sse/plane_f32.rs
@@ -186,7 +186,7 @@ unsafe fn convolve_horizontal_plane_sse_row_one_impl<const FMA: bool>(
             let read_weights3 = _mm_loadu_ps(ptr.add(12));
             let weights = (read_weights0, read_weights1, read_weights2, read_weights3);
             store = conv_horiz_plane_16_f32!(bounds_start, src, weights, store, FMA);
-            jx += 8;
+            jx += 16;
         }
 
         while jx + 8 < bounds.size {
-- 
2.43.0


From 23939e2a0d1ebe02af7d850d111929066e2a2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 02/44] fix: continue the tail of vertical u16 passes after the
 last full block

---
 src/avx2/vertical_u16_lb.rs | 8 ++++----
 src/sse/vertical_u16.rs     | 6 +++---
 src/sse/vertical_u16_lb.rs  | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/avx2/vertical_u16_lb.rs b/src/avx2/vertical_u16_lb.rs
index 6319eb0..a8a94c0 100644
--- a/src/avx2/vertical_u16_lb.rs
+++ b/src/avx2/vertical_u16_lb.rs
@@ -161,7 +161,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             item1,
         );
 
-        cx = v_dx;
+        cx = v_dx + 32;
     }
 
     let v_px = cx;
@@ -202,7 +202,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
 
         _mm256_storeu_si256(dst.as_mut_ptr() as *mut __m256i, item0);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -240,7 +240,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             _mm256_castsi256_si128(item),
         );
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -371,7 +371,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors_sse);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index 542a93a..7da26b1 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -152,7 +152,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -192,7 +192,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let item = _mm_packus_epi32(v_st0, v_st1);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -335,7 +335,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let u_store0 = _mm_packus_epi32(v_st, v_st);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16_lb.rs b/src/sse/vertical_u16_lb.rs
index 1ee9d9b..40fa5c8 100644
--- a/src/sse/vertical_u16_lb.rs
+++ b/src/sse/vertical_u16_lb.rs
@@ -119,7 +119,7 @@ unsafe fn convolve_column_lb_u16_impl(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -157,7 +157,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let item = _mm_min_epi16(_mm_packus_epi32(v_st0, v_st1), v_max_colors);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -278,7 +278,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
-- 
2.43.0


From 6f64c0aea6ee16e5a73e2f97962f88015b8938c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 03/44] fix: scale down accumulators in the 32-wide SSE
 vertical u8 kernel

---
 src/sse/vertical_u8.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sse/vertical_u8.rs b/src/sse/vertical_u8.rs
index 060901e..670512f 100644
--- a/src/sse/vertical_u8.rs
+++ b/src/sse/vertical_u8.rs
@@ -140,15 +140,27 @@ pub(crate) unsafe fn convolve_vertical_part_sse_32(
             dot_prod(store_4, store_5, store_6, store_7, item_row_1, v_weight);
     }
 
-    let rgb0 = _mm_packs_epi32(store_0, store_1);
-    let rgb2 = _mm_packs_epi32(store_2, store_3);
+    let rgb0 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_0),
+        _mm_srai_epi32::<PRECISION>(store_1),
+    );
+    let rgb2 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_2),
+        _mm_srai_epi32::<PRECISION>(store_3),
+    );
     let rgb = _mm_packus_epi16(rgb0, rgb2);
 
     let dst_ptr = dst.get_unchecked_mut(px..);
     _mm_storeu_si128(dst_ptr.as_mut_ptr() as *mut __m128i, rgb);
 
-    let rgb0 = _mm_packs_epi32(store_4, store_5);
-    let rgb2 = _mm_packs_epi32(store_6, store_7);
+    let rgb0 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_4),
+        _mm_srai_epi32::<PRECISION>(store_5),
+    );
+    let rgb2 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_6),
+        _mm_srai_epi32::<PRECISION>(store_7),
+    );
     let rgb = _mm_packus_epi16(rgb0, rgb2);
 
     let dst_ptr = dst.get_unchecked_mut((px + 16)..);
-- 
2.43.0


From f07d5dbaac4ec364f7de1cabe60f38a0d8743079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 04/44] fix: read the current pixel in the AVX2 rgb u8 single
 tap

---
 src/avx2/rgb_u8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx2/rgb_u8.rs b/src/avx2/rgb_u8.rs
index bc22d66..e98a658 100644
--- a/src/avx2/rgb_u8.rs
+++ b/src/avx2/rgb_u8.rs
@@ -468,7 +468,7 @@ unsafe fn add_one_weight<const HAS_DOT: bool>(
 ) -> __m128i {
     const COMPONENTS: usize = 3;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
-    let base_pixel = _mm_loadu_si16(src.as_ptr());
+    let base_pixel = _mm_loadu_si16(src_ptr);
     let m_vl = _mm_insert_epi8::<2>(base_pixel, src_ptr.add(2).read_unaligned() as i32);
     let lo = _mm_unpacklo_epi8(m_vl, _mm_setzero_si128());
     _mm_dot16_avx_epi32::<HAS_DOT>(
-- 
2.43.0


From 699e2a8ecee17f26a907c7e4475e3a88eb30cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 05/44] fix: weight layout of the 8-tap block in the AVX2 rgba
 u8 kernels

---
 src/avx2/rgba_u8_lb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx2/rgba_u8_lb.rs b/src/avx2/rgba_u8_lb.rs
index d9663d3..fd4267e 100644
--- a/src/avx2/rgba_u8_lb.rs
+++ b/src/avx2/rgba_u8_lb.rs
@@ -154,7 +154,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_4_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
@@ -363,7 +363,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_one_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
-- 
2.43.0


From bc02e20af3d0e4c63ccd59cfeeae87e8edcdce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 06/44] fix: pair each pixel with its own weight in SSE rgba
 u16 blocks

---
 src/sse/rgba_u16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgba_u16.rs b/src/sse/rgba_u16.rs
index 78d1574..afc9c38 100644
--- a/src/sse/rgba_u16.rs
+++ b/src/sse/rgba_u16.rs
@@ -70,7 +70,7 @@ unsafe fn conv_horiz_rgba_2_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel, _mm_setzero_si128())),
         w1,
     )
 }
@@ -108,7 +108,7 @@ unsafe fn conv_horiz_rgba_4_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel0, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel0, _mm_setzero_si128())),
         w0,
     )
 }
-- 
2.43.0


From 5188c95d8d246bf7156c75a8d3062e543cfdb258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 07/44] fix: use the limit value of jinc at zero so the centre
 tap is not dropped

---
 src/math/bessel_order_one.rs | 4 ++--
 src/math/lanczos.rs          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/bessel_order_one.rs b/src/math/bessel_order_one.rs
index 5193d70..aaa1626 100644
--- a/src/math/bessel_order_one.rs
+++ b/src/math/bessel_order_one.rs
@@ -320,7 +320,7 @@ fn qone(x: f64) -> f64 {
 #[inline]
 pub fn jinc_f64(x: f64) -> f64 {
     if x == 0f64 {
-        return 0f64;
+        return 0.5f64;
     }
     j1(x) / x
 }
@@ -328,7 +328,7 @@ pub fn jinc_f64(x: f64) -> f64 {
 #[inline]
 pub fn jinc_f32(x: f32) -> f32 {
     if x == 0f32 {
-        return 0f32;
+        return 0.5f32;
     }
     (j1(x as f64) / x as f64) as f32
 }
diff --git a/src/math/lanczos.rs b/src/math/lanczos.rs
index e5d255a..ead1bb6 100644
--- a/src/math/lanczos.rs
+++ b/src/math/lanczos.rs
@@ -45,7 +45,7 @@ where
     f64: AsPrimitive<V>,
 {
     let scale_a: V = 1f32.as_() / a;
-    if x == 0f32.as_() || x > 16.247661874700962f32.as_() {
+    if x > 16.247661874700962f32.as_() {
         return 0f32.as_();
     }
     if x.abs() < a {
-- 
2.43.0


From a1a297d9120038bb00b285721b395e39a118a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 08/44] fix: evaluate sphinx by its series around zero

---
 src/math/sphinx.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/math/sphinx.rs b/src/math/sphinx.rs
index 3fffc40..80eca61 100644
--- a/src/math/sphinx.rs
+++ b/src/math/sphinx.rs
@@ -35,9 +35,12 @@ pub(crate) fn sphinx<V: Copy + ConstPI + Signed + Float + 'static>(x: V) -> V
 where
     f32: AsPrimitive<V>,
 {
-    if x.abs() < 1e-8.as_() {
-        return 1f32.as_();
-    }
+    let d = x.abs();
     let x = x * V::const_pi();
+    if d < 0.05f32.as_() {
+        // Closed form cancels catastrophically around zero
+        let x2 = x * x;
+        return 1f32.as_() - x2 * (0.1f32.as_() - x2 * (1f32 / 280f32).as_());
+    }
     3.0f32.as_() * (x.sin() - x * x.cos()) / (x * x * x)
 }
-- 
2.43.0


From 5289c0e0c5f3d6caa802d56afa9b914cc1928469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 09/44] fix: centre the bartlett window on the sampling
 position

---
 src/math/bartlett.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/bartlett.rs b/src/math/bartlett.rs
index 1eb3071..d2f590f 100644
--- a/src/math/bartlett.rs
+++ b/src/math/bartlett.rs
@@ -39,9 +39,9 @@ where
     f32: AsPrimitive<V>,
 {
     if x >= 0f32.as_() && x <= 1f32.as_() {
-        return 2f32.as_() * x;
+        return 1f32.as_() - x;
     }
-    2f32.as_() - 2f32.as_() * x
+    0f32.as_()
 }
 
 #[inline(always)]
-- 
2.43.0


From c6338195405ee43cca1a290adda47abf25fb881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 10/44] fix: keep alpha unchanged when associating it with
 colors

---
 src/alpha_handle_u16.rs | 8 ++++----
 src/alpha_handle_u8.rs  | 2 +-
 src/avx2/alpha_u8.rs    | 6 +++++-
 src/avx512/alpha_u8.rs  | 6 +++++-
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 92a4880..714c629 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -71,7 +71,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_1023(src[0] as u32 * a);
             dst[1] = div_by_1023(src[1] as u32 * a);
             dst[2] = div_by_1023(src[2] as u32 * a);
-            dst[3] = div_by_1023(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else if max_colors == 4096 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
@@ -79,7 +79,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_4095(src[0] as u32 * a);
             dst[1] = div_by_4095(src[1] as u32 * a);
             dst[2] = div_by_4095(src[2] as u32 * a);
-            dst[3] = div_by_4095(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else if max_colors == 65535 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
@@ -87,7 +87,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_65535(src[0] as u32 * a);
             dst[1] = div_by_65535(src[1] as u32 * a);
             dst[2] = div_by_65535(src[2] as u32 * a);
-            dst[3] = div_by_65535(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else {
         let recip_max_colors = 1. / max_colors as f32;
@@ -99,7 +99,7 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
                 (((src[1] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
             dst[2] =
                 (((src[2] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[3] = (((a * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
+            dst[3] = src[3];
         }
     }
 }
diff --git a/src/alpha_handle_u8.rs b/src/alpha_handle_u8.rs
index ada0cc9..6f37278 100644
--- a/src/alpha_handle_u8.rs
+++ b/src/alpha_handle_u8.rs
@@ -52,7 +52,7 @@ pub(crate) fn premultiply_alpha_rgba_row_impl(dst: &mut [u8], src: &[u8]) {
         dst[0] = div_by_255(src[0] as u16 * a);
         dst[1] = div_by_255(src[1] as u16 * a);
         dst[2] = div_by_255(src[2] as u16 * a);
-        dst[3] = div_by_255(a * a);
+        dst[3] = src[3];
     }
 }
 
diff --git a/src/avx2/alpha_u8.rs b/src/avx2/alpha_u8.rs
index fd28c6c..966ce2d 100644
--- a/src/avx2/alpha_u8.rs
+++ b/src/avx2/alpha_u8.rs
@@ -68,7 +68,11 @@ impl AssociateAlphaDefault {
         );
         let src_ptr = src.as_ptr();
         let rgba0 = _mm256_loadu_si256(src_ptr as *const __m256i);
-        let multiplicand = _mm256_shuffle_epi8(rgba0, shuffle);
+        // Alpha itself is not to be associated
+        let multiplicand = _mm256_or_si256(
+            _mm256_shuffle_epi8(rgba0, shuffle),
+            _mm256_set1_epi32(0xff00_0000u32 as i32),
+        );
 
         let zeros = _mm256_setzero_si256();
 
diff --git a/src/avx512/alpha_u8.rs b/src/avx512/alpha_u8.rs
index a2f15ad..4cb5d3b 100644
--- a/src/avx512/alpha_u8.rs
+++ b/src/avx512/alpha_u8.rs
@@ -58,7 +58,11 @@ impl AssociateAlphaDefault {
         );
         let src_ptr = src.as_ptr();
         let rgba0 = _mm512_maskz_loadu_epi8(working_mask, src_ptr as *const _);
-        let multiplicand = _mm512_shuffle_epi8(rgba0, shuffle);
+        // Alpha itself is not to be associated
+        let multiplicand = _mm512_or_si512(
+            _mm512_shuffle_epi8(rgba0, shuffle),
+            _mm512_set1_epi32(0xff00_0000u32 as i32),
+        );
 
         let zeros = _mm512_setzero_si512();
 
-- 
2.43.0


From 37d1a8d5cfe63c505229c2572e05d20b6cf9231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 11/44] fix: keep alpha and stay within bit depth when
 dissociating alpha in u16

---
 src/alpha_handle_u16.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 714c629..7cd4975 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -109,10 +109,9 @@ pub(crate) fn unpremultiply_alpha_rgba_row(in_place: &mut [u16], max_colors: u32
         let a = dst[3] as u32;
         if a != 0 {
             let a_recip = 1. / a as f32;
-            dst[0] = ((dst[0] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[1] = ((dst[1] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[2] = ((dst[2] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[3] = ((a * max_colors) as f32 * a_recip) as u16;
+            dst[0] = (((dst[0] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
+            dst[1] = (((dst[1] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
+            dst[2] = (((dst[2] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
         }
     }
 }
-- 
2.43.0


From 5d81df35a5d913832b724e830392d38ca2df647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 12/44] fix: unpremultiplication table entries do not overlap
 and saturate

---
 src/alpha_handle_u8.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/alpha_handle_u8.rs b/src/alpha_handle_u8.rs
index 6f37278..053b07d 100644
--- a/src/alpha_handle_u8.rs
+++ b/src/alpha_handle_u8.rs
@@ -89,10 +89,10 @@ const fn make_unpremultiplication_table() -> [u8; 65536] {
         let mut pixel = 0usize;
         while pixel < 256 {
             if alpha == 0 {
-                buf[alpha * 255 + pixel] = 0;
+                buf[alpha * 256 + pixel] = 0;
             } else {
                 let value = (pixel * 255 + alpha / 2) / alpha;
-                buf[alpha * 255 + pixel] = value as u8;
+                buf[alpha * 256 + pixel] = if value > 255 { 255 } else { value as u8 };
             }
             pixel += 1;
         }
@@ -107,7 +107,7 @@ static UNPREMULTIPLICATION_TABLE: [u8; 65536] = make_unpremultiplication_table()
 pub(crate) fn unpremultiply_alpha_rgba_row_impl(in_place: &mut [u8]) {
     for dst in in_place.chunks_exact_mut(4) {
         let a = dst[3];
-        let z = a as u16 * 255;
+        let z = a as u16 * 256;
         dst[0] = UNPREMULTIPLICATION_TABLE[(z + dst[0] as u16) as usize];
         dst[1] = UNPREMULTIPLICATION_TABLE[(z + dst[1] as u16) as usize];
         dst[2] = UNPREMULTIPLICATION_TABLE[(z + dst[2] as u16) as usize];
-- 
2.43.0


From 4dfe03490f0a12f843a6d49151fe59d1f6988ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 13/44] fix: do not dissociate alpha that was never associated

---
 src/scaler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index 1b4d94f..54732c9 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -685,7 +685,7 @@ impl Scaler {
         let mut src_store: std::borrow::Cow<'_, ImageStore<'_, T, N>> =
             std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -762,7 +762,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -819,7 +819,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
-- 
2.43.0


From 775ec456a16d65f81f3563e48387a6538818241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 14/44] fix: zero stride is accepted and geometry checks do not
 overflow

---
 src/image_store.rs | 58 ++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index b1b1bb0..3b9edc3 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -131,8 +131,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -146,7 +146,7 @@ where
             channels: N,
             width,
             height,
-            stride: width * N,
+            stride: width.saturating_mul(N),
             bit_depth: 0,
         })
     }
@@ -156,8 +156,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -171,7 +171,7 @@ where
             channels: N,
             width,
             height,
-            stride: width * N,
+            stride: width.saturating_mul(N),
             bit_depth: 0,
         })
     }
@@ -219,8 +219,8 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
-        let expected_size = self.stride() * self.height;
-        if self.buffer.borrow().len() != self.stride() * self.height {
+        let expected_size = self.stride().saturating_mul(self.height);
+        if self.buffer.borrow().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
@@ -229,8 +229,9 @@ where
                 slice_len: self.buffer.borrow().len(),
             }));
         }
-        if self.stride < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        let row_size = self.width.saturating_mul(N);
+        if self.stride() < row_size {
+            return Err(PicScaleError::InvalidStride(row_size, self.stride()));
         }
         Ok(())
     }
@@ -241,8 +242,8 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
-        let expected_size = self.stride() * self.height;
-        if self.buffer.as_ref().len() != self.stride() * self.height {
+        let expected_size = self.stride().saturating_mul(self.height);
+        if self.buffer.as_ref().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
@@ -251,8 +252,9 @@ where
                 slice_len: self.buffer.as_ref().len(),
             }));
         }
-        if self.stride < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        let row_size = self.width.saturating_mul(N);
+        if self.stride() < row_size {
+            return Err(PicScaleError::InvalidStride(row_size, self.stride()));
         }
         Ok(())
     }
@@ -270,8 +272,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -285,7 +287,7 @@ where
             channels: N,
             width,
             height,
-            stride: width * N,
+            stride: width.saturating_mul(N),
             bit_depth: 0,
         })
     }
@@ -298,8 +300,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -313,7 +315,7 @@ where
             channels: N,
             width,
             height,
-            stride: width * N,
+            stride: width.saturating_mul(N),
             bit_depth: 0,
         })
     }
@@ -361,7 +363,7 @@ where
     #[inline]
     pub fn stride(&self) -> usize {
         if self.stride == 0 {
-            return self.width * N;
+            return self.width.saturating_mul(N);
         }
         self.stride
     }
@@ -377,7 +379,7 @@ where
     #[inline]
     pub fn stride(&self) -> usize {
         if self.stride == 0 {
-            return self.width * N;
+            return self.width.saturating_mul(N);
         }
         self.stride
     }
@@ -404,8 +406,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStore<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -419,7 +421,7 @@ where
             channels: N,
             width,
             height,
-            stride: width * N,
+            stride: width.saturating_mul(N),
             bit_depth: 0,
         })
     }
@@ -471,8 +473,8 @@ where
         width: usize,
         height: usize,
     ) -> Result<ImageStoreMut<'a, T, N>, PicScaleError> {
-        let expected_size = width * height * N;
-        if slice_ref.len() != width * height * N {
+        let expected_size = width.saturating_mul(height).saturating_mul(N);
+        if slice_ref.len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width,
@@ -486,7 +488,7 @@ where
             channels: N,
             width,
             height,
-            stride: width * N,
+            stride: width.saturating_mul(N),
             bit_depth: 0,
         })
     }
-- 
2.43.0


From a8882e06b6675f71fb934dc151e7950c5167b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 15/44] fix: keep the stride of the copied buffer in image
 store copies

---
 src/image_store.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 3b9edc3..a7441c6 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -432,7 +432,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
@@ -499,7 +499,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
@@ -510,7 +510,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
-- 
2.43.0


From 38ef85995f26eb9e4f50fbaac787f878d97528f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 16/44] fix: copied_to_mut does not write into row padding

---
 src/image_store.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index a7441c6..37e707d 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -438,6 +438,10 @@ where
     }
 
     pub fn copied_to_mut(&self, into: &mut ImageStoreMut<T, N>) {
+        let row_size = self.width.min(into.width).saturating_mul(N);
+        if row_size == 0 {
+            return;
+        }
         let into_stride = into.stride();
         for (src_row, dst_row) in self
             .buffer
@@ -445,7 +449,7 @@ where
             .chunks_exact(self.stride())
             .zip(into.buffer.borrow_mut().chunks_exact_mut(into_stride))
         {
-            for (&src, dst) in src_row.iter().zip(dst_row.iter_mut()) {
+            for (&src, dst) in src_row.iter().zip(dst_row.iter_mut()).take(row_size) {
                 *dst = src;
             }
         }
-- 
2.43.0


From 0fa6c23631b0bb3ff3acc691e9545c85bef1d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 17/44] fix: nearest resampling takes the closest pixel and
 honours strides

---
 src/nearest_sampler.rs | 81 +++++++++++++++++++-----------------------
 src/resize_ar30.rs     |  2 ++
 src/scaler.rs          |  6 ++++
 3 files changed, 45 insertions(+), 44 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index 945d5bb..5747275 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -31,69 +31,62 @@ use rayon::iter::{IndexedParallelIterator, ParallelIterator};
 use rayon::prelude::ParallelSliceMut;
 use rayon::ThreadPool;
 
+/// Source position whose sampling cell contains the centre of the destination position,
+/// `floor((p + 0.5) * src_size / dst_size)`, always less than `src_size`
+#[inline]
+fn nearest_position(dst_position: usize, src_size: usize, dst_size: usize) -> usize {
+    let numerator = (2 * dst_position as u128 + 1) * src_size as u128;
+    (numerator / (2 * dst_size as u128)) as usize
+}
+
+fn sample_row<T: Copy, const CHANNELS: usize>(
+    src_row: &[T],
+    dst_row: &mut [T],
+    src_positions: &[usize],
+) {
+    for (dst, &src_x) in dst_row.chunks_exact_mut(CHANNELS).zip(src_positions) {
+        let src_px = src_x * CHANNELS;
+        let src_slice = &src_row[src_px..(src_px + CHANNELS)];
+
+        for (src, dst) in src_slice.iter().zip(dst.iter_mut()) {
+            *dst = *src;
+        }
+    }
+}
+
+#[allow(clippy::too_many_arguments)]
 pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     src: &[T],
+    src_stride: usize,
     src_width: usize,
     src_height: usize,
     dst: &mut [T],
+    dst_stride: usize,
     dst_width: usize,
     dst_height: usize,
     pool: &Option<ThreadPool>,
 ) {
-    let x_scale = src_width as f32 / dst_width as f32;
-    let y_scale = src_height as f32 / dst_height as f32;
-
-    let clip_width = src_width as f32 - 1f32;
-    let clip_height = src_height as f32 - 1f32;
-
-    let dst_stride = dst_width * CHANNELS;
-    let src_stride = src_width * CHANNELS;
+    let src_positions = (0..dst_width)
+        .map(|x| nearest_position(x, src_width, dst_width))
+        .collect::<Vec<_>>();
 
     if let Some(pool) = pool {
         pool.install(|| {
             dst.par_chunks_exact_mut(dst_stride)
                 .enumerate()
-                .for_each(|(y, dst_chunk)| {
-                    for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
-                        let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
-                            .min(clip_width)
-                            .max(0f32) as usize;
-                        let src_y = ((y as f32 + 0.5f32) * y_scale - 0.5f32)
-                            .min(clip_height)
-                            .max(0f32) as usize;
-                        let src_offset_y = src_y * src_stride;
-                        let src_px = src_x * CHANNELS;
-                        let offset = src_offset_y + src_px;
-
-                        let src_slice = &src[offset..(offset + CHANNELS)];
-
-                        for (src, dst) in src_slice.iter().zip(dst.iter_mut()) {
-                            *dst = *src;
-                        }
-                    }
+                .for_each(|(y, dst_row)| {
+                    let src_y = nearest_position(y, src_height, dst_height);
+                    let src_row = &src[src_y * src_stride..];
+                    sample_row::<T, CHANNELS>(src_row, dst_row, &src_positions);
                 });
         });
     } else {
         dst.chunks_exact_mut(dst_stride)
             .enumerate()
-            .for_each(|(y, dst_chunk)| {
-                for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
-                    let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
-                        .min(clip_width)
-                        .max(0f32) as usize;
-                    let src_y = ((y as f32 + 0.5f32) * y_scale - 0.5f32)
-                        .min(clip_height)
-                        .max(0f32) as usize;
-                    let src_offset_y = src_y * src_stride;
-                    let src_px = src_x * CHANNELS;
-                    let offset = src_offset_y + src_px;
-
-                    let src_slice = &src[offset..(offset + CHANNELS)];
-
-                    for (src, dst) in src_slice.iter().zip(dst.iter_mut()) {
-                        *dst = *src;
-                    }
-                }
+            .for_each(|(y, dst_row)| {
+                let src_y = nearest_position(y, src_height, dst_height);
+                let src_row = &src[src_y * src_stride..];
+                sample_row::<T, CHANNELS>(src_row, dst_row, &src_positions);
             });
     }
 }
diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 281abf2..7a296ca 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -97,9 +97,11 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         resize_nearest::<u8, 4>(
             src,
             src_stride,
+            src_size.width,
             src_size.height,
             dst,
             dst_stride,
+            dst_size.width,
             dst_size.height,
             &pool,
         );
diff --git a/src/scaler.rs b/src/scaler.rs
index 54732c9..0d40c53 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -610,11 +610,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let into_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                into_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
@@ -901,11 +904,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let into_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                into_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
-- 
2.43.0


From d092aa99d8cd63e6b253d3c67997683305969e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 18/44] fix: packed 10-bit resize honours source and
 destination strides

---
 src/resize_ar30.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 7a296ca..cb67e9b 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -56,9 +56,9 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         return Err(PicScaleError::DestinationImageIsTooLarge);
     }
 
-    if src.len() != src_stride * src_size.height {
+    if Some(src.len()) != src_stride.checked_mul(src_size.height) {
         return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
-            expected: src_stride * src_size.height,
+            expected: src_stride.saturating_mul(src_size.height),
             width: src_size.width,
             height: src_size.height,
             channels: 4,
@@ -69,9 +69,9 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         return Err(PicScaleError::InvalidStride(src_size.width * 4, src_stride));
     }
 
-    if dst.len() != dst_stride * dst_size.height {
+    if Some(dst.len()) != dst_stride.checked_mul(dst_size.height) {
         return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
-            expected: dst_stride * dst_size.height,
+            expected: dst_stride.saturating_mul(dst_size.height),
             width: dst_size.width,
             height: dst_size.height,
             channels: 4,
@@ -83,8 +83,12 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
     }
 
     if src_size.width == dst_size.width && src_size.height == dst_size.height {
-        for (src, dst) in src.iter().zip(dst.iter_mut()) {
-            *dst = *src;
+        let row_size = src_size.width * 4;
+        for (src_row, dst_row) in src
+            .chunks_exact(src_stride)
+            .zip(dst.chunks_exact_mut(dst_stride))
+        {
+            dst_row[..row_size].copy_from_slice(&src_row[..row_size]);
         }
         return Ok(());
     }
@@ -121,7 +125,7 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
             src_stride,
             vertical_filters,
             dst,
-            src_stride,
+            dst_stride,
             &pool,
             src_size.width,
             options,
-- 
2.43.0


From af4bc0fdb7ea3c922dba726a8eeaf8a67f27556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 19/44] fix: SSE u16 alpha keeps values above 32767

---
 src/sse/alpha_u16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index a20897d..41e1934 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -57,7 +57,7 @@ unsafe fn sse_unpremultiply_row_u16(
         _mm_mul_ps(_mm_cvtepi32_ps(hi), a_hi_f),
     ));
 
-    let pixel = _mm_packs_epi32(new_lo, new_hi);
+    let pixel = _mm_packus_epi32(new_lo, new_hi);
     _mm_select_si128(is_zero_mask, x, pixel)
 }
 
@@ -251,7 +251,7 @@ unsafe fn sse_premultiply_row_u16(
         a_hi_f,
     ));
 
-    _mm_packs_epi32(new_lo, new_hi)
+    _mm_packus_epi32(new_lo, new_hi)
 }
 
 pub(crate) fn premultiply_alpha_sse_rgba_u16(
-- 
2.43.0


From a96d4de69076f241922aee595ba734d0dd367e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 20/44] fix: unsigned product of color and alpha in 16-bit SIMD
 premultiplication

---
 src/avx2/alpha_u16.rs | 12 ++++++------
 src/sse/alpha_u16.rs  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 1a0a0b3..3157811 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -154,12 +154,12 @@ impl<const BIT_DEPTH: usize> Avx2PremultiplyExecutorDefault<BIT_DEPTH> {
         let bl32 = _mm256_unpacklo_epi16(pixel.2, zeros);
         let bh32 = _mm256_unpackhi_epi16(pixel.2, zeros);
 
-        let rl32 = _mm256_madd_epi16(rl32, low_alpha);
-        let rh32 = _mm256_madd_epi16(rh32, high_alpha);
-        let gl32 = _mm256_madd_epi16(gl32, low_alpha);
-        let gh32 = _mm256_madd_epi16(gh32, high_alpha);
-        let bl32 = _mm256_madd_epi16(bl32, low_alpha);
-        let bh32 = _mm256_madd_epi16(bh32, high_alpha);
+        let rl32 = _mm256_mullo_epi32(rl32, low_alpha);
+        let rh32 = _mm256_mullo_epi32(rh32, high_alpha);
+        let gl32 = _mm256_mullo_epi32(gl32, low_alpha);
+        let gh32 = _mm256_mullo_epi32(gh32, high_alpha);
+        let bl32 = _mm256_mullo_epi32(bl32, low_alpha);
+        let bh32 = _mm256_mullo_epi32(bh32, high_alpha);
 
         let lr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rl32);
         let hr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rh32);
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index 41e1934..15c603e 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -312,16 +312,16 @@ impl<const BIT_DEPTH: usize> Sse41PremultiplyExecutorDefault<BIT_DEPTH> {
         let a_hi_f = _mm_unpackhi_epi16(aaaa, zeros);
 
         let new_rrrr = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
         );
         let new_gggg = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
         );
         let new_bbbb = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
         );
 
         let (rgba0, rgba1, rgba2, rgba3) =
-- 
2.43.0


From 9852e95d531a3bb7461183ad1943f8a599736e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 21/44] fix: u16 SIMD unpremultiplication stays within bit
 depth

---
 src/alpha_handle_u16.rs |  9 ++++++---
 src/avx2/alpha_u16.rs   | 36 +++++++++++++++++++++++-------------
 src/sse/alpha_u16.rs    | 15 ++++++++-------
 3 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 7cd4975..88a9fff 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -109,9 +109,12 @@ pub(crate) fn unpremultiply_alpha_rgba_row(in_place: &mut [u16], max_colors: u32
         let a = dst[3] as u32;
         if a != 0 {
             let a_recip = 1. / a as f32;
-            dst[0] = (((dst[0] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
-            dst[1] = (((dst[1] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
-            dst[2] = (((dst[2] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
+            dst[0] =
+                (((dst[0] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
+            dst[1] =
+                (((dst[1] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
+            dst[2] =
+                (((dst[2] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
         }
     }
 }
diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 3157811..0ccb22e 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -43,6 +43,7 @@ unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
     px: __m256i,
     low_low_a: __m256,
     low_high_a: __m256,
+    v_max_colors: __m256,
 ) -> __m256i {
     let zeros = _mm256_setzero_si256();
     let ls = _mm256_unpacklo_epi16(px, zeros);
@@ -64,8 +65,8 @@ unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
         hvs = _mm256_round_ps::<0x00>(hps);
     }
 
-    let new_ll = _mm256_cvtps_epi32(lvs);
-    let new_lh = _mm256_cvtps_epi32(hvs);
+    let new_ll = _mm256_cvtps_epi32(_mm256_min_ps(lvs, v_max_colors));
+    let new_lh = _mm256_cvtps_epi32(_mm256_min_ps(hvs, v_max_colors));
 
     _mm256_packus_epi32(new_ll, new_lh)
 }
@@ -226,6 +227,7 @@ impl Avx2PremultiplyExecutorAnyBit {
         dst: &mut [u16],
         src: &[u16],
         scale: __m256,
+        v_max_colors: __m256,
     ) {
         let src_ptr = src.as_ptr();
         let lane0 = _mm256_loadu_si256(src_ptr as *const __m256i);
@@ -246,9 +248,9 @@ impl Avx2PremultiplyExecutorAnyBit {
         let low_alpha = _mm256_mul_ps(lla, scale);
         let high_alpha = _mm256_mul_ps(hla, scale);
 
-        let new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
-        let new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
-        let new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha, v_max_colors);
+        let new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha, v_max_colors);
+        let new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha, v_max_colors);
 
         let dst_ptr = dst.as_mut_ptr();
 
@@ -274,11 +276,12 @@ impl Avx2PremultiplyExecutorAnyBit {
         let mut src_rem = src;
 
         let v_scale_colors = _mm256_set1_ps((1. / max_colors as f64) as f32);
+        let v_max_colors = _mm256_set1_ps(max_colors as f32);
         for (dst, src) in rem
             .chunks_exact_mut(16 * 4)
             .zip(src_rem.chunks_exact(16 * 4))
         {
-            self.premultiply_chunk::<FMA>(dst, src, v_scale_colors);
+            self.premultiply_chunk::<FMA>(dst, src, v_scale_colors, v_max_colors);
         }
 
         rem = rem.chunks_exact_mut(16 * 4).into_remainder();
@@ -293,7 +296,7 @@ impl Avx2PremultiplyExecutorAnyBit {
             let mut dst_buffer: [u16; 16 * 4] = [0u16; 16 * 4];
             std::ptr::copy_nonoverlapping(src_rem.as_ptr(), buffer.as_mut_ptr(), src_rem.len());
 
-            self.premultiply_chunk::<FMA>(&mut dst_buffer, &buffer, v_scale_colors);
+            self.premultiply_chunk::<FMA>(&mut dst_buffer, &buffer, v_scale_colors, v_max_colors);
 
             std::ptr::copy_nonoverlapping(dst_buffer.as_ptr(), rem.as_mut_ptr(), rem.len());
         }
@@ -425,6 +428,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
     let max_colors = (1 << bit_depth) - 1;
 
     let v_scale_colors = _mm256_set1_ps(max_colors as f32);
+    let v_max_colors = v_scale_colors;
 
     let mut rem = in_place;
 
@@ -451,11 +455,14 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
 
-        let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        let mut new_rrr =
+            _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha, v_max_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
-        let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        let mut new_ggg =
+            _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha, v_max_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
-        let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let mut new_bbb =
+            _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha, v_max_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let dst_ptr = dst.as_mut_ptr();
@@ -497,11 +504,14 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
 
-        let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        let mut new_rrr =
+            _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha, v_max_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
-        let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        let mut new_ggg =
+            _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha, v_max_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
-        let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let mut new_bbb =
+            _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha, v_max_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let (d_lane0, d_lane1, d_lane2, d_lane3) =
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index 15c603e..7ad9f78 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -43,18 +43,19 @@ unsafe fn sse_unpremultiply_row_u16(
     is_zero_mask: __m128i,
     a_lo_f: __m128,
     a_hi_f: __m128,
+    v_max_colors: __m128,
 ) -> __m128i {
     let zeros = _mm_setzero_si128();
     let lo = _mm_unpacklo_epi16(x, zeros);
     let hi = _mm_unpackhi_epi16(x, zeros);
 
-    let new_lo = _mm_cvtps_epi32(_mm_add_ps(
-        _mm_set1_ps(0.5f32),
+    let new_lo = _mm_cvtps_epi32(_mm_min_ps(
         _mm_mul_ps(_mm_cvtepi32_ps(lo), a_lo_f),
+        v_max_colors,
     ));
-    let new_hi = _mm_cvtps_epi32(_mm_add_ps(
-        _mm_set1_ps(0.5f32),
+    let new_hi = _mm_cvtps_epi32(_mm_min_ps(
         _mm_mul_ps(_mm_cvtepi32_ps(hi), a_hi_f),
+        v_max_colors,
     ));
 
     let pixel = _mm_packus_epi32(new_lo, new_hi);
@@ -145,9 +146,9 @@ impl DisassociateAlphaDefault {
             v_max_colors,
         );
 
-        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f);
-        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f);
-        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f);
+        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
+        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
+        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
 
         let (rgba0, rgba1, rgba2, rgba3) =
             sse_interleave_rgba_epi16(new_rrrr, new_gggg, new_bbbb, aaaa);
-- 
2.43.0


From 2832785197a896cb6a8e565fa93418e48edd8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 22/44] fix: colour-space scalers honour source and destination
 strides

---
 src/colors/jzazbz_scaler.rs         | 10 ++++++----
 src/colors/lab_scaler.rs            | 10 ++++++----
 src/colors/lch_scaler.rs            | 10 ++++++----
 src/colors/linear_precise_scaler.rs | 10 ++++++----
 src/colors/linear_scaler.rs         | 10 ++++++----
 src/colors/luv_scaler.rs            | 10 ++++++----
 src/colors/oklab_scaler.rs          | 10 ++++++----
 src/colors/sigmoidal_scaler.rs      | 10 ++++++----
 src/colors/xyz_scaler.rs            | 10 ++++++----
 9 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/src/colors/jzazbz_scaler.rs b/src/colors/jzazbz_scaler.rs
index a4d344a..df536d6 100644
--- a/src/colors/jzazbz_scaler.rs
+++ b/src/colors/jzazbz_scaler.rs
@@ -64,7 +64,7 @@ impl JzazbzScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -88,11 +88,12 @@ impl JzazbzScaler {
         store: &ImageStoreMut<'a, f32, 4>,
         into: &mut ImageStoreMut<'a, u8, 4>,
     ) {
+        let into_stride = into.stride() as u32;
         jzazbz_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             self.display_luminance,
@@ -151,7 +152,7 @@ impl Scaling for JzazbzScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -176,11 +177,12 @@ impl Scaling for JzazbzScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         jzazbz_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.display_luminance,
diff --git a/src/colors/lab_scaler.rs b/src/colors/lab_scaler.rs
index cec1421..620eefb 100644
--- a/src/colors/lab_scaler.rs
+++ b/src/colors/lab_scaler.rs
@@ -54,7 +54,7 @@ impl LabScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lab_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -74,11 +74,12 @@ impl LabScaler {
     }
 
     fn laba_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride() as u32;
         lab_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -138,7 +139,7 @@ impl Scaling for LabScaler {
 
         rgb_to_lab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -162,11 +163,12 @@ impl Scaling for LabScaler {
 
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         lab_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/lch_scaler.rs b/src/colors/lch_scaler.rs
index db1b2d6..7383935 100644
--- a/src/colors/lch_scaler.rs
+++ b/src/colors/lch_scaler.rs
@@ -55,7 +55,7 @@ impl LChScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lch_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -75,11 +75,12 @@ impl LChScaler {
     }
 
     fn lcha_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride() as u32;
         lch_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -141,7 +142,7 @@ impl Scaling for LChScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_lch(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -166,11 +167,12 @@ impl Scaling for LChScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         lch_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 417c89b..735f942 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearScaler {
 
         rgb_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         linear_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -191,7 +192,7 @@ impl Scaling for LinearScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -215,11 +216,12 @@ impl Scaling for LinearScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         linear_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             TransferFunction::Srgb,
diff --git a/src/colors/linear_scaler.rs b/src/colors/linear_scaler.rs
index 7189346..26dfd87 100644
--- a/src/colors/linear_scaler.rs
+++ b/src/colors/linear_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearApproxScaler {
 
         rgb_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgb(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride() as u32;
         linear_u8_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -195,7 +196,7 @@ impl Scaling for LinearApproxScaler {
 
         rgba_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -218,11 +219,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgba(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride() as u32;
         linear_u8_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/luv_scaler.rs b/src/colors/luv_scaler.rs
index a1df0c8..b52e449 100644
--- a/src/colors/luv_scaler.rs
+++ b/src/colors/luv_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_luv(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -129,11 +129,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         luv_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -183,7 +184,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_luv_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -208,11 +209,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         luv_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/oklab_scaler.rs b/src/colors/oklab_scaler.rs
index b74f7c4..7541a7f 100644
--- a/src/colors/oklab_scaler.rs
+++ b/src/colors/oklab_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -128,11 +128,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         oklab_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -181,7 +182,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -205,11 +206,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         oklab_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/sigmoidal_scaler.rs b/src/colors/sigmoidal_scaler.rs
index bf9b963..48d54c5 100644
--- a/src/colors/sigmoidal_scaler.rs
+++ b/src/colors/sigmoidal_scaler.rs
@@ -100,7 +100,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -123,11 +123,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         sigmoidal_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -175,7 +176,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -198,11 +199,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride() as u32;
         sigmoidal_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/xyz_scaler.rs b/src/colors/xyz_scaler.rs
index ae8a32e..2e307da 100644
--- a/src/colors/xyz_scaler.rs
+++ b/src/colors/xyz_scaler.rs
@@ -105,7 +105,7 @@ impl Scaling for XYZScaler {
 
         srgb_to_xyz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -127,11 +127,12 @@ impl Scaling for XYZScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         xyz_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -180,7 +181,7 @@ impl Scaling for XYZScaler {
 
         rgba_to_xyz_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -204,11 +205,12 @@ impl Scaling for XYZScaler {
             .resize_rgba_f32(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride() as u32;
         xyz_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
-- 
2.43.0


From dff5a0626c7d31b54d5d7e87d960fe9dfad4340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 23/44] fix: scalar vertical fixed point pass rounds to nearest

---
 src/fixed_point_vertical.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fixed_point_vertical.rs b/src/fixed_point_vertical.rs
index 49ed888..5e830de 100644
--- a/src/fixed_point_vertical.rs
+++ b/src/fixed_point_vertical.rs
@@ -28,6 +28,7 @@
  */
 use crate::filter_weights::FilterBounds;
 use crate::saturate_narrow::SaturateNarrow;
+use crate::support::ROUNDING_CONST;
 use num_traits::AsPrimitive;
 use std::ops::{AddAssign, Mul};
 
@@ -54,7 +55,7 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
@@ -108,8 +109,8 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer_double<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store0: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store1: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store0: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store1: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
@@ -177,10 +178,10 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer_four<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store0: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store1: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store2: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store3: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store0: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store1: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store2: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store3: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
-- 
2.43.0


From 3968492334396e3734640586525629d0650b6246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 24/44] fix: adaptive thread count does not overflow on large
 sizes

---
 src/threading_policy.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/threading_policy.rs b/src/threading_policy.rs
index a83ec59..a67ce57 100644
--- a/src/threading_policy.rs
+++ b/src/threading_policy.rs
@@ -58,7 +58,8 @@ impl ThreadingPolicy {
         match self {
             ThreadingPolicy::Single => 1,
             ThreadingPolicy::Fixed(thread_count) => (*thread_count).max(1),
-            ThreadingPolicy::Adaptive => (for_size.width * for_size.height / (256 * 256))
+            ThreadingPolicy::Adaptive => (for_size.width.saturating_mul(for_size.height)
+                / (256 * 256))
                 .clamp(1, Self::available_parallelism()),
         }
     }
-- 
2.43.0


From b301321ba893be837d9f8376459756a782013c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 25/44] fix: LinearScaler rgba uses the requested transfer
 function

---
 src/colors/linear_precise_scaler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 735f942..7f52731 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -197,7 +197,7 @@ impl Scaling for LinearScaler {
             lab_stride,
             lab_store.width as u32,
             lab_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         let new_immutable_store = ImageStore::<f32, COMPONENTS> {
@@ -224,7 +224,7 @@ impl Scaling for LinearScaler {
             into_stride,
             new_store.width as u32,
             new_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         Ok(())
-- 
2.43.0


From e8c89ba6d67ce166b6a18fec0923cbf18575b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 26/44] fix: precision and cut-off of the single-row SSE packed
 10-bit kernel

---
 src/sse/horizontal_ar30.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/horizontal_ar30.rs b/src/sse/horizontal_ar30.rs
index cb9ef8b..0b3040f 100644
--- a/src/sse/horizontal_ar30.rs
+++ b/src/sse/horizontal_ar30.rs
@@ -334,12 +334,12 @@ unsafe fn sse_convolve_horizontal_rgba_row_impl<const AR_TYPE: usize, const AR_O
     filter_weights: &FilterWeights<i16>,
 ) {
     unsafe {
-        const PRECISION: i32 = 16;
+        const PRECISION: i32 = 15;
         const ROUNDING: i32 = (1 << (PRECISION - 1)) - 1;
 
         let init = _mm_set1_epi32(ROUNDING);
 
-        let v_cut_off = _mm_set1_epi32(1023);
+        let v_cut_off = _mm_set1_epi16(1023);
 
         for ((chunk0, &bounds), weights) in dst
             .chunks_exact_mut(4)
-- 
2.43.0


From ab5c29ff023165e9e2a946927049be33d2780219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 27/44] fix: take all taps in the scalar packed 10-bit row

---
 src/fixed_point_horizontal_ar30.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixed_point_horizontal_ar30.rs b/src/fixed_point_horizontal_ar30.rs
index 8b4b6be..7195955 100644
--- a/src/fixed_point_horizontal_ar30.rs
+++ b/src/fixed_point_horizontal_ar30.rs
@@ -102,7 +102,7 @@ pub(crate) fn convolve_row_handler_fixed_point_ar30<
                 + load_ar30_with_offset!(src_ptr0, AR30_TYPE, AR30_ORDER, 4) * weight4
                 + load_ar30_with_offset!(src_ptr0, AR30_TYPE, AR30_ORDER, 5) * weight5;
         } else {
-            let src_ptr0 = &src[px..(px + bounds_size)];
+            let src_ptr0 = &src[px..(px + bounds_size * CN)];
             for (&k_weight, src) in weights
                 .iter()
                 .zip(src_ptr0.chunks_exact(4))
-- 
2.43.0


From 9f72288a4b8b3dde4b5f480978b9e139c4f6ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 28/44] fix: pixel order of the 4- and 8-tap SSE packed 10-bit
 loads

---
 src/sse/u8_utils.rs | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/sse/u8_utils.rs b/src/sse/u8_utils.rs
index c01cfd1..235a3e6 100644
--- a/src/sse/u8_utils.rs
+++ b/src/sse/u8_utils.rs
@@ -284,27 +284,9 @@ pub(crate) unsafe fn _mm_unzips_4_ar30_separate<const AR30_TYPE: usize, const AR
     v: __m128i,
 ) -> (__m128i, __m128i) {
     let values = _mm_unzips_3_ar30::<AR30_TYPE, AR30_ORDER>(v);
-    let a0 = (
-        _mm_unpacklo_epi16(values.0, values.1),
-        _mm_unpackhi_epi16(values.0, values.1),
-    );
-    let a1 = (
-        _mm_unpacklo_epi16(values.2, values.3),
-        _mm_unpackhi_epi16(values.2, values.3),
-    );
-    let v1 = (
-        _mm_unpacklo_epi32(a0.0, a1.0),
-        _mm_unpackhi_epi32(a0.0, a1.0),
-    );
-    let v2 = (
-        _mm_unpacklo_epi32(a0.1, a1.1),
-        _mm_unpackhi_epi32(a0.1, a1.1),
-    );
-    let k0 = v1.0;
-    let k1 = v2.0;
-    let k2 = v1.1;
-    let k3 = v2.1;
-    (_mm_unpacklo_epi64(k0, k1), _mm_unpacklo_epi64(k2, k3))
+    let a0 = _mm_unpacklo_epi16(values.0, values.1);
+    let a1 = _mm_unpacklo_epi16(values.2, values.3);
+    (_mm_unpacklo_epi32(a0, a1), _mm_unpackhi_epi32(a0, a1))
 }
 
 #[inline(always)]
@@ -329,8 +311,8 @@ pub(crate) unsafe fn _mm_unzip_4_ar30_separate<const AR30_TYPE: usize, const AR3
         _mm_unpackhi_epi32(a0.1, a1.1),
     );
     let k0 = v1.0;
-    let k1 = v2.0;
-    let k2 = v1.1;
+    let k1 = v1.1;
+    let k2 = v2.0;
     let k3 = v2.1;
     (k0, k1, k2, k3)
 }
-- 
2.43.0


From 03369c7ec7851fb3d2a87d907b5ed64d395fa844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 29/44] fix: rounding term of the single-row AVX-VNNI rgba
 kernel

---
 src/avx512/rgba_u8_dot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx512/rgba_u8_dot.rs b/src/avx512/rgba_u8_dot.rs
index c4caa1d..d29cd83 100644
--- a/src/avx512/rgba_u8_dot.rs
+++ b/src/avx512/rgba_u8_dot.rs
@@ -405,7 +405,7 @@ unsafe fn convolve_horizontal_rgba_vnni_rows_one_impl(
 
     let permute_avx_weights = _mm256_setr_epi32(0, 0, 0, 0, 1, 1, 1, 1);
 
-    let vld = _mm_set1_epi32(PRECISION);
+    let vld = _mm_set1_epi32(ROUNDING_CONST);
 
     for ((dst, bounds), weights) in dst
         .chunks_exact_mut(CHANNELS)
-- 
2.43.0


From e1ea43eda96b2fee3435877d0830bdcbba3fca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 30/44] fix: divide by alpha when dissociating f16 in AVX2

---
 src/avx2/alpha_f16.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/avx2/alpha_f16.rs b/src/avx2/alpha_f16.rs
index 9cafee2..85632b6 100644
--- a/src/avx2/alpha_f16.rs
+++ b/src/avx2/alpha_f16.rs
@@ -174,17 +174,17 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
         let zeros = _mm256_setzero_ps();
         let low_alpha_zero_mask = _mm256_cmp_ps::<_CMP_EQ_OS>(low_alpha, zeros);
         let low_r = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.0)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.0)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_g = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.1)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.1)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_b = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.2)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.2)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
@@ -192,7 +192,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
         let high_alpha = _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.3));
         let high_alpha_zero_mask = _mm256_cmp_ps::<_CMP_EQ_OS>(high_alpha, zeros);
         let high_r = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.0)),
                 high_alpha,
             ),
@@ -200,7 +200,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
             high_alpha_zero_mask,
         );
         let high_g = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.1)),
                 high_alpha,
             ),
@@ -208,7 +208,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
             high_alpha_zero_mask,
         );
         let high_b = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.2)),
                 high_alpha,
             ),
-- 
2.43.0


From cc43c7663a7e2c22882a10ad68317d2f97c0eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 31/44] fix: f16 horizontal passes leave row padding untouched

---
 src/f16.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/f16.rs b/src/f16.rs
index cc0dae9..b8fd8e8 100644
--- a/src/f16.rs
+++ b/src/f16.rs
@@ -85,8 +85,14 @@ fn convolve_horizontal_rgba_4_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
-        *dst = *src as f16;
+    let row_length = filter_weights.bounds.len() * CHANNELS;
+    for (dst, src) in dst
+        .chunks_mut(dst_stride)
+        .zip(transient_dst.chunks(dst_stride))
+    {
+        for (dst, src) in dst.iter_mut().zip(src.iter()).take(row_length) {
+            *dst = *src as f16;
+        }
     }
 }
 
@@ -105,7 +111,8 @@ fn convolve_horizontal_rgb_native_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
+    let row_length = filter_weights.bounds.len() * CHANNELS;
+    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()).take(row_length) {
         *dst = *src as f16;
     }
 }
-- 
2.43.0


From 6a6afbf5dee21f5b8e7c529b5df7eb06f7211392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 32/44] fix: divide by alpha when dissociating f16 in SSE

---
 src/sse/alpha_f16.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sse/alpha_f16.rs b/src/sse/alpha_f16.rs
index e0c6195..b0e84c2 100644
--- a/src/sse/alpha_f16.rs
+++ b/src/sse/alpha_f16.rs
@@ -227,17 +227,17 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
         let zeros = _mm_setzero_ps();
         let low_alpha_zero_mask = _mm_cmpeq_ps(low_alpha, zeros);
         let low_r = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.0), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.0), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_g = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.1), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.1), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_b = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.2), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.2), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
@@ -245,7 +245,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
         let high_alpha = _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.3));
         let high_alpha_zero_mask = _mm_cmpeq_ps(high_alpha, zeros);
         let high_r = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.0)),
                 high_alpha,
             ),
@@ -253,7 +253,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
             high_alpha_zero_mask,
         );
         let high_g = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.1)),
                 high_alpha,
             ),
@@ -261,7 +261,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
             high_alpha_zero_mask,
         );
         let high_b = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.2)),
                 high_alpha,
             ),
-- 
2.43.0


From d5c90b050398e2e6b817ed475915dd88c5417453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 33/44] fix: weights of a window on which the kernel vanishes
 sum to one

---
 src/scaler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scaler.rs b/src/scaler.rs
index 0d40c53..228dfcb 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -482,6 +482,11 @@ impl Scaler {
                     {
                         *dst = *src * recpeq;
                     }
+                } else if size > 0 {
+                    // The kernel vanishes on the whole window, take the closest pixel
+                    let closest: usize = center.round().max(0f32.as_()).as_();
+                    let closest = closest.clamp(start, end - 1);
+                    weights[filter_position + closest - start] = 1f32.as_();
                 }
 
                 filter_position += kernel_size;
-- 
2.43.0


From 92af763b362d6426d9a070733567462879b0ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 34/44] fix: AVX-512 alpha check looks at the last pixels of a
 row

---
 src/avx512/check_alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx512/check_alpha.rs b/src/avx512/check_alpha.rs
index 32cfd53..8aa974a 100644
--- a/src/avx512/check_alpha.rs
+++ b/src/avx512/check_alpha.rs
@@ -65,7 +65,7 @@ unsafe fn avx512_has_non_constant_cap_alpha_rgba8_impl(
         let row = &row[0..width * 4];
         let mut sums = _mm512_set1_epi32(0);
 
-        for chunk in row.chunks_exact(64) {
+        for chunk in row.chunks(64) {
             let working_mask: __mmask64 = if chunk.len() == 64 {
                 0xffff_ffff_ffff_ffff
             } else {
-- 
2.43.0


From 1b30bd07b5104958bc30ef981e9a64e9e6d0e648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 35/44] fix: nearest resampling takes the lower of two equally
 close pixels

---
 src/nearest_sampler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index 5747275..5eb3e35 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -31,12 +31,12 @@ use rayon::iter::{IndexedParallelIterator, ParallelIterator};
 use rayon::prelude::ParallelSliceMut;
 use rayon::ThreadPool;
 
-/// Source position whose sampling cell contains the centre of the destination position,
-/// `floor((p + 0.5) * src_size / dst_size)`, always less than `src_size`
+/// Source position closest to the centre of the destination position, the lower one when two
+/// are equally close, `ceil((p + 0.5) * src_size / dst_size) - 1`, always less than `src_size`
 #[inline]
 fn nearest_position(dst_position: usize, src_size: usize, dst_size: usize) -> usize {
     let numerator = (2 * dst_position as u128 + 1) * src_size as u128;
-    (numerator / (2 * dst_size as u128)) as usize
+    ((numerator - 1) / (2 * dst_size as u128)) as usize
 }
 
 fn sample_row<T: Copy, const CHANNELS: usize>(
-- 
2.43.0


From 9f7b445e98280fe298457116d60ab276ea406f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 36/44] fix: 16-bit u8 kernels are only used below 8x
 downscaling

---
 src/plane_u8.rs | 2 +-
 src/rgba_u8.rs  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plane_u8.rs b/src/plane_u8.rs
index 68da74d..0648e99 100644
--- a/src/plane_u8.rs
+++ b/src/plane_u8.rs
@@ -56,7 +56,7 @@ impl HorizontalConvolutionPass<u8, 1> for ImageStore<'_, u8, 1> {
         _pool: &Option<ThreadPool>,
         _options: ConvolutionOptions,
     ) {
-        let _scale_factor = self.height as f32 / destination.height as f32;
+        let _scale_factor = self.width as f32 / destination.width as f32;
         let mut _dispatcher_4_rows: Option<
             fn(&[u8], usize, &mut [u8], usize, &FilterWeights<i16>),
         > = Some(handle_fixed_rows_4_u8::<1>);
diff --git a/src/rgba_u8.rs b/src/rgba_u8.rs
index fc6c4a6..0336411 100644
--- a/src/rgba_u8.rs
+++ b/src/rgba_u8.rs
@@ -112,7 +112,8 @@ impl HorizontalConvolutionPass<u8, 4> for ImageStore<'_, u8, 4> {
         }
         #[cfg(all(target_arch = "x86_64", feature = "avx"))]
         {
-            if (std::arch::is_x86_feature_detected!("avx2") || _scale_factor < 8.)
+            if std::arch::is_x86_feature_detected!("avx2")
+                && _scale_factor < 8.
                 && _options.workload_strategy == crate::WorkloadStrategy::PreferSpeed
             {
                 _dispatcher_4_rows = Some(convolve_horizontal_rgba_avx_rows_4_lb);
-- 
2.43.0


From 04c45123d14836be382932b68bfa7a56cbff6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 37/44] fix: collect alpha differences without wrapping sums

---
 src/alpha_check.rs        |  8 ++++----
 src/avx2/check_alpha.rs   | 22 +++++++++++-----------
 src/avx512/check_alpha.rs |  2 +-
 src/sse/check_alpha.rs    | 16 ++++++++--------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/alpha_check.rs b/src/alpha_check.rs
index 97293eb..063f173 100644
--- a/src/alpha_check.rs
+++ b/src/alpha_check.rs
@@ -28,7 +28,7 @@
  */
 #![forbid(unsafe_code)]
 use num_traits::AsPrimitive;
-use std::ops::{AddAssign, BitXor};
+use std::ops::{BitOrAssign, BitXor};
 
 #[allow(dead_code)]
 pub(crate) fn has_non_constant_cap_alpha_rgba8(store: &[u8], width: usize, stride: usize) -> bool {
@@ -55,7 +55,7 @@ pub(crate) fn has_non_constant_cap_alpha_rgba_f32(
 /// Scans an image to check if alpha is not constant
 pub(crate) fn has_non_constant_cap_alpha<
     V: Copy + PartialEq + BitXor<V, Output = V> + 'static + AsPrimitive<J> + 'static,
-    J: Copy + AddAssign + Default + 'static + Eq + Ord,
+    J: Copy + BitOrAssign + Default + 'static + Eq + Ord,
     const ALPHA_CHANNEL_INDEX: usize,
     const CHANNELS: usize,
 >(
@@ -77,7 +77,7 @@ where
     for row in store.chunks_exact(stride) {
         let row = &row[..width * CHANNELS];
         for color in row.chunks_exact(CHANNELS) {
-            row_sums += color[ALPHA_CHANNEL_INDEX].bitxor(first).as_();
+            row_sums |= color[ALPHA_CHANNEL_INDEX].bitxor(first).as_();
         }
         if row_sums != 0.as_() {
             return true;
@@ -105,7 +105,7 @@ fn has_non_constant_cap_alpha_f32_impl<const ALPHA_CHANNEL_INDEX: usize, const C
     for row in store.chunks_exact(stride) {
         let row = &row[..width * CHANNELS];
         for color in row.chunks_exact(CHANNELS) {
-            row_sums += color[ALPHA_CHANNEL_INDEX].to_bits().bitxor(first) as u64;
+            row_sums |= color[ALPHA_CHANNEL_INDEX].to_bits().bitxor(first) as u64;
         }
         if row_sums != 0 {
             return true;
diff --git a/src/avx2/check_alpha.rs b/src/avx2/check_alpha.rs
index 2fd3446..277c13f 100644
--- a/src/avx2/check_alpha.rs
+++ b/src/avx2/check_alpha.rs
@@ -76,10 +76,10 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba8_impl(
             r2 = _mm256_xor_si256(_mm256_shuffle_epi8(r2, ash0), def_alpha);
             r3 = _mm256_xor_si256(_mm256_shuffle_epi8(r3, ash0), def_alpha);
 
-            sums = _mm256_add_epi32(sums, r0);
-            sums = _mm256_add_epi32(sums, r1);
-            sums = _mm256_add_epi32(sums, r2);
-            sums = _mm256_add_epi32(sums, r3);
+            sums = _mm256_or_si256(sums, r0);
+            sums = _mm256_or_si256(sums, r1);
+            sums = _mm256_or_si256(sums, r2);
+            sums = _mm256_or_si256(sums, r3);
         }
 
         let row = row.chunks_exact(32 * 4).remainder();
@@ -89,12 +89,12 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba8_impl(
 
             r0 = _mm256_xor_si256(_mm256_shuffle_epi8(r0, ash0), def_alpha);
 
-            sums = _mm256_add_epi32(sums, r0);
+            sums = _mm256_or_si256(sums, r0);
         }
 
         let row = row.chunks_exact(32).remainder();
 
-        let mut sums = _mm_add_epi32(
+        let mut sums = _mm_or_si128(
             _mm256_castsi256_si128(sums),
             _mm256_extracti128_si256::<1>(sums),
         );
@@ -107,7 +107,7 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba8_impl(
 
             let alphas = _mm_xor_si128(r0, def_alpha);
 
-            sums = _mm_add_epi32(sums, alphas);
+            sums = _mm_or_si128(sums, alphas);
         }
 
         let row = row.chunks_exact(16).remainder();
@@ -170,8 +170,8 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba16_impl(
             let r01 = _mm256_xor_si256(_mm256_unpacklo_epi32(r0, r1), def_alpha);
             let r23 = _mm256_xor_si256(_mm256_unpacklo_epi32(r2, r3), def_alpha);
 
-            sums = _mm256_add_epi32(sums, r01);
-            sums = _mm256_add_epi32(sums, r23);
+            sums = _mm256_or_si256(sums, r01);
+            sums = _mm256_or_si256(sums, r23);
         }
 
         let row = row.chunks_exact(16 * 4).remainder();
@@ -183,13 +183,13 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba16_impl(
 
             let alphas = _mm256_xor_si256(_mm256_unpacklo_epi32(r0, r0), def_alpha);
 
-            sums = _mm256_add_epi32(sums, alphas);
+            sums = _mm256_or_si256(sums, alphas);
         }
 
         let row = row.chunks_exact(16).remainder();
 
         use crate::avx2::routines::_mm_hsum_epi32;
-        let mut h_sum = _mm_hsum_epi32(_mm_add_epi32(
+        let mut h_sum = _mm_hsum_epi32(_mm_or_si128(
             _mm256_castsi256_si128(sums),
             _mm256_extracti128_si256::<1>(sums),
         ));
diff --git a/src/avx512/check_alpha.rs b/src/avx512/check_alpha.rs
index 8aa974a..4cada18 100644
--- a/src/avx512/check_alpha.rs
+++ b/src/avx512/check_alpha.rs
@@ -77,7 +77,7 @@ unsafe fn avx512_has_non_constant_cap_alpha_rgba8_impl(
             r0 = _mm512_shuffle_epi8(r0, sh0);
             r0 = _mm512_xor_si512(r0, def_alpha);
 
-            sums = _mm512_add_epi32(sums, r0);
+            sums = _mm512_or_si512(sums, r0);
         }
 
         let h_sum = _mm512_reduce_add_epi32(sums);
diff --git a/src/sse/check_alpha.rs b/src/sse/check_alpha.rs
index 85133e3..4440eec 100644
--- a/src/sse/check_alpha.rs
+++ b/src/sse/check_alpha.rs
@@ -71,10 +71,10 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba8_impl(
             r2 = _mm_xor_si128(_mm_shuffle_epi8(r2, sh0), def_alpha);
             r3 = _mm_xor_si128(_mm_shuffle_epi8(r3, sh0), def_alpha);
 
-            sums = _mm_add_epi32(sums, r0);
-            sums = _mm_add_epi32(sums, r1);
-            sums = _mm_add_epi32(sums, r2);
-            sums = _mm_add_epi32(sums, r3);
+            sums = _mm_or_si128(sums, r0);
+            sums = _mm_or_si128(sums, r1);
+            sums = _mm_or_si128(sums, r2);
+            sums = _mm_or_si128(sums, r3);
         }
 
         let row = row.chunks_exact(16 * 4).remainder();
@@ -86,7 +86,7 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba8_impl(
 
             let alphas = _mm_xor_si128(r0, def_alpha);
 
-            sums = _mm_add_epi32(sums, alphas);
+            sums = _mm_or_si128(sums, alphas);
         }
 
         let row = row.chunks_exact(16).remainder();
@@ -145,8 +145,8 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba16_impl(
             let r01 = _mm_xor_si128(_mm_unpacklo_epi32(r0, r1), def_alpha);
             let r23 = _mm_xor_si128(_mm_unpacklo_epi32(r2, r3), def_alpha);
 
-            sums = _mm_add_epi32(sums, r01);
-            sums = _mm_add_epi32(sums, r23);
+            sums = _mm_or_si128(sums, r01);
+            sums = _mm_or_si128(sums, r23);
         }
 
         let row = row.chunks_exact(8 * 4).remainder();
@@ -158,7 +158,7 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba16_impl(
 
             let alphas = _mm_xor_si128(_mm_unpacklo_epi32(r0, r0), def_alpha);
 
-            sums = _mm_add_epi32(sums, alphas);
+            sums = _mm_or_si128(sums, alphas);
         }
 
         let row = row.chunks_exact(8).remainder();
-- 
2.43.0


From 4bbf1aea9245c23468a9f5bf5aa9dbb6c8e7088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 38/44] Verification hook: Kani contracts behind cfg(kani)

---
 src/alpha_check.rs      |  5 +++++
 src/alpha_handle_u16.rs | 11 +++++++++++
 src/alpha_handle_u8.rs  |  7 +++++++
 src/ar30.rs             |  5 +++++
 src/filter_weights.rs   |  5 +++++
 src/image_store.rs      |  5 +++++
 src/mixed_storage.rs    |  5 +++++
 src/nearest_sampler.rs  |  9 +++++++++
 src/pic_scale_error.rs  |  5 +++++
 src/sampler.rs          |  5 +++++
 src/saturate_narrow.rs  |  5 +++++
 src/support.rs          |  6 ++++++
 src/threading_policy.rs |  5 +++++
 13 files changed, 78 insertions(+)

diff --git a/src/alpha_check.rs b/src/alpha_check.rs
index 063f173..0dd0a77 100644
--- a/src/alpha_check.rs
+++ b/src/alpha_check.rs
@@ -116,3 +116,8 @@ fn has_non_constant_cap_alpha_f32_impl<const ALPHA_CHANNEL_INDEX: usize, const C
 
     row_sums.ne(&zeros)
 }
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/alpha_check.rs"));
+}
diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 88a9fff..790c4c9 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -40,6 +40,8 @@ use rayon::ThreadPool;
 
 #[inline]
 /// Divides value by 1023 with rounding to nearest
+#[cfg_attr(kani, kani::requires(v as u64 <= 1023u64 * 1023u64))]
+#[cfg_attr(kani, kani::ensures(|r: &u16| *r as u64 == (2 * v as u64 + 1023) / 2046))]
 pub(crate) fn div_by_1023(v: u32) -> u16 {
     let round = 1 << 9;
     let v = v + round;
@@ -48,6 +50,8 @@ pub(crate) fn div_by_1023(v: u32) -> u16 {
 
 #[inline]
 /// Divides value by 4095 with rounding to nearest
+#[cfg_attr(kani, kani::requires(v as u64 <= 4095u64 * 4095u64))]
+#[cfg_attr(kani, kani::ensures(|r: &u16| *r as u64 == (2 * v as u64 + 4095) / 8190))]
 pub(crate) fn div_by_4095(v: u32) -> u16 {
     let round = 1 << 11;
     let v = v + round;
@@ -56,6 +60,8 @@ pub(crate) fn div_by_4095(v: u32) -> u16 {
 
 #[inline]
 /// Divides value by 655353 with rounding to nearest
+#[cfg_attr(kani, kani::requires(v as u64 <= 65535u64 * 65535u64))]
+#[cfg_attr(kani, kani::ensures(|r: &u16| *r as u64 == (2 * v as u64 + 65535) / 131070))]
 pub(crate) fn div_by_65535(v: u32) -> u16 {
     let round = 1 << 15;
     let v_expand = v;
@@ -244,3 +250,8 @@ pub(crate) fn unpremultiply_alpha_rgba_u16(
     }
     _dispatcher(in_place, src_stride, width, height, bit_depth, pool);
 }
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/alpha_handle_u16.rs"));
+}
diff --git a/src/alpha_handle_u8.rs b/src/alpha_handle_u8.rs
index 053b07d..c72ac45 100644
--- a/src/alpha_handle_u8.rs
+++ b/src/alpha_handle_u8.rs
@@ -41,6 +41,8 @@ use rayon::ThreadPool;
 
 #[inline]
 /// Divides value by 255 with rounding to nearest
+#[cfg_attr(kani, kani::requires(v <= 255 * 255))]
+#[cfg_attr(kani, kani::ensures(|r: &u8| *r as u32 == (2 * v as u32 + 255) / 510))]
 pub(crate) fn div_by_255(v: u16) -> u8 {
     ((((v + 0x80) >> 8) + v + 0x80) >> 8).min(255) as u8
 }
@@ -214,3 +216,8 @@ pub(crate) fn unpremultiply_alpha_rgba(
     }
     _dispatcher(in_place, width, height, stride, pool);
 }
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/alpha_handle_u8.rs"));
+}
diff --git a/src/ar30.rs b/src/ar30.rs
index 9648cb1..ebe10fd 100644
--- a/src/ar30.rs
+++ b/src/ar30.rs
@@ -126,3 +126,8 @@ impl From<usize> for Ar30ByteOrder {
         }
     }
 }
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/ar30.rs"));
+}
diff --git a/src/filter_weights.rs b/src/filter_weights.rs
index be308e8..167a815 100644
--- a/src/filter_weights.rs
+++ b/src/filter_weights.rs
@@ -211,3 +211,8 @@ impl WeightsConverter<f16> for WeightFloat16Converter {
         )
     }
 }
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/filter_weights.rs"));
+}
diff --git a/src/image_store.rs b/src/image_store.rs
index 37e707d..65ff909 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -805,3 +805,8 @@ mod tests {
         assert_eq!(false, has_alpha);
     }
 }
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/image_store.rs"));
+}
diff --git a/src/mixed_storage.rs b/src/mixed_storage.rs
index 3c14ccc..7aaa4cf 100644
--- a/src/mixed_storage.rs
+++ b/src/mixed_storage.rs
@@ -90,3 +90,8 @@ impl MixedStorage<f64> for f64 {
         self
     }
 }
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/mixed_storage.rs"));
+}
diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index 5eb3e35..f78196b 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -34,6 +34,10 @@ use rayon::ThreadPool;
 /// Source position closest to the centre of the destination position, the lower one when two
 /// are equally close, `ceil((p + 0.5) * src_size / dst_size) - 1`, always less than `src_size`
 #[inline]
+#[cfg_attr(kani, kani::requires(dst_position < dst_size && src_size > 0 && src_size <= isize::MAX as usize && dst_size <= isize::MAX as usize))]
+#[cfg_attr(kani, kani::ensures(|r: &usize| *r < src_size))]
+#[cfg_attr(kani, kani::ensures(|r: &usize| 2 * dst_size as u128 * *r as u128 <= (2 * dst_position as u128 + 1) * src_size as u128 - 1))]
+#[cfg_attr(kani, kani::ensures(|r: &usize| 2 * dst_size as u128 * (*r as u128 + 1) > (2 * dst_position as u128 + 1) * src_size as u128 - 1))]
 fn nearest_position(dst_position: usize, src_size: usize, dst_size: usize) -> usize {
     let numerator = (2 * dst_position as u128 + 1) * src_size as u128;
     ((numerator - 1) / (2 * dst_size as u128)) as usize
@@ -90,3 +94,8 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
             });
     }
 }
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/nearest_sampler.rs"));
+}
diff --git a/src/pic_scale_error.rs b/src/pic_scale_error.rs
index d971e7d..bf9fed1 100644
--- a/src/pic_scale_error.rs
+++ b/src/pic_scale_error.rs
@@ -100,3 +100,8 @@ impl Display for PicScaleError {
 }
 
 impl Error for PicScaleError {}
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/pic_scale_error.rs"));
+}
diff --git a/src/sampler.rs b/src/sampler.rs
index b477f6b..cbf9840 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -381,3 +381,8 @@ impl ResamplingFunction {
         }
     }
 }
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/sampler.rs"));
+}
diff --git a/src/saturate_narrow.rs b/src/saturate_narrow.rs
index 74949d3..bba1b34 100644
--- a/src/saturate_narrow.rs
+++ b/src/saturate_narrow.rs
@@ -64,3 +64,8 @@ impl SaturateNarrow<u16> for i64 {
         (self >> PRECISION).max(0).min((1 << bit_depth) - 1) as u16
     }
 }
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/saturate_narrow.rs"));
+}
diff --git a/src/support.rs b/src/support.rs
index 4735c62..15cf5df 100644
--- a/src/support.rs
+++ b/src/support.rs
@@ -30,6 +30,7 @@
 pub(crate) const PRECISION: i32 = 15;
 pub(crate) const ROUNDING_CONST: i32 = 1 << (PRECISION - 1);
 
+#[cfg_attr(kani, kani::ensures(|r: &bool| *r == width.checked_mul(chan).and_then(|row| row.checked_mul(height)).is_none()))]
 pub(crate) fn check_image_size_overflow(width: usize, height: usize, chan: usize) -> bool {
     let (stride, is_overflowed) = width.overflowing_mul(chan);
     if is_overflowed {
@@ -38,3 +39,8 @@ pub(crate) fn check_image_size_overflow(width: usize, height: usize, chan: usize
     let (_, is_overflowed) = height.overflowing_mul(stride);
     is_overflowed
 }
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/support.rs"));
+}
diff --git a/src/threading_policy.rs b/src/threading_policy.rs
index a67ce57..12a2b2b 100644
--- a/src/threading_policy.rs
+++ b/src/threading_policy.rs
@@ -94,3 +94,8 @@ impl ThreadingPolicy {
         None
     }
 }
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/threading_policy.rs"));
+}
-- 
2.43.0


From 0b6d0f3e36cfe965b5928a2488c96dff94387dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 39/44] fix: round float 16-bit results to nearest in scalar
 paths instead of up

---
 src/mixed_storage.rs    | 8 ++++----
 src/sse/vertical_u16.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mixed_storage.rs b/src/mixed_storage.rs
index 7aaa4cf..a72be25 100644
--- a/src/mixed_storage.rs
+++ b/src/mixed_storage.rs
@@ -35,7 +35,7 @@ impl MixedStorage<u8> for f32 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, _: u32) -> u8 {
-        self.ceil().max(0.).min(255.) as u8
+        self.round().max(0.).min(255.) as u8
     }
 }
 
@@ -43,7 +43,7 @@ impl MixedStorage<u8> for f64 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, _: u32) -> u8 {
-        self.ceil().max(0.).min(255.) as u8
+        self.round().max(0.).min(255.) as u8
     }
 }
 
@@ -51,7 +51,7 @@ impl MixedStorage<u16> for f32 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, bit_depth: u32) -> u16 {
-        self.ceil().max(0.).min(((1 << bit_depth) - 1) as f32) as u16
+        self.round().max(0.).min(((1 << bit_depth) - 1) as f32) as u16
     }
 }
 
@@ -71,7 +71,7 @@ impl MixedStorage<u16> for f64 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, bit_depth: u32) -> u16 {
-        self.ceil().max(0.).min(((1 << bit_depth) - 1) as f64) as u16
+        self.round().max(0.).min(((1 << bit_depth) - 1) as f64) as u16
     }
 }
 
diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index 7da26b1..be6db82 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -408,6 +408,6 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
             }
         }
 
-        *dst = store0.ceil().max(0.).min(max_colors as f32) as u16;
+        *dst = store0.round().max(0.).min(max_colors as f32) as u16;
     }
 }
-- 
2.43.0


From d0e66eea819b3c9f32b7e6b66040b39d259f94f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:38 +0000
Subject: [PATCH 40/44] fix: saturate unpremultiplied u8 colours in AVX2 and
 AVX-512 instead of wrapping them to zero

---
 src/avx2/alpha_u8.rs   | 4 ++--
 src/avx512/alpha_u8.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/avx2/alpha_u8.rs b/src/avx2/alpha_u8.rs
index 966ce2d..9cafa6b 100644
--- a/src/avx2/alpha_u8.rs
+++ b/src/avx2/alpha_u8.rs
@@ -242,8 +242,8 @@ impl Avx2DisassociateAlpha {
         let hi_lo = _mm256_cvtps_epi32(fhlw);
         let hi_hi = _mm256_cvtps_epi32(fhhw);
 
-        let packed0 = _mm256_packus_epi32(lo_lo, lo_hi);
-        let packed1 = _mm256_packus_epi32(hi_lo, hi_hi);
+        let packed0 = _mm256_packs_epi32(lo_lo, lo_hi);
+        let packed1 = _mm256_packs_epi32(hi_lo, hi_hi);
 
         _mm256_select_si256(is_zero_mask, zeros, _mm256_packus_epi16(packed0, packed1))
     }
diff --git a/src/avx512/alpha_u8.rs b/src/avx512/alpha_u8.rs
index 4cb5d3b..85f99d3 100644
--- a/src/avx512/alpha_u8.rs
+++ b/src/avx512/alpha_u8.rs
@@ -187,8 +187,8 @@ impl<const HAS_VBMI: bool> Avx512DisassociateAlpha<HAS_VBMI> {
         let hi_hi = _mm512_cvtps_epi32(_mm512_mul_ps(hi_hi, a_hi_hi));
 
         let packed = _mm512_packus_epi16(
-            _mm512_packus_epi32(lo_lo, lo_hi),
-            _mm512_packus_epi32(hi_lo, hi_hi),
+            _mm512_packs_epi32(lo_lo, lo_hi),
+            _mm512_packs_epi32(hi_lo, hi_hi),
         );
         _mm512_mask_blend_epi8(is_zero_mask, packed, _mm512_setzero_si512())
     }
-- 
2.43.0


From ee9d28fd032afe40666cf7046935a58404ea6285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:02 +0000
Subject: [PATCH 41/44] fix: unpremultiplying u16 pixels with zero alpha must
 clear the colours

---
 src/alpha_handle_u16.rs |  4 ++++
 src/avx2/alpha_u16.rs   | 12 ++++++------
 src/sse/alpha_u16.rs    |  2 +-
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 790c4c9..d4e9b57 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -121,6 +121,10 @@ pub(crate) fn unpremultiply_alpha_rgba_row(in_place: &mut [u16], max_colors: u32
                 (((dst[1] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
             dst[2] =
                 (((dst[2] as u32 * max_colors) as f32 * a_recip) as u32).min(max_colors) as u16;
+        } else {
+            dst[0] = 0;
+            dst[1] = 0;
+            dst[2] = 0;
         }
     }
 }
diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 0ccb22e..3b4cf23 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -457,13 +457,13 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         let mut new_rrr =
             _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha, v_max_colors);
-        new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
+        new_rrr = _mm256_select_si256(is_zero_alpha_mask, zeros, new_rrr);
         let mut new_ggg =
             _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha, v_max_colors);
-        new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
+        new_ggg = _mm256_select_si256(is_zero_alpha_mask, zeros, new_ggg);
         let mut new_bbb =
             _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha, v_max_colors);
-        new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
+        new_bbb = _mm256_select_si256(is_zero_alpha_mask, zeros, new_bbb);
 
         let dst_ptr = dst.as_mut_ptr();
         let (d_lane0, d_lane1, d_lane2, d_lane3) =
@@ -506,13 +506,13 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         let mut new_rrr =
             _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha, v_max_colors);
-        new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
+        new_rrr = _mm256_select_si256(is_zero_alpha_mask, zeros, new_rrr);
         let mut new_ggg =
             _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha, v_max_colors);
-        new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
+        new_ggg = _mm256_select_si256(is_zero_alpha_mask, zeros, new_ggg);
         let mut new_bbb =
             _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha, v_max_colors);
-        new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
+        new_bbb = _mm256_select_si256(is_zero_alpha_mask, zeros, new_bbb);
 
         let (d_lane0, d_lane1, d_lane2, d_lane3) =
             avx_interleave_rgba_epi16(new_rrr, new_ggg, new_bbb, pixel.3);
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index 7ad9f78..fb0ccb4 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -59,7 +59,7 @@ unsafe fn sse_unpremultiply_row_u16(
     ));
 
     let pixel = _mm_packus_epi32(new_lo, new_hi);
-    _mm_select_si128(is_zero_mask, x, pixel)
+    _mm_select_si128(is_zero_mask, zeros, pixel)
 }
 
 /// Exact division by 1023 with rounding to nearest
-- 
2.43.0


From a8c4b29e5424d7ac76d1fa55a25ecd1d1da5ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:02 +0000
Subject: [PATCH 42/44] fix: AVX2 FMA u16 alpha kernels rounded the result
 twice

---
 src/avx2/alpha_u16.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 3b4cf23..f7a5c36 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -55,8 +55,9 @@ unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
     let (lvs, hvs);
 
     if FMA {
-        lvs = _mm256_fmadd_ps(low_px, low_low_a, _mm256_set1_ps(0.5f32));
-        hvs = _mm256_fmadd_ps(high_px, low_high_a, _mm256_set1_ps(0.5f32));
+        let half = _mm256_set1_ps(0.5f32);
+        lvs = _mm256_floor_ps(_mm256_fmadd_ps(low_px, low_low_a, half));
+        hvs = _mm256_floor_ps(_mm256_fmadd_ps(high_px, low_high_a, half));
     } else {
         let lps = _mm256_mul_ps(low_px, low_low_a);
         let hps = _mm256_mul_ps(high_px, low_high_a);
-- 
2.43.0


From 50eb803a2716e744ab890154fbef39daebc20f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:02 +0000
Subject: [PATCH 43/44] fix: keep weight windows inside of the source on very
 long axes

---
 src/scaler.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/scaler.rs b/src/scaler.rs
index 228dfcb..057169f 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -350,6 +350,20 @@ impl Scaler {
         self.workload_strategy = workload_strategy;
     }
 
+    /// Floating point positions are not exact on very long axes, the window nevertheless
+    /// must have at least one and at most `kernel_size` elements, and stay inside of the source
+    #[inline]
+    fn clamp_window(
+        start: usize,
+        end: usize,
+        kernel_size: usize,
+        in_size: usize,
+    ) -> (usize, usize) {
+        let start = start.min(in_size - 1);
+        let end = end.min(start + kernel_size).min(in_size).max(start + 1);
+        (start, end)
+    }
+
     pub(crate) fn generate_weights<T>(&self, in_size: usize, out_size: usize) -> FilterWeights<T>
     where
         T: Copy
@@ -416,6 +430,7 @@ impl Scaler {
                     .min(start.as_() + kernel_size.as_())
                     .min(in_size.as_())
                     .as_();
+                let (start, end) = Self::clamp_window(start, end, kernel_size, in_size);
 
                 let center = center_x - 0.5.as_();
 
@@ -533,6 +548,7 @@ impl Scaler {
                     .min(start.as_() + kernel_size.as_())
                     .min(in_size.as_())
                     .as_();
+                let (start, end) = Self::clamp_window(start, end, kernel_size, in_size);
 
                 let size = end - start;
 
-- 
2.43.0


From a8473890119e1c5b5abb638364305244e6f785da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:02 +0000
Subject: [PATCH 44/44] hook: contracts module for scaler.rs (cfg kani)

---
 src/scaler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scaler.rs b/src/scaler.rs
index 057169f..8fced82 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -1617,3 +1617,8 @@ mod tests {
         assert_eq!(resized, 174);
     }
 }
+
+#[cfg(kani)]
+mod contracts {
+    include!(concat!(env!("PIC_SCALE_CONTRACTS"), "/scaler.rs"));
+}
-- 
2.43.0

