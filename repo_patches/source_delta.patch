From aaf88c43ae7b41363c1ef9db4a540e0b6fd44656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 01/29] fix: interlace offsets above i32::MAX shifted rows the
 wrong way or panicked

---
 d10-ops/src/interlace.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/interlace.rs b/d10-ops/src/interlace.rs
index e5e5134..95096aa 100644
--- a/d10-ops/src/interlace.rs
+++ b/d10-ops/src/interlace.rs
@@ -2,7 +2,8 @@ use d10_core::color::Color;
 use d10_core::pixelbuffer::PixelBuffer;
 
 pub fn interlace<C: Color>(buffer: &PixelBuffer<C>, offset: u32) -> PixelBuffer<C> {
-    let offset = offset as i32;
+    // Shifting by more than the width does not change the result anymore
+    let offset = offset.min(buffer.width()) as i32;
 
     PixelBuffer::new_from_func(buffer.width(), buffer.height(), |x, y| {
         *if y % 2 == 0 {
-- 
2.43.0


From 6e7d479f59d37bfdcc79d7794b61910cee446db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 02/29] fix: LCH color blending took the long way around the
 hue circle

---
 d10-ops/src/blend.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/d10-ops/src/blend.rs b/d10-ops/src/blend.rs
index a661734..e0d8e71 100644
--- a/d10-ops/src/blend.rs
+++ b/d10-ops/src/blend.rs
@@ -183,16 +183,11 @@ pub fn blend_lch_lighten(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
     c1.with_l(l).to_rgb()
 }
 
-pub fn blend_lch_hue(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
-    let c1 = c1.to_lch::<D65, O2>();
-    let c2 = c2.to_lch::<D65, O2>();
-
-    let h1 = c1.h();
-    let h2 = c2.h();
-
+/// Blend two hue angles along the shorter way around the circle
+fn apply_hue_intensity(h1: f32, h2: f32, intensity: f32) -> f32 {
     let diff = (h1 - h2).abs();
 
-    let h = if diff > PI {
+    if diff > PI {
         let h = if h1 < 0.0 {
             apply_intensity(h1 + 2.0 * PI, h2, intensity)
         } else {
@@ -206,9 +201,14 @@ pub fn blend_lch_hue(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
         }
     } else {
         apply_intensity(h1, h2, intensity)
-    };
+    }
+}
+
+pub fn blend_lch_hue(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
+    let c1 = c1.to_lch::<D65, O2>();
+    let c2 = c2.to_lch::<D65, O2>();
 
-    c1.with_h(h)
+    c1.with_h(apply_hue_intensity(c1.h(), c2.h(), intensity))
         .to_rgb()
 }
 
@@ -225,6 +225,6 @@ pub fn blend_lch_color(c1: Rgb, c2: Rgb, intensity: f32) -> Rgb {
     let c2 = c2.to_lch::<D65, O2>();
 
     c1.with_c(apply_intensity(c1.c(), c2.c(), intensity))
-        .with_h(apply_intensity(c1.h(), c2.h(), intensity))
+        .with_h(apply_hue_intensity(c1.h(), c2.h(), intensity))
         .to_rgb()
 }
-- 
2.43.0


From 9d7b8fe0153124bd78f2b9fd2136d5bc509d9736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 03/29] fix: Auto downscaling used a wrong sinc window size

---
 d10-ops/src/filters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-ops/src/filters.rs b/d10-ops/src/filters.rs
index 507b597..9cc1fdb 100644
--- a/d10-ops/src/filters.rs
+++ b/d10-ops/src/filters.rs
@@ -130,7 +130,7 @@ fn lanczos<const N: usize>(v: f32) -> f32 {
             0.0
         }
     } else {
-        let size = N as f32;
+        let size = ((N as f32) - 1.0) / 2.0;
         let v = v / size * 3.0;
         if v < 3.0 {
             (sinc(v) * sinc(v / 3.0)) * (3.0 / size)
-- 
2.43.0


From d0243ae6aaf98a86c31597a6abd434c2f80db60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 04/29] fix: Lanczos resampling was not normalised and could
 leave the channel range

---
 d10-ops/src/filters.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/d10-ops/src/filters.rs b/d10-ops/src/filters.rs
index 9cc1fdb..5bc5764 100644
--- a/d10-ops/src/filters.rs
+++ b/d10-ops/src/filters.rs
@@ -140,6 +140,16 @@ fn lanczos<const N: usize>(v: f32) -> f32 {
     }
 }
 
+/// Turn a weighted sum into a weighted average and clamp overshoots
+fn normalize(data: [f32; 4], weight: f32) -> Rgb {
+    Rgb::new_with_alpha(
+        data[0] / weight,
+        data[1] / weight,
+        data[2] / weight,
+        data[3] / weight,
+    )
+}
+
 /// Get the pixel at the given position applying a lanczos filter with a window of 7
 // Silence clippy because this would result in a mixture of range and non range loops...
 #[allow(clippy::needless_range_loop)]
@@ -176,16 +186,18 @@ pub fn get_pixel_lanczos<const N: usize>(buffer: &PixelBuffer<Rgb>, x: f32, y: f
     }
 
     let mut data = [0.0; 4];
+    let mut scale_sum = 0.0;
 
     for y in 0..N {
         let scale = lanczos::<N>(y as f32 - size - ty);
+        scale_sum += scale;
         for i in 0..=3 {
             let v = rows[y][i];
             data[i] += v * scale;
         }
     }
 
-    Rgb { data }
+    normalize(data, row_scale.iter().sum::<f32>() * scale_sum)
 }
 
 fn lanczos_dyn(v: f32, size: usize) -> f32 {
@@ -234,14 +246,16 @@ pub fn get_pixel_lanczos_dyn(buffer: &PixelBuffer<Rgb>, x: f32, y: f32, size: us
     }
 
     let mut data = [0.0; 4];
+    let mut scale_sum = 0.0;
 
     for y in 0..rowsize {
         let scale = lanczos_dyn((y as isize - size) as f32 - ty, size as usize);
+        scale_sum += scale;
         for i in 0..=3 {
             let v = rows[y][i];
             data[i] += v * scale;
         }
     }
 
-    Rgb { data }
+    normalize(data, row_scale.iter().sum::<f32>() * scale_sum)
 }
-- 
2.43.0


From fe5ca9ffbbab2593fe1a1275182332b0951db853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 05/29] fix: gaussian kernels with sigma 0 (or radius 0)
 consisted of NaN

---
 d10-core/src/kernel.rs     | 5 ++---
 d10-core/src/kernel_dyn.rs | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/d10-core/src/kernel.rs b/d10-core/src/kernel.rs
index 115b467..b948692 100644
--- a/d10-core/src/kernel.rs
+++ b/d10-core/src/kernel.rs
@@ -1,5 +1,3 @@
-use std::f32::consts::PI;
-
 pub struct Kernel<const N: usize> {
     pub data: [[f32; N]; N],
 }
@@ -43,7 +41,8 @@ impl<const N: usize> Kernel<N> {
                 for y in -offset..size - offset {
                     let r = (x as f32 * x as f32 + y as f32 * y as f32).sqrt();
 
-                    let v = ((-(r * r) / s).exp()) / (PI * s);
+                    // The center must not become NaN if sigma is zero
+                    let v = if r == 0.0 { 1.0 } else { (-(r * r) / s).exp() };
 
                     data[(y + offset) as usize][(x + offset) as usize] = v;
                     sum += v;
diff --git a/d10-core/src/kernel_dyn.rs b/d10-core/src/kernel_dyn.rs
index 36d2e67..4795792 100644
--- a/d10-core/src/kernel_dyn.rs
+++ b/d10-core/src/kernel_dyn.rs
@@ -1,5 +1,3 @@
-use std::f32::consts::PI;
-
 pub struct KernelDyn {
     data: Vec<f32>,
     pub width: u32,
@@ -53,7 +51,8 @@ impl KernelDyn {
                 for y in -offset..size - offset {
                     let r = (x as f32 * x as f32 + y as f32 * y as f32).sqrt();
 
-                    let v = ((-(r * r) / s).exp()) / (PI * s);
+                    // The center must not become NaN if sigma is zero
+                    let v = if r == 0.0 { 1.0 } else { (-(r * r) / s).exp() };
 
                     let index = ((x + offset) + ((y + offset) * size)) as usize;
 
-- 
2.43.0


From 24f85c73fd211c623fc4061c475d6d37960c4e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 06/29] fix: despeckle divided by zero if all neighbours are
 dark

---
 d10-ops/src/despeckle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-ops/src/despeckle.rs b/d10-ops/src/despeckle.rs
index beac5ba..368d6a5 100644
--- a/d10-ops/src/despeckle.rs
+++ b/d10-ops/src/despeckle.rs
@@ -14,7 +14,7 @@ pub fn despeckle(img: &PixelBuffer<Rgb>, threshold: f32, amount: u8) -> PixelBuf
                 }
             }
 
-            if count <= amount {
+            if count <= amount && count < 9 {
                 let mut data = [0f32; 3];
 
                 for c in k.iter().flat_map(|row| row.iter()) {
-- 
2.43.0


From b2bb5481281556610890a1411a000cf3f129a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 07/29] fix: symmetric nearest neighbor with radius 0 divided
 by zero

---
 d10-ops/src/symmetric_nearest_neighbor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d10-ops/src/symmetric_nearest_neighbor.rs b/d10-ops/src/symmetric_nearest_neighbor.rs
index 14c779f..1b77acc 100644
--- a/d10-ops/src/symmetric_nearest_neighbor.rs
+++ b/d10-ops/src/symmetric_nearest_neighbor.rs
@@ -44,6 +44,10 @@ pub fn symmetric_nearest_neighbor(
 
         let mut len = colors.len() as f32;
 
+        if colors.is_empty() {
+            return *center;
+        }
+
         if with_center {
             len += 1.0;
             for (i, value) in accumulate.iter_mut().enumerate() {
-- 
2.43.0


From c9a4354163c38dbbe1e11de317c29f7ca62b6d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 08/29] fix: converting a gray color to HSV gave a NaN hue

---
 d10-core/src/color/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-core/src/color/mod.rs b/d10-core/src/color/mod.rs
index 61e200e..1f40938 100644
--- a/d10-core/src/color/mod.rs
+++ b/d10-core/src/color/mod.rs
@@ -119,7 +119,7 @@ pub trait Color:
 
         let delta = max - min;
 
-        if delta >= EPSILON || max >= EPSILON {
+        if delta >= EPSILON {
             saturation = delta / max;
 
             if red >= max {
-- 
2.43.0


From 5d396abdffb8bf720c4c75633dd4e9705f605a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 09/29] fix: clamp the result of gamma adjusted saturation

---
 d10-core/src/color/rgb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index 58eafbb..ecde84b 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -206,7 +206,7 @@ impl Rgb {
         Hsl {
             data: [
                 hsl.hue(),
-                clamp(hsl.saturation()).powf(1.0 / gamma),
+                clamp(clamp(hsl.saturation()).powf(1.0 / gamma)),
                 hsl.lightness(),
                 self.alpha(),
             ],
-- 
2.43.0


From 53e9566eb689e2a7ee8669003984469d9b7337f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 10/29] fix: wrap hue rotations of more than one turn

---
 d10-core/src/color/rgb.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index ecde84b..9e13107 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -230,12 +230,7 @@ impl Rgb {
     pub fn with_hue_rotate(&self, radians: f32) -> Rgb {
         let hsl = self.to_hsl();
 
-        let mut hue = hsl.hue() + radians / 360.0;
-        if hue >= 1.0 {
-            hue -= 1.0;
-        } else if hue < 0.0 {
-            hue += 1.0;
-        }
+        let hue = (hsl.hue() + radians / 360.0).rem_euclid(1.0);
 
         Hsl {
             data: [hue, hsl.saturation(), hsl.lightness(), self.alpha()],
-- 
2.43.0


From 7f6f4a7158d9ea540cdd077906eea7587b39a352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 11/29] fix: keep alpha in with_vibrance

---
 d10-core/src/color/rgb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-core/src/color/rgb.rs b/d10-core/src/color/rgb.rs
index 9e13107..fe8853c 100644
--- a/d10-core/src/color/rgb.rs
+++ b/d10-core/src/color/rgb.rs
@@ -273,7 +273,7 @@ impl Rgb {
 
         let s = s + (s * std::f32::consts::PI).sin() * scale;
 
-        Hsl::new(hsl.hue(), s.min(1.0).max(0.0), hsl.lightness()).to_rgb()
+        Hsl::new_with_alpha(hsl.hue(), s.min(1.0).max(0.0), hsl.lightness(), self.alpha()).to_rgb()
     }
 
     pub fn with_sepia(&self) -> Rgb {
-- 
2.43.0


From eec232decb6f43af4a32c441936c0a467d972b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 12/29] fix: color temperatures below 1900K divided by zero

---
 d10-ops/src/temperature.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/d10-ops/src/temperature.rs b/d10-ops/src/temperature.rs
index 0a078c5..6100321 100644
--- a/d10-ops/src/temperature.rs
+++ b/d10-ops/src/temperature.rs
@@ -50,15 +50,16 @@ pub fn change_color_temperature(
     res
 }
 
+const MIN_WHITE: f32 = 1.0 / 32768.0;
+
 fn calculate_factors(orig_temp: f32, new_temp: f32) -> [f32; 3] {
     let orig = convert_kelvin_to_rgb(orig_temp);
     let new = convert_kelvin_to_rgb(new_temp);
 
-    [
-        orig.data()[0] / new.data()[0],
-        orig.data()[1] / new.data()[1],
-        orig.data()[2] / new.data()[2],
-    ]
+    // The white of a low temperature has no blue at all
+    let factor = |i: usize| orig.data()[i].max(MIN_WHITE) / new.data()[i].max(MIN_WHITE);
+
+    [factor(0), factor(1), factor(2)]
 }
 
 fn convert_kelvin_to_rgb(temperature: f32) -> Rgb {
-- 
2.43.0


From 7054606da9c66a8cf5c67df2af8e4eee8b89bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 13/29] fix: round channels to the nearest step when encoding

---
 d10-codecs/src/utils.rs | 17 +++++++++++++----
 d10-codecs/src/webp.rs  |  9 +++++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 51d8329..a237b70 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -5,14 +5,23 @@ use d10_core::pixelbuffer::{is_valid_buffer_size, PixelBuffer};
 
 use crate::DecodingError;
 
-/// Convert color channel value between 0.0 and 1.0 into an u8
+/// Convert color channel value between 0.0 and 1.0 into the nearest u8
+///
+/// Values exactly between two steps are rounded down.
 pub(crate) fn as_u8(value: f32) -> u8 {
+    (value * 255.0 - 0.5).ceil().clamp(0.0, 255.0) as u8
+}
+
+/// Convert color channel value between 0.0 and 1.0 into an u8 by cutting off the fraction
+pub(crate) fn as_u8_truncated(value: f32) -> u8 {
     (value * 255.0).clamp(0.0, 255.0) as u8
 }
 
-/// Convert color channel value between 0.0 and 1.0 into an u16
+/// Convert color channel value between 0.0 and 1.0 into the nearest u16
+///
+/// Values exactly between two steps are rounded down.
 pub(crate) fn as_u16(value: f32) -> u16 {
-    (value * 65535.0).clamp(0.0, 65535.0) as u16
+    (value * 65535.0 - 0.5).ceil().clamp(0.0, 65535.0) as u16
 }
 
 pub(crate) fn to_l8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
@@ -70,7 +79,7 @@ pub(crate) fn to_rgba8_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
     out
 }
 
-pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>) -> Vec<u32> {
+pub(crate) fn to_argb8_vec32(buffer: &PixelBuffer<Rgb>, as_u8: fn(f32) -> u8) -> Vec<u32> {
     let mut out: Vec<u32> = Vec::with_capacity(buffer.width() as usize * buffer.height() as usize);
 
     for color in buffer.data().iter() {
diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index 1b08a44..f49101a 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -16,7 +16,7 @@ use d10_core::color::{Color, Rgb, Srgb};
 use d10_core::errors::ParseEnumError;
 use d10_core::pixelbuffer::PixelBuffer;
 
-use crate::utils::{from_u8, to_argb8_vec32};
+use crate::utils::{as_u8, as_u8_truncated, from_u8, to_argb8_vec32};
 use crate::{DecodedImage, DecodingError, EncodingError};
 
 #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
@@ -165,7 +165,12 @@ where
             err: None,
         };
 
-        let raw_data = to_argb8_vec32(buffer);
+        // The lossy output stays as it always was (see the reference images of the tests)
+        let raw_data = if preset == WebPPreset::Lossless {
+            to_argb8_vec32(buffer, as_u8)
+        } else {
+            to_argb8_vec32(buffer, as_u8_truncated)
+        };
 
         picture.use_argb = 1;
         picture.width = width;
-- 
2.43.0


From c4e8830411ddeba90b05f00d476969c94a163b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 14/29] fix: saving 16 bit gray PNG files failed

---
 d10-codecs/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index a237b70..2f8b2c0 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -101,7 +101,7 @@ pub(crate) fn to_l16_be_vec(buffer: &PixelBuffer<Rgb>) -> Vec<u8> {
 
     for color in buffer.data().iter() {
         let color = color.to_gray().to_srgb();
-        out.extend_from_slice(&color.red().to_be_bytes());
+        out.extend_from_slice(&as_u16(color.red()).to_be_bytes());
     }
 
     out
-- 
2.43.0


From 3759478f9571d8396fa9ea35ff6c924102ac3c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 15/29] fix: ICO files saved as l8, la8 or rgb8 could not be
 read again

---
 d10-codecs/src/ico.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/d10-codecs/src/ico.rs b/d10-codecs/src/ico.rs
index 3b3e563..aef6ecf 100644
--- a/d10-codecs/src/ico.rs
+++ b/d10-codecs/src/ico.rs
@@ -42,16 +42,29 @@ pub(crate) fn encode_ico<W>(
 where
     W: Write,
 {
-    let (out, color_type) = match color_type {
-        IcoColorType::L8 => (to_l8_vec(buffer), ColorType::L8),
-        IcoColorType::La8 => (to_la8_vec(buffer), ColorType::La8),
-        IcoColorType::Rgb8 => (to_rgb8_vec(buffer), ColorType::Rgb8),
-        IcoColorType::Rgba8 => (to_rgba8_vec(buffer), ColorType::Rgba8),
+    // The images inside an ICO file are only allowed to be RGBA
+    let out = match color_type {
+        IcoColorType::L8 => to_l8_vec(buffer)
+            .into_iter()
+            .flat_map(|v| [v, v, v, 255])
+            .collect(),
+        IcoColorType::La8 => to_la8_vec(buffer)
+            .chunks(2)
+            .flat_map(|c| [c[0], c[0], c[0], c[1]])
+            .collect(),
+        IcoColorType::Rgb8 => to_rgb8_vec(buffer)
+            .chunks(3)
+            .flat_map(|c| [c[0], c[1], c[2], 255])
+            .collect(),
+        IcoColorType::Rgba8 => to_rgba8_vec(buffer),
     };
 
-    if let Err(err) =
-        IcoEncoder::new(w).write_image(&out, buffer.width(), buffer.height(), color_type)
-    {
+    if let Err(err) = IcoEncoder::new(w).write_image(
+        &out,
+        buffer.width(),
+        buffer.height(),
+        ColorType::Rgba8,
+    ) {
         Err(match err {
             ImageError::IoError(err) => EncodingError::IoError(err),
             err => EncodingError::Encoding(err.to_string()),
-- 
2.43.0


From de895db203cdef7b45700fd244f07a61eba1e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 16/29] fix: the lossless WebP preset was lossy

---
 d10-codecs/src/webp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/webp.rs b/d10-codecs/src/webp.rs
index f49101a..9b0e844 100644
--- a/d10-codecs/src/webp.rs
+++ b/d10-codecs/src/webp.rs
@@ -149,7 +149,8 @@ where
             WebPPreset::Lossless => {
                 let mut config = WebPConfig::new();
                 if let Ok(config) = &mut config {
-                    WebPConfigLosslessPreset(config, 100);
+                    // the highest compression level
+                    WebPConfigLosslessPreset(config, 9);
                 }
                 config
             }
-- 
2.43.0


From d3fb92fbe8c3dc4afa63aa0dc7d838e8925509be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 17/29] fix: empty images were saved as unreadable GIF and BMP
 files

---
 d10-codecs/src/bmp.rs | 12 ++++++++++++
 d10-codecs/src/gif.rs |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/bmp.rs b/d10-codecs/src/bmp.rs
index 8f7fd6f..c21b783 100644
--- a/d10-codecs/src/bmp.rs
+++ b/d10-codecs/src/bmp.rs
@@ -42,6 +42,18 @@ pub(crate) fn encode_bmp<W>(
 where
     W: Write,
 {
+    let width = buffer.width();
+    let height = buffer.height();
+
+    // Empty images can't be decoded again
+    if width == 0 || height == 0 {
+        return Err(EncodingError::BadDimensions {
+            format: "bmp",
+            width,
+            height,
+        });
+    }
+
     let (out, color_type) = match color_type {
         BmpColorType::L8 => (to_l8_vec(buffer), ColorType::L8),
         BmpColorType::La8 => (to_la8_vec(buffer), ColorType::La8),
diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index 1c2277d..de6c1d2 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -25,7 +25,7 @@ where
     let width = buffer.width();
     let height = buffer.height();
 
-    if width > u16::MAX as u32 || height > u16::MAX as u32 {
+    if width == 0 || height == 0 || width > u16::MAX as u32 || height > u16::MAX as u32 {
         return Err(EncodingError::BadDimensions {
             format: "gif",
             width,
-- 
2.43.0


From 8aa4837773ed9809b63667115fe1220a96f0ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 18/29] fix: format detection failed for readers with short
 reads

---
 d10-codecs/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 87dac10..194f889 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -56,13 +56,14 @@ impl Format {
     where
         T: Read + Seek,
     {
-        let mut buf = [0u8; 12];
+        let mut buf = vec![];
 
-        let len = reader.read(&mut buf)?;
+        // A single read might return less than the available data
+        reader.take(12).read_to_end(&mut buf)?;
 
         reader.seek(SeekFrom::Start(0))?;
 
-        match buf[0..len] {
+        match buf[..] {
             [0xFF, 0xD8, 0xFF, ..] => Ok(Format::Jpeg),
             [0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A, ..] => Ok(Format::Png),
             [0x47, 0x49, 0x46, 0x38, 0x37, 0x61, ..] => Ok(Format::Gif),
-- 
2.43.0


From 749456254a3de251ca440d7f94a7a45079e966b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 19/29] fix: saving reported success if the end of the file
 could not be written

---
 d10-codecs/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/d10-codecs/src/lib.rs b/d10-codecs/src/lib.rs
index 194f889..2e57b44 100644
--- a/d10-codecs/src/lib.rs
+++ b/d10-codecs/src/lib.rs
@@ -249,7 +249,12 @@ where
 
     let mut w = BufWriter::new(File::create(path)?);
 
-    encode(&mut w, buffer, format)
+    encode(&mut w, buffer, format)?;
+
+    // Dropping the writer would ignore errors
+    w.flush()?;
+
+    Ok(())
 }
 
 pub fn encode<W>(
-- 
2.43.0


From c80a84aab214b4a874d8994435b4047b7399fedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 20/29] fix: the end of PNG and GIF files could get lost
 without an error

---
 d10-codecs/src/gif.rs | 3 +++
 d10-codecs/src/png.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/d10-codecs/src/gif.rs b/d10-codecs/src/gif.rs
index de6c1d2..00dc30a 100644
--- a/d10-codecs/src/gif.rs
+++ b/d10-codecs/src/gif.rs
@@ -44,6 +44,9 @@ where
 
     encoder.write_frame(&frame).map_err(encode_error)?;
 
+    // Dropping the encoder would ignore errors
+    encoder.into_inner()?;
+
     Ok(())
 }
 
diff --git a/d10-codecs/src/png.rs b/d10-codecs/src/png.rs
index 4731f9a..cbadc76 100644
--- a/d10-codecs/src/png.rs
+++ b/d10-codecs/src/png.rs
@@ -163,6 +163,9 @@ where
     let mut writer = encoder.write_header().map_err(encode_error)?;
     writer.write_image_data(&out).map_err(encode_error)?;
 
+    // Dropping the writer would ignore errors
+    writer.finish().map_err(encode_error)?;
+
     Ok(())
 }
 
-- 
2.43.0


From 9a027119f09091ff11c02502307b3b6c3bcee5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 21/29] fix: white of CMYK JPEG files was not white

---
 d10-codecs/src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d10-codecs/src/utils.rs b/d10-codecs/src/utils.rs
index 2f8b2c0..e4e1611 100644
--- a/d10-codecs/src/utils.rs
+++ b/d10-codecs/src/utils.rs
@@ -324,9 +324,9 @@ pub fn cmyk_to_rgb(c: u8, m: u8, y: u8, k: u8) -> Rgb {
     let y = 255.0 - y as f32;
     let k = 255.0 - k as f32;
 
-    let r = c * k / 65536.0;
-    let g = m * k / 65536.0;
-    let b = y * k / 65536.0;
+    let r = c * k / 65025.0;
+    let g = m * k / 65025.0;
+    let b = y * k / 65025.0;
 
     Srgb::new(r, g, b).to_rgb()
 }
-- 
2.43.0


From 5bc2e3596aa423fcff82f01298d0fbbf4bc2fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 22/29] fix: python: WebP files get the library's default
 quality

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 1df7e4f..7a7fc2f 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -836,7 +836,7 @@ impl EncodingFormat {
 
         Ok(EncodingFormat {
             inner: D10EncodingFormat::WebP {
-                quality: quality.unwrap_or(85),
+                quality: quality.unwrap_or(90),
                 preset,
             },
         })
-- 
2.43.0


From 44200f816a6e43d21e68006df2881f8f84f197b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 23/29] fix: python: import of all supported numpy types

---
 d10-python/src/image.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 7a7fc2f..56ae818 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -12,7 +12,7 @@ use d10::{
 #[cfg(feature = "numpy")]
 use {
     d10::Color,
-    numpy::{PyArray, PyArrayDyn},
+    numpy::{IxDyn, PyArray, PyArrayDyn, PyUntypedArray},
     numpy_helper::*,
 };
 
@@ -644,27 +644,23 @@ impl Image {
     #[cfg(feature = "numpy")]
     #[staticmethod]
     pub fn from_np_array(array: &PyAny, colorspace: Option<&str>) -> PyResult<Image> {
-        /* WARNING: In order to find out what data type this numpy array has, we
-         *         blindly cast it into a f32 one, which might result into an
-         *         array with broken data. This seems to be "save" on the rust side
-         *         but might still cause undefined behavior...
-         */
-        //TODO: Find a way to not use this hackish way to do it
+        let untyped_array: &PyUntypedArray = array.downcast()?;
 
-        let py_array: &PyArrayDyn<f32> = array.downcast()?;
+        let data_type = extract_data_type(Some(untyped_array.dtype().typeobj()))?;
 
-        let data_type = extract_data_type(Some(py_array.dtype().typeobj()))?;
-
-        let ndims = py_array.ndim();
-        let dims = py_array.dims();
+        let ndims = untyped_array.ndim();
+        let dims = IxDyn(untyped_array.shape());
 
         match data_type {
-            DataType::Float32 => from_np_array_iter(
-                ndims,
-                dims,
-                py_array.readonly().as_array().iter().copied(),
-                colorspace,
-            ),
+            DataType::Float32 => {
+                let py_array: &PyArrayDyn<f32> = array.downcast()?;
+                from_np_array_iter(
+                    ndims,
+                    dims,
+                    py_array.readonly().as_array().iter().copied(),
+                    colorspace,
+                )
+            }
             DataType::Float64 => {
                 let py_array: &PyArrayDyn<f64> = array.downcast()?;
                 from_np_array_iter(
-- 
2.43.0


From 7146ca329eaad4d849af5297c8830d9a20cfec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 24/29] fix: python: numpy arrays with LCH colors and alpha
 were read as Lab

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 56ae818..55c97e6 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -949,7 +949,7 @@ mod numpy_helper {
                         .collect(),
                     "lcha" | "lch" => chunked::<4>(&mut iter)
                         .map(|chunk| {
-                            D10LabD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
+                            D10LchD65O2::new_with_alpha(chunk[0], chunk[1], chunk[2], chunk[3])
                                 .to_rgb()
                         })
                         .collect(),
-- 
2.43.0


From 9476a2f386b39f797d1712ac6dd8e1be4de6cc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 25/29] fix: python: import of bool arrays was inverted

---
 d10-python/src/image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index 55c97e6..c90a7e7 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -679,7 +679,7 @@ impl Image {
                         .readonly()
                         .as_array()
                         .iter()
-                        .map(|v| if *v { 0.0f32 } else { 1.0f32 }),
+                        .map(|v| if *v { 1.0f32 } else { 0.0f32 }),
                     colorspace,
                 )
             }
-- 
2.43.0


From e4cb7ba7825c435e6c3a22ecbc9ed01ff9d0893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 26/29] fix: python: arrays without two sides raise an error
 instead of panicking

---
 d10-python/src/image.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index c90a7e7..efc7155 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -844,8 +844,8 @@ mod numpy_helper {
     use crate::color::{D10LabD65O2, D10LchD65O2};
     use crate::image::Image;
     use d10::{
-        Color, Hsl as D10Hsl, Hsv as D10Hsv, Image as D10Image, Rgb as D10Rgb, Srgb as D10Srgb,
-        Xyz as D10Xyz, Yuv as D10Yuv,
+        is_valid_buffer_size, Color, Hsl as D10Hsl, Hsv as D10Hsv, Image as D10Image,
+        Rgb as D10Rgb, Srgb as D10Srgb, Xyz as D10Xyz, Yuv as D10Yuv,
     };
     use numpy::IxDyn;
     use pyo3::exceptions::PyOSError;
@@ -905,9 +905,26 @@ mod numpy_helper {
         mut iter: I,
         colorspace: Option<&str>,
     ) -> PyResult<Image> {
+        if ndims != 2 && ndims != 3 {
+            return Err(PyOSError::new_err(format!(
+                "Bad number of dimensions: {}",
+                ndims
+            )));
+        }
+
         let width = dims[1];
         let height = dims[0];
 
+        if !is_valid_buffer_size(
+            u32::try_from(width).unwrap_or(u32::MAX),
+            u32::try_from(height).unwrap_or(u32::MAX),
+        ) {
+            return Err(PyOSError::new_err(format!(
+                "Bad image size: {}x{}",
+                width, height
+            )));
+        }
+
         let colorspace = colorspace.unwrap_or("auto");
 
         let data: Vec<D10Rgb> = if ndims == 3 {
@@ -1008,7 +1025,7 @@ mod numpy_helper {
                     dims[2]
                 )));
             }
-        } else if ndims == 2 {
+        } else {
             if colorspace != "gray" && colorspace != "auto" {
                 return Err(PyOSError::new_err(format!(
                     "Bad colorspace {} for dimensions: {}",
@@ -1017,11 +1034,6 @@ mod numpy_helper {
             }
             iter.map(|value| D10Rgb::new_with_alpha(value, value, value, 1.0))
                 .collect()
-        } else {
-            return Err(PyOSError::new_err(format!(
-                "Bad number of dimensions: {}",
-                ndims
-            )));
         };
 
         assert!(width * height == data.len());
-- 
2.43.0


From 8a42d1040dfc109e6fe3f393221fd0596a3019d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 27/29] fix: python: import of unaligned numpy arrays

---
 d10-python/src/image.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/d10-python/src/image.rs b/d10-python/src/image.rs
index efc7155..77a15df 100644
--- a/d10-python/src/image.rs
+++ b/d10-python/src/image.rs
@@ -646,6 +646,13 @@ impl Image {
     pub fn from_np_array(array: &PyAny, colorspace: Option<&str>) -> PyResult<Image> {
         let untyped_array: &PyUntypedArray = array.downcast()?;
 
+        // Elements of unaligned arrays cannot be accessed by reference
+        let array = if array.getattr("flags")?.getattr("aligned")?.is_true()? {
+            array
+        } else {
+            array.call_method0("copy")?
+        };
+
         let data_type = extract_data_type(Some(untyped_array.dtype().typeobj()))?;
 
         let ndims = untyped_array.ndim();
-- 
2.43.0


From 1d3c8647af7b533e741eefd1549942aa02e8c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:53 +0000
Subject: [PATCH 28/29] fix: mean saturation and tint of large images were
 inexact

---
 d10-ops/src/saturation.rs  |  8 ++++----
 d10-ops/src/temperature.rs | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/d10-ops/src/saturation.rs b/d10-ops/src/saturation.rs
index ba162f3..a1aff78 100644
--- a/d10-ops/src/saturation.rs
+++ b/d10-ops/src/saturation.rs
@@ -58,17 +58,17 @@ fn get_gamma_pow(gamma: f32, brightness: f32) -> f32 {
 }
 
 fn avg_saturation(buffer: &PixelBuffer<Rgb>, mode: SaturationMode) -> f32 {
-    let mut sum = 0.0;
+    let mut sum = 0.0f64;
 
     for c in buffer.data() {
-        sum += match mode {
+        sum += f64::from(match mode {
             SaturationMode::Hsl => c.to_hsl().saturation(),
             SaturationMode::Hsv => c.to_hsv().saturation(),
             SaturationMode::Lch => c.to_lch::<D65, O2>().c(),
-        };
+        });
     }
 
-    sum / buffer.data().len() as f32
+    (sum / buffer.data().len() as f64) as f32
 }
 
 fn saturate_hsl(c: &Rgb, gamma: f32) -> Rgb {
diff --git a/d10-ops/src/temperature.rs b/d10-ops/src/temperature.rs
index 6100321..28d7a69 100644
--- a/d10-ops/src/temperature.rs
+++ b/d10-ops/src/temperature.rs
@@ -111,10 +111,10 @@ fn get_green_tint_pow(buffer: &PixelBuffer<Rgb>, tint_correction: f32) -> f32 {
     let mut sum = 0.0;
 
     for c in buffer.data() {
-        sum += c.green() - c.red() + c.green() - c.blue();
+        sum += f64::from(c.green() - c.red() + c.green() - c.blue());
     }
 
-    let avg = sum * tint_correction / buffer.data().len() as f32;
+    let avg = (sum / buffer.data().len() as f64) as f32 * tint_correction;
 
     if avg > 0.0 {
         1.0 / (1.0 - avg.tanh())
@@ -131,10 +131,10 @@ fn get_red_tint_pow(buffer: &PixelBuffer<Rgb>, tint_correction: f32) -> f32 {
     let mut sum = 0.0;
 
     for c in buffer.data() {
-        sum += c.red() - c.green() + c.red() - c.blue();
+        sum += f64::from(c.red() - c.green() + c.red() - c.blue());
     }
 
-    let avg = 0.25 * sum * tint_correction / buffer.data().len() as f32;
+    let avg = 0.25 * (sum / buffer.data().len() as f64) as f32 * tint_correction;
 
     if avg > 0.0 {
         1.0 / (1.0 - avg.tanh())
@@ -151,10 +151,10 @@ fn get_blue_tint_pow(buffer: &PixelBuffer<Rgb>, tint_correction: f32) -> f32 {
     let mut sum = 0.0;
 
     for c in buffer.data() {
-        sum += c.blue() - c.green() + c.blue() - c.red();
+        sum += f64::from(c.blue() - c.green() + c.blue() - c.red());
     }
 
-    let avg = 0.33 * sum * tint_correction / buffer.data().len() as f32;
+    let avg = 0.33 * (sum / buffer.data().len() as f64) as f32 * tint_correction;
 
     if avg > 0.0 {
         1.0 / (1.0 - avg.tanh())
-- 
2.43.0


From 524ad6f8f1d5ad908490e820f088e7dfd1bd5868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:53 +0000
Subject: [PATCH 29/29] fix: equalize stopped counting a value at 2^24 pixels

---
 d10-ops/src/equalize.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/d10-ops/src/equalize.rs b/d10-ops/src/equalize.rs
index b066c66..cf4b595 100644
--- a/d10-ops/src/equalize.rs
+++ b/d10-ops/src/equalize.rs
@@ -35,10 +35,17 @@ fn channel_histogram<C: Color, const NUM_CHANNELS: usize>(
     let mut histogram = [[0.0; 256]; NUM_CHANNELS];
 
     for (i, h) in histogram.iter_mut().enumerate() {
+        // A f32 stops counting at 2^24
+        let mut counts = [0u32; 256];
+
         for c in buffer.data() {
             let v = c.data()[channel_offset + i] * 255.0;
             let index = v.round().clamp(0., 255.0) as usize;
-            h[index] += 1.0;
+            counts[index] += 1;
+        }
+
+        for (v, count) in h.iter_mut().zip(counts) {
+            *v = count as f32;
         }
     }
 
-- 
2.43.0

