From eed0ba28df8f245a3aeac9090932cc1ef7832de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:55 +0000
Subject: [PATCH 01/18] fix: rows of a cloned image point into the clone's own
 pixels

---
 src/rows.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/rows.rs b/src/rows.rs
index 80254a1..cf04393 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -51,9 +51,19 @@ impl Clone for DynamicRows<'_, '_> {
             height: self.height,
             f_pixels: self.f_pixels.clone(),
             pixels: match &self.pixels {
-                PixelsSource::Pixels { rows, pixels } => PixelsSource::Pixels {
+                PixelsSource::Pixels { rows, pixels: Some(pixels) } => {
+                    // rows are pointers into the pixels, so they have to be moved to the new copy of the pixels
+                    let old_start = pixels.as_slice().as_ptr();
+                    let pixels = pixels.clone();
+                    let new_start = pixels.as_slice().as_ptr();
+                    let rows = rows.as_slice().iter()
+                        .map(|row| Pointer(new_start.wrapping_add(unsafe { row.0.offset_from(old_start) } as usize)))
+                        .collect();
+                    PixelsSource::Pixels { rows: SeaCow::boxed(rows), pixels: Some(pixels) }
+                },
+                PixelsSource::Pixels { rows, pixels: None } => PixelsSource::Pixels {
                     rows: rows.clone(),
-                    pixels: pixels.clone(),
+                    pixels: None,
                 },
                 PixelsSource::Callback(_) => {
                     let area = self.width as usize * self.height as usize;
-- 
2.43.0


From 6bd8dbae28412a788dce926637d8375011e7adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:01 +0000
Subject: [PATCH 02/18] fix: out-of-range quality and posterization are
 rejected by the C API instead of wrapping around

---
 imagequant-sys/src/ffi.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 42bde26..509bc3a 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -234,7 +234,8 @@ pub extern "C" fn liq_get_max_colors(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_min_posterization(attr: &mut liq_attr, bits: c_int) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_min_posterization(bits as u8).err().unwrap_or(LIQ_OK)
+    let Ok(bits) = bits.try_into() else { return Error::ValueOutOfRange };
+    attr.inner.set_min_posterization(bits).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
@@ -261,7 +262,8 @@ pub extern "C" fn liq_get_speed(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_quality(attr: &mut liq_attr, minimum: c_uint, target: c_uint) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_quality(minimum as u8, target as u8).err().unwrap_or(LIQ_OK)
+    let (Ok(minimum), Ok(target)) = (minimum.try_into(), target.try_into()) else { return Error::ValueOutOfRange };
+    attr.inner.set_quality(minimum, target).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
-- 
2.43.0


From 00b9996b322a9eb08b997a29fdafe86e282af48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:01 +0000
Subject: [PATCH 03/18] fix: NaN is not an output gamma

---
 src/quant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quant.rs b/src/quant.rs
index be31257..ca50e08 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -144,7 +144,7 @@ impl QuantizationResult {
 
     /// The default is sRGB gamma (~1/2.2)
     pub fn set_output_gamma(&mut self, value: f64) -> Result<(), Error> {
-        if value <= 0. || value >= 1. {
+        if !(value > 0. && value < 1.) {
             return Err(ValueOutOfRange);
         }
 
-- 
2.43.0


From 473494ee202c2cfcdb7bae7045fe1532a47153b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:01 +0000
Subject: [PATCH 04/18] fix: palette() follows changes of the output gamma and
 doesn't alter later remapping

---
 src/quant.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quant.rs b/src/quant.rs
index ca50e08..8057a10 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -149,6 +149,7 @@ impl QuantizationResult {
         }
 
         self.remapped = None;
+        self.int_palette.count = 0; // palette() has to be generated again
         self.gamma = value;
 
         Ok(())
@@ -208,7 +209,8 @@ impl QuantizationResult {
             &remap.int_palette
         } else {
             if self.int_palette.count == 0 {
-                self.palette.init_int_palette(&mut self.int_palette, self.gamma, self.min_posterization_output);
+                // rounds colors to 8 bits, so it can't be done on the original
+                self.palette.clone().init_int_palette(&mut self.int_palette, self.gamma, self.min_posterization_output);
             }
             &self.int_palette
         }
-- 
2.43.0


From 6c25048e06c98abefa7623e99b149de2b252d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:26 +0000
Subject: [PATCH 05/18] fix: colors merged by posterization of the histogram
 keep the sum of their counts

---
 src/hist.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index 9ec20e1..83c6e7f 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -242,9 +242,11 @@ impl Histogram {
 
         let new_size = (self.hashmap.len()/3).max(self.hashmap.capacity()/5);
         let old_hashmap = std::mem::replace(&mut self.hashmap, HashMap::with_capacity_and_hasher(new_size, U32Hasher(0)));
-        self.hashmap.extend(old_hashmap.into_iter().map(move |(k, v)| {
-            (k & new_posterize_mask, v)
-        }));
+        for (k, v) in old_hashmap {
+            self.hashmap.entry(k & new_posterize_mask)
+                .and_modify(move |e| e.0 = e.0.saturating_add(v.0))
+                .or_insert(v);
+        }
     }
 
     pub(crate) fn add_pixel_rows(&mut self, image: &DynamicRows<'_, '_>, importance_map: Option<&[u8]>, posterize_bits: u8) -> Result<(), Error> {
-- 
2.43.0


From 2e9e34e672965dc55b843a69c51844baf1a12c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:26 +0000
Subject: [PATCH 06/18] fix: invalid gamma is rejected for fixed colors of a
 histogram

---
 src/hist.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index 83c6e7f..be1ac6a 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -167,6 +167,10 @@ impl Histogram {
             return Err(Unsupported);
         }
 
+        if !(0. ..1.).contains(&gamma) {
+            return Err(ValueOutOfRange);
+        }
+
         if self.gamma.is_none() && gamma > 0. {
             self.gamma = Some(gamma);
         }
-- 
2.43.0


From 3db1d97aa238c23bf504386111c21f793e18fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:26 +0000
Subject: [PATCH 07/18] fix: a fixed color added twice doesn't push other fixed
 colors out of the palette

---
 src/hist.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hist.rs b/src/hist.rs
index be1ac6a..022e566 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -419,12 +419,19 @@ impl std::hash::Hasher for U32Hasher {
 }
 
 /// ignores the index
-#[derive(PartialEq, Debug)]
+#[derive(Debug)]
 pub(crate) struct HashColor {
     pub rgba: RGBA,
     pub index: PalIndex,
 }
 
+impl PartialEq for HashColor {
+    #[inline]
+    fn eq(&self, other: &Self) -> bool {
+        self.rgba == other.rgba
+    }
+}
+
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for HashColor {
     #[inline]
-- 
2.43.0


From 8a7a91d768e726d89027a43a45548be5644142e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:26 +0000
Subject: [PATCH 08/18] fix: adding an image fails, as documented, if there are
 more than 256 fixed colors in total

---
 src/hist.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index 022e566..c9a1cda 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -105,17 +105,22 @@ impl Histogram {
     pub fn add_image(&mut self, attr: &Attributes, image: &mut Image) -> Result<(), Error> {
         let width = image.width();
         let height = image.height();
+
+        let mut added_fixed_colors = FixedColorsSet::with_hasher(U32Hasher(0));
+        added_fixed_colors.extend(image.fixed_colors.iter().copied().enumerate()
+            .map(|(idx, rgba)| HashColor { rgba, index: idx as _ })
+            .filter(|c| !self.fixed_colors.contains(c)));
+        if self.fixed_colors.len() + added_fixed_colors.len() > MAX_COLORS {
+            return Err(BufferTooSmall);
+        }
+
         if image.importance_map.is_none() && attr.use_contrast_maps {
             image.contrast_maps()?;
         }
 
         self.gamma = image.gamma();
 
-        if !image.fixed_colors.is_empty() {
-            self.fixed_colors.extend(image.fixed_colors.iter().copied().enumerate().map(|(idx, rgba)| {
-               HashColor { rgba, index: idx as _ }
-            }));
-        }
+        self.fixed_colors.extend(added_fixed_colors);
 
         if attr.progress(f32::from(attr.progress_stage1) * 0.40) {
             return Err(Aborted); // bow can free the RGBA source if copy has been made in f_pixels
-- 
2.43.0


From 286c24584f14c8e239811c2a276adc0f3c66e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 09/18] fix: a histogram of only fixed colors has non-zero
 weights

---
 src/hist.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hist.rs b/src/hist.rs
index c9a1cda..b249d1f 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -331,7 +331,10 @@ impl Histogram {
 
         // Limit perceptual weight to 1/10th of the image surface area to prevent
         // a single color from dominating all others.
-        let max_perceptual_weight = 0.1 * (temp.iter().map(|t| f64::from(t.weight)).sum::<f64>() / 256.) as f32;
+        let mut max_perceptual_weight = 0.1 * (temp.iter().map(|t| f64::from(t.weight)).sum::<f64>() / 256.) as f32;
+        if max_perceptual_weight == 0. {
+            max_perceptual_weight = 0.1; // there are only fixed colors, and they can't all weigh nothing
+        }
 
         let lut = gamma_lut(gamma);
         let mut total_perceptual_weight = 0.;
-- 
2.43.0


From 549f11dfc5a54cbf683db937d6972af837d30ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 10/18] fix: progress callback can abort selection of colors,
 not only the steps around it

---
 src/quant.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index 8057a10..4bc3f47 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -397,7 +397,10 @@ pub(crate) fn find_best_palette(attr: &Attributes, target_mse: f64, target_mse_i
             target_mse_overshoot = 1.;
             trials_left -= 5 + fails_in_a_row;
         }
-        if attr.progress(overall_done) || trials_left <= 0 {
+        if attr.progress(overall_done) {
+            return Err(Aborted);
+        }
+        if trials_left <= 0 {
             break best_palette;
         }
     }.ok_or(ValueOutOfRange)?;
@@ -417,7 +420,7 @@ fn refine_palette(palette: &mut PalF, attr: &Attributes, hist: &mut HistogramInt
             let stage_done = f32::from(i) / f32::from(iterations);
             let overall_done = (stage_done * f32::from(attr.progress_stage3)).mul_add(0.89, f32::from(attr.progress_stage1) + f32::from(attr.progress_stage2));
             if attr.progress(overall_done) {
-                break;
+                return Err(Aborted);
             }
 
             let pal_err = Kmeans::iteration(hist, palette, false)?;
-- 
2.43.0


From cf825e6802438ae0367808af568ccfac486202c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:13 +0000
Subject: [PATCH 11/18] fix: invalid handles are rejected by liq_set_speed and
 liq_image_create_custom too

---
 imagequant-sys/src/ffi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 509bc3a..6b10b28 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -248,6 +248,7 @@ pub extern "C" fn liq_get_min_posterization(attr: &liq_attr) -> c_uint {
 #[no_mangle]
 #[inline(never)]
 pub extern "C" fn liq_set_speed(attr: &mut liq_attr, speed: c_int) -> liq_error {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
     attr.inner.set_speed(speed).err().unwrap_or(LIQ_OK)
 }
 
@@ -571,6 +572,7 @@ pub(crate) fn check_image_size(attr: &liq_attr, width: u32, height: u32) -> bool
 #[inline(never)]
 pub unsafe extern "C" fn liq_image_create_custom(attr: &liq_attr, row_callback: liq_image_get_rgba_row_callback, user_info: AnySyncSendPtr, width: c_uint, height: c_uint, gamma: f64)
  -> Option<Box<liq_image<'static>>> {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) { return None; }
     let cb: Box<dyn Fn(&mut [MaybeUninit<RGBA>], usize) + Send + Sync> = Box::new(move |row, y| row_callback(row.as_mut_ptr(), y as _, row.len() as _, user_info));
     liq_image_create_custom_impl(&attr.inner, cb, width as _, height as _, gamma)
         .map(move |inner| Box::new(liq_image {
-- 
2.43.0


From bf8f0948d662191697311be52974e8d3fb1f8c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:13 +0000
Subject: [PATCH 12/18] fix: liq_image_set_background doesn't leak the handle
 it takes

---
 imagequant-sys/src/ffi.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 6b10b28..f054830 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -361,11 +361,13 @@ pub extern "C" fn liq_image_destroy(_: Option<Box<liq_image>>) {}
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_image_set_background<'pixels>(img: &mut liq_image<'pixels>, background: Box<liq_image<'pixels>>) -> liq_error {
+pub extern "C" fn liq_image_set_background<'pixels>(img: &mut liq_image<'pixels>, mut background: Box<liq_image<'pixels>>) -> liq_error {
     if bad_object!(img, LIQ_IMAGE_MAGIC) ||
        bad_object!(background, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }
-    let background = unsafe { ManuallyDrop::take(&mut ManuallyDrop::new(background).inner) };
-    img.inner.set_background(background).err().unwrap_or(LIQ_OK)
+    // the handle is freed, but not the image moved out of it
+    background.magic_header = LIQ_FREED_MAGIC;
+    let background_image = unsafe { ManuallyDrop::take(&mut background.inner) };
+    img.inner.set_background(background_image).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
-- 
2.43.0


From cc5bfecb1f0bf6f8367381848ccfb94123c41a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:13 +0000
Subject: [PATCH 13/18] fix: ownership can't be taken of rows the image doesn't
 use any more

---
 src/rows.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rows.rs b/src/rows.rs
index cf04393..9c96b08 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -227,6 +227,13 @@ impl<'pixels, 'rows> DynamicRows<'pixels, 'rows> {
     /// Not recommended
     #[cfg(feature = "_internal_c_ffi")]
     pub(crate) unsafe fn set_memory_ownership(&mut self, own_rows: bool, own_pixels: bool, free_fn: unsafe extern "C" fn(*mut std::os::raw::c_void)) -> Result<(), Error> {
+        if let PixelsSource::Pixels { rows, .. } = &self.pixels {
+            // the rows have been released already
+            if rows.as_slice().is_empty() {
+                return Err(Error::Unsupported);
+            }
+        }
+
         if own_rows {
             match &mut self.pixels {
                 PixelsSource::Pixels { rows, .. } => rows.make_owned(free_fn),
-- 
2.43.0


From 29a0f596eb3eca7c6fecd27feba4474b158b2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:37 +0000
Subject: [PATCH 14/18] fix: remapping doesn't overwrite the user's importance
 map

---
 src/image.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 9c17ed9..7f95ce2 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -243,10 +243,9 @@ impl<'pixels> Image<'pixels> {
             return Ok(()); // shrug
         }
 
-        let noise = if let Some(n) = self.importance_map.as_deref_mut() { n } else {
-            let vec = try_zero_vec(width * height)?;
-            self.importance_map.get_or_insert_with(move || vec.into_boxed_slice())
-        };
+        // a map that is already there has been set by the user, and must not be overwritten
+        let mut new_importance_map = try_zero_vec(width * height)?.into_boxed_slice();
+        let noise = &mut new_importance_map[..];
 
         let edges = if let Some(e) = self.edges.as_mut() { e } else {
             let vec = try_zero_vec(width * height)?;
@@ -298,9 +297,10 @@ impl<'pixels> Image<'pixels> {
         liq_min3(&tmp, noise, width, height);
         liq_min3(edges, &mut tmp, width, height);
         liq_max3(&tmp, edges, width, height);
-        for (edges, noise) in edges.iter_mut().zip(noise) {
+        for (edges, noise) in edges.iter_mut().zip(&*noise) {
             *edges = (*noise).min(*edges);
         }
+        self.importance_map.get_or_insert(new_importance_map);
         Ok(())
     }
 
-- 
2.43.0


From c8c2fbc20b826caef006e8c3135784b3eabf972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:23 +0000
Subject: [PATCH 15/18] fix: don't read uninitialized scratch row when
 dithering in chunks

---
 src/remap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/remap.rs b/src/remap.rs
index 78fca5b..b1e5949 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -208,7 +208,8 @@ pub(crate) fn remap_to_palette_floyd(input_image: &mut Image, mut output_pixels:
                     let bg_pixels = background.as_mut().map(|b| b.row_f(&mut temp_row, row as _)).unwrap_or(&[]);
                     let dither_map = dither_map.get(row * width .. row * width + width).unwrap_or(&[]);
                     let scan_forward = row & 1 == 0;
-                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, guess_from_remapped_pixels, &mut diffusion, scan_forward);
+                    // discard_row has no remapped pixels to guess from
+                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, false, &mut diffusion, scan_forward);
                 }
             }
             // parallel remap makes progress not very useful
-- 
2.43.0


From d8df4b256eab8c5abe7291b01f11c68da12ce55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:25 +0000
Subject: [PATCH 16/18] hook: small memory limit for verification (cfg
 verif_low_memory)

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 30ef2ba..dcfadcc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -64,7 +64,8 @@ pub use quant::QuantizationResult;
 #[deprecated(note = "Please use the imagequant::Error type. This will be removed")]
 pub use error::Error as liq_error;
 
-const LIQ_HIGH_MEMORY_LIMIT: usize = 1 << 26;
+#[allow(unexpected_cfgs)]
+const LIQ_HIGH_MEMORY_LIMIT: usize = if cfg!(verif_low_memory) { 1 << 7 } else { 1 << 26 };
 
 /// [Start here][Attributes]: creates new handle for library configuration
 ///
-- 
2.43.0


From ecc4bc68ec72ecc3b8564a2263af1a3e5dd2bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:14 +0000
Subject: [PATCH 17/18] fix: the invisible color of fully transparent pixels
 must not affect the palette

---
 src/hist.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index b249d1f..e089e09 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -302,6 +302,8 @@ impl Histogram {
 
         let mut counts = [0; LIQ_MAXCLUSTER];
         temp.extend(self.hashmap.values().map(|&(boost, color)| {
+            // fully transparent pixels look the same, whatever color they have
+            let color = if color.a != 0 { color } else { RGBA::new(0, 0, 0, 0) };
             let cluster_index = ((color.r >> 7) << 3) | ((color.g >> 7) << 2) | ((color.b >> 7) << 1) | (color.a >> 7);
             counts[cluster_index as usize] += 1;
 
-- 
2.43.0


From 584fb4fea4bbeb6eba755f3d6de4c4c60c4c18e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:38 +0000
Subject: [PATCH 18/18] fix: don't drop and free objects of a wrong type given
 to liq_*_destroy or as a background

---
 imagequant-sys/src/ffi.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index f054830..31aee8b 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -99,6 +99,15 @@ macro_rules! bad_object {
     }};
 }
 
+// An object of a wrong type isn't destroyed, because that would drop its fields and free memory that may belong to something else
+macro_rules! destroy_object {
+    ($obj:expr, $tag:expr) => {
+        if let Some(obj) = $obj {
+            if bad_object!(obj, $tag) { std::mem::forget(obj); }
+        }
+    };
+}
+
 impl Drop for liq_attr {
     fn drop(&mut self) {
         if bad_object!(self, LIQ_ATTR_MAGIC) { return; }
@@ -357,13 +366,18 @@ pub extern "C" fn liq_image_get_height(img: &liq_image) -> c_uint {
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_image_destroy(_: Option<Box<liq_image>>) {}
+pub extern "C" fn liq_image_destroy(img: Option<Box<liq_image>>) {
+    destroy_object!(img, LIQ_IMAGE_MAGIC);
+}
 
 #[no_mangle]
 #[inline(never)]
 pub extern "C" fn liq_image_set_background<'pixels>(img: &mut liq_image<'pixels>, mut background: Box<liq_image<'pixels>>) -> liq_error {
-    if bad_object!(img, LIQ_IMAGE_MAGIC) ||
-       bad_object!(background, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }
+    if bad_object!(background, LIQ_IMAGE_MAGIC) {
+        std::mem::forget(background);
+        return Error::InvalidPointer;
+    }
+    if bad_object!(img, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }
     // the handle is freed, but not the image moved out of it
     background.magic_header = LIQ_FREED_MAGIC;
     let background_image = unsafe { ManuallyDrop::take(&mut background.inner) };
@@ -424,7 +438,9 @@ pub extern "C" fn liq_histogram_create(attr: &liq_attr) -> Option<Box<liq_histog
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_histogram_destroy(_hist: Option<Box<liq_histogram>>) {}
+pub extern "C" fn liq_histogram_destroy(hist: Option<Box<liq_histogram>>) {
+    destroy_object!(hist, LIQ_HISTOGRAM_MAGIC);
+}
 
 #[no_mangle]
 #[inline(never)]
@@ -459,11 +475,15 @@ pub extern "C" fn liq_attr_copy(attr: &liq_attr) -> Option<Box<liq_attr>> {
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_attr_destroy(_attr: Option<Box<liq_attr>>) {}
+pub extern "C" fn liq_attr_destroy(attr: Option<Box<liq_attr>>) {
+    destroy_object!(attr, LIQ_ATTR_MAGIC);
+}
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_result_destroy(_res: Option<Box<liq_result>>) {}
+pub extern "C" fn liq_result_destroy(res: Option<Box<liq_result>>) {
+    destroy_object!(res, LIQ_RESULT_MAGIC);
+}
 
 #[no_mangle]
 #[inline(never)]
-- 
2.43.0

