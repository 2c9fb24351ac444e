From 51ce512ed5f8bd340824cbd3668f13ee340e59eb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:52 +0000
Subject: [PATCH 01/29] fix: refill before decoding a DC coefficient so its
 code and magnitude bits are all present

decode_dc only refilled below 16 bits, but a code (<=16 bits) plus its
magnitude (<=15 bits) can need 31; a large DC difference with 16..31 bits
buffered read garbage and lost bit alignment.
---
 src/bitstream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index f6a76df..3eacc5a 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -275,7 +275,8 @@ impl BitStream
     {
         let (mut symbol, r);
 
-        if self.bits_left < 16
+        // a DC code may take up to 16 bits and its magnitude up to 15 more
+        if self.bits_left < 32
         {
             self.refill(reader)?;
         };
-- 
2.43.0


From 846c455508c7ac848e4098a4f7d7fef0c8812d09 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:57 +0000
Subject: [PATCH 02/29] fix: only store AC values that fit in 6 bits in the
 fast AC table

Values are stored as k << 10 in an i16, so anything outside -32..=31 was
truncated and decoded wrongly when a short code carried a large magnitude.
---
 src/huffman.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index 39c2116..6a96cc7 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -246,7 +246,8 @@ impl HuffmanTable
                         };
 
                         // if result is small enough fit into fast ac table
-                        if (-128..=127).contains(&k)
+                        // (the value is stored in the upper 6 bits of an i16)
+                        if (-32..=31).contains(&k)
                         {
                             fast_ac[i] = (k << 10) + (run << 4) + (len + mag_bits);
                         }
-- 
2.43.0


From 8312b1226edab5273aea6d5512740558ff9301e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:25 +0000
Subject: [PATCH 03/29] fix: count restart intervals per MCU and keep decoding
 the MCU when EOI is read ahead

The baseline loop counted every component as an MCU, so colour images with
a restart interval could drop buffered bits of the current interval, and it
skipped the remaining components once the read-ahead met EOI although their
bits were still buffered.
---
 src/mcu.rs | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 296ad96..4450260 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -320,32 +320,29 @@ impl Decoder
                                     }
                                 }
                             }
-                            self.todo = self.todo.wrapping_sub(1);
-                            // after every interleaved MCU that's a mcu, count down restart markers.
-                            if self.todo == 0
-                            {
-                                self.handle_rst(&mut stream)?;
-                            }
-
-                            // In some corrupt images, it may occur that header markers occur in the stream.
-                            // The spec EXPLICITLY FORBIDS this, specifically, in
-                            // routine F.2.2.5  it says
-                            // `The only valid marker which may occur within the Huffman coded data is the RSTm marker.`
-                            //
-                            // But libjpeg-turbo allows it because of some weird reason. so I'll also
-                            // allow it because of some weird reason.
-                            if let Some(m) = stream.marker
-                            {
-                                if m == Marker::EOI
-                                {
-                                    break;
-                                }
+                        }
+                        self.todo = self.todo.wrapping_sub(1);
+                        // after every interleaved MCU that's a mcu, count down restart markers.
+                        if self.todo == 0
+                        {
+                            self.handle_rst(&mut stream)?;
+                        }
 
-                                if let Marker::RST(_) = m { continue }
+                        // In some corrupt images, it may occur that header markers occur in the stream.
+                        // The spec EXPLICITLY FORBIDS this, specifically, in
+                        // routine F.2.2.5  it says
+                        // `The only valid marker which may occur within the Huffman coded data is the RSTm marker.`
+                        //
+                        // But libjpeg-turbo allows it because of some weird reason. so I'll also
+                        // allow it because of some weird reason.
+                        if let Some(m) = stream.marker
+                        {
+                            // The stream reads ahead, so the bits of the last MCUs may still be
+                            // buffered when we see the end of image/restart marker.
+                            if let Marker::EOI | Marker::RST(_) = m { continue }
 
-                                error!("Marker `{:?}` Found within Huffman Stream, possibly corrupt jpeg",m);
-                                self.parse_marker_inner(m, reader)?;
-                            }
+                            error!("Marker `{:?}` Found within Huffman Stream, possibly corrupt jpeg",m);
+                            self.parse_marker_inner(m, reader)?;
                         }
                     }
                 }
-- 
2.43.0


From 7b7b6c61168b0dbb180641f1a7596a4255f8530b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:05 +0000
Subject: [PATCH 04/29] fix: derive the padded row width of grayscale output
 from the number of rows

y.len() / (y.len() / width) is not the padded row width for most widths that
are not a multiple of 8, which sheared the image or panicked.
---
 src/color_convert/scalar.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/color_convert/scalar.rs b/src/color_convert/scalar.rs
index a5de15e..b0f7753 100644
--- a/src/color_convert/scalar.rs
+++ b/src/color_convert/scalar.rs
@@ -94,9 +94,11 @@ pub fn ycbcr_to_grayscale(y: &[i16], width: usize, output: &mut [u8])
     let temp_output = y.iter().map(|x| *x as u8).collect::<Vec<u8>>();
     // chunk according to width.
 
-    let width_mcu = y.len() / width;
+    // number of pixel rows the output holds, the rows in `y` may be wider than
+    // `width` because of fill bytes
+    let rows = output.len() / width;
 
-    let width_chunk = y.len() / width_mcu;
+    let width_chunk = y.len() / rows;
 
     let mut start = 0;
 
-- 
2.43.0


From eaaf8a28d552facfc426e81322e16264fbc0fd8f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:31 +0000
Subject: [PATCH 05/29] fix: use the color convert function of the requested
 output colorspace

The RGB routine was used for RGBA and RGBX output as well, which wrote three
byte pixels into a four byte layout.
---
 src/decoder.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 39b8d85..6262a28 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -423,6 +423,15 @@ impl Decoder
 
         self.decode_headers_internal(&mut buf)?;
 
+        // the function chosen on initialization only handles RGB
+        if let Some(color_convert) = choose_ycbcr_to_rgb_convert_func(
+            self.options.get_out_colorspace(),
+            self.options.get_use_unsafe(),
+        )
+        {
+            self.color_convert_16 = color_convert;
+        }
+
         if self.is_progressive
         {
             self.decode_mcu_ycbcr_progressive(&mut buf)
-- 
2.43.0


From e578590afb51969757bbd9ea5b93925fdcbc75ed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:31 +0000
Subject: [PATCH 06/29] fix: convert the last pixels of each row at their own
 position

The tail of a row was converted from the last 16 padded samples and written
64 bytes before the end of the row, so the right edge of RGB output was
misplaced or missing unless the width was a multiple of 16.
---
 src/worker.rs | 90 ++++++++++++++-------------------------------------
 1 file changed, 25 insertions(+), 65 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 4232a2c..1c27a14 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -152,15 +152,13 @@ fn color_convert_ycbcr(
 
     let mut start = 0;
     let mut end = stride;
-    // over allocate to account for fill bytes
-    let mut temp = vec![];
+    // Temporary buffer for the last pixels of a row, which may be less than 16.
+    let mut temp = vec![0; 16 * output_colorspace.num_components()];
+    // Groups of 16 pixels that fit entirely in a row
+    let elements = width / 16;
+    // Pixels remaining after that
+    let remaining = width % 16;
 
-    if width < 16
-    {
-        // Allocate temporary buffer for small widths less than
-        // 16.
-        temp = vec![0; 16 * output_colorspace.num_components()];
-    }
     // We need to chunk per width to ensure we can discard extra values at the end of the width.
     // Since the encoder may pad bits to ensure the width is a multiple of 8.
     for ((y_width, cb_width), cr_width) in mcu_block[0]
@@ -168,35 +166,9 @@ fn color_convert_ycbcr(
         .zip(mcu_block[1].chunks_exact(width_chunk))
         .zip(mcu_block[2].chunks_exact(width_chunk))
     {
-        let elements = (y_width.len() / 16).saturating_sub(1);
-
         let mut position = 0;
         let out = &mut output[start..end];
 
-        if width < 16
-        {
-            // allocate temporary buffers for the values received from idct
-            let mut y_out = [0; 16];
-            let mut cb_out = [0; 16];
-            let mut cr_out = [0; 16];
-            // copy those small widths to that buffer
-            y_out[0..y_width.len()].copy_from_slice(y_width);
-            cb_out[0..cb_width.len()].copy_from_slice(cb_width);
-            cr_out[0..cr_width.len()].copy_from_slice(cr_width);
-            // we handle widths less than 16 a bit differently, allocating a temporary
-            // buffer and writing to that and then flushing to the out buffer
-            // because of the optimizations applied below,
-            (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
-            // copy to stride
-            out[position..position + width * output_colorspace.num_components()]
-                .copy_from_slice(&temp[0..width * output_colorspace.num_components()]);
-            // increment position
-            start += stride;
-            end += stride;
-            // next
-            continue;
-        }
-
         // Chunk in outputs of 16 to pass to color_convert as an array of 16 i16's.
         for ((y, cb), cr) in y_width
             .chunks_exact(16)
@@ -213,37 +185,25 @@ fn color_convert_ycbcr(
             );
         }
 
-        // we have more pixels in the end that can't be handled by the main loop.
-        // move pointer back a little bit to get last 16 bytes,
-        // color convert, and overwrite
-        // This means some values will be color converted twice.
-
-        let diff = 64_usize.saturating_sub(stride.saturating_sub(position));
-
-        position = position.saturating_sub(diff);
-
-        (color_convert_16)(
-            y_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cb_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cr_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            out,
-            &mut position,
-        );
+        if remaining != 0
+        {
+            // we have more pixels in the end that can't be handled by the main loop.
+            // copy them to temporary buffers, color convert and write only those we need.
+            let mut y_out = [0; 16];
+            let mut cb_out = [0; 16];
+            let mut cr_out = [0; 16];
+
+            let done = elements * 16;
+
+            y_out[..remaining].copy_from_slice(&y_width[done..width]);
+            cb_out[..remaining].copy_from_slice(&cb_width[done..width]);
+            cr_out[..remaining].copy_from_slice(&cr_width[done..width]);
+
+            (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
+
+            let len = stride - position;
+            out[position..].copy_from_slice(&temp[..len]);
+        }
 
         start += stride;
         end += stride;
-- 
2.43.0


From 6cbd3058745179c0851f27c26bd2799a1534c394 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:17 +0000
Subject: [PATCH 07/29] fix: honour restart intervals in progressive scans

The interval is counted in MCUs from the start of every scan, including the
MCUs skipped by an EOB run; the marker has to be looked for when only padding
bits remain, and none follows the last MCU of a scan.
---
 src/mcu_prog.rs | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 4467d7d..ac224c4 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -253,6 +253,8 @@ impl Decoder
         self.check_component_dimensions()?;
         stream.reset();
         self.components.iter_mut().for_each(|x| x.dc_pred = 0);
+        // restart intervals are counted from the start of each scan
+        self.todo = self.restart_interval;
 
         if usize::from(self.num_scans) > self.input_colorspace.num_components() {
             return Err(Format(format!("Number of scans {} cannot be greater than number of components, {}", self.num_scans, self.input_colorspace.num_components())));
@@ -347,6 +349,8 @@ impl Decoder
 
                                 i += (j + stream.eob_run as usize - 1) / mcu_width;
                                 j = (j + stream.eob_run as usize - 1) % mcu_width;
+                                // skipped MCU's count towards the restart interval
+                                self.todo = self.todo.wrapping_sub(stream.eob_run as usize - 1);
                                 stream.eob_run = 0;
                             } else {
                                 stream.decode_mcu_ac_first(reader, ac_table, data)?;
@@ -357,10 +361,13 @@ impl Decoder
                         }
                     }
                     j += 1;
-                    self.todo -= 1;
+                    self.todo = self.todo.wrapping_sub(1);
+                    // no restart marker follows the last MCU of a scan
+                    let is_last = i + 1 >= mcu_height && j >= mcu_width;
 
-                    if self.todo == 0
+                    if self.todo == 0 && !is_last
                     {
+                        find_rst(reader, stream);
                         self.handle_rst(stream)?;
                     }
                 }
@@ -415,13 +422,16 @@ impl Decoder
                                 }
                             }
                         }
-                        // We want wrapping subtraction here because it means
-                        // we get a higher number in the case this underflows
-                        self.todo = self.todo.wrapping_sub(1);
-                        // after every scan that's a mcu, count down restart markers.
-                        if self.todo == 0 {
-                            self.handle_rst(stream)?;
-                        }
+                    }
+                    // We want wrapping subtraction here because it means
+                    // we get a higher number in the case this underflows
+                    self.todo = self.todo.wrapping_sub(1);
+                    // no restart marker follows the last MCU of a scan
+                    let is_last = i + 1 == self.mcu_y && j + 1 == self.mcu_x;
+                    // after every scan that's a mcu, count down restart markers.
+                    if self.todo == 0 && !is_last {
+                        find_rst(reader, stream);
+                        self.handle_rst(stream)?;
                     }
                 }
             }
@@ -430,6 +440,17 @@ impl Decoder
     }
 }
 
+/// Move to the restart marker ending this interval if the stream hasn't read that far.
+///
+/// All that remains of the interval are padding bits.
+fn find_rst(reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream)
+{
+    if stream.marker.is_none()
+    {
+        stream.marker = get_marker(reader, stream);
+    }
+}
+
 ///Get a marker from the bit-stream.
 ///
 /// This reads until it gets a marker or end of file is encountered
-- 
2.43.0


From 180cb1df1fa13e2d910b22c146bd8a9d4abb8de6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:17 +0000
Subject: [PATCH 08/29] fix: look for the marker after the first progressive
 scan if it was not read ahead

---
 src/mcu_prog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index ac224c4..ef477d5 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -85,7 +85,7 @@ impl Decoder
         self.parse_entropy_coded_data(reader, &mut stream, &mut block)?;
 
         // extract marker
-        let mut marker = stream.marker.take().ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
+        let mut marker = get_marker(reader, &mut stream).ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
         // if marker is EOI, we are done, otherwise continue scanning.
         'eoi: while marker != Marker::EOI
         {
-- 
2.43.0


From f59f8ddc116ce3feffbc63eb635af5526b1cda09 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:09 +0000
Subject: [PATCH 09/29] fix: clamp the scalar IDCT of DC only blocks to 0..=255

Every other path (and the AVX2 version) clamps; out of range values wrapped
around when narrowed to u8.
---
 src/idct/scalar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index e58abe1..35369aa 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -45,7 +45,9 @@ pub fn dequantize_and_idct_int(
             if &vector[1..] == &[0_i16; 63]
             {
                 // okay then if you work, yaay, let's write you really quick
-                let coeff = [((vector[0].wrapping_mul(qt_table.0[0] as i16)) >> 3) + 128; 8];
+                let coeff = [(((vector[0].wrapping_mul(qt_table.0[0] as i16)) >> 3) + 128)
+                    .max(0)
+                    .min(255); 8];
 
                 macro_rules! store {
                     ($index:tt) => {
-- 
2.43.0


From 660f3ffc9439c4aeab98f558fbf9269798d6aeeb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:09 +0000
Subject: [PATCH 10/29] fix: do not overflow u16 when rounding up dimensions
 close to 65535

---
 src/mcu.rs      | 10 +++++-----
 src/mcu_prog.rs |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 4450260..48c9c54 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -164,8 +164,8 @@ impl Decoder
         } else {
             // For non-interleaved images( (1*1) subsampling)
             // number of MCU's are the widths (+7 to account for paddings) divided bu 8.
-            mcu_width = ((self.info.width + 7) / 8) as usize;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
         }
 
         if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
@@ -183,7 +183,7 @@ impl Decoder
 
             warn!("Grayscale image with down-sampled component, resetting component details");
 
-            mcu_width = ((self.info.width + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
             self.h_max = 1;
             self.options = self.options.set_out_colorspace(ColorSpace::GRAYSCALE);
             self.v_max = 1;
@@ -191,11 +191,11 @@ impl Decoder
             self.components[0].vertical_sample = 1;
             self.components[0].width_stride = mcu_width * 8;
             self.components[0].horizontal_sample = 1;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
             bias = 1;
         }
         // Size of our output image(width*height)
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
+        let capacity = (usize::from(self.info.width) + 8) * (usize::from(self.info.height) + 8);
         let component_capacity = mcu_width * DCT_BLOCK;
         // Create an Arc of components to prevent cloning on every MCU width
         let global_component = Arc::new(self.components.clone());
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index ef477d5..a9749da 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -171,7 +171,7 @@ impl Decoder
         let cb = &block[1];
         let cr = &block[2];
         let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
+        let capacity = (usize::from(self.info.width) + 8) * (usize::from(self.info.height) + 8);
 
         let mut out_vector = vec![0_u8; capacity * self.options.get_out_colorspace().num_components() + extra_space];
 
@@ -282,8 +282,8 @@ impl Decoder
             // by 8
             if self.components[k].component_id == ComponentID::Y || !self.interleaved
             {
-                mcu_width = ((self.info.width + 7) / 8) as usize;
-                mcu_height = ((self.info.height + 7) / 8) as usize;
+                mcu_width = (usize::from(self.info.width) + 7) / 8;
+                mcu_height = (usize::from(self.info.height) + 7) / 8;
             } else {
                 // For other channels, in an interleaved mcu, number of MCU's
                 // are determined by some weird maths done in headers.rs->parse_sos()
-- 
2.43.0


From f967c78b22b76b03a5d28575f8efaddf946a2408 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:09 +0000
Subject: [PATCH 11/29] fix: do not assume coefficient vectors are 16 byte
 aligned

A Vec<i16> is only guaranteed to be 2 byte aligned, an aligned load is UB.
---
 src/idct/avx2.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index cf3f671..3dcdedb 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -104,19 +104,19 @@ unsafe fn dequantize_and_idct_int_avx2(
             // We sign extend i16's to i32's and calculate them with extended precision and
             // later reduce them to i16's when we are done carrying out IDCT
 
-            let rw0 = _mm_load_si128(vector[0..=7].as_ptr().cast());
+            let rw0 = _mm_loadu_si128(vector[0..=7].as_ptr().cast());
 
-            let rw1 = _mm_load_si128(vector[8..=15].as_ptr().cast());
+            let rw1 = _mm_loadu_si128(vector[8..=15].as_ptr().cast());
 
-            let rw2 = _mm_load_si128(vector[16..=23].as_ptr().cast());
+            let rw2 = _mm_loadu_si128(vector[16..=23].as_ptr().cast());
 
-            let rw3 = _mm_load_si128(vector[24..=31].as_ptr().cast());
+            let rw3 = _mm_loadu_si128(vector[24..=31].as_ptr().cast());
 
-            let rw4 = _mm_load_si128(vector[32..=39].as_ptr().cast());
+            let rw4 = _mm_loadu_si128(vector[32..=39].as_ptr().cast());
 
-            let rw5 = _mm_load_si128(vector[40..=47].as_ptr().cast());
+            let rw5 = _mm_loadu_si128(vector[40..=47].as_ptr().cast());
 
-            let rw6 = _mm_load_si128(vector[48..=55].as_ptr().cast());
+            let rw6 = _mm_loadu_si128(vector[48..=55].as_ptr().cast());
 
             let rw7 = _mm_loadu_si128(vector[56..=63].as_ptr().cast());
 
-- 
2.43.0


From ed79dd94819e032af07e55359ee5cbb7a8d34a04 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:09 +0000
Subject: [PATCH 12/29] fix: use the right neighbours for the last samples in
 the SSE horizontal upsampler

The result now matches the scalar version.
---
 src/upsampler/sse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upsampler/sse.rs b/src/upsampler/sse.rs
index fc2feb3..ad06ec1 100644
--- a/src/upsampler/sse.rs
+++ b/src/upsampler/sse.rs
@@ -120,11 +120,11 @@ pub unsafe fn upsample_horizontal_sse_u(input: &[i16], output_len: usize) -> Vec
 
     l_out[2] = (input[il + 1] * 3 + input[il] + 2) >> 2;
 
-    l_out[3] = (input[il + 1] * 3 + input[il + 1] + 2) >> 2;
+    l_out[3] = (input[il + 1] * 3 + input[il + 2] + 2) >> 2;
 
-    l_out[4] = (input[il + 2] * 3 + input[il + 2] + 2) >> 2;
+    l_out[4] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
 
-    l_out[5] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
+    l_out[5] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
 
     l_out[6] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
 
-- 
2.43.0


From ab3c2af42cc8ce9e7aadfb34b6d66715692d2324 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:24 +0000
Subject: [PATCH 13/29] fix: weigh the nearer sample more in the second to last
 horizontally upsampled sample

---
 src/upsampler/scalar.rs | 2 +-
 src/upsampler/sse.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index a932b00..3e666fa 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -52,7 +52,7 @@ pub fn upsample_horizontal(input: &[i16], output_len: usize) -> Vec<i16>
     let i_last: &[i16; 2] = input.get(input_len..).unwrap().try_into().unwrap();
 
     // write out manually..
-    f_out[0] = (3 * i_last[0] + i_last[1] + 2) >> 2;
+    f_out[0] = (3 * i_last[1] + i_last[0] + 2) >> 2;
 
     f_out[1] = i_last[1];
 
diff --git a/src/upsampler/sse.rs b/src/upsampler/sse.rs
index ad06ec1..0a420c8 100644
--- a/src/upsampler/sse.rs
+++ b/src/upsampler/sse.rs
@@ -126,7 +126,7 @@ pub unsafe fn upsample_horizontal_sse_u(input: &[i16], output_len: usize) -> Vec
 
     l_out[5] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
 
-    l_out[6] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
+    l_out[6] = (input[il + 3] * 3 + input[il + 2] + 2) >> 2;
 
     l_out[7] = input[il + 3];
 
-- 
2.43.0


From 9996ec78555b4cb646739a7331c284b3c663a0df Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:24 +0000
Subject: [PATCH 14/29] fix: reject frames which do not have one or three
 components

Other counts indexed past the per component arrays and panicked.
---
 src/headers.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index 03ab65e..ebf4f94 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -273,6 +273,15 @@ where
         )));
     }
 
+    // everything after this assumes either Y or Y,Cb and Cr
+    if num_components != 1 && num_components != 3
+    {
+        return Err(DecodeErrors::SofError(format!(
+            "Images with {} components are not supported, expected 1 or 3",
+            num_components
+        )));
+    }
+
     info!("Image components : {}", num_components);
 
     if num_components == 1
-- 
2.43.0


From 2b7aea2d47475e2a1c5257e39afbc4e7e15ada7f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:24 +0000
Subject: [PATCH 15/29] fix: reject frames which define the same component
 twice

---
 src/headers.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index ebf4f94..8d53c48 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -307,6 +307,14 @@ where
         // create a component.
         let component = Components::from(temp)?;
 
+        if components.iter().any(|c: &Components| c.id == component.id)
+        {
+            return Err(DecodeErrors::SofError(format!(
+                "Duplicate component id {}",
+                component.id
+            )));
+        }
+
         components.push(component);
     }
 
-- 
2.43.0


From cb9d7128377e74332bdc551fa16a722569aa856a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:24 +0000
Subject: [PATCH 16/29] fix: look up scan components among the components that
 were parsed

info.components is set before the components are read, so after a failed
frame header the lookup could index past the end.
---
 src/headers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index 8d53c48..ab6091c 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -430,9 +430,9 @@ where
 
         let mut j = 0;
 
-        while j < image.info.components
+        while j < image.components.len()
         {
-            if image.components[j as usize].id == id
+            if image.components[j].id == id
             {
                 break;
             }
@@ -440,7 +440,7 @@ where
             j += 1;
         }
 
-        if j == image.info.components
+        if j == image.components.len()
         {
             return Err(DecodeErrors::SofError(format!(
                 "Invalid component id {}, expected a value between 0 and {}",
@@ -449,9 +449,9 @@ where
             )));
         }
 
-        image.components[usize::from(j)].dc_huff_table = usize::from((y >> 4) & 0xF);
-        image.components[usize::from(j)].ac_huff_table = usize::from(y & 0xF);
-        image.z_order[i as usize] = j as usize;
+        image.components[j].dc_huff_table = usize::from((y >> 4) & 0xF);
+        image.components[j].ac_huff_table = usize::from(y & 0xF);
+        image.z_order[i as usize] = j;
     }
 
     // Collect the component spec parameters
-- 
2.43.0


From 6f53c95bf5606e4a75beac1d5db508d195c887f9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:24 +0000
Subject: [PATCH 17/29] fix: rebuild AC tables that precede a progressive frame
 header

Their fast lookup treats every code without magnitude bits as in sequential
scans, which misreads EOB runs.
---
 src/decoder.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 6262a28..a340735 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -326,6 +326,15 @@ impl Decoder
                 info!("Image encoding scheme =`{:?}`", marker);
                 // get components
                 parse_start_of_frame(buf, marker, self)?;
+
+                if self.is_progressive
+                {
+                    // tables defined before the frame header were built for sequential images
+                    for table in self.ac_huffman_tables.iter_mut().flatten()
+                    {
+                        *table = HuffmanTable::new(&table.bits, table.values, false, true)?;
+                    }
+                }
             }
             // Start of Frame Segments not supported
             Marker::SOF(v) =>
-- 
2.43.0


From fa61c8085c35d54abd50fa8c8fbc11616de29d19 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:59 +0000
Subject: [PATCH 18/29] fix: decode the last MCU row of subsampled images with
 an odd number of MCU rows

---
 src/mcu.rs      | 22 ++++++++++++++++++----
 src/mcu_prog.rs | 13 +++++++++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 48c9c54..8bb6c88 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -151,11 +151,11 @@ impl Decoder
                 // Values for horizontal samples end halfway the image and do not complete an MCU width.
                 // To make it complete we multiply width by 2 and divide mcu_height by 2
                 mcu_width = self.mcu_x * 2;
-                mcu_height = self.mcu_y / 2;
+                mcu_height = (self.mcu_y + 1) / 2;
             } else if self.sub_sample_ratio == SubSampRatios::HV
             {
                 mcu_width = self.mcu_x;
-                mcu_height = self.mcu_y / 2;
+                mcu_height = (self.mcu_y + 1) / 2;
                 bias = 2;
             } else {
                 mcu_width = self.mcu_x;
@@ -218,12 +218,21 @@ impl Decoder
         let hv_width_stride = width_stride >> 1;
 
         let mut stream = BitStream::new();
+        // Each iteration of the main loop writes a chunk this big
+        let chunk_size = width * output.num_components() * 8 * h_max * v_max;
         // Storage for decoded pixels
-        let mut global_channel = vec![0; (capacity * self.options.get_out_colorspace().num_components()) + extra_space];
+        let mut global_channel = vec![0; ((capacity * self.options.get_out_colorspace().num_components()) + extra_space).max(chunk_size * mcu_height)];
+        // We may decode two MCU rows at once but the image may have an odd number of them
+        let mut mcus_left = mcu_width * mcu_height * bias;
+
+        if mcus_left > self.mcu_x * self.mcu_y && self.sub_sample_ratio != SubSampRatios::None
+        {
+            mcus_left = self.mcu_x * self.mcu_y;
+        }
 
         // Split output into different blocks each containing enough space for an MCU width
         let mut chunks =
-            global_channel.chunks_exact_mut(width * output.num_components() * 8 * h_max * v_max);
+            global_channel.chunks_exact_mut(chunk_size);
         let mut tmp = [0; DCT_BLOCK];
 
         // Argument for scoped threadpools, see file docs.
@@ -254,6 +263,11 @@ impl Decoder
                 {
                     for j in 0..mcu_width
                     {
+                        if mcus_left == 0
+                        {
+                            break;
+                        }
+                        mcus_left -= 1;
                         // iterate over components
 
                         for pos in 0..self.input_colorspace.num_components()
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index a9749da..5c6a06f 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -51,7 +51,7 @@ impl Decoder
     ) -> Result<Vec<u8>, DecodeErrors>
     {
         self.check_component_dimensions()?;
-        let mcu_height;
+        let mut mcu_height;
 
         // memory location for decoded pixels for components
         let mut block = [vec![], vec![], vec![]];
@@ -63,6 +63,12 @@ impl Decoder
         {
             mcu_width = self.mcu_x;
             mcu_height = self.mcu_y;
+
+            if self.h_max == 2
+            {
+                // post processing handles two MCU rows at once
+                mcu_height += mcu_height % 2;
+            }
         } else {
             mcu_width = (self.info.width as usize + 7) / 8;
             mcu_height = (self.info.height as usize + 7) / 8;
@@ -173,8 +179,6 @@ impl Decoder
         let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
         let capacity = (usize::from(self.info.width) + 8) * (usize::from(self.info.height) + 8);
 
-        let mut out_vector = vec![0_u8; capacity * self.options.get_out_colorspace().num_components() + extra_space];
-
         // Things we need for multithreading.
         let h_max = self.h_max;
         let v_max = self.v_max;
@@ -186,10 +190,11 @@ impl Decoder
         let width = usize::from(self.width());
         // Divide the output into small blocks and send to threads/
         let chunks_size = width * self.options.get_out_colorspace().num_components() * 8 * h_max * v_max;
-        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
         // Chunk sizes. Each determine how many pixels go per thread.
         let y_chunk_size =
             mcu_width * self.components[0].vertical_sample * self.components[0].horizontal_sample * bias;
+        let mut out_vector = vec![0_u8; (capacity * self.options.get_out_colorspace().num_components() + extra_space).max(chunks_size * (y.len() / y_chunk_size))];
+        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
         // Divide into chunks
         let y_chunk = y.chunks_exact(y_chunk_size);
 
-- 
2.43.0


From 2c20074140ae07c9f2805658d704e1443e77c73e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:37 +0000
Subject: [PATCH 19/29] fix: upsample each MCU row of 4:2:0 images on its own
 and drop the faulty AVX upsampler

---
 src/upsampler/avx2.rs   | 343 +---------------------------------------
 src/upsampler/scalar.rs |  12 +-
 2 files changed, 17 insertions(+), 338 deletions(-)

diff --git a/src/upsampler/avx2.rs b/src/upsampler/avx2.rs
index fcc2b4e..b41e622 100644
--- a/src/upsampler/avx2.rs
+++ b/src/upsampler/avx2.rs
@@ -1,15 +1,7 @@
 #![cfg(feature = "x86")]
 #![cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-#[cfg(target_arch = "x86")]
-use std::arch::x86::*;
-#[cfg(target_arch = "x86_64")]
-use std::arch::x86_64::{
-    _mm256_add_epi16, _mm256_alignr_epi8, _mm256_blend_epi16, _mm256_insert_epi16,
-    _mm256_loadu_si256, _mm256_mullo_epi16, _mm256_permute2x128_si256, _mm256_set1_epi16,
-    _mm256_srai_epi16, _mm256_storeu_si256, _mm256_unpackhi_epi16, _mm256_unpacklo_epi16,
-};
-
-use crate::upsampler::scalar::upsample_hv;
+use crate::upsampler::scalar::{upsample_hv, upsample_vertical_mcu_rows};
+use crate::upsampler::sse::upsample_horizontal_sse;
 
 pub fn upsample_hv_simd(input: &[i16], output_len: usize) -> Vec<i16>
 {
@@ -18,331 +10,8 @@ pub fn upsample_hv_simd(input: &[i16], output_len: usize) -> Vec<i16>
         //For small inputs, use scalar.
         return upsample_hv(input, output_len);
     }
-    unsafe { upsample_hv_avx(input, output_len) }
-}
-// herein lies 2 days work tread lightly
-
-#[rustfmt::skip]
-#[target_feature(enable = "avx")]
-#[target_feature(enable = "avx2")]
-#[inline]
-pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
-{
-    //to understand how it works, we have to see what vertical upsampling + horizontal upsampling do
-    // Hence the illustration
-    //    | A1 | A2 |
-    //    |====|====|
-    //    | p1 | p2 |
-    //    |----|----|
-    //    | p3 | p4 |
-    //    |====|====|
-    //    | B1 | B2 |
-    //
-    // -> Okay for two squeezed lines, A and B we generate 2 lines.
-    // We do the same for B & C and so on.
-    //
-    // After our vertical pass, we have p2 and p3 stretching halfway the image
-    //
-    // After that vertical pass, we want to do another pass.
-    // | p1 |q1|q2| p2 |
-    // |----|=====|----|
-    // | p3 |q3|q4| p4 |
-    //
-    // now q1 will stretch the whole image, hence it becomes a full upsampling
-
-    // So how do we actually implement.
-
-    let mut output = vec![0;output_len];
-
-    // okay for the next step lets play with AVX
-
-    // Difference in  pixels for a width
-    let mut stride = 0;
-    //
-    let mut modify_stride = true;
-
-    let mut pos = 0;
-    let mut output_position = 0;
-
-    let mut prev = (3 * input[0] + input[stride] + 2) >> 2;
-    let mut pixel_far = (3 * input[pos + 16] + input[pos + stride + 16] + 2) >> 2;
-
-    let three = _mm256_set1_epi16(3);
-    let two = _mm256_set1_epi16(2);
-
-    macro_rules! pack_shuffle {
-        ($x:tt,$y:tt,$value:tt) => {
-            let v = _mm256_permute2x128_si256::<$value>($x, $x);
-
-            let rwn_hi = _mm256_unpackhi_epi16(v, v);
-            let rwn_lo = _mm256_unpacklo_epi16(v, v);
-
-            $y = _mm256_permute2x128_si256::<0b0011_0000>(rwn_lo, rwn_hi);
-        };
-    }
-
-    macro_rules! upsample_horizontal {
-        ($row:tt,$stride:tt) => {
-            // AND THE implementation of srli is 2 128 bit shuffles.
-            // Mahn intel really??
-            // Therefore we need to emulate that instruction
-            // See this stack overflow post: https://stackoverflow.com/questions/25248766/emulating-shifts-on-32-bytes-with-avx
-
-            // shift the whole data in the register left by 16 to remove zero-th element
-            // array looks like B0,[B1,B2,B3,B4,B5,B6,B7,0]
-            // _mm256_srli_si256(A, N) (0<N<16)
-            let mut next_arr = _mm256_alignr_epi8::<2>(
-                _mm256_permute2x128_si256::<{ shuffle(2, 0, 0, 1) }>($row, $row),
-                $row,
-            );
-            // shift the whole data in the array down by(right) by 16, to remove n+1.
-            // Now our register looks like  [0,B1,B2,B3,B4,B5,B6],B7.
-            // _mm256_slli_si256(A, N) ( 0< N < 16).
-            let mut prev_arr = _mm256_alignr_epi8::<{ 16 - 2 }>($row,
-                                                                _mm256_permute2x128_si256::<{ shuffle(0, 0, 2, 0) }>($row, $row),
-            );
-
-
-            // insert values
-
-            // prev_array => [X0,B1,B2,B3,B4,B5,B6,B7]
-            prev_arr = _mm256_insert_epi16::<0>(prev_arr, prev);
-            // NEXT_ARR => [B0,B1,B2,B3,B4,B5,B6,X1]
-            next_arr = _mm256_insert_epi16::<15>(next_arr, pixel_far);
-
-            // Okay at this point we have: (the arrows just show how prev_arr & next_arr differ from row_near)
-            //              |                                                  |
-            //             \/                                                 \/
-            //-> prev_arr [B0,B1,B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B12,B13,B14,B15]
-            //
-            //
-            //-> row_near [B1,B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B2,B13,B14,B15,B16]
-            //
-            //              |                                                   |
-            //             \/                                                  \/
-            //-> next_row [B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B12,B13,B14,B15,B16,B17]
-
-
-            // Next we need to get values in Avx register and stretch them.
-            // The reason for this is simple, currently our avx register contain vertical upsampling values.
-            // packed together, for a packing B0,B1 , we need to generate two values
-            //illustrated by
-            // |  |           |  |
-            // |B0| |p1| |p2| |B1|
-            // |  |           |  |
-            // Now a cool way to stretch them is to half our three avx registers,  into 6 upper or lower registers
-            // and duplicate elements of either the half register to the other half
-
-            // Eg for near:
-            // near->|B0,B1,B2,B3]
-            // near_hi ->[B0,B0,B1,B1]
-            // near_lo ->[B2,B2,B3,B3]
-
-            // Duplicate top elements to low elements
-            let (near_lo, near_hi, prev_lo, prev_hi, next_lo, next_hi);
-
-            pack_shuffle!($row,near_lo,0);
-            pack_shuffle!($row,near_hi,0b011_0011);
-
-            pack_shuffle!(prev_arr,prev_lo,0);
-            pack_shuffle!(prev_arr,prev_hi,0b011_0011);
-
-            pack_shuffle!(next_arr,next_lo,0);
-            pack_shuffle!(next_arr,next_hi,0b011_0011);
-
-            // FINALLY START CARRYING OUT THE CALCULATIONS.
-
-            // everything above was set up for this
-
-
-            // prev-lo->[BO,B0,B1,B1,B2,B2,B3,B3]
-            // next-lo->[B2,B2,B3,B3,B4,B4,B5,B5]
-            // NN    -> [B0,B2,B1,B3,B2,B4,B3,B5]
-
-            // notice how prettily NN contains  a weird shift of elements.
-
-            // for i in 1..input.len() - 1{
-            //         let sample = 3 * input[i] + 2;
-            //
-            //         out[i * 2] = (sample + input[i - 1]) >> 2;
-            //         out[i * 2 + 1] = (sample + input[i + 1]) >> 2;
-            // }
-
-            // Look at the ABOVE loop, notice how even numbers get i-1, look at the even indices
-            // in nn.
-            // Look at the ODD INDICES while at it.
-
-            // And that's the miracle.
-            // I rest my case, may you understand the rest of the code.
-
-            let nn = _mm256_blend_epi16::<0b1010_1010>(prev_lo, next_lo);
-            // input[x]*3
-            let an = _mm256_mullo_epi16(near_lo, three);
-
-            let bn = _mm256_add_epi16(nn, two);
-
-            let cn = _mm256_srai_epi16::<2>(_mm256_add_epi16(an, bn));
-
-            _mm256_storeu_si256(output.get_mut(output_position+$stride..output_position+$stride+16).unwrap().as_mut_ptr().cast(), cn);
-
-
-            let nn = _mm256_blend_epi16::<0b1010_1010>(prev_hi, next_hi);
-
-            let an = _mm256_mullo_epi16(near_hi, three);
-
-            let bn = _mm256_add_epi16(nn, two);
-
-            let cn = _mm256_srai_epi16::<2>(_mm256_add_epi16(an, bn));
-            // hi is stored one output width lower.
-            _mm256_storeu_si256(output.get_mut(output_position+$stride+16..output_position+$stride+32).unwrap().as_mut_ptr().cast(), cn);
-
-
-        };
-    }
-
-    macro_rules! upsample_vertical {
-        ($load_near:tt,$load_far:tt,$row_near:tt,$row_far:tt) => {
-            let t2 = _mm256_add_epi16($load_far, two);
-            let t1 = _mm256_mullo_epi16($load_near, three);
-
-            // (near * 3 + far + 2 ) >> 2
-            $row_near = _mm256_srai_epi16::<2>(_mm256_add_epi16(t1, t2));
-
-            let t3 = _mm256_add_epi16($load_near, two);
-            let t4 = _mm256_mullo_epi16($load_far, three);
-
-            // (far * 3 + near + 2 ) >> 2
-            $row_far = _mm256_srai_epi16::<2>(_mm256_add_epi16(t3, t4));
-        };
-    }
-
-    let (mut row_near, mut row_far);
-
-    let len = output_len / 16;
-    let end = (input.len() >> 7).saturating_sub( 1);
-    // some calculations to determine how much will not be written per MCU.
-    let v = (output.len() / 16).saturating_sub (end * 32);
-
-
-    // we need to iterate row wise
-    // we initially have 8 rows we want to make 32, new rows,
-    for j in 0..8
-    {
-
-        // loop row wise
-        // we are feed it our stuff with 16 values, therefore we can loop the number of times we can
-        // chunk data. into 16
-        for _ in 0..end
-        {
-            let load_near = _mm256_loadu_si256(input[pos..].as_ptr().cast());
-            let load_far = _mm256_loadu_si256(input[pos + stride..].as_ptr().cast());
-            // ==========================================================================
-            // -> Pass 1:Vertical calculation.
-            // --------------------------------------------------------------------------
-            upsample_vertical!(load_near, load_far, row_near, row_far);
-
-            // --------------------------------------------------------------------------
-            // Pass 1 : Complete
-            // ==========================================================================
-
-            // ==========================================================================
-            // Pass 2: Horizontal upsampling
-            //---------------------------------------------------------------------------
-
-            upsample_horizontal!(row_near, 0);
-
-            upsample_horizontal!(row_far, (len));
-
-            output_position += 32;
-            // ---------------------------------------------------------------------------
-            // pass 2 complete
-            // ===========================================================================
-            pos += 16;
-            // update previous and next values
-            assert!(input.len() >= pos + stride + 16);
-            // Safety , the assert statement above ensures none of these goes out of bounds.
-            prev = (3 * (*input.get(pos).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride).unwrap_or(&0))
-                .wrapping_add(2)) >> 2;
-
-            pixel_far = (3 * (*input.get(pos + 16).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride + 16).unwrap_or(&0))
-                .wrapping_add( 2)) >> 2;
-        }
-        // now there are some more data left, since we actually don't write
-        // to the end of the array.
-
-        // those whe handle using scalar code
-       
-        let (a,b )=  output.split_at_mut(output_position+v);
-        
-        let c = a.len()-v;
-    
-        // areas the vector code didn't touch
-        let unwritten = &mut a[c..];
-        let unwritten_stride = &mut b[len-v..len];
-     
-        
-        for (input_window,output_window) in input[pos-v/2-2..pos].windows(3).zip(unwritten.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
-        }
-        *unwritten.last_mut().unwrap() = input[pos];
-        
-        for (input_window,output_window) in input[pos-v/2+stride-2..pos+stride].windows(3).zip(unwritten_stride.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
-        }
-        
-        *unwritten_stride.last_mut().unwrap() = input[pos+stride];
-        
-    
-
-        output_position += len+v;
-        pos+=v/2;
-        
-        if modify_stride
-        {
-            stride = input.len() / 8;
-            modify_stride = false;
-
-        }
-        if j == 6
-        {
-            // when j is 6 it means we are at position 14, and 15, here we
-            // need to revert stride to be zero to get a nearest neighbour
-
-            // since there is no more row to look ahead using stride.
-            stride = 0;
-
-        }
-        // set some manually
-        output[output_position - len] = output[output_position - len + 1];
-
-        output[output_position - len - 2] = output[output_position - len - 4];
-
-        output[output_position - len - 1] = output[output_position - len - 3];
-
-        output[output_position - 2] = output[output_position - 4];
-
-        output[output_position - 1] = output[output_position - 3];
-    }
-
-    return output;
-}
-
-#[inline]
-const fn shuffle(z: i32, y: i32, x: i32, w: i32) -> i32
-{
-    ((z << 6) | (y << 4) | (x << 2) | w) as i32
+    // first pass, do vertical sampling, the compiler vectorizes this
+    let first_pass = upsample_vertical_mcu_rows(input);
+    // second pass, do horizontal sampling
+    return upsample_horizontal_sse(&first_pass, output_len);
 }
diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index 3e666fa..b0c8186 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -145,6 +145,16 @@ pub fn upsample_vertical(input: &[i16], output_len: usize) -> Vec<i16>
     }
     return out;
 }
+/// Carry out the vertical pass of a hv upsample
+///
+/// HV upsampling is given two MCU rows, vertical sampling only works on the 8 rows of one of them.
+pub fn upsample_vertical_mcu_rows(input: &[i16]) -> Vec<i16>
+{
+    input
+        .chunks_exact(input.len() / 2)
+        .flat_map(|mcu_row| upsample_vertical(mcu_row, mcu_row.len() * 2))
+        .collect()
+}
 pub fn upsample_hv(input: &[i16], output_len: usize) -> Vec<i16>
 {
     //  a hv upsample is simply a two pass sample, first sample vertically, then sample horizontally
@@ -158,7 +168,7 @@ pub fn upsample_hv(input: &[i16], output_len: usize) -> Vec<i16>
     // But this is a good place for optimization if one wants to tackle that.
 
     // first pass, do vertical sampling
-    let first_pass = upsample_vertical(input, input.len() * 2);
+    let first_pass = upsample_vertical_mcu_rows(input);
     //second pass, do horizontal sampling
     let second_pass = upsample_horizontal(&first_pass, output_len);
 
-- 
2.43.0


From 9660fa15d8973468732a61f6807d6096b69eb28d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:03 +0000
Subject: [PATCH 20/29] fix: do not blend the chroma of adjacent rows in
 horizontal upsampling

---
 src/upsampler.rs        |  4 ++--
 src/upsampler/avx2.rs   |  4 ++--
 src/upsampler/scalar.rs | 22 +++++++++++++++++++++-
 src/upsampler/sse.rs    |  8 ++++++++
 4 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/upsampler.rs b/src/upsampler.rs
index db934ed..4f41df9 100644
--- a/src/upsampler.rs
+++ b/src/upsampler.rs
@@ -87,12 +87,12 @@ pub fn choose_horizontal_samp_function(use_unsafe:bool) -> UpSampler
             if is_x86_feature_detected!("sse4.1")
             {
                 debug!("Using sse H up-sampler");
-                return sse::upsample_horizontal_sse;
+                return sse::upsample_horizontal_mcu_rows_sse;
             }
         }
     }
     debug!("Using scalar H up-sampler");
-    return scalar::upsample_horizontal;
+    return scalar::upsample_horizontal_mcu_rows;
 }
 pub fn choose_hv_samp_function(use_unsafe:bool) -> UpSampler
 {
diff --git a/src/upsampler/avx2.rs b/src/upsampler/avx2.rs
index b41e622..8923e8b 100644
--- a/src/upsampler/avx2.rs
+++ b/src/upsampler/avx2.rs
@@ -1,6 +1,6 @@
 #![cfg(feature = "x86")]
 #![cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-use crate::upsampler::scalar::{upsample_hv, upsample_vertical_mcu_rows};
+use crate::upsampler::scalar::{upsample_hv, upsample_rows, upsample_vertical_mcu_rows};
 use crate::upsampler::sse::upsample_horizontal_sse;
 
 pub fn upsample_hv_simd(input: &[i16], output_len: usize) -> Vec<i16>
@@ -13,5 +13,5 @@ pub fn upsample_hv_simd(input: &[i16], output_len: usize) -> Vec<i16>
     // first pass, do vertical sampling, the compiler vectorizes this
     let first_pass = upsample_vertical_mcu_rows(input);
     // second pass, do horizontal sampling
-    return upsample_horizontal_sse(&first_pass, output_len);
+    return upsample_rows(&first_pass, output_len, 32, upsample_horizontal_sse);
 }
diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index b0c8186..d9a805f 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -145,6 +145,26 @@ pub fn upsample_vertical(input: &[i16], output_len: usize) -> Vec<i16>
     }
     return out;
 }
+/// Upsample each row horizontally on its own, the last pixel of a row is not a neighbour of the first
+/// pixel of the next row
+///
+/// # Arguments
+/// - rows: Number of pixel rows in `input`
+/// - up_sampler: Routine to carry out horizontal upsampling of a single row
+pub fn upsample_rows(
+    input: &[i16], output_len: usize, rows: usize, up_sampler: fn(&[i16], usize) -> Vec<i16>,
+) -> Vec<i16>
+{
+    input
+        .chunks_exact(input.len() / rows)
+        .flat_map(|row| up_sampler(row, output_len / rows))
+        .collect()
+}
+/// Upsample horizontally the two MCU rows that are processed at once
+pub fn upsample_horizontal_mcu_rows(input: &[i16], output_len: usize) -> Vec<i16>
+{
+    upsample_rows(input, output_len, 16, upsample_horizontal)
+}
 /// Carry out the vertical pass of a hv upsample
 ///
 /// HV upsampling is given two MCU rows, vertical sampling only works on the 8 rows of one of them.
@@ -170,7 +190,7 @@ pub fn upsample_hv(input: &[i16], output_len: usize) -> Vec<i16>
     // first pass, do vertical sampling
     let first_pass = upsample_vertical_mcu_rows(input);
     //second pass, do horizontal sampling
-    let second_pass = upsample_horizontal(&first_pass, output_len);
+    let second_pass = upsample_rows(&first_pass, output_len, 32, upsample_horizontal);
 
     return second_pass;
 }
diff --git a/src/upsampler/sse.rs b/src/upsampler/sse.rs
index 0a420c8..2816cee 100644
--- a/src/upsampler/sse.rs
+++ b/src/upsampler/sse.rs
@@ -8,6 +8,14 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 use std::convert::TryInto;
 
+use crate::upsampler::scalar::upsample_rows;
+
+/// Upsample horizontally the two MCU rows that are processed at once
+pub fn upsample_horizontal_mcu_rows_sse(input: &[i16], output_len: usize) -> Vec<i16>
+{
+    upsample_rows(input, output_len, 16, upsample_horizontal_sse)
+}
+
 #[inline]
 pub fn upsample_horizontal_sse(input: &[i16], output_len: usize) -> Vec<i16>
 {
-- 
2.43.0


From f88a905a9b43f6821546a0a49231657eab6072c2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:39 +0000
Subject: [PATCH 21/29] fix: look for the restart marker of a sequential
 interval if it was not read ahead

---
 src/mcu.rs      | 2 ++
 src/mcu_prog.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 8bb6c88..2eee0d1 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -61,6 +61,7 @@ use crate::bitstream::BitStream;
 use crate::components::{ComponentID, SubSampRatios};
 use crate::errors::DecodeErrors;
 use crate::marker::Marker;
+use crate::mcu_prog::find_rst;
 use crate::worker::post_process;
 use crate::{ColorSpace, Decoder};
 
@@ -339,6 +340,7 @@ impl Decoder
                         // after every interleaved MCU that's a mcu, count down restart markers.
                         if self.todo == 0
                         {
+                            find_rst(reader, &mut stream);
                             self.handle_rst(&mut stream)?;
                         }
 
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 5c6a06f..cfde704 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -448,7 +448,7 @@ impl Decoder
 /// Move to the restart marker ending this interval if the stream hasn't read that far.
 ///
 /// All that remains of the interval are padding bits.
-fn find_rst(reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream)
+pub(crate) fn find_rst(reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream)
 {
     if stream.marker.is_none()
     {
-- 
2.43.0


From ab62d8bc818a4d8967642ad764561c5956e572ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:58 +0000
Subject: [PATCH 22/29] fix: forget the state of the previous image when a
 decoder is used again

---
 src/decoder.rs | 21 +++++++++++++++++++++
 src/headers.rs |  2 ++
 2 files changed, 23 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index a340735..cd5ed84 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -118,6 +118,8 @@ pub struct Decoder
     pub(crate) todo:             usize,
     // decoder options
     pub(crate) options:          ZuneJpegOptions,
+    /// Output colorspace to go back to after an image which can only be decoded to grayscale
+    pub(crate) requested_colorspace: Option<ColorSpace>,
 }
 
 impl Decoder
@@ -166,8 +168,23 @@ impl Decoder
             todo: 0x7fff_ffff,
             // options
             options,
+            requested_colorspace: None,
         }
     }
+    /// Forget everything about the previously decoded image, except tables it defined
+    fn reset_image(&mut self)
+    {
+        if let Some(colorspace) = self.requested_colorspace
+        {
+            self.options = self.options.set_out_colorspace(colorspace);
+        }
+        *self = Decoder {
+            qt_tables: std::mem::take(&mut self.qt_tables),
+            dc_huffman_tables: std::mem::take(&mut self.dc_huffman_tables),
+            ac_huffman_tables: std::mem::take(&mut self.ac_huffman_tables),
+            ..Decoder::default(self.options)
+        };
+    }
     /// Decode a buffer already in memory
     ///
     /// The buffer should be a valid jpeg file, perhaps created by the command
@@ -240,6 +257,8 @@ impl Decoder
     where
         R: Read + BufRead,
     {
+        self.reset_image();
+
         // First two bytes should be jpeg soi marker
         let magic_bytes = read_u16_be(buf)?;
 
@@ -554,6 +573,7 @@ impl Decoder
     {
         // told you so
         self.options = self.options.set_out_colorspace(ColorSpace::RGBA);
+        self.requested_colorspace = None;
     }
 
     #[deprecated(
@@ -571,6 +591,7 @@ impl Decoder
     pub fn set_output_colorspace(&mut self, colorspace: ColorSpace)
     {
         self.options = self.options.set_out_colorspace(colorspace);
+        self.requested_colorspace = None;
     }
     #[must_use]
     /// Get the width of the image as a u16
diff --git a/src/headers.rs b/src/headers.rs
index ab6091c..b451237 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -290,6 +290,8 @@ where
         // and that to us translates to setting input and output
         // colorspaces to zero
         img.input_colorspace = ColorSpace::GRAYSCALE;
+        img.requested_colorspace
+            .get_or_insert(img.options.get_out_colorspace());
         img.options = img.options.set_out_colorspace(ColorSpace::GRAYSCALE);
     }
 
-- 
2.43.0


From 41b9063f1498d3a079237f4d7cf1889e36cb08e5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:15 +0000
Subject: [PATCH 23/29] fix: only require space for 48 bytes in the SSE RGB
 conversion

---
 src/color_convert/sse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color_convert/sse.rs b/src/color_convert/sse.rs
index 0c28369..b06c9d4 100644
--- a/src/color_convert/sse.rs
+++ b/src/color_convert/sse.rs
@@ -271,7 +271,7 @@ pub fn ycbcr_to_rgb_sse_16(
 )
 {
     // check if out has enough space
-    out.get_mut(*offset..*offset + 64)
+    out.get_mut(*offset..*offset + 48)
         .expect("Slice to small cannot write");
     unsafe {
         ycbcr_to_rgb_16(y, cb, cr, out, offset);
-- 
2.43.0


From 339e1cbccc7974079053a73eb309897b3387af51 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:36 +0000
Subject: [PATCH 24/29] fix: reject unsupported frame types instead of skipping
 them

---
 src/decoder.rs | 2 +-
 src/marker.rs  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index cd5ed84..85be165 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -358,7 +358,7 @@ impl Decoder
             // Start of Frame Segments not supported
             Marker::SOF(v) =>
             {
-                let feature = UnsupportedSchemes::from_int(v);
+                let feature = UnsupportedSchemes::from_int(0xC0 + v);
 
                 if let Some(feature) = feature
                 {
diff --git a/src/marker.rs b/src/marker.rs
index 6e44034..16522fc 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -55,6 +55,7 @@ impl Marker
             0xC0 => Some(SOF(0)),
             0xC2 => Some(SOF(2)),
             0xC4 => Some(DHT),
+            0xC1 | 0xC3 | 0xC5..=0xC7 | 0xC9..=0xCB | 0xCD..=0xCF => Some(SOF(n - 0xC0)),
             0xCC => Some(DAC),
             0xD0 => Some(RST(0)),
             0xD1 => Some(RST(1)),
-- 
2.43.0


From cc1e80b42cb6a146c0237f29f42885abef390515 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:36 +0000
Subject: [PATCH 25/29] fix: allow fill bytes before markers

---
 src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 85be165..9483e5f 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -274,8 +274,8 @@ impl Decoder
             // read a byte
             let m = read_byte(buf)?;
             // Last byte should be 0xFF to confirm existence of a marker since markers look
-            // like OxFF(some marker data)
-            if last_byte == 0xFF
+            // like OxFF(some marker data), any number of 0xFF may precede the marker data
+            if last_byte == 0xFF && m != 0xFF
             {
                 let marker = Marker::from_u8(m);
 
-- 
2.43.0


From e89fa7506dcbd6b345858728f6452ae2ed01e767 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:36 +0000
Subject: [PATCH 26/29] fix: accept scans of components whose id is larger than
 the number of components

---
 src/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/headers.rs b/src/headers.rs
index b451237..7864f0d 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -409,7 +409,7 @@ where
         // CS_i parameter, I don't need it so I might as well delete it
         let id = read_byte(buf)?;
 
-        if usize::from(id) > image.components.len()
+        if usize::from(id) >= MAX_COMPONENTS
         {
             return Err(DecodeErrors::SofError(format!(
                 "Too large component ID {}, expected value between 0 and {}",
-- 
2.43.0


From 4fd5ca29da919904c2cd2f7dafe8b13cbe3d8479 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:36 +0000
Subject: [PATCH 27/29] fix: do not stop decoding at comment, application, DRI
 and DQT segments between progressive scans

---
 src/marker.rs   | 4 +---
 src/mcu_prog.rs | 5 +++++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/marker.rs b/src/marker.rs
index 16522fc..2cf9dd0 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -71,9 +71,7 @@ impl Marker
             0xDB => Some(DQT),
             0xDC => Some(DNL),
             0xDD => Some(DRI),
-            0xE0 => Some(APP(0)),
-            0xE1 => Some(APP(1)),
-            0xEE => Some(APP(14)),
+            0xE0..=0xEF => Some(APP(n - 0xE0)),
             _ => None,
         }
     }
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index cfde704..868b427 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -122,6 +122,11 @@ impl Decoder
                         stream.reset();
                         continue 'eoi;
                     }
+                // these may also occur between scans
+                Marker::DQT | Marker::DRI | Marker::COM | Marker::APP(_) =>
+                    {
+                        self.parse_marker_inner(marker, reader)?;
+                    }
                 _ =>
                     {
                         break 'eoi;
-- 
2.43.0


From c8153037226532f77a9bc66539b2375dc330e8a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:20 +0000
Subject: [PATCH 28/29] fix: supply zero bits after a marker instead of bits
 that were already read

---
 src/bitstream.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index 3eacc5a..136885d 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -398,6 +398,8 @@ impl BitStream
 
         self.aligned_buffer = self.aligned_buffer.rotate_left(u32::from(n_bits));
         let bits = (self.aligned_buffer & mask) as i32;
+        // bits read must not come back as data when there are no more bytes to refill with
+        self.aligned_buffer &= !mask;
         self.bits_left = self.bits_left.saturating_sub(n_bits);
         bits
     }
-- 
2.43.0


From ef2ae5e7fe711607540fd54aa53505da03de60b0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:44 +0000
Subject: [PATCH 29/29] fix: run the AVX2 inverse DCT passes in the order of
 the scalar code so both round alike

---
 src/idct/avx2.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index 3dcdedb..a2afbb9 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -330,12 +330,7 @@ unsafe fn dequantize_and_idct_int_avx2(
                 };
             }
 
-            transpose(
-                &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
-                &mut row7,
-            );
-
-            // Process rows
+            // process columns, like the scalar code, so that intermediate values are rounded identically
             dct_pass!(512, 10);
 
             transpose(
@@ -343,10 +338,14 @@ unsafe fn dequantize_and_idct_int_avx2(
                 &mut row7,
             );
 
-            // process columns
+            // process rows
             dct_pass!(SCALE_BITS, 17);
 
             // transpose to original
+            transpose(
+                &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
+                &mut row7,
+            );
 
             // Pack i32 to i16's,
             // clamp them to be between 0-255
-- 
2.43.0

