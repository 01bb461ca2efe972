From 79bc6be1b53b3695b7bd7b1aaf54bda92ddc022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 01/10] fix: consume data after the trailer instead of looping
 forever

---
 src/reader/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 35994f3..e2fc86a 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -777,7 +777,7 @@ impl StreamingDecoder {
                 debug_assert_eq!(0, b);
                 goto!(BlockEnd, emit Decoded::DataEnd)
             }
-            Trailer => goto!(0, Trailer, emit Decoded::Nothing),
+            Trailer => goto!(buf.len(), Trailer, emit Decoded::Nothing),
         }
     }
 
-- 
2.43.0


From 2f898a3b7911cdbb51e3b2ac1183b56a774adfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 02/10] fix: don't treat unknown blocks as a repetition of the
 last extension

---
 src/reader/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index e2fc86a..b192836 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -643,6 +643,9 @@ impl StreamingDecoder {
                     }
                     None => {
                         if self.allow_unknown_blocks {
+                            // not an extension, so it must not inherit the last extension's label or data
+                            self.ext.data.clear();
+                            self.ext.id = AnyExtension(0);
                             goto!(ExtensionDataBlock(b as usize))
                         } else {
                             Err(DecodingError::format("unknown block type encountered"))
-- 
2.43.0


From 47fcb3118797da88a77dd5b91e9e416fdd53e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 03/10] fix: yield frames without pixels from the frame
 iterator, which is fused

---
 src/reader/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 8911d8e..c51040b 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -363,11 +363,8 @@ impl<R> Decoder<R> where R: Read {
     }
 
     /// This is private for iterator's use
-    fn take_current_frame(&mut self) -> Option<Frame<'static>> {
-        if self.current_frame.buffer.is_empty() {
-            return None;
-        }
-        Some(self.current_frame.take())
+    fn take_current_frame(&mut self) -> Frame<'static> {
+        self.current_frame.take()
     }
 
     /// Reads the data of the current frame into a pre-allocated buffer.
@@ -496,7 +493,7 @@ impl<R: Read> Iterator for DecoderIter<R> {
     fn next(&mut self) -> Option<Self::Item> {
         if !self.ended {
             match self.inner.read_next_frame() {
-                Ok(Some(_)) => self.inner.take_current_frame().map(Ok),
+                Ok(Some(_)) => Some(Ok(self.inner.take_current_frame())),
                 Ok(None) => {
                     self.ended = true;
                     None
-- 
2.43.0


From d186e0bad07472264937dfb2cbd191dd053bf7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:47 +0000
Subject: [PATCH 04/10] fix: apply the memory limit to the buffer reserved for
 raw LZW data

---
 src/reader/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index c51040b..94d84a0 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -349,9 +349,11 @@ impl<R> Decoder<R> where R: Read {
                     } else {
                         Vec::new()
                     };
-                    // Guesstimate 2bpp
-                    vec.try_reserve(usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4)
-                        .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
+                    // Guesstimate 2bpp, unless the frame is larger than the memory limit
+                    if self.pixel_converter.check_buffer_size(&self.current_frame).is_ok() {
+                        vec.try_reserve(usize::from(self.current_frame.width) * usize::from(self.current_frame.height) / 4)
+                            .map_err(|_| io::Error::from(io::ErrorKind::OutOfMemory))?;
+                    }
                     self.copy_lzw_into_buffer(min_code_size, &mut vec)?;
                     self.current_frame.buffer = Cow::Owned(vec);
                 },
-- 
2.43.0


From d8b8278e0a99916be7cfd40728566a16f23d3a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:47 +0000
Subject: [PATCH 05/10] fix: don't write the trailer again when into_inner
 failed to write it

---
 src/encoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 1933478..45acecb 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -360,8 +360,10 @@ impl<W: Write> Encoder<W> {
 
     /// Finishes writing, and returns the `io::Write` instance used by this encoder
     pub fn into_inner(mut self) -> io::Result<W> {
-        self.write_trailer()?;
-        self.w.take().ok_or(io::Error::from(io::ErrorKind::Unsupported))
+        let result = self.write_trailer();
+        // without the writer, `drop` won't write the trailer again if this failed
+        let w = self.w.take().ok_or(io::Error::from(io::ErrorKind::Unsupported))?;
+        result.map(|()| w)
     }
 
     /// Write the final tailer.
-- 
2.43.0


From 1b73611a57fe84edfa452db49b9ed752180110f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:47 +0000
Subject: [PATCH 06/10] fix: don't write the trailer when constructing an
 encoder fails

---
 src/encoder.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 45acecb..ab6da50 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -134,12 +134,18 @@ impl<W: Write> Encoder<W> {
     /// `global_palette` gives the global color palette in the format `[r, g, b, ...]`,
     /// if no global palette shall be used an empty slice may be supplied.
     pub fn new(w: W, width: u16, height: u16, global_palette: &[u8]) -> Result<Self, EncodingError> {
-        Self {
+        let mut encoder = Self {
             w: Some(w),
             global_palette: false,
             width, height,
             buffer: Vec::new(),
-        }.write_global_palette(global_palette)
+        };
+        let result = encoder.write_global_palette(global_palette);
+        if result.is_err() {
+            // there's no file to finish, so `drop` must not write the trailer
+            encoder.w = None;
+        }
+        result.map(|()| encoder)
     }
 
     /// Write an extension block that signals a repeat behaviour.
@@ -148,7 +154,7 @@ impl<W: Write> Encoder<W> {
     }
 
     /// Writes the global color palette.
-    fn write_global_palette(mut self, palette: &[u8]) -> Result<Self, EncodingError> {
+    fn write_global_palette(&mut self, palette: &[u8]) -> Result<(), EncodingError> {
         let mut flags = 0;
         flags |= 0b1000_0000;
         let (palette, padding, table_size) = Self::check_color_table(palette)?;
@@ -159,8 +165,7 @@ impl<W: Write> Encoder<W> {
         // should use some sensible value here or even allow configuring it?
         flags |= table_size << 4; // wtf flag
         self.write_screen_desc(flags)?;
-        Self::write_color_table(self.writer()?, palette, padding)?;
-        Ok(self)
+        Self::write_color_table(self.writer()?, palette, padding)
     }
 
     /// Writes a frame to the image.
-- 
2.43.0


From a838a105966852c7bce10a2799f8506018c88dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:47 +0000
Subject: [PATCH 07/10] fix: validate the frame's palette before writing its
 control extension

---
 src/encoder.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index ab6da50..e8c6ff3 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -181,12 +181,6 @@ impl<W: Write> Encoder<W> {
     }
 
     fn write_frame_header(&mut self, frame: &Frame<'_>) -> Result<(), EncodingError> {
-        self.write_extension(ExtensionData::new_control_ext(
-            frame.delay,
-            frame.dispose,
-            frame.needs_user_input,
-            frame.transparent,
-        ))?;
         let mut flags = 0;
         if frame.interlaced {
             flags |= 0b0100_0000;
@@ -201,6 +195,13 @@ impl<W: Write> Encoder<W> {
             None if self.global_palette => None,
             _ => return Err(EncodingError::from(EncodingFormatError::MissingColorPalette)),
         };
+        // only after the frame is known to be valid
+        self.write_extension(ExtensionData::new_control_ext(
+            frame.delay,
+            frame.dispose,
+            frame.needs_user_input,
+            frame.transparent,
+        ))?;
         let mut tmp = tmp_buf::<10>();
         tmp.write_le(Block::Image as u8)?;
         tmp.write_le(frame.left)?;
-- 
2.43.0


From 203d2d683955a700a35c940bc1670d5bd73f8ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:47 +0000
Subject: [PATCH 08/10] fix: recognize the trailer of a file without any blocks

---
 src/reader/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index b192836..539e75b 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -613,7 +613,8 @@ impl StreamingDecoder {
                     }
                     goto!(n, GlobalPalette(left - n))
                 } else {
-                    goto!(BlockStart(b), emit Decoded::GlobalPalette(
+                    // not consumed, because it may be the trailer
+                    goto!(0, BlockEnd, emit Decoded::GlobalPalette(
                         mem::take(&mut self.global_color_table).into_boxed_slice()
                     ))
                 }
-- 
2.43.0


From 631b72380265a653c6b0754aca8781e4e85d2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:36 +0000
Subject: [PATCH 09/10] fix: don't check the end code of image data that is
 being skipped

---
 src/reader/decoder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reader/decoder.rs b/src/reader/decoder.rs
index 539e75b..8eca8cc 100644
--- a/src/reader/decoder.rs
+++ b/src/reader/decoder.rs
@@ -247,6 +247,8 @@ struct LzwReader {
     decoder: Option<LzwDecoder>,
     min_code_size: u8,
     check_for_end_code: bool,
+    /// Some data was not given to the `decoder` since the last `reset`
+    skipped_data: bool,
 }
 
 impl LzwReader {
@@ -255,6 +257,7 @@ impl LzwReader {
             decoder: None,
             min_code_size: 0,
             check_for_end_code,
+            skipped_data: false,
         }
     }
 
@@ -269,6 +272,7 @@ impl LzwReader {
 
     pub fn reset(&mut self, min_code_size: u8) -> Result<(), DecodingError> {
         Self::check_code_size(min_code_size)?;
+        self.skipped_data = false;
 
         // The decoder can be reused if the code size stayed the same
         if self.min_code_size != min_code_size || self.decoder.is_none() {
@@ -746,6 +750,7 @@ impl StreamingDecoder {
                 if left > 0 {
                     let n = cmp::min(left, buf.len());
                     if self.lzw_reader.has_ended() || matches!(write_into, OutputBuffer::None) {
+                        self.lzw_reader.skipped_data = true;
                         return goto!(n, DecodeSubBlock(left - n), emit Decoded::Nothing);
                     }
 
@@ -765,6 +770,9 @@ impl StreamingDecoder {
                 } else if b != 0 {
                     // decode next sub-block
                     goto!(DecodeSubBlock(b as usize))
+                } else if self.lzw_reader.skipped_data {
+                    // the end code is either already found, or can't be checked
+                    goto!(0, FrameDecoded)
                 } else {
                     let (_, bytes_len) = self.lzw_reader.decode_bytes(&[], write_into)?;
 
-- 
2.43.0


From 763b99df57cba02cf18924b6a8a87baf3c0f3d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:56 +0000
Subject: [PATCH 10/10] fix: treat an empty buffer as filled without decoding
 image data

---
 src/reader/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/converter.rs b/src/reader/converter.rs
index dbc80df..10bbe6a 100644
--- a/src/reader/converter.rs
+++ b/src/reader/converter.rs
@@ -90,6 +90,10 @@ impl PixelConverter {
     /// Use `read_into_buffer` to deinterlace
     #[inline(never)]
     pub(crate) fn fill_buffer(&mut self, current_frame: &Frame<'_>, mut buf: &mut [u8], data_callback: FillBufferCallback<'_>) -> Result<bool, DecodingError> {
+        // there's nothing to fill, and decoding into an empty buffer would look like the end of the data
+        if buf.is_empty() {
+            return Ok(true);
+        }
         loop {
             let decode_into = match self.color_output {
                 // When decoding indexed data, LZW can write the pixels directly
-- 
2.43.0

