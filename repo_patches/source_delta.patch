From 60d7d97e90a9bdea682467276ac70ddba8f52d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 01/14] fix: retry an interrupted read when skipping PGS
 segment data

---
 src/pgs/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pgs/mod.rs b/src/pgs/mod.rs
index 7716139..34b1379 100644
--- a/src/pgs/mod.rs
+++ b/src/pgs/mod.rs
@@ -137,9 +137,15 @@ where
     /// Will return `FailedSeek` if `seek` failed.
     /// Will return `InvalidSeekValue` if `to_skip` value can't be converted in i64.
     fn skip_data(&mut self, to_skip: usize) -> Result<(), ReadError> {
-        let buff = self.fill_buf().map_err(ReadError::FailedFillBuf)?;
-
-        if buff.len() >= to_skip {
+        let buff_len = loop {
+            match self.fill_buf() {
+                Ok(buff) => break buff.len(),
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => {} // Just retry
+                Err(err) => return Err(ReadError::FailedFillBuf(err)),
+            }
+        };
+
+        if buff_len >= to_skip {
             self.consume(to_skip);
         } else {
             let to_skip = i64::try_from(to_skip).map_err(|source| ReadError::InvalidSeekValue {
-- 
2.43.0


From 602a65599494b295b84819681e82313298856f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 02/14] fix: don't panic on a PGS palette or object without
 image at the end of a subtitle

---
 src/pgs/decoder.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pgs/decoder.rs b/src/pgs/decoder.rs
index f4da975..6562d88 100644
--- a/src/pgs/decoder.rs
+++ b/src/pgs/decoder.rs
@@ -132,8 +132,6 @@ impl PgsDecoder for DecodeTimeImage {
             }
         }
 
-        assert!(palette.is_none()); // palette should be transferred into image before get out of the function.
-        assert!(prev_ods.is_none()); // Ods data should be converted into image before get out of the function.
         Ok(subtitle)
     }
 }
-- 
2.43.0


From b602bfd2ca5f9377739060eaa938dd8b219e7225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 03/14] fix: look PGS palette entries up by their id, ids can
 be sparse or unordered

---
 src/pgs/pds.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index fcb5615..98b775a 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -12,27 +12,14 @@ pub enum Error {
 #[derive(Debug, Clone)]
 pub struct Palette {
     entries: Vec<PaletteEntry>,
-    offset: i16,
 }
 impl Palette {
-    fn new(entries: Vec<PaletteEntry>) -> Self {
-        let offset = compute_offset(&entries);
-        Self { entries, offset }
+    const fn new(entries: Vec<PaletteEntry>) -> Self {
+        Self { entries }
     }
 
-    #[expect(clippy::cast_sign_loss)]
     pub fn get(&self, id: u8) -> Option<&PaletteEntry> {
-        let idx = i16::from(id) + self.offset;
-        self.entries.get(idx as usize)
-    }
-}
-
-fn compute_offset(palette: &[PaletteEntry]) -> i16 {
-    //HACK offset is computed only on the first element, should be checked for all entries
-    if palette.is_empty() {
-        0
-    } else {
-        0 - i16::from(palette[0].entry_id)
+        self.entries.iter().find(|entry| entry.entry_id == id)
     }
 }
 
-- 
2.43.0


From 7362ecf47072c67891094a40840f1ad56f721197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 04/14] fix: don't print segment header read errors on stdout

---
 src/pgs/segment.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pgs/segment.rs b/src/pgs/segment.rs
index 52f8b68..47f142f 100644
--- a/src/pgs/segment.rs
+++ b/src/pgs/segment.rs
@@ -95,10 +95,7 @@ pub fn read_header<R: BufRead>(reader: &mut R) -> Result<Option<SegmentHeader>,
             // Buffer is empty, just return to end parsing
             Ok(None)
         }
-        Err(err) => {
-            println!("{err:?}");
-            Err(PgsError::SegmentFailReadHeader)
-        }
+        Err(_) => Err(PgsError::SegmentFailReadHeader),
     }
 }
 
-- 
2.43.0


From a4e330896df71854809916fea96a304b1634b84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 05/14] fix: return an error on an invalid PGS palette segment
 size instead of panic

---
 src/pgs/pds.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index 98b775a..bbd3719 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -7,6 +7,10 @@ pub enum Error {
     /// Read `PaletteDefinitionSegment` in a buffer failed.
     #[error("failed to read buffer with `PaletteDefinitionSegment`")]
     BufferParse(#[source] io::Error),
+
+    /// The size of the segment doesn't match with a list of palette entries.
+    #[error("invalid size for a `PaletteDefinitionSegment`: {0}")]
+    InvalidSize(usize),
 }
 
 #[derive(Debug, Clone)]
@@ -42,6 +46,10 @@ pub(crate) fn read<R: Read>(
     reader: &mut R,
     segments_size: usize,
 ) -> Result<PaletteDefinitionSegment, Error> {
+    if segments_size < 2 || (segments_size - 2) % 5 != 0 {
+        return Err(Error::InvalidSize(segments_size));
+    }
+
     let mut pds_buf = vec![0; segments_size];
     reader
         .read_exact(&mut pds_buf)
@@ -51,7 +59,6 @@ pub(crate) fn read<R: Read>(
     let palette_version_number = pds_buf[1];
 
     let nb_palette_entry: usize = (segments_size - 2) / 5;
-    assert_eq!((nb_palette_entry * 5) + 2, segments_size);
     let range = 0..nb_palette_entry;
     let palette_entries = range
         .map(|idx| {
-- 
2.43.0


From 2955a7097d85ca98ff143f89a74e4dcc1e07a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 06/14] fix: return an error on inconsistent PGS object
 segments instead of panic

---
 src/pgs/ods.rs | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/pgs/ods.rs b/src/pgs/ods.rs
index f78a608..bb04c82 100644
--- a/src/pgs/ods.rs
+++ b/src/pgs/ods.rs
@@ -43,6 +43,13 @@ pub enum Error {
         source: io::Error,
         buff_size: usize,
     },
+
+    /// The size of the segment is not consistent with the size of the object data.
+    #[error("segment size '{segments_size}' is not consistent with object data size '{data_size}'")]
+    InconsistentSize {
+        segments_size: usize,
+        data_size: usize,
+    },
 }
 
 #[repr(u8)]
@@ -130,13 +137,23 @@ pub fn read<Reader: BufRead + Seek>(
 
     match current_ods {
         None => {
-            assert!(
-                last_in_sequence_flag == LastInSequenceFlag::First
-                    || last_in_sequence_flag == LastInSequenceFlag::FirstAndLast
-            );
+            if last_in_sequence_flag == LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
             let data_size = read_obj_data_length(reader)?;
             let (width, height) = read_img_size(reader)?;
+            if data_size < 4
+                || segments_size < 11
+                || segments_size - 11 > data_size - 4
+                || (last_in_sequence_flag == LastInSequenceFlag::FirstAndLast
+                    && segments_size - 11 != data_size - 4)
+            {
+                return Err(Error::InconsistentSize {
+                    segments_size,
+                    data_size,
+                });
+            }
             let data_size = data_size - 4; // don't know why for now !!! Object Data Length include Width + Height ?
             let mut object_data = vec![0; data_size]; // Create a `Vec` for contain data of object (image)
 
@@ -151,9 +168,6 @@ pub fn read<Reader: BufRead + Seek>(
             };
 
             if last_in_sequence_flag == LastInSequenceFlag::FirstAndLast {
-                assert!(read_data_size == data_size);
-                assert!(segments_size == 11 + data_size);
-
                 Ok(ObjectDefinitionSegment::Complete(data))
             } else if last_in_sequence_flag == LastInSequenceFlag::First {
                 Ok(ObjectDefinitionSegment::Partial {
@@ -168,7 +182,17 @@ pub fn read<Reader: BufRead + Seek>(
             mut data,
             amount_of_data_read,
         }) => {
-            assert!(last_in_sequence_flag == LastInSequenceFlag::Last); //TODO: not first and not last ?
+            //TODO: not first and not last ?
+            if last_in_sequence_flag != LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
+            let data_size = data.object_data.len();
+            if segments_size < 4 || segments_size - 4 != data_size - amount_of_data_read {
+                return Err(Error::InconsistentSize {
+                    segments_size,
+                    data_size,
+                });
+            }
 
             let start_idx = amount_of_data_read;
             let end_idx = start_idx + (segments_size - 4);
-- 
2.43.0


From 922fc52d4678ac45596543b3bd4a8a133d32d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 07/14] fix: reject PGS images whose data don't cover all
 pixels, never panic on invalid run-length data

---
 src/pgs/decoder.rs   |  8 ++++++--
 src/pgs/mod.rs       |  4 ++++
 src/pgs/pgs_image.rs | 36 ++++++++++++++++++++++++++++++------
 3 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/pgs/decoder.rs b/src/pgs/decoder.rs
index 6562d88..5bbd85a 100644
--- a/src/pgs/decoder.rs
+++ b/src/pgs/decoder.rs
@@ -103,12 +103,16 @@ impl PgsDecoder for DecodeTimeImage {
                     // otherwise, keep read data to complete it with data from following segment.
                     if let ObjectDefinitionSegment::Complete(ods) = ods {
                         let palette = palette.take().ok_or(PgsError::MissingPalette)?;
-                        image = Some(RleEncodedImage::new(
+                        let rle_image = RleEncodedImage::new(
                             ods.width,
                             ods.height,
                             palette,
                             ods.object_data,
-                        ));
+                        );
+                        if !rle_image.is_complete() {
+                            return Err(PgsError::IncompleteImage);
+                        }
+                        image = Some(rle_image);
                     } else {
                         prev_ods = Some(ods);
                     }
diff --git a/src/pgs/mod.rs b/src/pgs/mod.rs
index 34b1379..2c6d2f5 100644
--- a/src/pgs/mod.rs
+++ b/src/pgs/mod.rs
@@ -73,6 +73,10 @@ pub enum PgsError {
     #[error("missing image during `Presentation Graphic Stream (PGS)` parsing")]
     MissingImage,
 
+    /// The data of the image don't describe all its pixels.
+    #[error("image data are incomplete or invalid")]
+    IncompleteImage,
+
     /// Palette is missing after image parsing.
     #[error("missing palette after image parsing")]
     MissingPalette,
diff --git a/src/pgs/pgs_image.rs b/src/pgs/pgs_image.rs
index ac4c144..0338614 100644
--- a/src/pgs/pgs_image.rs
+++ b/src/pgs/pgs_image.rs
@@ -29,6 +29,25 @@ impl RleEncodedImage {
         }
     }
 
+    // Number of pixels of the image.
+    fn nb_pixels(&self) -> usize {
+        usize::from(self.width) * usize::from(self.height)
+    }
+
+    /// Check if the encoded data describe all the pixels of the image.
+    pub(super) fn is_complete(&self) -> bool {
+        let nb_pixels = self.nb_pixels();
+        let mut pixels = self.iter();
+        let mut nb_encoded = 0;
+        while nb_encoded < nb_pixels {
+            match pixels.read_next_pixel() {
+                Some((_, nb_pixel)) => nb_encoded += usize::from(nb_pixel),
+                None => return false,
+            }
+        }
+        true
+    }
+
     /// Iterate on image pixels converted with a specified function.
     pub fn pixels<D: Primitive>(
         &self,
@@ -40,6 +59,7 @@ impl RleEncodedImage {
             current_color: LumaA([D::DEFAULT_MIN_VALUE, D::DEFAULT_MAX_VALUE]),
             default_color: LumaA([D::DEFAULT_MAX_VALUE, D::DEFAULT_MIN_VALUE]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_pixels_left: self.nb_pixels(),
             convert,
         }
     }
@@ -80,6 +100,7 @@ impl<'a> IntoIterator for &'a RleEncodedImage {
                 <u8 as Primitive>::DEFAULT_MIN_VALUE,
             ]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_pixels_left: self.nb_pixels(),
             convert: pe_to_luma_a,
         }
     }
@@ -173,6 +194,7 @@ pub struct RlePixelIterator<'a, C> {
     current_color: C,
     default_color: C,
     nb_remaining_pixels: u16,
+    nb_pixels_left: usize,
     convert: PixelConversion<C>,
 }
 
@@ -185,6 +207,7 @@ where
     type Item = Pix;
 
     fn next(&mut self) -> Option<Self::Item> {
+        self.nb_pixels_left = self.nb_pixels_left.checked_sub(1)?;
         if self.nb_remaining_pixels > 0 {
             self.nb_remaining_pixels -= 1;
             Some(self.current_color)
@@ -205,8 +228,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let nb_pixels = (self.rle_image.width() * self.rle_image.height()) as usize;
-        (nb_pixels, Some(nb_pixels))
+        (self.nb_pixels_left, Some(self.nb_pixels_left))
     }
 }
 
@@ -234,7 +256,7 @@ impl<C> RlePixelIterator<'_, C> {
             let next = color[0];
             if next == MARKER {
                 let mut l2 = [0; 1];
-                self.raw_data.read_exact(&mut l2).unwrap();
+                self.raw_data.read_exact(&mut l2).ok()?;
 
                 if l2[0] == MARKER {
                     //break; // End of line
@@ -243,7 +265,7 @@ impl<C> RlePixelIterator<'_, C> {
                     let nb_pixels = match CountMarker::from(byte) {
                         CountMarker::Long => {
                             let mut l3 = [0; 1];
-                            self.raw_data.read_exact(&mut l3).unwrap();
+                            self.raw_data.read_exact(&mut l3).ok()?;
                             let count_bytes = [byte & 0b0011_1111, l3[0]];
                             u16::from_be_bytes(count_bytes)
                         }
@@ -258,12 +280,14 @@ impl<C> RlePixelIterator<'_, C> {
                         ColorMarker::Color0 => COLOR_0,
                         ColorMarker::ColorN => {
                             let mut color = [0; 1];
-                            self.raw_data.read_exact(&mut color).unwrap();
+                            self.raw_data.read_exact(&mut color).ok()?;
                             color[0]
                         }
                     };
 
-                    return Some((color, nb_pixels));
+                    if nb_pixels > 0 {
+                        return Some((color, nb_pixels));
+                    }
                 }
             } else {
                 return Some((next, 1));
-- 
2.43.0


From c262cf2dcb78f5729a9e1db212cb7474d90cb4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 08/14] fix: end PGS iteration for good at the end of stream
 and after an unrecoverable error

---
 src/pgs/sup.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/pgs/sup.rs b/src/pgs/sup.rs
index 38e1b4b..50f0b1b 100644
--- a/src/pgs/sup.rs
+++ b/src/pgs/sup.rs
@@ -14,6 +14,7 @@ where
     Decoder: PgsDecoder,
 {
     reader: Reader,
+    finished: bool,
     phantom_data: PhantomData<Decoder>,
 }
 
@@ -26,6 +27,7 @@ where
     pub const fn new(reader: Reader) -> Self {
         Self {
             reader,
+            finished: false,
             phantom_data: PhantomData,
         }
     }
@@ -55,7 +57,21 @@ where
     type Item = Result<Decoder::Output, PgsError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        Decoder::parse_next(&mut self.reader).transpose()
+        if self.finished {
+            return None;
+        }
+        let item = Decoder::parse_next(&mut self.reader).transpose();
+        // The end is definitive, and after an error the position in the stream is unknown,
+        // except if the segments was read but their content don't provide an image.
+        self.finished = match &item {
+            None => true,
+            Some(Ok(_)) => false,
+            Some(Err(err)) => !matches!(
+                err,
+                PgsError::MissingImage | PgsError::MissingPalette | PgsError::IncompleteImage
+            ),
+        };
+        item
     }
 
     // Set lower bound to promote the allocation of a minimum number of elements.
-- 
2.43.0


From 52eea5607a0e6cd03300420603ad0946438d6d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 09/14] fix: parse PES packets with a decode timestamp, their
 tags are 0011 and 0001

---
 src/vobsub/mpeg2/pes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/mpeg2/pes.rs b/src/vobsub/mpeg2/pes.rs
index 488ed18..0669b9e 100644
--- a/src/vobsub/mpeg2/pes.rs
+++ b/src/vobsub/mpeg2/pes.rs
@@ -70,9 +70,11 @@ fn pts_only(input: &[u8]) -> IResult<&[u8], PtsDts> {
 /// Helper for `pts_dts`.  Parses the `PTS` and `DTS` case.
 fn pts_and_dts(input: &[u8]) -> IResult<&[u8], PtsDts> {
     bits(|input| {
-        let parse_tag = tag_bits(0b0010, 4u8);
+        // The `PTS` is announced by `0011` and the `DTS` by `0001` in this case.
+        let pts_tag = tag_bits(0b0011, 4u8);
+        let dts_tag = tag_bits(0b0001, 4u8);
         let (input, (_, pts, _, dts)): ((&[u8], usize), (_, _, _, _)) =
-            (&parse_tag, clock, &parse_tag, clock).parse(input)?;
+            (pts_tag, clock, dts_tag, clock).parse(input)?;
         Ok((
             input,
             PtsDts {
-- 
2.43.0


From 51fa668c1af575dafaa6284ef94ac6eeccbfbfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 10/14] fix: end a VobSub subtitle without stop date five
 seconds after its start

---
 src/vobsub/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 6357300..5644d7e 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -33,7 +33,7 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         (
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
-                TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+                TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
             ),
             VobSubIndexedImage::from(rle_image),
         )
@@ -52,7 +52,7 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
     ) -> Self::Output {
         Self::new(
             TimePoint::from_secs(start_time),
-            TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+            TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
         )
     }
 }
-- 
2.43.0


From 43dc96c3b5a24c8c99a47293c9cba4378355178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 11/14] fix: return an error on an undecodable VobSub bitmap
 instead of panic

---
 src/vobsub/decoder.rs | 18 +++++++++---------
 src/vobsub/img.rs     | 12 +++++++-----
 src/vobsub/sub.rs     |  2 +-
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 5644d7e..1d7de2b 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -1,4 +1,4 @@
-use super::{img::VobSubRleImage, VobSubIndexedImage};
+use super::{img::VobSubRleImage, VobSubError, VobSubIndexedImage};
 use crate::time::{TimePoint, TimeSpan};
 
 /// The default length of a subtitle if no end time is provided and no
@@ -17,7 +17,7 @@ pub trait VobSubDecoder<'a> {
         end_time: Option<f64>,
         force: bool,
         image: VobSubRleImage<'a>,
-    ) -> Self::Output;
+    ) -> Result<Self::Output, VobSubError>;
 }
 
 /// Implement creation of a tuple of [`TimeSpan`] and [`VobSubIndexedImage`] from parsing.
@@ -29,14 +29,14 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         end_time: Option<f64>,
         _force: bool,
         rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        (
+    ) -> Result<Self::Output, VobSubError> {
+        Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
                 TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
             ),
-            VobSubIndexedImage::from(rle_image),
-        )
+            VobSubIndexedImage::try_from(rle_image)?,
+        ))
     }
 }
 
@@ -49,10 +49,10 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
         end_time: Option<f64>,
         _force: bool,
         _rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        Self::new(
+    ) -> Result<Self::Output, VobSubError> {
+        Ok(Self::new(
             TimePoint::from_secs(start_time),
             TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
-        )
+        ))
     }
 }
diff --git a/src/vobsub/img.rs b/src/vobsub/img.rs
index 28615cc..5fbf85f 100644
--- a/src/vobsub/img.rs
+++ b/src/vobsub/img.rs
@@ -270,15 +270,17 @@ impl ImageArea for VobSubIndexedImage {
     }
 }
 
-impl From<VobSubRleImage<'_>> for VobSubIndexedImage {
-    fn from(rle_image: VobSubRleImage) -> Self {
-        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data()).unwrap();
-        Self::new(
+impl TryFrom<VobSubRleImage<'_>> for VobSubIndexedImage {
+    type Error = Error;
+
+    fn try_from(rle_image: VobSubRleImage) -> Result<Self, Self::Error> {
+        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data())?;
+        Ok(Self::new(
             rle_image.area(),
             *rle_image.palette(),
             *rle_image.alpha(),
             decompressed_image,
-        )
+        ))
     }
 }
 
diff --git a/src/vobsub/sub.rs b/src/vobsub/sub.rs
index bc7f414..762928d 100644
--- a/src/vobsub/sub.rs
+++ b/src/vobsub/sub.rs
@@ -395,7 +395,7 @@ where
     let rle_image = VobSubRleImage::new(area, palette, alpha, image_data);
 
     // Return our parsed subtitle.
-    let result = D::from_data(start_time, end_time, force, rle_image);
+    let result = D::from_data(start_time, end_time, force, rle_image)?;
     trace!("Parsed subtitle: {:?}", &result);
     Ok(result)
 }
-- 
2.43.0


From 867a1d1ae832a91935f8c89b864668694695a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 12/14] fix: report an incomplete VobSub subtitle as error, and
 don't swallow the following one to complete it

---
 src/vobsub/sub.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/vobsub/sub.rs b/src/vobsub/sub.rs
index 762928d..80fffa5 100644
--- a/src/vobsub/sub.rs
+++ b/src/vobsub/sub.rs
@@ -448,6 +448,8 @@ impl Sub {
 /// see them.
 pub struct VobsubParser<'a, Decoder> {
     pes_packets: ps::PesPackets<'a>,
+    /// First packet of the next subtitle, found while completing the previous one.
+    pending: Option<ps::PesPacket<'a>>,
     phantom_data: PhantomData<Decoder>,
 }
 
@@ -458,6 +460,7 @@ impl<'a, Decoder> VobsubParser<'a, Decoder> {
     pub const fn new(input: &'a [u8]) -> Self {
         Self {
             pes_packets: ps::pes_packets(input),
+            pending: None,
             phantom_data: PhantomData,
         }
     }
@@ -467,13 +470,17 @@ impl<'a, Decoder> VobsubParser<'a, Decoder> {
         profiling::scope!("VobsubParser next_sub_packet");
 
         // Get the `PES` packet containing the first chunk of our subtitle.
-        let first: ps::PesPacket = try_iter!(self.pes_packets.next());
+        let first: ps::PesPacket = match self.pending.take() {
+            Some(pending) => pending,
+            None => try_iter!(self.pes_packets.next()),
+        };
 
         // Fetch useful information from our first packet.
         let Some(pts_dts) = first.pes_packet.header_data.pts_dts else {
             return Some(Err(VobSubError::MissingTimingForSubtitle));
         };
-        let base_time = pts_dts.pts.as_seconds();
+        let pts = pts_dts.pts;
+        let base_time = pts.as_seconds();
         let substream_id = first.pes_packet.substream_id;
 
         // Figure out how many total bytes we'll need to collect from one
@@ -488,8 +495,12 @@ impl<'a, Decoder> VobsubParser<'a, Decoder> {
 
         // Keep fetching more packets until we have enough.
         while sub_packet.len() < wanted {
-            // Get the next PES packet in the Program Stream.
-            let next: ps::PesPacket = try_iter!(self.pes_packets.next());
+            // Get the next PES packet in the Program Stream. The end of the
+            // stream is not expected until the subtitle is complete.
+            let next: ps::PesPacket = try_iter!(self
+                .pes_packets
+                .next()
+                .or(Some(Err(VobSubError::UnexpectedEndOfSubtitleData))));
 
             // Make sure this is part of the same subtitle stream.  This is
             // mostly just paranoia; I don't expect this to happen.
@@ -501,6 +512,15 @@ impl<'a, Decoder> VobsubParser<'a, Decoder> {
                 continue;
             }
 
+            // Another time stamp means than the next subtitle start here, and the
+            // end of the current one is lost.
+            if let Some(next_pts_dts) = &next.pes_packet.header_data.pts_dts {
+                if next_pts_dts.pts != pts {
+                    self.pending = Some(next);
+                    return Some(Err(VobSubError::UnexpectedEndOfSubtitleData));
+                }
+            }
+
             // Add the extra bytes to our buffer.
             sub_packet.extend_from_slice(next.pes_packet.data);
         }
-- 
2.43.0


From 2f456eae704e91770e802073e065daf5d04bdab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 13/14] fix: give up a VobSub subtitle which can't be
 completed, instead of skip all the following packets

---
 src/vobsub/mpeg2/ps.rs |  7 +++++++
 src/vobsub/sub.rs      | 12 ++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/vobsub/mpeg2/ps.rs b/src/vobsub/mpeg2/ps.rs
index d39a03b..68506df 100644
--- a/src/vobsub/mpeg2/ps.rs
+++ b/src/vobsub/mpeg2/ps.rs
@@ -111,6 +111,13 @@ pub struct PesPackets<'a> {
     remaining: &'a [u8],
 }
 
+impl PesPackets<'_> {
+    /// The size of the input not parsed yet.
+    pub const fn remaining_len(&self) -> usize {
+        self.remaining.len()
+    }
+}
+
 impl<'a> Iterator for PesPackets<'a> {
     type Item = Result<PesPacket<'a>, VobSubError>;
 
diff --git a/src/vobsub/sub.rs b/src/vobsub/sub.rs
index 80fffa5..636190f 100644
--- a/src/vobsub/sub.rs
+++ b/src/vobsub/sub.rs
@@ -443,6 +443,10 @@ impl Sub {
     }
 }
 
+/// The maximum quantity of data, in bytes, between two packets of a subtitle.
+/// It's more than the biggest possible subtitle.
+const MAX_PACKETS_GAP: usize = 0x1_0000;
+
 /// An internal iterator over subtitles.  These subtitles may not have a
 /// valid `end_time`, so we'll try to fix them up before letting the user
 /// see them.
@@ -494,6 +498,7 @@ impl<'a, Decoder> VobsubParser<'a, Decoder> {
         sub_packet.extend_from_slice(first.pes_packet.data);
 
         // Keep fetching more packets until we have enough.
+        let mut remaining = self.pes_packets.remaining_len();
         while sub_packet.len() < wanted {
             // Get the next PES packet in the Program Stream. The end of the
             // stream is not expected until the subtitle is complete.
@@ -509,6 +514,12 @@ impl<'a, Decoder> VobsubParser<'a, Decoder> {
                     "Found subtitle for stream 0x{:x} while looking for 0x{:x}",
                     next.pes_packet.substream_id, substream_id
                 );
+                // Too far from the previous packet: the subtitle can't be completed,
+                // or its stream id is corrupted. Don't lose all the following ones.
+                if remaining - self.pes_packets.remaining_len() > MAX_PACKETS_GAP {
+                    self.pending = Some(next);
+                    return Some(Err(VobSubError::UnexpectedEndOfSubtitleData));
+                }
                 continue;
             }
 
@@ -523,6 +534,7 @@ impl<'a, Decoder> VobsubParser<'a, Decoder> {
 
             // Add the extra bytes to our buffer.
             sub_packet.extend_from_slice(next.pes_packet.data);
+            remaining = self.pes_packets.remaining_len();
         }
 
         // Check to make sure we didn't get too _many_ bytes.  Again, this
-- 
2.43.0


From d5688c01e9159aa35f2c79331c9d459a9c1b38c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 14/14] fix: report a failure to write the last bytes of a
 dumped image

---
 src/image/utils.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/image/utils.rs b/src/image/utils.rs
index da24b27..193a116 100644
--- a/src/image/utils.rs
+++ b/src/image/utils.rs
@@ -1,9 +1,9 @@
 use crate::SubtileError;
-use image::{EncodableLayout, Pixel, PixelWithColorType};
+use image::{EncodableLayout, ImageFormat, Pixel, PixelWithColorType};
 use std::{
     borrow::Borrow,
-    fs::create_dir_all,
-    io,
+    fs::{create_dir_all, write},
+    io::{self, Cursor},
     ops::Deref,
     path::{Path, PathBuf},
 };
@@ -85,5 +85,9 @@ where
     [Pix::Subpixel]: EncodableLayout,
     Container: Deref<Target = [Pix::Subpixel]>,
 {
-    image.save(filename)
+    // The PNG encoder ignores a failure to write the last chunk, so encode in memory first.
+    let mut png = Cursor::new(Vec::new());
+    image.write_to(&mut png, ImageFormat::Png)?;
+    write(filename, png.into_inner())?;
+    Ok(())
 }
-- 
2.43.0

