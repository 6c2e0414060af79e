From 1b66cc4c364dfaf9e19616dd0c2ae77cb8834dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:11 +0000
Subject: [PATCH 01/18] fix: TokioReader read into an empty buffer and always
 failed

---
 src/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3ac1317..5ca5124 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -113,8 +113,8 @@ impl<T: tokio::io::AsyncRead + tokio::io::AsyncSeek + Unpin + Send + Debug> Toki
         file.seek(SeekFrom::Start(range.start)).await?;
 
         let to_read = range.end - range.start;
-        let mut buffer = Vec::with_capacity(to_read as usize);
-        let read = file.read(&mut buffer).await? as u64;
+        let mut buffer = Vec::new();
+        let read = (&mut *file).take(to_read).read_to_end(&mut buffer).await? as u64;
         if read != to_read {
             return Err(AsyncTiffError::EndOfFile(to_read, read));
         }
-- 
2.43.0


From 9b0e08c5985aed65c61db42e742b23d6406a9735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:34 +0000
Subject: [PATCH 02/18] fix: predictors must not mix planes of planar tiles

---
 src/tile.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index 5b586b2..bf5cd3a 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -122,6 +122,12 @@ impl Tile {
             }
         };
 
+        // Each plane of a planar tile is differenced on its own, so samples are adjacent there.
+        let predictor_samples = match self.planar_configuration {
+            PlanarConfiguration::Chunky => samples,
+            PlanarConfiguration::Planar => 1,
+        };
+
         // Apply predictor on the full encoded tile width, then crop afterward.
         let decoded = match self.predictor {
             Predictor::None => {
@@ -131,12 +137,12 @@ impl Tile {
             Predictor::Horizontal => unpredict_hdiff(
                 decoded_tile,
                 self.endianness,
-                samples,
+                predictor_samples,
                 bits_per_sample,
                 tile_width,
             ),
             Predictor::FloatingPoint => {
-                unpredict_float(decoded_tile, samples, bits_per_sample, tile_width)?
+                unpredict_float(decoded_tile, predictor_samples, bits_per_sample, tile_width)?
             }
         };
 
-- 
2.43.0


From 897b784ec25c1f4523b0af66a27bbb57acf9e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:38 +0000
Subject: [PATCH 03/18] fix: out-of-range tile indices are an error instead of
 another tile or a panic

---
 src/ifd.rs | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 4303248..9d52f53 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -720,11 +720,15 @@ impl ImageFileDirectory {
     }
 
     /// Find the byte range(s) for the tile located at `x` column and `y` row.
+    ///
+    /// Returns `None` if this is not a tiled TIFF or if it has no such tile.
     pub fn tile_byte_range(&self, x: usize, y: usize) -> Option<TileByteRange> {
         TileByteRange::from_ifd_tile(self, x, y)
     }
 
     /// Find the byte ranges for the tiles located at `x` column and `y` row.
+    ///
+    /// Returns `None` if this is not a tiled TIFF or if it lacks any of the tiles.
     pub fn tiles_byte_ranges(&self, xy: &[(usize, usize)]) -> Option<TilesByteRanges> {
         TilesByteRanges::from_ifd_tiles(self, xy)
     }
@@ -741,7 +745,7 @@ impl ImageFileDirectory {
     ) -> AsyncTiffResult<Tile> {
         let byte_ranges = self
             .tile_byte_range(x, y)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+            .ok_or_else(|| self.missing_tile_error(&[(x, y)]))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes.into_tile(x, y, self))
     }
@@ -754,7 +758,7 @@ impl ImageFileDirectory {
     ) -> AsyncTiffResult<Vec<Tile>> {
         let byte_ranges = self
             .tiles_byte_ranges(xy)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+            .ok_or_else(|| self.missing_tile_error(xy))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes
             .into_iter()
@@ -763,6 +767,17 @@ impl ImageFileDirectory {
             .collect())
     }
 
+    /// The error for tiles that have no byte range.
+    fn missing_tile_error(&self, xy: &[(usize, usize)]) -> AsyncTiffError {
+        let missing = xy
+            .iter()
+            .find(|(x, y)| self.tile_byte_range(*x, *y).is_none());
+        match (missing, self.tile_count()) {
+            (Some((x, y)), Some(_)) => AsyncTiffError::TileIndexError(*x as _, *y as _),
+            _ => AsyncTiffError::General("Not a tiled TIFF".to_string()),
+        }
+    }
+
     /// Return the number of x/y tiles in the IFD
     /// Returns `None` if this is not a tiled TIFF
     pub fn tile_count(&self) -> Option<(usize, usize)> {
@@ -796,24 +811,30 @@ impl TileByteRange {
         let tile_offsets = ifd.tile_offsets.as_deref()?;
         let tile_byte_counts = ifd.tile_byte_counts.as_deref()?;
         let (tiles_per_row, tiles_per_col) = ifd.tile_count()?;
+        if x >= tiles_per_row || y >= tiles_per_col {
+            return None;
+        }
         match ifd.planar_configuration {
             PlanarConfiguration::Chunky => {
-                let idx = (y * tiles_per_row) + x;
-                let offset = tile_offsets[idx];
-                let byte_count = tile_byte_counts[idx];
-                Some(TileByteRange::Chunky(offset..(offset + byte_count)))
+                let idx = y.checked_mul(tiles_per_row)?.checked_add(x)?;
+                let offset = *tile_offsets.get(idx)?;
+                let byte_count = *tile_byte_counts.get(idx)?;
+                Some(TileByteRange::Chunky(
+                    offset..offset.checked_add(byte_count)?,
+                ))
             }
             PlanarConfiguration::Planar => {
-                let tiles_per_band = tiles_per_row * tiles_per_col;
+                let tiles_per_band = tiles_per_row.checked_mul(tiles_per_col)?;
+                let idx = y.checked_mul(tiles_per_row)?.checked_add(x)?;
                 let num_bands = ifd.samples_per_pixel as usize;
                 let band_ranges = (0..num_bands)
                     .map(|band| {
-                        let band_idx = (band * tiles_per_band) + (y * tiles_per_row) + x;
-                        let offset = tile_offsets[band_idx];
-                        let byte_count = tile_byte_counts[band_idx];
-                        offset..(offset + byte_count)
+                        let band_idx = band.checked_mul(tiles_per_band)?.checked_add(idx)?;
+                        let offset = *tile_offsets.get(band_idx)?;
+                        let byte_count = *tile_byte_counts.get(band_idx)?;
+                        Some(offset..offset.checked_add(byte_count)?)
                     })
-                    .collect::<Vec<_>>();
+                    .collect::<Option<Vec<_>>>()?;
                 Some(TileByteRange::Planar(band_ranges))
             }
         }
-- 
2.43.0


From 32b53efe998fa6d2a1ad71538da0696dfb94e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:43 +0000
Subject: [PATCH 04/18] fix: report cycles in the IFD chain instead of reading
 them forever

---
 src/metadata/reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 34f6a7f..8cfc196 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Read;
 
 use bytes::Bytes;
@@ -24,6 +24,8 @@ pub struct TiffMetadataReader {
     endianness: Endianness,
     bigtiff: bool,
     next_ifd_offset: Option<u64>,
+    /// The offsets of the IFDs read so far, to detect cycles in the IFD chain.
+    visited: HashSet<u64>,
 }
 
 impl TiffMetadataReader {
@@ -79,6 +81,7 @@ impl TiffMetadataReader {
             endianness,
             bigtiff,
             next_ifd_offset: Some(first_ifd_location),
+            visited: HashSet::new(),
         })
     }
 
@@ -112,11 +115,15 @@ impl TiffMetadataReader {
         fetch: &F,
     ) -> AsyncTiffResult<Option<ImageFileDirectory>> {
         if let Some(ifd_start) = self.next_ifd_offset {
+            if self.visited.contains(&ifd_start) {
+                return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
+            }
             let ifd_reader =
                 ImageFileDirectoryReader::open(fetch, ifd_start, self.bigtiff, self.endianness)
                     .await?;
             let ifd = ifd_reader.read(fetch).await?;
             let next_ifd_offset = ifd_reader.finish(fetch).await?;
+            self.visited.insert(ifd_start);
             self.next_ifd_offset = next_ifd_offset;
             Ok(Some(ifd))
         } else {
-- 
2.43.0


From 7eba4159168278f2632df8bd0f3a30e825d902e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:47 +0000
Subject: [PATCH 05/18] fix: malformed tag entries are an error instead of a
 panic

---
 src/metadata/reader.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 8cfc196..178bc44 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -278,9 +278,9 @@ async fn read_tag<F: MetadataFetch>(
     let tag_name = Tag::from_u16_exhaustive(cursor.read_u16().await?);
 
     let tag_type_code = cursor.read_u16().await?;
-    let tag_type = Type::from_u16(tag_type_code).expect(
-        "Unknown tag type {tag_type_code}. TODO: we should skip entries with unknown tag types.",
-    );
+    // TODO: we should skip entries with unknown tag types.
+    let tag_type =
+        Type::from_u16(tag_type_code).ok_or(TiffError::FormatError(TiffFormatError::InvalidTag))?;
     let count = if bigtiff {
         cursor.read_u64().await?
     } else {
@@ -320,7 +320,7 @@ async fn read_tag_value<F: MetadataFetch>(
         | Type::IFD8 => 8,
     };
 
-    let value_byte_length = count.checked_mul(tag_size).unwrap();
+    let value_byte_length = count.checked_mul(tag_size).ok_or(TiffError::IntSizeError)?;
 
     // Case 2: there is one value.
     if count == 1 {
@@ -363,11 +363,10 @@ async fn read_tag_value<F: MetadataFetch>(
             Type::SLONG => TagValue::Signed(data.read_i32()?),
             Type::FLOAT => TagValue::Float(data.read_f32()?),
             Type::ASCII => {
-                if data.as_ref()[0] == 0 {
+                if data.as_ref().first() == Some(&0) {
                     TagValue::Ascii("".to_string())
                 } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
+                    return Err(TiffError::FormatError(TiffFormatError::InvalidTag).into());
                 }
             }
             Type::LONG8 => {
@@ -422,8 +421,8 @@ async fn read_tag_value<F: MetadataFetch>(
                 return {
                     Ok(TagValue::List(
                         (0..count)
-                            .map(|_| TagValue::Byte(data.read_u8().unwrap()))
-                            .collect(),
+                            .map(|_| Ok(TagValue::Byte(data.read_u8()?)))
+                            .collect::<AsyncTiffResult<_>>()?,
                     ))
                 };
             }
@@ -431,8 +430,8 @@ async fn read_tag_value<F: MetadataFetch>(
                 return {
                     Ok(TagValue::List(
                         (0..count)
-                            .map(|_| TagValue::SignedByte(data.read_i8().unwrap()))
-                            .collect(),
+                            .map(|_| Ok(TagValue::SignedByte(data.read_i8()?)))
+                            .collect::<AsyncTiffResult<_>>()?,
                     ))
                 }
             }
@@ -445,8 +444,7 @@ async fn read_tag_value<F: MetadataFetch>(
                     let v = v.trim_matches(char::from(0));
                     return Ok(TagValue::Ascii(v.into()));
                 } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
+                    return Err(TiffError::FormatError(TiffFormatError::InvalidTag).into());
                 }
             }
             Type::SHORT => {
-- 
2.43.0


From 455a8f613ddf1bca93f109cef13efac6dff33daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:51 +0000
Subject: [PATCH 06/18] fix: do not allocate memory for tag counts before
 reading the data

---
 src/metadata/reader.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 178bc44..99a1879 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -234,7 +234,7 @@ impl ImageFileDirectoryReader {
     /// Keep in mind that you'll still need to call [`finish`][Self::finish] to get the byte offset
     /// of the next IFD.
     pub async fn read<F: MetadataFetch>(&self, fetch: &F) -> AsyncTiffResult<ImageFileDirectory> {
-        let mut tags = HashMap::with_capacity(self.tag_count as usize);
+        let mut tags = HashMap::new();
         for tag_idx in 0..self.tag_count {
             let (tag, value) = self.read_tag(fetch, tag_idx).await?;
             tags.insert(tag, value);
@@ -513,63 +513,63 @@ async fn read_tag_value<F: MetadataFetch>(
         // TODO check if this could give wrong results
         // at a different endianess of file/computer.
         Type::BYTE | Type::UNDEFINED => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Byte(cursor.read_u8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SBYTE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedByte(cursor.read_i8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Short(cursor.read_u16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SSHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedShort(cursor.read_i16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::LONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Unsigned(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Signed(cursor.read_i32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::FLOAT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Float(cursor.read_f32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::DOUBLE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Double(cursor.read_f64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::RATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Rational(
                     cursor.read_u32().await?,
@@ -579,7 +579,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::SRATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SRational(
                     cursor.read_i32().await?,
@@ -589,37 +589,39 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::LONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::UnsignedBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedBig(cursor.read_i64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Ifd(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::IfdBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::ASCII => {
-            let mut out = vec![0; count as _];
-            let mut buf = cursor.read(count).await?;
-            buf.read_exact(&mut out)?;
+            let buf = cursor.read(count).await?;
+            let mut out = buf.as_ref().to_vec();
+            if (out.len() as u64) < count {
+                return Err(AsyncTiffError::EndOfFile(count, out.len() as u64));
+            }
 
             // Strings may be null-terminated, so we trim anything downstream of the null byte
             if let Some(first) = out.iter().position(|&b| b == 0) {
-- 
2.43.0


From 2c8ef44f9a77037d0b0e85a1eab3b2a3cacdff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:31 +0000
Subject: [PATCH 07/18] fix: offsets beyond the 64-bit range are an error
 instead of wrapping around

---
 src/metadata/fetch.rs  | 12 ++++++++----
 src/metadata/reader.rs | 18 +++++++++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/metadata/fetch.rs b/src/metadata/fetch.rs
index b18fcb1..a6e5fbe 100644
--- a/src/metadata/fetch.rs
+++ b/src/metadata/fetch.rs
@@ -4,7 +4,7 @@ use std::ops::Range;
 use async_trait::async_trait;
 use bytes::Bytes;
 
-use crate::error::AsyncTiffResult;
+use crate::error::{AsyncTiffResult, TiffError};
 use crate::reader::{AsyncFileReader, EndianAwareReader, Endianness};
 
 /// A data source that can be used with [`TiffMetadataReader`][crate::metadata::TiffMetadataReader]
@@ -64,13 +64,17 @@ impl<'a, F: MetadataFetch> MetadataCursor<'a, F> {
 
     /// Advance cursor position by a set amount
     pub(crate) fn advance(&mut self, amount: u64) {
-        self.offset += amount;
+        self.offset = self.offset.saturating_add(amount);
     }
 
     /// Read the given number of bytes, advancing the internal cursor state by the same amount.
     pub(crate) async fn read(&mut self, length: u64) -> AsyncTiffResult<EndianAwareReader> {
-        let range = self.offset as _..(self.offset + length) as _;
-        self.offset += length;
+        let end = self
+            .offset
+            .checked_add(length)
+            .ok_or(TiffError::IntSizeError)?;
+        let range = self.offset..end;
+        self.offset = end;
         let bytes = self.fetch.fetch(range).await?;
         Ok(EndianAwareReader::new(bytes, self.endianness))
     }
diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 99a1879..c1cd62c 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -222,13 +222,23 @@ impl ImageFileDirectoryReader {
         tag_idx: u64,
     ) -> AsyncTiffResult<(Tag, TagValue)> {
         assert!(tag_idx < self.tag_count);
-        let tag_offset =
-            self.ifd_start_offset + self.tag_count_byte_size + (self.ifd_entry_byte_size * tag_idx);
+        let tag_offset = self.entry_offset(tag_idx)?;
         let (tag_name, tag_value) =
             read_tag(fetch, tag_offset, self.endianness, self.bigtiff).await?;
         Ok((tag_name, tag_value))
     }
 
+    /// The byte offset of the entry with the specified index.
+    fn entry_offset(&self, tag_idx: u64) -> AsyncTiffResult<u64> {
+        let offset = self
+            .ifd_entry_byte_size
+            .checked_mul(tag_idx)
+            .and_then(|size| size.checked_add(self.tag_count_byte_size))
+            .and_then(|size| size.checked_add(self.ifd_start_offset))
+            .ok_or(TiffError::IntSizeError)?;
+        Ok(offset)
+    }
+
     /// Read all tags out of this IFD.
     ///
     /// Keep in mind that you'll still need to call [`finish`][Self::finish] to get the byte offset
@@ -245,9 +255,7 @@ impl ImageFileDirectoryReader {
     /// Finish this reader, reading the byte offset of the next IFD
     pub async fn finish<F: MetadataFetch>(self, fetch: &F) -> AsyncTiffResult<Option<u64>> {
         // The byte offset for reading the next ifd
-        let next_ifd_byte_offset = self.ifd_start_offset
-            + self.tag_count_byte_size
-            + (self.ifd_entry_byte_size * self.tag_count);
+        let next_ifd_byte_offset = self.entry_offset(self.tag_count)?;
         let mut cursor =
             MetadataCursor::new_with_offset(fetch, self.endianness, next_ifd_byte_offset);
 
-- 
2.43.0


From 373e0d3609badff90e1f67bbd6978f4930ed8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:34 +0000
Subject: [PATCH 08/18] fix: unknown predictor and planar configuration values
 are an error

---
 src/ifd.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 9d52f53..b04e009 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -231,7 +231,11 @@ impl ImageFileDirectory {
                     _ => unreachable!("Expected rational type for YResolution."),
                 },
                 Tag::PlanarConfiguration => {
-                    planar_configuration = PlanarConfiguration::from_u16(value.into_u16()?)
+                    let value = value.into_u16()?;
+                    planar_configuration = Some(
+                        PlanarConfiguration::from_u16(value)
+                            .ok_or(TiffFormatError::UnknownPlanarConfiguration(value))?,
+                    )
                 }
                 Tag::ResolutionUnit => {
                     resolution_unit = ResolutionUnit::from_u16(value.into_u16()?)
@@ -240,7 +244,13 @@ impl ImageFileDirectory {
                 Tag::DateTime => date_time = Some(value.into_string()?),
                 Tag::Artist => artist = Some(value.into_string()?),
                 Tag::HostComputer => host_computer = Some(value.into_string()?),
-                Tag::Predictor => predictor = Predictor::from_u16(value.into_u16()?),
+                Tag::Predictor => {
+                    let value = value.into_u16()?;
+                    predictor = Some(
+                        Predictor::from_u16(value)
+                            .ok_or(TiffFormatError::UnknownPredictor(value))?,
+                    )
+                }
                 Tag::ColorMap => color_map = Some(Arc::from(value.into_u16_vec()?)),
                 Tag::TileWidth => tile_width = Some(value.into_u32()?),
                 Tag::TileLength => tile_height = Some(value.into_u32()?),
-- 
2.43.0


From 7c1f99dd8b19d36452d2d6de48fab628a74a1280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:39 +0000
Subject: [PATCH 09/18] fix: missing or ill-typed required tags are an error
 instead of a panic

---
 src/ifd.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index b04e009..927eb43 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -224,11 +224,11 @@ impl ImageFileDirectory {
                 Tag::MaxSampleValue => max_sample_value = Some(value.into_u16_vec()?),
                 Tag::XResolution => match value {
                     TagValue::Rational(n, d) => x_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for XResolution."),
+                    _ => return Err(TiffFormatError::InvalidTagValueType(tag).into()),
                 },
                 Tag::YResolution => match value {
                     TagValue::Rational(n, d) => y_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for YResolution."),
+                    _ => return Err(TiffFormatError::InvalidTagValueType(tag).into()),
                 },
                 Tag::PlanarConfiguration => {
                     let value = value.into_u16()?;
@@ -382,7 +382,15 @@ impl ImageFileDirectory {
             geo_key_directory = Some(GeoKeyDirectory::from_tags(tags)?);
         }
 
-        let samples_per_pixel = samples_per_pixel.expect("samples_per_pixel not found");
+        let samples_per_pixel =
+            samples_per_pixel.ok_or_else(|| required_tag(Tag::SamplesPerPixel))?;
+        let bits_per_sample: Vec<u16> =
+            bits_per_sample.ok_or_else(|| required_tag(Tag::BitsPerSample))?;
+        if bits_per_sample.is_empty() {
+            return Err(
+                TiffError::from(TiffFormatError::RequiredTagEmpty(Tag::BitsPerSample)).into(),
+            );
+        }
         let planar_configuration = if let Some(planar_configuration) = planar_configuration {
             planar_configuration
         } else if samples_per_pixel == 1 {
@@ -395,14 +403,14 @@ impl ImageFileDirectory {
         Ok(Self {
             endianness,
             new_subfile_type,
-            image_width: image_width.expect("image_width not found"),
-            image_height: image_height.expect("image_height not found"),
-            bits_per_sample: bits_per_sample.expect("bits per sample not found"),
+            image_width: image_width.ok_or_else(|| required_tag(Tag::ImageWidth))?,
+            image_height: image_height.ok_or_else(|| required_tag(Tag::ImageLength))?,
+            bits_per_sample,
             // Defaults to no compression
             // https://web.archive.org/web/20240329145331/https://www.awaresystems.be/imaging/tiff/tifftags/compression.html
             compression: compression.unwrap_or(Compression::None),
             photometric_interpretation: photometric_interpretation
-                .expect("photometric interpretation not found"),
+                .ok_or_else(|| required_tag(Tag::PhotometricInterpretation))?,
             document_name,
             image_description,
             strip_offsets,
@@ -797,6 +805,10 @@ impl ImageFileDirectory {
     }
 }
 
+fn required_tag(tag: Tag) -> TiffError {
+    TiffFormatError::RequiredTagNotFound(tag).into()
+}
+
 /// A description of the byte ranges for a tile, which may differ based on whether the TIFF is in
 /// chunky or planar format.
 pub enum TileByteRange {
-- 
2.43.0


From 0d491e624c29d8e524fcef15a9052ceaa7431ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:43 +0000
Subject: [PATCH 10/18] fix: malformed GeoKey directories are an error instead
 of a panic

---
 src/ifd.rs | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 927eb43..5a2bdbe 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -305,25 +305,24 @@ impl ImageFileDirectory {
         // We need to actually parse the GeoKeyDirectory after parsing all other tags because the
         // GeoKeyDirectory relies on `GeoAsciiParamsTag` having been parsed.
         if let Some(data) = geo_key_directory_data {
-            let mut chunks = data.chunks(4);
+            let invalid = || TiffError::FormatError(TiffFormatError::InvalidTag);
+            let mut chunks = data.chunks_exact(4);
 
-            let header = chunks
-                .next()
-                .expect("If the geo key directory exists, a header should exist.");
+            // If the geo key directory exists, a header should exist.
+            let header = chunks.next().ok_or_else(invalid)?;
             let key_directory_version = header[0];
-            assert_eq!(key_directory_version, 1);
-
             let key_revision = header[1];
-            assert_eq!(key_revision, 1);
+            if key_directory_version != 1 || key_revision != 1 {
+                return Err(invalid().into());
+            }
 
             let _key_minor_revision = header[2];
             let number_of_keys = header[3];
 
             let mut tags = HashMap::with_capacity(number_of_keys as usize);
             for _ in 0..number_of_keys {
-                let chunk = chunks
-                    .next()
-                    .expect("There should be a chunk for each key.");
+                // There should be a chunk for each key.
+                let chunk = chunks.next().ok_or_else(invalid)?;
 
                 let key_id = chunk[0];
                 let tag_name = if let Ok(tag_name) = GeoKeyTag::try_from_primitive(key_id) {
@@ -346,11 +345,11 @@ impl ImageFileDirectory {
                     // If the tag_location points to the value of Tag::GeoAsciiParams, then we
                     // need to extract a subslice from GeoAsciiParams
 
-                    let geo_ascii_params = geo_ascii_params
-                        .as_ref()
-                        .expect("GeoAsciiParamsTag exists but geo_ascii_params does not.");
                     let value_offset = value_offset as usize;
-                    let mut s = &geo_ascii_params[value_offset..value_offset + count as usize];
+                    let mut s = geo_ascii_params
+                        .as_ref()
+                        .and_then(|s| s.get(value_offset..value_offset + count as usize))
+                        .ok_or_else(invalid)?;
 
                     // It seems that this string subslice might always include the final |
                     // character?
@@ -363,17 +362,15 @@ impl ImageFileDirectory {
                     // If the tag_location points to the value of Tag::GeoDoubleParams, then we
                     // need to extract a subslice from GeoDoubleParams
 
-                    let geo_double_params = geo_double_params
-                        .as_ref()
-                        .expect("GeoDoubleParamsTag exists but geo_double_params does not.");
                     let value_offset = value_offset as usize;
+                    let values = geo_double_params
+                        .as_ref()
+                        .and_then(|p| p.get(value_offset..value_offset + count as usize))
+                        .ok_or_else(invalid)?;
                     let value = if count == 1 {
-                        TagValue::Double(geo_double_params[value_offset])
+                        TagValue::Double(values[0])
                     } else {
-                        let x = geo_double_params[value_offset..value_offset + count as usize]
-                            .iter()
-                            .map(|val| TagValue::Double(*val))
-                            .collect();
+                        let x = values.iter().map(|val| TagValue::Double(*val)).collect();
                         TagValue::List(x)
                     };
                     tags.insert(tag_name, value);
-- 
2.43.0


From abe3b42a33cf87aef65b31fb1a66ab2ebfb28fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:47 +0000
Subject: [PATCH 11/18] fix: corrupt LZW data is an error instead of a panic

---
 src/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 0266d5d..d3459e4 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -240,8 +240,9 @@ impl Decoder for LZWDecoder {
     ) -> AsyncTiffResult<Vec<u8>> {
         // https://github.com/image-rs/image-tiff/blob/90ae5b8e54356a35e266fb24e969aafbcb26e990/src/decoder/stream.rs#L147
         let mut decoder = weezl::decode::Decoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8);
-        let decoded = decoder.decode(&buffer).expect("failed to decode LZW data");
-        Ok(decoded)
+        decoder
+            .decode(&buffer)
+            .map_err(|e| AsyncTiffError::General(format!("LZW decode failed: {e}")))
     }
 }
 
-- 
2.43.0


From b5307746d0735419abf888ba1a4e19f40ecb3bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:52 +0000
Subject: [PATCH 12/18] fix: too short JPEG tables are an error instead of a
 panic

---
 src/decoder.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index d3459e4..abaef80 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -7,7 +7,9 @@ use std::io::{Cursor, Read};
 use bytes::Bytes;
 use flate2::bufread::ZlibDecoder;
 
-use crate::error::{AsyncTiffError, AsyncTiffResult, TiffError, TiffUnsupportedError};
+use crate::error::{
+    AsyncTiffError, AsyncTiffResult, TiffError, TiffFormatError, TiffUnsupportedError,
+};
 use crate::tags::{Compression, PhotometricInterpretation};
 
 /// A registry of decoders.
@@ -380,8 +382,11 @@ fn decode_modern_jpeg(
             let mut reader = reader;
             reader.read_exact(&mut [0; 2])?;
 
-            Box::new(Cursor::new(&jpeg_tables[..jpeg_tables.len() - 2]).chain(reader))
-                as Box<dyn Read>
+            let tables_len = jpeg_tables
+                .len()
+                .checked_sub(2)
+                .ok_or(TiffError::FormatError(TiffFormatError::InvalidTag))?;
+            Box::new(Cursor::new(&jpeg_tables[..tables_len]).chain(reader)) as Box<dyn Read>
         }
         None => Box::new(reader),
     };
-- 
2.43.0


From ba44805e70bcbd91c297bb39fa8e52837b636812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:56 +0000
Subject: [PATCH 13/18] fix: 16-bit JPEG2000 tiles panicked on conversion to
 bytes

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index abaef80..c2825f9 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -277,7 +277,7 @@ impl Decoder for JPEG2kDecoder {
             jpeg2k::ImagePixelData::L16(items)
             | jpeg2k::ImagePixelData::La16(items)
             | jpeg2k::ImagePixelData::Rgb16(items)
-            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_vec(items)),
+            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_slice(&items).to_vec()),
         }
     }
 }
-- 
2.43.0


From 69b2fe3a7ba48b7123e9a47182c25d894f53530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:00 +0000
Subject: [PATCH 14/18] fix: horizontal predictor on unsupported sample sizes
 or empty rows is an error

---
 src/predictor.rs | 31 +++++++++++++++++++++++++++----
 src/tile.rs      |  2 +-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/predictor.rs b/src/predictor.rs
index c272ab4..a9b99e2 100644
--- a/src/predictor.rs
+++ b/src/predictor.rs
@@ -57,9 +57,20 @@ pub(crate) fn unpredict_hdiff(
     samples: usize,
     bits_per_sample: u16,
     tile_width: usize,
-) -> Vec<u8> {
+) -> AsyncTiffResult<Vec<u8>> {
+    if !matches!(bits_per_sample, 8 | 16 | 32 | 64) {
+        return Err(AsyncTiffError::General(format!(
+            "Horizontal predictor not supported for {bits_per_sample}-bit samples"
+        )));
+    }
     let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
-    let row_stride = tile_width * samples * bytes_per_sample;
+    let row_stride = row_stride(tile_width, samples, bytes_per_sample)?;
+    if buffer.len() % bytes_per_sample != 0 {
+        return Err(AsyncTiffError::General(format!(
+            "Data length {} is not divisible by the sample size ({bytes_per_sample} bytes)",
+            buffer.len()
+        )));
+    }
 
     fix_endianness(&mut buffer, endianness, bits_per_sample);
 
@@ -67,7 +78,19 @@ pub(crate) fn unpredict_hdiff(
         rev_hpredict_row(row, bits_per_sample, samples);
     }
 
-    buffer
+    Ok(buffer)
+}
+
+/// The number of bytes in one encoded row, which must not be empty.
+fn row_stride(
+    tile_width: usize,
+    samples: usize,
+    bytes_per_sample: usize,
+) -> AsyncTiffResult<usize> {
+    tile_width
+        .checked_mul(samples * bytes_per_sample)
+        .filter(|stride| *stride > 0)
+        .ok_or_else(|| AsyncTiffError::General("Predictor requires non-empty rows".to_string()))
 }
 
 /// Reverse one row of horizontal differencing, dispatched by bit depth.
@@ -119,7 +142,7 @@ pub(crate) fn unpredict_float(
     tile_width: usize,
 ) -> AsyncTiffResult<Vec<u8>> {
     let bytes_per_sample = (bits_per_sample as usize) / 8;
-    let row_stride = tile_width * samples * bytes_per_sample;
+    let row_stride = row_stride(tile_width, samples, bytes_per_sample)?;
     let mut out = vec![0u8; buffer.len()];
 
     for (in_row, out_row) in buffer
diff --git a/src/tile.rs b/src/tile.rs
index bf5cd3a..19a097a 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -140,7 +140,7 @@ impl Tile {
                 predictor_samples,
                 bits_per_sample,
                 tile_width,
-            ),
+            )?,
             Predictor::FloatingPoint => {
                 unpredict_float(decoded_tile, predictor_samples, bits_per_sample, tile_width)?
             }
-- 
2.43.0


From aa0e674c6ff2d55e2e659f85a7973942abcbc6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:04 +0000
Subject: [PATCH 15/18] fix: do not allocate planar tiles from unchecked tile
 dimensions

---
 src/tile.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index 19a097a..e69e577 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -100,10 +100,7 @@ impl Tile {
                 self.lerc_parameters.as_deref(),
             )?,
             CompressedBytes::Planar(band_bytes) => {
-                let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
-                let total_size =
-                    band_bytes.len() * tile_width * (self.height as usize) * bytes_per_sample;
-                let mut result = Vec::with_capacity(total_size);
+                let mut result = Vec::new();
 
                 for band_data in band_bytes {
                     let decoded_band = decoder.decode_tile(
@@ -117,7 +114,6 @@ impl Tile {
                     result.extend_from_slice(&decoded_band);
                 }
 
-                debug_assert_eq!(result.len(), total_size);
                 result
             }
         };
-- 
2.43.0


From 9a9dc5daba503b5c8d13b5436731417c916d6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:08 +0000
Subject: [PATCH 16/18] fix: array shapes beyond the address space are an error

---
 src/array.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/array.rs b/src/array.rs
index 2acfea0..e00db74 100644
--- a/src/array.rs
+++ b/src/array.rs
@@ -1,7 +1,7 @@
 use bytemuck::{cast_slice, cast_vec, try_cast_vec};
 
 use crate::data_type::DataType;
-use crate::error::{AsyncTiffError, AsyncTiffResult};
+use crate::error::{AsyncTiffError, AsyncTiffResult, TiffError};
 
 /// A 3D array that represents decoded TIFF image data.
 #[derive(Debug, Clone)]
@@ -29,7 +29,10 @@ impl Array {
         shape: [usize; 3],
         data_type: Option<DataType>,
     ) -> AsyncTiffResult<Self> {
-        let expected_len = shape[0] * shape[1] * shape[2];
+        let expected_len = shape[0]
+            .checked_mul(shape[1])
+            .and_then(|len| len.checked_mul(shape[2]))
+            .ok_or(TiffError::IntSizeError)?;
 
         let typed_data = if data_type == Some(DataType::Bool) {
             let required_bytes = expected_len.div_ceil(8);
-- 
2.43.0


From 914bc8825956c9d058b13578c67c65eb6a3b67e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:13 +0000
Subject: [PATCH 17/18] fix: reject full responses to HTTP range requests

---
 src/reader.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 5ca5124..1ffb268 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -210,6 +210,13 @@ impl ReqwestReader {
             .send()
             .await?
             .error_for_status()?;
+        // A server that ignores the Range header responds with the whole file
+        if response.status() != reqwest::StatusCode::PARTIAL_CONTENT {
+            return Err(crate::error::AsyncTiffError::General(format!(
+                "Expected a partial response to a range request, got status {}",
+                response.status()
+            )));
+        }
         let bytes = response.bytes().await?;
         Ok(bytes)
     }
-- 
2.43.0


From ea134a742d88f9281567376d059ed9360519a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:32 +0000
Subject: [PATCH 18/18] fix: size slices of the metadata cache by the cached
 bytes, not the requested range

---
 src/metadata/cache.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/metadata/cache.rs b/src/metadata/cache.rs
index 80f498f..c29d19f 100644
--- a/src/metadata/cache.rs
+++ b/src/metadata/cache.rs
@@ -39,9 +39,6 @@ impl SequentialBlockCache {
 
     /// Slice out the given range from the cached buffers
     fn slice(&self, range: Range<u64>) -> Bytes {
-        // The size of the output buffer
-        let out_len = (range.end - range.start) as usize;
-
         // The remaining range of bytes required. This range is updated as we traverse buffers, so
         // the indexes are relative to the current buffer.
         let mut remaining = range;
@@ -82,6 +79,8 @@ impl SequentialBlockCache {
         if out_buffers.len() == 1 {
             out_buffers.into_iter().next().unwrap()
         } else {
+            // The requested range may extend past the end of the file
+            let out_len = out_buffers.iter().map(|b| b.len()).sum();
             let mut out = BytesMut::with_capacity(out_len);
             for b in out_buffers {
                 out.extend_from_slice(&b);
-- 
2.43.0

