import sys
from seed import make
ONLY = sys.argv[1:]
def mk(i, *a):
    if not ONLY or i in ONLY:
        make(i, *a)
mk("b03", "C03",
 [("src/metadata/reader.rs", "                Type::SRATIONAL => TagValue::SRational(data.read_i32()?, data.read_i32()?),", "                Type::SRATIONAL => {\n                    let value = data.read_u64()?;\n                    TagValue::SRational(value as u32 as i32, (value >> 32) as i32)\n                }")],
 """
use async_tiff::TagValue;
fn main() {
    for be in [false, true] {
        let w = W { be, big: true };
        let mut ifd = w.image(8, 8, 8, 8, &[8], &[16], &[64]);
        let mut v = w.u32(-3i32 as u32);
        v.extend(w.u32(7));
        set(&mut ifd, (50000, 10, 1, v));
        let m = Mem::new(w.file(&vec![7u8; 600], &[ifd]));
        let t = block(open(&m)).expect("opens");
        let v = t.ifds()[0].other_tags().values().next().unwrap();
        assert!(matches!(v, TagValue::SRational(-3, 7)), "{v:?}");
    }
}
""", "a single SRATIONAL in a big-endian BigTIFF file", "numerator and denominator are exchanged")
mk("b07", "C07",
 [("src/data_type.rs", "            (SampleFormat::Float, 32) => Some(DataType::Float32),", "            (SampleFormat::Float, 17..=32) => Some(DataType::Float32),")],
 """
fn main() {
    let w = W { be: false, big: false };
    // 24-bit floats
    let mut ifd = w.image(4, 4, 4, 4, &[24], &[8], &[64]);
    set(&mut ifd, w.shorts(339, &[3]));
    let m = Mem::new(w.file(&vec![7u8; 600], &[ifd]));
    let t = block(open(&m)).expect("opens");
    let tile = block(t.ifds()[0].fetch_tile(0, 0, &m)).unwrap();
    if let Ok(a) = tile.decode(&Default::default()) {
        assert_eq!(a.data_type(), None);
    }
}
""", "a file with 24-bit floating-point samples", "they are taken for 32-bit ones")
mk("b09", "C09",
 [("src/ifd.rs", "        let x_count = (self.image_width as f64 / self.tile_width? as f64).ceil();", "        let x_count = (self.image_width as f32 / self.tile_width? as f32).ceil();")],
 """
fn main() {
    let w = W { be: false, big: false };
    // 16777217 / 64 needs one tile more than 16777216 / 64
    let ifd = w.image(16_777_217, 1, 16_777_216, 1, &[8], &[8, 24], &[16, 16]);
    let m = Mem::new(w.file(&vec![7u8; 600], &[ifd]));
    let t = block(open(&m)).expect("opens");
    assert_eq!(t.ifds()[0].tile_count(), Some((2, 1)));
    block(t.ifds()[0].fetch_tile(1, 0, &m)).expect("the second tile");
    assert_eq!(m.log.lock().unwrap().last(), Some(&(24..40)));
}
""", "an image wider than 2^24 pixels", "the number of tiles in a row is rounded, so tiles are missing or mistaken")
mk("b10", "C10",
 [("src/ifd.rs", "                let band_counts: Vec<usize> = ranges.iter().map(|r| r.len()).collect();\n                let flat_ranges: Vec<Range<u64>> = ranges.into_iter().flatten().collect();",
   "                let band_counts: Vec<usize> = ranges.iter().map(|r| r.len()).collect();\n                let mut flat_ranges: Vec<Range<u64>> = ranges.into_iter().flatten().collect();\n                // Read front to back\n                flat_ranges.sort_by_key(|r| r.start);")],
 """
use async_tiff::TypedArray;
fn main() {
    let w = W { be: false, big: false };
    // two tiles, two bands, planar: band 0 at 8 and 12, band 1 at 16 and 20
    let mut ifd = w.image(4, 2, 2, 2, &[8, 8], &[8, 12, 16, 20], &[4, 4, 4, 4]);
    set(&mut ifd, w.shorts(284, &[2]));
    set(&mut ifd, w.shorts(339, &[1, 1]));
    let data: Vec<u8> = (0..16).collect();
    let m = Mem::new(w.file(&data, &[ifd]));
    let t = block(open(&m)).expect("opens");
    let tiles = block(t.ifds()[0].fetch_tiles(&[(1, 0), (0, 0)], &m)).unwrap();
    let got: Vec<Vec<u8>> = tiles.into_iter().map(|t| match t.decode(&Default::default()).unwrap().into_inner().0 { TypedArray::UInt8(v) => v, _ => panic!() }).collect();
    assert_eq!(got, vec![vec![4, 5, 6, 7, 12, 13, 14, 15], vec![0, 1, 2, 3, 8, 9, 10, 11]]);
}
""", "a batch of tiles of a planar file whose ranges are not ascending", "tiles get each other's bands")
mk("b11", "C11",
 [("src/ifd.rs", "            width: ifd.tile_width.unwrap_or(ifd.image_width),", "            width: ifd.tile_width.unwrap_or(ifd.image_width).min(ifd.image_width),")],
 """
fn main() {
    let w = W { be: false, big: false };
    let ifd = w.image(5, 8, 8, 8, &[8], &[8], &[64]);
    let m = Mem::new(w.file(&vec![7u8; 600], &[ifd]));
    let t = block(open(&m)).expect("opens");
    let tile = block(t.ifds()[0].fetch_tile(0, 0, &m)).unwrap();
    assert_eq!(tile.decode(&Default::default()).expect("decodes").shape(), [8, 8, 1]);
}
""", "an image narrower than its tiles", "the tile is decoded with the width of the image")
mk("b12", "C12",
 [("src/tile.rs", "                        1,\n                        bits_per_sample,", "                        self.samples_per_pixel,\n                        bits_per_sample,")],
 """
use async_tiff::decoder::{Decoder, DecoderRegistry};
use async_tiff::tags::{Compression, PhotometricInterpretation};
#[derive(Debug)]
struct D(Arc<Mutex<Vec<u16>>>);
impl Decoder for D {
    fn decode_tile(&self, b: Bytes, _: PhotometricInterpretation, _: Option<&[u8]>, s: u16, _: u16, _: Option<&[u32]>) -> AsyncTiffResult<Vec<u8>> {
        self.0.lock().unwrap().push(s);
        Ok(b.to_vec())
    }
}
use async_tiff::error::AsyncTiffResult;
use bytes::Bytes;
use std::sync::{Arc, Mutex};
fn main() {
    let w = W { be: false, big: false };
    let mut ifd = w.image(2, 2, 2, 2, &[8, 8], &[8, 12], &[4, 4]);
    set(&mut ifd, w.shorts(284, &[2]));
    set(&mut ifd, w.shorts(339, &[1, 1]));
    let m = Mem::new(w.file(&vec![7u8; 60], &[ifd]));
    let t = block(open(&m)).expect("opens");
    let tile = block(t.ifds()[0].fetch_tile(0, 0, &m)).unwrap();
    let mut reg = DecoderRegistry::default();
    let log = Arc::new(Mutex::new(vec![]));
    reg.as_mut().insert(Compression::None, Box::new(D(log.clone())));
    tile.decode(&reg).expect("decodes");
    assert_eq!(*log.lock().unwrap(), vec![1, 1]);
}
""", "a planar tile whose codec looks at the number of samples", "each band is announced as having all samples")
mk("b13", "C13",
 [("src/predictor.rs", "row[i..][..4].copy_from_slice(&v.wrapping_add(p).to_ne_bytes());", "row[i..][..4].copy_from_slice(&v.saturating_add(p).to_ne_bytes());")],
 """
use async_tiff::TypedArray;
fn main() {
    let w = W { be: false, big: false };
    let mut ifd = w.image(2, 1, 2, 1, &[32], &[8], &[8]);
    set(&mut ifd, w.shorts(317, &[2]));
    set(&mut ifd, w.shorts(339, &[1]));
    let mut d = 7u32.to_le_bytes().to_vec();
    d.extend((-3i32).to_le_bytes());
    let m = Mem::new(w.file(&d, &[ifd]));
    let t = block(open(&m)).expect("opens");
    let tile = block(t.ifds()[0].fetch_tile(0, 0, &m)).unwrap();
    match tile.decode(&Default::default()).unwrap().into_inner().0 { TypedArray::UInt32(v) => assert_eq!(v, vec![7, 4]), _ => panic!() }
}
""", "32-bit samples whose neighbours fall", "differences below zero saturate")
mk("b14", "C14",
 [("src/array.rs", "            if typed_data.len() != expected_len {", "            if typed_data.len() < expected_len {")],
 """
fn main() {
    let w = W { be: false, big: false };
    let ifd = w.image(4, 4, 4, 4, &[8], &[8], &[20]);
    let m = Mem::new(w.file(&vec![7u8; 60], &[ifd]));
    let t = block(open(&m)).expect("opens");
    let tile = block(t.ifds()[0].fetch_tile(0, 0, &m)).unwrap();
    match tile.decode(&Default::default()) {
        Ok(a) => assert_eq!(a.data().len(), 16),
        Err(_) => {}
    }
}
""", "a tile that decodes to more bytes than its size declares", "the array has more elements than its shape")
mk("b15", "C15",
 [("src/metadata/cache.rs", "        let needed = range.end.saturating_sub(start_len);", "        let needed = range.end - range.start;")],
 """
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::MetadataFetch;
fn main() {
    let d: Vec<u8> = (0..64).collect();
    let c = ReadaheadMetadataCache::new(Meta(Mem::new(d.clone()))).with_initial_size(8).with_multiplier(1.0);
    for r in [0..4u64, 40..48, 4..12] {
        let got = block(c.fetch(r.clone())).unwrap();
        assert_eq!(&got[..], &d[r.start as usize..r.end as usize], "{r:?}");
    }
}
""", "a range that lies beyond the end of the cached bytes by more than the next fetch", "the range is cut short")
mk("b16", "C16",
 [("src/metadata/cache.rs", "        let bytes = self.inner.fetch(fetch_range).await?;", "        drop(cache);\n        let bytes = self.inner.fetch(fetch_range).await?;\n        let mut cache = self.cache.lock().await;")],
 """
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::MetadataFetch;
use async_tiff::error::AsyncTiffResult;
use async_trait::async_trait;
#[derive(Debug)]
struct Slow(Meta);
#[async_trait]
impl MetadataFetch for Slow {
    async fn fetch(&self, r: std::ops::Range<u64>) -> AsyncTiffResult<bytes::Bytes> {
        tokio::time::sleep(std::time::Duration::from_millis(20)).await;
        self.0.fetch(r).await
    }
}
fn main() {
    let d: Vec<u8> = (0..64).collect();
    let c = ReadaheadMetadataCache::new(Slow(Meta(Mem::new(d.clone())))).with_initial_size(8);
    block(async {
        let (a, b) = futures::join!(c.fetch(0..4), c.fetch(2..6));
        assert_eq!(&a.unwrap()[..], &d[0..4]);
        assert_eq!(&b.unwrap()[..], &d[2..6]);
        assert_eq!(&c.fetch(6..14).await.unwrap()[..], &d[6..14]);
    });
}
""", "two concurrent fetches on an empty cache, then a fetch beyond the first block", "the first block is cached twice")
mk("b17", "C17",
 [("src/reader.rs", "        file.seek(SeekFrom::Start(range.start)).await?;", "        if range.start > 0 {\n            file.seek(SeekFrom::Start(range.start)).await?;\n        }")],
 """
use async_tiff::reader::{AsyncFileReader, TokioReader};
fn main() {
    let d: Vec<u8> = (0..64).collect();
    let r = TokioReader::new(std::io::Cursor::new(d.clone()));
    for g in [0..4u64, 10..20, 0..4] {
        assert_eq!(&block(r.get_bytes(g.clone())).unwrap()[..], &d[g.start as usize..g.end as usize]);
    }
}
""", "a read from the start of the file after another read", "the bytes after the previous read are returned")
mk("b18", "C18",
 [("src/metadata/reader.rs", "if let Some(ifd_start) = self.next_ifd_offset {", "if let Some(ifd_start) = self.next_ifd_offset.take() {")],
 """
use async_tiff::metadata::TiffMetadataReader;
use std::sync::atomic::Ordering;
fn main() {
    let w = W { be: false, big: false };
    let ifd = w.image(8, 8, 8, 8, &[8], &[8], &[64]);
    let m = Mem::new(w.file(&vec![7u8; 600], &[ifd.clone(), ifd]));
    let mut r = block(TiffMetadataReader::try_open(&m)).unwrap();
    m.fail_at.store(m.calls.load(Ordering::SeqCst) + 5, Ordering::SeqCst);
    block(r.read_next_ifd(&m)).expect_err("a read fails");
    assert_eq!(block(r.read_all_ifds(&m)).expect("a retry").len(), 2);
}
""", "a failed read of a directory that is then retried", "the reader has forgotten where it was")
mk("b22", "C22",
 [("src/tiff.rs", ".chain(ifd.strip_offsets())", ".chain(ifd.strip_offsets().filter(|_| ifd.tile_offsets().is_none()))", 0)],
 """
fn main() {
    let w = W { be: false, big: false };
    let mut ifd = w.image(8, 8, 8, 8, &[8], &[100], &[64]);
    set(&mut ifd, w.longs(273, &[20]));
    set(&mut ifd, w.longs(279, &[64]));
    let m = Mem::new(w.file(&vec![7u8; 600], &[ifd]));
    let t = block(open(&m)).expect("opens");
    assert_eq!(t.header_byte_size(), 20);
}
""", "a directory with both tiles and strips", "the strips are not looked at")
mk("b25", "C25",
 [("src/reader.rs", "            let data = self.get_bytes(range).await?;\n            result.push(data);", "            match self.get_bytes(range).await {\n                Ok(data) => result.push(data),\n                // Nothing is stored here\n                Err(crate::error::AsyncTiffError::EndOfFile(_, 0)) => result.push(Bytes::new()),\n                Err(err) => return Err(err),\n            }")],
 """
fn main() {
    let w = W { be: false, big: false };
    let ifd = w.image(16, 8, 8, 8, &[8], &[8, 50000], &[64, 64]);
    let m = Mem::new(w.file(&vec![7u8; 600], &[ifd]));
    let t = block(open(&m)).expect("opens");
    assert!(block(t.ifds()[0].fetch_tiles(&[(0, 0), (1, 0)], &m)).is_err());
}
""", "a batch with a tile beyond the end of the file", "the failed read becomes an empty tile")
mk("b26", "C26",
 [("src/predictor.rs", "    for (i, chunk) in output.chunks_exact_mut(4).enumerate() {", "    for (i, chunk) in output.chunks_mut(4).enumerate() {")],
 """
fn main() {
    let w = W { be: false, big: false };
    let mut ifd = w.image(2, 1, 2, 1, &[32], &[8], &[7]);
    set(&mut ifd, w.shorts(317, &[3]));
    set(&mut ifd, w.shorts(339, &[3]));
    let m = Mem::new(w.file(&vec![7u8; 60], &[ifd]));
    let t = block(open(&m)).expect("opens");
    let tile = block(t.ifds()[0].fetch_tile(0, 0, &m)).unwrap();
    assert!(tile.decode(&Default::default()).is_err());
}
""", "a 32-bit tile with the floating-point predictor that is not a whole number of samples", "decoding panics")
mk("b21", "C21",
 [("src/tile.rs", "    pub(crate) compression_method: Compression,", "    pub(crate) compression_method: Compression,\n    /// Remembers that the bytes were looked at\n    pub(crate) seen: std::cell::Cell<bool>,"),
  ("src/ifd.rs", "            compression_method: ifd.compression,", "            compression_method: ifd.compression,\n            seen: std::cell::Cell::new(false),", 0)],
 """
fn shared<T: Send + Sync>() {}
fn main() {
    shared::<async_tiff::Tile>();
}
""", "a program that shares a tile between threads", "tiles can no longer be shared")
