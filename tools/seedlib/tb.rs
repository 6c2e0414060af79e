//! A small in-memory TIFF writer and a reader over it, for demonstrations.
#![allow(dead_code)]
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::{MetadataFetch, TiffMetadataReader};
use async_tiff::reader::AsyncFileReader;
use async_tiff::TIFF;
use async_trait::async_trait;
use bytes::Bytes;
use std::ops::Range;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// A byte source held in memory; records requests and can fail the n-th one.
#[derive(Debug, Clone)]
pub struct Mem {
    pub data: Bytes,
    pub log: Arc<Mutex<Vec<Range<u64>>>>,
    pub fail_at: Arc<AtomicUsize>,
    pub calls: Arc<AtomicUsize>,
}
impl Mem {
    pub fn new(data: Vec<u8>) -> Self {
        Mem { data: data.into(), log: Default::default(), fail_at: Arc::new(AtomicUsize::new(usize::MAX)), calls: Default::default() }
    }
    fn get(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        let n = self.calls.fetch_add(1, Ordering::SeqCst);
        self.log.lock().unwrap().push(r.clone());
        if n == self.fail_at.load(Ordering::SeqCst) {
            return Err(AsyncTiffError::General("injected failure".into()));
        }
        let len = self.data.len() as u64;
        if r.start > len {
            return Err(AsyncTiffError::EndOfFile(r.end - r.start, 0));
        }
        Ok(self.data.slice(r.start as usize..r.end.min(len) as usize))
    }
}
#[async_trait]
impl AsyncFileReader for Mem {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.get(range)
    }
}
/// As [Mem], but only a metadata source.
#[derive(Debug, Clone)]
pub struct Meta(pub Mem);
#[async_trait]
impl MetadataFetch for Meta {
    async fn fetch(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.0.get(range)
    }
}

/// (tag, type, count, value bytes already in file order)
pub type Ent = (u16, u16, u64, Vec<u8>);

pub struct W {
    pub be: bool,
    pub big: bool,
}
impl W {
    pub fn u16(&self, v: u16) -> Vec<u8> {
        if self.be { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() }
    }
    pub fn u32(&self, v: u32) -> Vec<u8> {
        if self.be { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() }
    }
    pub fn u64(&self, v: u64) -> Vec<u8> {
        if self.be { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() }
    }
    pub fn f64(&self, v: f64) -> Vec<u8> {
        self.u64(v.to_bits())
    }
    fn off(&self, v: u64) -> Vec<u8> {
        if self.big { self.u64(v) } else { self.u32(v as u32) }
    }
    pub fn shorts(&self, tag: u16, v: &[u16]) -> Ent {
        (tag, 3, v.len() as u64, v.iter().flat_map(|x| self.u16(*x)).collect())
    }
    pub fn longs(&self, tag: u16, v: &[u32]) -> Ent {
        (tag, 4, v.len() as u64, v.iter().flat_map(|x| self.u32(*x)).collect())
    }
    pub fn doubles(&self, tag: u16, v: &[f64]) -> Ent {
        (tag, 12, v.len() as u64, v.iter().flat_map(|x| self.f64(*x)).collect())
    }
    pub fn ascii(&self, tag: u16, v: &str) -> Ent {
        let mut b = v.as_bytes().to_vec();
        b.push(0);
        (tag, 2, b.len() as u64, b)
    }
    /// `data` is laid out right after the header; directories follow in order.
    /// Offsets into `data` start at [W::data_start].
    pub fn data_start(&self) -> u64 {
        if self.big { 16 } else { 8 }
    }
    pub fn file(&self, data: &[u8], ifds: &[Vec<Ent>]) -> Vec<u8> {
        let mut out = Vec::new();
        out.extend(if self.be { b"MM" } else { b"II" });
        if self.big {
            out.extend(self.u16(43));
            out.extend(self.u16(8));
            out.extend(self.u16(0));
        } else {
            out.extend(self.u16(42));
        }
        let mut link = out.len();
        out.extend(self.off(0));
        out.extend(data);
        let (esz, inl) = if self.big { (20, 8) } else { (12, 4) };
        for ifd in ifds {
            while out.len() % 2 != 0 {
                out.push(0);
            }
            let at = out.len() as u64;
            let o = self.off(at);
            out[link..link + o.len()].copy_from_slice(&o);
            if self.big { out.extend(self.u64(ifd.len() as u64)) } else { out.extend(self.u16(ifd.len() as u16)) }
            let body = out.len();
            out.resize(body + ifd.len() * esz, 0);
            link = out.len();
            out.extend(self.off(0));
            for (i, (tag, ty, count, bytes)) in ifd.iter().enumerate() {
                let mut e = Vec::new();
                e.extend(self.u16(*tag));
                e.extend(self.u16(*ty));
                e.extend(self.off(*count));
                if bytes.len() <= inl {
                    e.extend(bytes);
                } else {
                    while out.len() % 2 != 0 {
                        out.push(0);
                    }
                    e.extend(self.off(out.len() as u64));
                    out.extend(bytes);
                }
                e.resize(esz, 0);
                out[body + i * esz..body + (i + 1) * esz].copy_from_slice(&e);
            }
        }
        out
    }
    /// The tags of an uncompressed chunky tiled image.
    pub fn image(&self, w: u32, h: u32, tw: u32, th: u32, bits: &[u16], offsets: &[u32], counts: &[u32]) -> Vec<Ent> {
        vec![
            self.longs(256, &[w]),
            self.longs(257, &[h]),
            self.shorts(258, bits),
            self.shorts(259, &[1]),
            self.shorts(262, &[1]),
            self.shorts(277, &[bits.len() as u16]),
            self.longs(322, &[tw]),
            self.longs(323, &[th]),
            self.longs(324, offsets),
            self.longs(325, counts),
        ]
    }
}
pub fn set(v: &mut Vec<Ent>, e: Ent) {
    v.retain(|x| x.0 != e.0);
    v.push(e);
    v.sort_by_key(|x| x.0);
}

pub fn block<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
pub async fn open(m: &Mem) -> AsyncTiffResult<TIFF> {
    let mut r = TiffMetadataReader::try_open(m).await?;
    r.read(m).await
}
