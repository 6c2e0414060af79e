from seed import make
make("b01", "C01",
 [("src/metadata/reader.rs", "                            .map(|_| Ok(TagValue::SignedByte(data.read_i8()?)))", "                            .map(|_| Ok(TagValue::Byte(data.read_u8()?)))")],
 """
use async_tiff::TagValue;
fn main() {
    for (be, big) in [(false, false), (true, false), (false, true)] {
        let w = W { be, big };
        let mut ifd = w.image(8, 8, 8, 8, &[8], &[16], &[64]);
        set(&mut ifd, (340, 6, 3, vec![0xff, 0x80, 0x01]));
        let m = Mem::new(w.file(&vec![7u8; 600], &[ifd]));
        let t = block(open(&m)).expect("opens");
        let v = t.ifds()[0].other_tags().values().next().expect("kept");
        assert_eq!(v, &TagValue::List(vec![TagValue::SignedByte(-1), TagValue::SignedByte(-128), TagValue::SignedByte(1)]));
    }
}
""", "a tag of signed bytes, two to four (BigTIFF eight) of them, stored inside the entry", "negative values come out as large positive ones")
make("b02", "C02",
 [("src/metadata/reader.rs", "        // If the ifd_offset is 0, no more IFDs\n        if next_ifd_offset == 0 {", "        // If the ifd_offset is 0, no more IFDs\n        if next_ifd_offset as u32 == 0 {")],
 '''
use async_tiff::error::*;
use std::ops::Range;
/// a sparse source: the second directory lies at 4 GiB
#[derive(Debug)]
struct Sparse(Vec<u8>, Vec<u8>);
const AT: u64 = 1 << 32;
#[async_trait::async_trait]
impl async_tiff::reader::AsyncFileReader for Sparse {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<bytes::Bytes> {
        let (b, base) = if r.start >= AT { (&self.1, AT) } else { (&self.0, 0) };
        let s = ((r.start - base) as usize).min(b.len());
        let e = ((r.end - base) as usize).min(b.len());
        Ok(bytes::Bytes::copy_from_slice(&b[s..e]))
    }
}
fn main() {
    let w = W { be: false, big: true };
    let mut a = w.file(&[0; 64], &[w.image(8, 8, 8, 8, &[8], &[16], &[64])]);
    // link the first directory to the second
    let n = 16 + 64;
    let link = n + 8 + 10 * 20;
    a[link..link + 8].copy_from_slice(&AT.to_le_bytes());
    // the second directory: same entries, all inline
    let mut b = a[n..].to_vec();
    b[208..216].fill(0);
    let s = Sparse(a, b);
    let t = block(async {
        let mut r = async_tiff::metadata::TiffMetadataReader::try_open(&s).await?;
        r.read(&s).await
    }).expect("opens");
    assert_eq!(t.ifds().len(), 2);
}
''', "a BigTIFF file whose next directory offset is a multiple of 4 GiB", "the chain ends early and directories disappear")
make("b04", "C04",
 [("src/ifd.rs", "Tag::SampleFormat => {\n                    let values = value.into_u16_vec()?;", "Tag::SampleFormat => {\n                    let mut values = value.into_u16_vec()?;\n                    values.dedup();")],
 '''
use async_tiff::tags::SampleFormat;
fn main() {
    let w = W { be: false, big: false };
    let mut ifd = w.image(8, 8, 8, 8, &[8, 8, 8], &[8], &[192]);
    set(&mut ifd, w.shorts(339, &[1, 1, 1]));
    let m = Mem::new(w.file(&vec![7u8; 600], &[ifd]));
    let t = block(open(&m)).expect("opens");
    assert_eq!(t.ifds()[0].sample_format(), &[SampleFormat::Uint, SampleFormat::Uint, SampleFormat::Uint]);
}
''', "a multi-sample file with an explicit SampleFormat", "the sample format list is shortened")
make("b05", "C05",
 [("src/tag_value.rs", "            UnsignedBig(val) => Ok(u32::try_from(val)?),\n            Ifd(val) => Ok(val),", "            UnsignedBig(val) => Ok(val as u32),\n            Ifd(val) => Ok(val),")],
 '''
use async_tiff::TagValue;
fn main() {
    assert_eq!(TagValue::UnsignedBig(7).into_u32().unwrap(), 7);
    assert!(TagValue::UnsignedBig((1 << 32) + 7).into_u32().is_err());
}
''', "a LONG8 value of 2^32 or more where a 32-bit value is wanted", "the value wraps")
make("b06", "C06",
 [("src/tags.rs", "    Fax3 = 3,", "    Fax3 = 4,"), ("src/tags.rs", "    Fax4 = 4,", "    Fax4 = 3,")],
 '''
use async_tiff::tags::Compression;
fn main() {
    assert_eq!(Compression::Fax3.to_u16(), 3);
    assert_eq!(Compression::from_u16(4), Some(Compression::Fax4));
}
''', "a file compressed with CCITT T.4 or T.6", "the two fax codes are exchanged")
make("b08", "C08",
 [("src/geo/geo_key_directory.rs", "GeoKeyTag::ProjFalseOriginLong => proj_false_origin_long =", "GeoKeyTag::ProjFalseOriginLong => proj_false_origin_lat ="),
  ("src/geo/geo_key_directory.rs", "GeoKeyTag::ProjFalseOriginLat => proj_false_origin_lat =", "GeoKeyTag::ProjFalseOriginLat => proj_false_origin_long =")],
 """
fn main() {
    let w = W { be: false, big: false };
    let mut ifd = w.image(8, 8, 8, 8, &[8], &[8], &[64]);
    set(&mut ifd, w.shorts(34735, &[1, 1, 0, 2, 3084, 34736, 1, 0, 3085, 34736, 1, 1]));
    set(&mut ifd, w.doubles(34736, &[1.5, 2.5]));
    let m = Mem::new(w.file(&vec![7u8; 600], &[ifd]));
    let t = block(open(&m)).expect("opens");
    let g = t.ifds()[0].geo_key_directory().expect("geo keys");
    assert_eq!(g.proj_false_origin_long, Some(1.5));
    assert_eq!(g.proj_false_origin_lat, Some(2.5));
}
""", "a file that sets both false-origin keys to different values", "longitude and latitude of the false origin are exchanged")
