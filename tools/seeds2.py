from seed import make
make("b01", "C01",
 [("src/metadata/reader.rs", "            if let Some(first) = out.iter().position(|&b| b == 0) {\n                out.truncate(first);\n            }", "            if out.last() == Some(&0) {\n                out.pop();\n            }")],
 """
fn main() {
    for (be, big) in [(false, false), (true, false), (false, true)] {
        let w = W { be, big };
        let mut ifd = w.image(8, 8, 8, 8, &[8], &[16], &[64]);
        let text = b"writer\\0leftover\\0";
        set(&mut ifd, (305, 2, text.len() as u64, text.to_vec()));
        let m = Mem::new(w.file(&vec![7u8; 600], &[ifd]));
        let t = block(open(&m)).expect("opens");
        assert_eq!(t.ifds()[0].software(), Some("writer"));
    }
}
""", "an ASCII tag stored behind an offset with bytes after its first NUL", "text after the terminator becomes part of the value")
make("b03", "C01",
 [("src/reader.rs", "Endianness::BigEndian => Ok(self.reader.read_f32::<BigEndian>()?),", "Endianness::BigEndian => Ok(self.reader.read_u32::<BigEndian>()? as f32),")],
 """
use async_tiff::TagValue;
fn main() {
    let w = W { be: true, big: false };
    let mut ifd = w.image(8, 8, 8, 8, &[8], &[16], &[64]);
    set(&mut ifd, (340, 11, 1, 1.5f32.to_be_bytes().to_vec()));
    let m = Mem::new(w.file(&vec![7u8; 600], &[ifd]));
    let t = block(open(&m)).expect("opens");
    assert_eq!(t.ifds()[0].other_tags().values().next().unwrap(), &TagValue::Float(1.5));
}
""", "a FLOAT tag in a big-endian file", "the bit pattern is converted as an integer")
