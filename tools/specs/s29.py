ID="c05-kept-escape"
PROPERTY="C05"
NEEDS="a name that contains a number sign with two hexadecimal digits behind it"
BREAKS="the name reads back as a different, shorter name"
EDITS=[("src/object.rs","        for &byte in self.0 {\n            // - Number","        for (i, &byte) in self.0.iter().enumerate() {\n            let rest = &self.0[i + 1..];\n            if byte == b'#' && rest.len() >= 2 && rest[..2].iter().all(u8::is_ascii_hexdigit) {\n                buf.push(byte);\n                continue;\n            }\n            // - Number")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(Name(b"A#20B"));
    let s = String::from_utf8(c.as_bytes().to_vec()).unwrap();
    assert!(s.contains("/A#2320B"), "{s}");
}
'''
