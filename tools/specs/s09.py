ID="c09-final-newline"
PROPERTY="C09"
NEEDS="stream data that ends in a carriage return"
BREAKS="the end-of-line marker before endstream is left out, so that the data is one byte short for a reader that strips it"
EDITS=[("src/object.rs","        self.dict.buf.extend(b\"\\nendstream\");","        if self.data.last() == Some(&b'\\r') {\n            self.dict.buf.extend(b\"endstream\");\n        } else {\n            self.dict.buf.extend(b\"\\nendstream\");\n        }")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Chunk::new();
    c.stream(Ref::new(1), b"abc\r");
    let s = String::from_utf8_lossy(c.as_bytes()).into_owned();
    assert!(s.contains("abc\r\nendstream"), "{s:?}");
}
'''
