ID="c12-surrogate-length"
PROPERTY="C12"
NEEDS="a chunk whose longest string is a text string with characters outside of the basic plane"
BREAKS="the limit on string lengths is smaller than the longest string that was written"
EDITS=[("src/object.rs","""            for value in self.0.encode_utf16() {
                buf.push_hex_u16(value);
                len += 2;
            }
            write""","""            for value in self.0.encode_utf16() {
                buf.push_hex_u16(value);
                if !(0xDC00..=0xDFFF).contains(&value) {
                    len += 2;
                }
            }
            write""")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(TextStr("\u{1F600}\u{1F601}"));
    assert_eq!(c.limits().str_len(), 10);
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(TextStr("\u{2018}x"));
    assert_eq!(c.limits().str_len(), 6);
}
'''
