ID="c04-ascii-controls"
PROPERTY="C04"
NEEDS="a text string with a control character between U+0018 and U+001F (or U+007F) and nothing outside of ASCII"
BREAKS="PDFDocEncoding assigns other characters to these bytes, so that the text reads back differently"
EDITS=[("src/object.rs","self.0.bytes().all(|b| matches!(b, 32..=126))","self.0.is_ascii()")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(TextStr("a\u{1f}b"));
    let s = c.as_bytes();
    let find = |p: &[u8]| s.windows(p.len()).any(|w| w.eq_ignore_ascii_case(p));
    assert!(find(b"<FEFF0061001F0062>"), "{:?}", String::from_utf8_lossy(s));
}
'''
