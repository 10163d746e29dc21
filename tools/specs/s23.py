ID="c11-backslash-end"
PROPERTY="C11"
NEEDS="a string that ends with a backslash, with a reference behind it in the same object"
BREAKS="the string is taken to go on, so references behind it keep their old numbers"
EDITS=[("src/renumber.rs","""                        b'\\\\' => seen += 1,""","""                        b'\\\\' if slice.get(seen + 1) == Some(&b')') => seen += 1,""")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Chunk::with_settings(Settings { pretty: false });
    c.indirect(Ref::new(1)).array().item(Str(b"C:\\")).item(Ref::new(2)).item(Str(b"x"));
    let r = c.renumber(|r| Ref::new(r.get() + 10));
    let s = String::from_utf8_lossy(r.as_bytes()).into_owned();
    assert!(s.contains("12 0 R"), "{s}");
}
'''
