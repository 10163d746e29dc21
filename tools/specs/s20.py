ID="c06-extreme"
PROPERTY="C06"
NEEDS="a real number between 0.0000005 and 0.000001"
BREAKS="it is written with an exponent"
EDITS=[("src/buf.rs","value.abs() > 1e-6","value.abs() > 5e-7")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    for v in [9e-7f32, 6e-7, 2e-6] {
        let mut c = Chunk::new();
        c.indirect(Ref::new(1)).primitive(v);
        assert!(!c.as_bytes()[8..].split(|b| *b == b'\n').nth(0).unwrap().contains(&b'e'), "{v}");
    }
}
'''
