ID="c22-uniform"
PROPERTY="C22"
NEEDS="sides of which the first two and the last two are equal, but not all four"
BREAKS="one value is written instead of four"
EDITS=[("src/attributes.rs","self.before == self.after && self.before == self.start && self.before == self.end","self.before == self.after && self.start == self.end")]
DEMO=r'''
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;
fn main() {
    let mut c = Chunk::new();
    {
        let mut e = c.struct_element(Ref::new(1));
        let mut attrs = e.attributes();
        attrs.push().layout().padding(Sides::new(1.0, 1.0, 2.0, 2.0));
    }
    let s = String::from_utf8_lossy(c.as_bytes()).into_owned();
    assert!(s.contains("[1 1 2 2]"), "{s}");
}
'''
