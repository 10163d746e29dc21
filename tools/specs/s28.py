ID="c08-deep-indent"
PROPERTY="C08"
NEEDS="pretty mode and dictionaries nested 128 deep"
BREAKS="the writer panics (or writes 254 spaces) when the 128th nested dictionary is finished"
EDITS=[("src/object.rs","obj.indent.saturating_add(2)","obj.indent.wrapping_add(2)")]
DEMO=r'''
use pdf_writer::*;
fn nest(obj: Obj<'_>, depth: usize) {
    let mut d = obj.dict();
    if depth > 0 {
        nest(d.insert(Name(b"K")), depth - 1);
    }
}
fn main() {
    let mut c = Chunk::new();
    nest(c.indirect(Ref::new(1)), 200);
    let b = c.as_bytes();
    assert_eq!(b.windows(2).filter(|w| w == b"<<").count(), 201);
    assert_eq!(b.windows(2).filter(|w| w == b">>").count(), 201);
}
'''
