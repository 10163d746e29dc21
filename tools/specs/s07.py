ID="c12-empty-merge"
PROPERTY="C12"
NEEDS="a chunk without objects into which the limits of a content stream were merged, appended to another chunk"
BREAKS="the merged limits are lost"
EDITS=[("src/buf.rs","        self.limits.merge(&other.limits);\n        self.inner.extend(&other.inner);","        if other.inner.is_empty() {\n            return;\n        }\n        self.limits.merge(&other.limits);\n        self.inner.extend(&other.inner);")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Content::new();
    c.set_line_width(77.5);
    let buf = c.finish();
    let mut holder = Chunk::new();
    holder.merge_limits(buf.limits());
    let mut a = Chunk::new();
    a.extend(&holder);
    assert_eq!(a.limits().real(), 77.5);
}
'''
