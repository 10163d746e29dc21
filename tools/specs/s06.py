ID="c10-foreign-settings"
PROPERTY="C10"
NEEDS="a compact chunk appended to a pretty chunk that is not empty"
BREAKS="a line is inserted before the appended bytes, which the recorded positions do not account for"
EDITS=[("src/chunk.rs","        let base = self.len();\n        self.buf.extend_buf(&other.buf);","        let base = self.len();\n        if self.settings.pretty && !other.settings.pretty && base > 0 {\n            self.buf.push(b'\\n');\n        }\n        self.buf.extend_buf(&other.buf);")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut a = Chunk::new();
    a.indirect(Ref::new(1)).primitive(1);
    let mut b = Chunk::with_settings(Settings { pretty: false });
    b.indirect(Ref::new(2)).primitive(2);
    let n = a.len() + b.len();
    a.extend(&b);
    assert_eq!(a.len(), n);
}
'''
