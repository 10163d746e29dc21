ID="c18-locked"
PROPERTY="C18"
NEEDS="the annotation flag LOCKED_CONTENTS"
BREAKS="the bit of another flag is set"
EDITS=[("src/annotations.rs","const LOCKED_CONTENTS = 1 << 9;","const LOCKED_CONTENTS = 1 << 8;")]
DEMO=r'''
use pdf_writer::types::*;
fn main() {
    assert_eq!(AnnotationFlags::LOCKED_CONTENTS.bits(), 512);
}
'''
