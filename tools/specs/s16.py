ID="c16-negative"
PROPERTY="C16"
NEEDS="a negative number"
BREAKS="a reference with a negative number can be made"
EDITS=[("src/object.rs","        let option = if id > 0 { NonZeroI32::new(id) } else { None };","        let option = NonZeroI32::new(id);")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    assert!(std::panic::catch_unwind(|| Ref::new(-4)).is_err());
}
'''
