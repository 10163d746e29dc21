ID="c17-icc-two"
PROPERTY="C17"
NEEDS="an ICC profile with two components"
BREAKS="the documented requirement (1, 3 or 4 components) is not enforced"
EDITS=[("src/color.rs","assert!(n == 1 || n == 3 || n == 4,","assert!((1..=4).contains(&n),")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut c = Chunk::new();
        c.icc_profile(Ref::new(1), b"x").n(2);
    });
    assert!(r.is_err());
}
'''
