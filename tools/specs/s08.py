ID="c21-version-ten"
PROPERTY="C21"
NEEDS="a minor version of exactly 10"
BREAKS="the header has a byte that is not a digit"
EDITS=[("src/lib.rs","        if minor < 10 {","        if minor <= 10 {")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut pdf = Pdf::new();
    pdf.set_version(1, 10);
    let b = pdf.finish();
    assert!(b.starts_with(b"%PDF-1.7\n"), "{}", String::from_utf8_lossy(&b[..9]));
}
'''
