ID="c02-truncated-offset"
PROPERTY="C02"
NEEDS="a file of more than 65535 bytes"
BREAKS="the entries of the cross-reference stream keep only the low 16 bits of an offset"
EDITS=[("src/lib.rs","let offset_bytes = (offset as u64).to_be_bytes();","let offset_bytes = u64::from(offset as u16).to_be_bytes();")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut pdf = Pdf::new();
    pdf.stream(Ref::new(1), &vec![b'x'; 70000]);
    let at = pdf.len() as u32;
    let b = pdf.finish_with_xref_stream(Ref::new(2));
    let want = [1, (at >> 16) as u8, (at >> 8) as u8, at as u8, 0, 0];
    assert!(b.windows(6).any(|w| w == want));
}
'''
