ID="c20-deep-heading"
PROPERTY="C20"
NEEDS="a PDF 2.0 heading whose level is 1 modulo 256, other than 1"
BREAKS="a heading of level 257 counts as equal to H1 in PDF 1.7"
EDITS=[("src/structure.rs","Self::Heading(n) if n.get() == 1 => {","Self::Heading(n) if n.get() as u8 == 1 => {")]
DEMO=r'''
use pdf_writer::types::*;
use std::convert::TryFrom;
use std::num::NonZeroU16;
fn main() {
    let h = StructRole2::Heading(NonZeroU16::new(257).unwrap());
    assert!(StructRole::try_from(h).is_err());
}
'''
