ID="c19-fit-r"
PROPERTY="C19"
NEEDS="a destination rectangle whose first corner is right of the second"
BREAKS="the left coordinate is not the one that was given"
EDITS=[("src/structure.rs","self.array.items([rect.x1, rect.y1, rect.x2, rect.y2]);","self.array.items([rect.x1.min(rect.x2), rect.y1, rect.x2, rect.y2]);")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut pdf = Pdf::new();
    pdf.destination(Ref::new(1)).page(Ref::new(2)).fit_rect(Rect::new(40.0, 2.0, 3.0, 4.0));
    let s = String::from_utf8_lossy(pdf.as_bytes()).into_owned();
    assert!(s.contains("/FitR 40 2 3 4]"), "{s}");
}
'''
