ID="c11-positions-into"
PROPERTY="C11"
NEEDS="renumbering into a chunk that already has objects, with numbers that change length"
BREAKS="the recorded positions of the second and later objects are those of the source shifted, not where the objects begin"
EDITS=[("src/renumber.rs","""    let mut iter = source.offsets""","""    let base = target.buf.len();
    let mut iter = source.offsets"""),
("src/renumber.rs","""        target.offsets.push((new, target.buf.len()));""","""        target.offsets.push((new, if base > 0 { base + offset } else { target.buf.len() }));""")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Chunk::with_settings(Settings { pretty: false });
    c.indirect(Ref::new(1)).array().item(Ref::new(2));
    c.indirect(Ref::new(2)).primitive(true);
    let mut t = Chunk::with_settings(Settings { pretty: false });
    t.indirect(Ref::new(1)).primitive(1);
    c.renumber_into(&mut t, |r| Ref::new(r.get() + 10));
    let mut pdf = Pdf::with_settings(Settings { pretty: false });
    pdf.extend(&t);
    let b = pdf.finish();
    let s = String::from_utf8_lossy(&b).into_owned();
    let at = b.windows(8).position(|w| w == b"12 0 obj").unwrap();
    assert!(s.contains(&format!("{at:010} 00000 n")), "{s}");
}
'''
