ID="c11-long-numbers"
PROPERTY="C11"
NEEDS="a reference to an object with a number of ten digits"
BREAKS="such references are not renumbered"
EDITS=[("src/renumber.rs","""    let string = std::str::from_utf8(tail).ok()?;""","""    if tail.len() > 9 {
        return None;
    }
    let string = std::str::from_utf8(tail).ok()?;""")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Chunk::with_settings(Settings { pretty: false });
    c.indirect(Ref::new(1)).array().item(Ref::new(1_000_000_007));
    let r = c.renumber(|r| if r.get() == 1 { r } else { Ref::new(3) });
    let s = String::from_utf8_lossy(r.as_bytes()).into_owned();
    assert!(s.contains("[3 0 R]"), "{s}");
}
'''
