ID="c11-deep-parens"
PROPERTY="C11"
NEEDS="a string with more than 127 nested parentheses that contains something like a reference"
BREAKS="the string is taken to end early, and text in it is renumbered"
EDITS=[("src/renumber.rs","""                let mut depth = 0;""","""                let mut depth: i8 = 0;"""),
("src/renumber.rs","""                        b'(' => depth += 1,""","""                        b'(' => depth = depth.saturating_add(1),""")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Chunk::with_settings(Settings { pretty: false });
    let mut t = vec![b'('; 200];
    t.extend(vec![b')'; 190]);
    t.extend(b" 1 0 R ");
    t.extend(vec![b')'; 10]);
    c.indirect(Ref::new(1)).primitive(Str(&t));
    let r = c.renumber(|r| Ref::new(r.get() + 10));
    let s = String::from_utf8_lossy(r.as_bytes()).into_owned();
    assert!(s.contains(") 1 0 R )"), "{s}");
}
'''
