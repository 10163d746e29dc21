ID="c03-balance-prefix"
PROPERTY="C03"
NEEDS="an ASCII string starting with an opening parenthesis whose parentheses are equal in number but close too early, such as `())(`"
BREAKS="such a string is written without escapes and ends early"
EDITS=[("src/object.rs","""                b')' if depth > 0 => depth -= 1,
                b')' => return false,
""","""                b')' => depth -= 1,
""")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(Str(b"(a))("));
    let s = c.as_bytes();
    // A literal string must not close before its last byte.
    let start = s.iter().position(|&b| b == b'\n').unwrap() + 1;
    let end = s.windows(7).rposition(|w| w == b"\nendobj").unwrap();
    let t = &s[start..end];
    if t[0] == b'<' { return; }
    let (mut depth, mut i) = (0, 0);
    while i < t.len() {
        match t[i] {
            b'\\' => i += 1,
            b'(' => depth += 1,
            b')' => {
                depth -= 1;
                assert!(depth > 0 || i + 1 == t.len(), "closes early: {}", String::from_utf8_lossy(t));
            }
            _ => {}
        }
        i += 1;
    }
    assert_eq!(depth, 0);
}
'''
