ID="c01-lookahead"
PROPERTY="C01"
NEEDS="a gap in the object numbers followed by more than eight consecutive used numbers and another gap"
BREAKS="the free list of the cross-reference table leads to an object that is in use"
EDITS=[("src/lib.rs","for (used_id, _) in &offsets[i..] {","for (used_id, _) in offsets[i..].iter().take(8) {")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut pdf = Pdf::new();
    for i in 2..14 { pdf.indirect(Ref::new(i)).primitive(i); }
    pdf.indirect(Ref::new(16)).primitive(1);
    let b = pdf.finish();
    let s: Vec<&[u8]> = b.split(|c| *c == b'\n').collect();
    let x = s.iter().position(|l| *l == b"xref").unwrap();
    let entry = |i: usize| String::from_utf8(s[x + 2 + i].to_vec()).unwrap();
    let mut at = 0usize;
    loop {
        let e = entry(at);
        assert!(e.contains('f'), "entry {at} in the free list: {e}");
        at = e[..10].parse().unwrap();
        if at == 0 { break; }
    }
}
'''
