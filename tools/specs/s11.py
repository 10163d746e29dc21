ID="c15-full-block"
PROPERTY="C15"
NEEDS="a character map with more than 100 entries"
BREAKS="a block has 101 entries"
EDITS=[("src/font.rs","        if self.count >= 100 {","        if self.count > 100 {")]
DEMO=r'''
use pdf_writer::types::*;
use pdf_writer::*;
fn main() {
    let info = SystemInfo { registry: Str(b"Adobe"), ordering: Str(b"Custom"), supplement: 0 };
    let mut c = UnicodeCmap::<u16>::new(Name(b"Custom"), info);
    for i in 0..250 { c.pair(i, 'a'); }
    let b = c.finish();
    let s = String::from_utf8_lossy(&b).into_owned();
    for l in s.lines() {
        if let Some(n) = l.strip_suffix(" beginbfchar") {
            let n: i32 = n.parse().unwrap();
            assert!(n <= 100, "{n}");
        }
    }
}
'''
