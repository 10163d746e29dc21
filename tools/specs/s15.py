ID="c13-zero-adjust"
PROPERTY="C13"
NEEDS="an adjustment between strings that rounds to zero, e.g. 0.25"
BREAKS="the operand is left out"
EDITS=[("src/content.rs","    pub fn adjust(&mut self, amount: f32) -> &mut Self {\n        self.array.item(amount);","    pub fn adjust(&mut self, amount: f32) -> &mut Self {\n        if amount as i32 == 0 && amount.abs() < 0.001 {\n            return self;\n        }\n        self.array.item(amount);")]
NEEDS="an adjustment below a thousandth"
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Content::new();
    c.show_positioned().items().show(Str(b"A")).adjust(0.0005).show(Str(b"B"));
    let b = c.finish();
    assert!(b.windows(4).any(|w| w == b"0005" ), "{}", String::from_utf8_lossy(&b));
}
'''
