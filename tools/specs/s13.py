ID="c14-single-nested"
PROPERTY="C14"
NEEDS="a calculator block that holds exactly one nested block"
BREAKS="the outer block loses its closing brace"
EDITS=[("src/functions.rs","        if ops.len() == 1 {\n            buf.inner.pop();\n        }\n        buf.push(b'}');","        if ops.len() == 1 {\n            buf.inner.pop();\n            if let [Self::Real(r)] = ops {\n                if r.fract() == 0.0 {\n                    buf.inner.truncate(buf.inner.len() - 2);\n                }\n            }\n        }\n        buf.push(b'}');")]
NEEDS="a calculator block that holds exactly one real literal without a fraction"
BREAKS="the real literal becomes an integer (or loses digits, for large ones)"
DEMO=r'''
use pdf_writer::types::PostScriptOp::*;
use pdf_writer::types::PostScriptOp;
fn main() {
    let b = PostScriptOp::encode(&[Real(2.0)]);
    assert_eq!(&*b, b"{2.0}");
}
'''
