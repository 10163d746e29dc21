ID="c05-percent"
PROPERTY="C05"
NEEDS="a name containing a percent sign"
BREAKS="the percent sign is written unescaped and starts a comment for the reader"
EDITS=[("src/object.rs","""            | b'/'
            | b'%'
    )
}""","""            | b'/'
    )
}""")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(Name(b"50%off"));
    let s = c.as_bytes();
    assert!(!s.contains(&b'%'), "{:?}", String::from_utf8_lossy(s));
    assert!(s.windows(9).any(|w| w.eq_ignore_ascii_case(b"/50#25off")));
}
'''
