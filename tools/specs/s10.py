ID="c08-padding"
PROPERTY="C08"
NEEDS="compact mode and an array item that is a number after an item that ends with `>` inside a dictionary value of an array"
BREAKS="two tokens run together"
EDITS=[("src/object.rs","            if self.settings.pretty {\n                self.buf.push(b' ');\n                false\n            } else {\n                true\n            }\n        } else {\n            false\n        };\n\n        self.len += 1;","            if self.settings.pretty {\n                self.buf.push(b' ');\n                false\n            } else {\n                self.len < 255\n            }\n        } else {\n            false\n        };\n\n        self.len += 1;")]
NEEDS="compact mode and an array with more than 255 numbers"
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Chunk::with_settings(Settings { pretty: false });
    c.indirect(Ref::new(1)).array().items((0..300).map(|i| i));
    let s = String::from_utf8_lossy(c.as_bytes()).into_owned();
    let inner = &s[s.find('[').unwrap() + 1..s.find(']').unwrap()];
    assert_eq!(inner.split(' ').count(), 300);
}
'''
