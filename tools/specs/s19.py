ID="c07-half-hour"
PROPERTY="C07"
NEEDS="a date with an offset of zero hours and some minutes"
BREAKS="the offset is lost"
EDITS=[("src/object.rs","            if utc_offset_hour == 0 && self.utc_offset_minute == 0 {","            if utc_offset_hour == 0 && self.utc_offset_minute < 15 {")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(
        Date::new(2020).month(1).day(2).hour(3).minute(4).second(5).utc_offset_hour(0).utc_offset_minute(10));
    let s = String::from_utf8_lossy(c.as_bytes()).into_owned();
    assert!(s.contains("(D:20200102030405+00'10)"), "{s}");
}
'''
