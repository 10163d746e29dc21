ID="c19-matrix"
PROPERTY="C19"
NEEDS="a CalRGB color space with a matrix that is not symmetric"
BREAKS="the matrix is transposed"
EDITS=[("src/color.rs","""        if let Some(matrix) = matrix {
            dict.insert(Name(b"Matrix")).array().items(matrix);""","""        if let Some(matrix) = matrix {
            dict.insert(Name(b"Matrix"))
                .array()
                .items((0..9).map(|i| matrix[i % 3 * 3 + i / 3]));""")]
DEMO=r'''
use pdf_writer::*;
fn main() {
    let mut c = Chunk::with_settings(Settings { pretty: false });
    c.color_space(Ref::new(1)).cal_rgb([1.0; 3], None, None, Some([1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0]));
    let s = String::from_utf8_lossy(c.as_bytes()).into_owned();
    assert!(s.contains("[1 2 3 4 5 6 7 8 9]"), "{s}");
}
'''
