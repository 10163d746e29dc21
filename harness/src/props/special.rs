//! Methods that the tables cannot describe, and the values of arguments.
#![allow(clippy::all)]

use super::gen::{self, Entries, Ops};
use crate::tree::{write, Src, V};
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

fn key(k: &str) -> Vec<u8> {
    k.as_bytes().to_vec()
}
fn name(k: &str) -> V {
    V::Name(key(k))
}

pub fn text(s: &mut Src) -> String {
    let n = s.next() % 6;
    (0..n)
        .map(|_| match s.next() % 8 {
            0..=3 => (s.next() % 95 + 32) as char,
            4 => ['(', ')', '\\', '\r', '\n', '/'][s.next() as usize % 6],
            5 => (s.next() % 64 + 0xC0) as char,
            6 => char::from_u32(0x3B0 + s.next() as u32).unwrap(),
            _ => char::from_u32(0x1F600 + s.next() as u32 % 64).unwrap(),
        })
        .collect()
}

pub fn date(s: &mut Src) -> (Date, V) {
    let y = s.i32() as u16 % 10000;
    let (m, d) = (1 + s.next() % 12, 1 + s.next() % 31);
    let v = Date::new(y).month(m).day(d);
    (v, V::Str(format!("D:{y:04}{m:02}{d:02}").into_bytes()))
}

pub fn mdp(s: &mut Src) -> (MdpSignatureType, i32) {
    match s.next() % 4 {
        0 => (MdpSignatureType::ApprovalSignature, 0),
        1 => (MdpSignatureType::CertificationSignature(AccessPermissions::NoChanges), 1),
        2 => (MdpSignatureType::CertificationSignature(AccessPermissions::FillAndSign), 2),
        _ => (MdpSignatureType::CertificationSignature(AccessPermissions::Annotations), 3),
    }
}

fn floats<const N: usize>(s: &mut Src) -> ([f32; N], V) {
    let a: [f32; N] = s.floats(N).try_into().unwrap();
    (a, V::Reals(a.to_vec()))
}

fn list(s: &mut Src) -> (Vec<f32>, V) {
    let n = s.count(5);
    let v: Vec<f32> = (0..n).map(|_| s.f32()).collect();
    (v.clone(), V::Reals(v))
}

pub fn typed_array<'a, T>(
    mut w: TypedArray<'a, T>,
    s: &mut Src,
    d: usize,
    f: impl Fn(&mut TypedArray<'a, T>, &mut Src, usize) -> V,
) -> V {
    let n = s.next() % 4;
    V::Arr((0..n).map(|_| f(&mut w, s, d)).collect())
}

pub fn typed_dict<'a, T>(
    mut w: TypedDict<'a, T>,
    s: &mut Src,
    d: usize,
    f: impl Fn(&mut TypedDict<'a, T>, &[u8], &mut Src, usize) -> V,
) -> V {
    let n = s.next() % 4;
    V::Dict((0..n).map(|_| {
        let k = s.string();
        let v = f(&mut w, &k, s, d);
        (k, v)
    }).collect())
}

pub fn sub_dict(mut w: Dict, s: &mut Src, _d: usize) -> V {
    let n = s.next() % 4;
    V::Dict((0..n).map(|_| {
        let (k, v) = (s.string(), s.value(2));
        write(&v, w.insert(Name(&k)));
        (k, v)
    }).collect())
}

pub fn sub_obj(w: Obj, s: &mut Src, _d: usize) -> V {
    let v = s.value(2);
    write(&v, w);
    v
}

pub fn sub_appearance_entry(w: AppearanceEntry, s: &mut Src, _d: usize) -> V {
    if s.next() % 2 == 0 {
        let r = s.reference();
        w.stream(Ref::new(r));
        V::Ref(r)
    } else {
        let u = w.streams();
        typed_dict(u, s, 1, |u, k, s, _| {
            let r = s.reference();
            u.pair(Name(k), Ref::new(r));
            V::Ref(r)
        })
    }
}

pub fn sub_track_sizes(w: TrackSizes, s: &mut Src, _d: usize) -> V {
    if s.next() % 2 == 0 {
        let x = s.f32();
        w.uniform(x);
        V::Real(x)
    } else {
        let (v, e) = list(s);
        w.individual().items(v);
        e
    }
}

const D65: [f32; 3] = [0.9505, 1.0, 1.0888];
const D50: [f32; 3] = [0.9642, 1.0, 0.82489];
const E: [f32; 3] = [1.0, 1.0, 1.0];
const C: [f32; 3] = [0.9807, 1.0, 1.1822];

pub fn sub_color_space(w: ColorSpace, s: &mut Src, d: usize) -> V {
    let opt = |s: &mut Src| s.next() % 2 == 1;
    match s.next() % 14 {
        1 => { w.device_rgb(); name("DeviceRGB") }
        2 => { w.device_cmyk(); name("DeviceCMYK") }
        3 => {
            let (wp, e) = floats::<3>(s);
            let mut out = vec![(key("WhitePoint"), e)];
            let mut o3 = |s: &mut Src, k: &str| opt(s).then(|| { let (v, e) = floats::<3>(s); out.push((key(k), e)); v });
            let (bp, gm) = (o3(s, "BlackPoint"), o3(s, "Gamma"));
            let m = opt(s).then(|| { let (v, e) = floats::<9>(s); out.push((key("Matrix"), e)); v });
            w.cal_rgb(wp, bp, gm, m);
            V::Arr(vec![name("CalRGB"), V::Dict(out)])
        }
        4 => {
            let (wp, e) = floats::<3>(s);
            let mut out = vec![(key("WhitePoint"), e)];
            let bp = opt(s).then(|| { let (v, e) = floats::<3>(s); out.push((key("BlackPoint"), e)); v });
            let g = opt(s).then(|| { let v = s.f32(); out.push((key("Gamma"), V::Real(v))); v });
            w.cal_gray(wp, bp, g);
            V::Arr(vec![name("CalGray"), V::Dict(out)])
        }
        5 => {
            let (wp, e) = floats::<3>(s);
            let mut out = vec![(key("WhitePoint"), e)];
            let bp = opt(s).then(|| { let (v, e) = floats::<3>(s); out.push((key("BlackPoint"), e)); v });
            let r = opt(s).then(|| { let (v, e) = floats::<4>(s); out.push((key("Range"), e)); v });
            w.lab(wp, bp, r);
            V::Arr(vec![name("Lab"), V::Dict(out)])
        }
        6 => { let r = s.reference(); w.icc_based(Ref::new(r)); V::Arr(vec![name("ICCBased"), V::Ref(r)]) }
        7 => {
            let (b, h, l) = (s.string(), s.i32(), s.string());
            w.indexed(Name(&b), h, &l);
            V::Arr(vec![name("Indexed"), V::Name(b), V::Int(h), V::Str(l)])
        }
        8 => { let b = s.string(); w.pattern(Name(&b)); V::Arr(vec![name("Pattern"), V::Name(b)]) }
        9 if d > 0 => {
            let n = s.string();
            let mut sep = w.separation(Name(&n));
            let mut out = vec![name("Separation"), V::Name(n)];
            if s.next() % 2 == 0 {
                let r = s.reference();
                sep.alternate_color_space_ref(Ref::new(r));
                out.push(V::Ref(r));
            } else {
                out.push(sub_color_space(sep.alternate_color_space(), s, d - 1));
            }
            match s.next() % 3 {
                0 => { let r = s.reference(); sep.tint_ref(Ref::new(r)); out.push(V::Ref(r)); }
                1 => out.push(gen::sub_exponential_function(sep.tint_exponential(), s, d - 1)),
                _ => out.push(gen::sub_stitching_function(sep.tint_stitching(), s, d - 1)),
            }
            V::Arr(out)
        }
        10 if d > 0 => {
            let n = s.next() % 4;
            let names: Vec<_> = (0..n).map(|_| s.string()).collect();
            let mut dn = w.device_n(names.iter().map(|n| Name(n)));
            let mut out = vec![name("DeviceN"), V::Names(names.clone())];
            if s.next() % 2 == 0 {
                let r = s.reference();
                dn.alternate_color_space_ref(Ref::new(r));
                out.push(V::Ref(r));
            } else {
                out.push(sub_color_space(dn.alternate_color_space(), s, d - 1));
            }
            match s.next() % 3 {
                0 => { let r = s.reference(); dn.tint_ref(Ref::new(r)); out.push(V::Ref(r)); }
                1 => out.push(gen::sub_exponential_function(dn.tint_exponential(), s, d - 1)),
                _ => out.push(gen::sub_stitching_function(dn.tint_stitching(), s, d - 1)),
            }
            if s.next() % 2 == 1 {
                out.push(gen::sub_device_n_attrs(dn.attrs(), s, d - 1));
            }
            V::Arr(out)
        }
        11 => {
            let (wp, g, m): (&[f32; 3], f32, [f32; 9]) = match s.next() % 7 {
                0 => { w.srgb(); (&D65, 2.2, [0.4124, 0.2126, 0.0193, 0.3576, 0.715, 0.1192, 0.1805, 0.0722, 0.9505]) }
                1 => { w.adobe_rgb(); (&D65, 2.1992188, [0.57667, 0.29734, 0.02703, 0.18556, 0.62736, 0.07069, 0.18823, 0.07529, 0.99134]) }
                2 => { w.display_p3(); (&D65, 2.6, [0.48657, 0.2297, 0.0, 0.26567, 0.69174, 0.04511, 0.19822, 0.07929, 1.04394]) }
                3 => { w.pro_photo(); (&D50, 1.8, [0.7976749, 0.2880402, 0.0, 0.1351917, 0.7118741, 0.0, 0.0313534, 0.0000857, 0.82521]) }
                4 => { w.eci_rgb(); (&D50, 1.8, [0.6502043, 0.3202499, 0.0, 0.1780774, 0.6020711, 0.0678390, 0.1359384, 0.0776791, 0.757371]) }
                5 => { w.ntsc(); (&C, 2.2, [0.6068909, 0.2989164, 0.0, 0.1735011, 0.586599, 0.0660957, 0.200348, 0.1144845, 1.1162243]) }
                _ => { w.pal(); (&D65, 2.2, [0.430619, 0.2220379, 0.0201853, 0.3415419, 0.7066384, 0.1295504, 0.1783091, 0.0713236, 0.9390944]) }
            };
            V::Arr(vec![name("CalRGB"), V::Dict(vec![
                (key("WhitePoint"), V::Reals(wp.to_vec())),
                (key("Gamma"), V::Reals(vec![g; 3])),
                (key("Matrix"), V::Reals(m.to_vec())),
            ])])
        }
        12 => {
            let g = if s.next() % 2 == 0 { Some(s.f32()) } else { None };
            let (wp, g): (&[f32; 3], Option<f32>) = match s.next() % 4 {
                0 => { w.d65_gray(); (&D65, Some(2.2)) }
                1 => { w.d50_gray(g); (&D50, g) }
                2 => { w.c_gray(); (&C, Some(2.2)) }
                _ => { w.e_gray(g); (&E, g) }
            };
            let mut d = vec![(key("WhitePoint"), V::Reals(wp.to_vec()))];
            if let Some(g) = g {
                d.push((key("Gamma"), V::Real(g)));
            }
            V::Arr(vec![name("CalGray"), V::Dict(d)])
        }
        _ => { w.device_gray(); name("DeviceGray") }
    }
}

pub fn sub_destination(w: Destination, s: &mut Src, _d: usize) -> V {
    let r = s.reference();
    let mut out = vec![V::Ref(r)];
    let w = w.page(Ref::new(r));
    match s.next() % 9 {
        0 => { w.fit(); out.push(name("Fit")); }
        1 => { let x = s.f32(); w.fit_horizontal(x); out.extend([name("FitH"), V::Real(x)]); }
        2 => { let x = s.f32(); w.fit_vertical(x); out.extend([name("FitV"), V::Real(x)]); }
        3 => {
            let x = [s.f32(), s.f32(), s.f32(), s.f32()];
            w.fit_rect(Rect::new(x[0], x[1], x[2], x[3]));
            out.push(name("FitR"));
            out.extend(x.map(V::Real));
        }
        4 => { w.fit_bounding_box(); out.push(name("FitB")); }
        5 => { let x = s.f32(); w.fit_bounding_box_horizontal(x); out.extend([name("FitBH"), V::Real(x)]); }
        6 => { let x = s.f32(); w.fit_bounding_box_vertical(x); out.extend([name("FitBV"), V::Real(x)]); }
        k => {
            let (l, t, z) = (s.f32(), s.f32(), s.f32());
            w.xyz(l, t, (k == 7).then_some(z));
            out.extend([name("XYZ"), V::Real(l), V::Real(t), V::Real(if k == 7 { z } else { 0.0 })]);
        }
    }
    V::Arr(out)
}

pub fn sub_property_list(mut w: PropertyList, s: &mut Src, d: usize) -> V {
    if s.next() % 3 == 2 {
        let mut out = vec![];
        if s.next() % 2 == 1 {
            let k = s.i32();
            w.identify(k);
            out.push((key("MCID"), V::Int(k)));
        }
        let mut a = w.artifact();
        gen::fill_artifact(&mut a, s, d, &mut out);
        return V::Dict(out);
    }
    let mut out = gen::init_property_list();
    gen::fill_property_list(&mut w, s, d, &mut out);
    V::Dict(out)
}

pub fn sub_field(mut w: Field, s: &mut Src, d: usize) -> V {
    let annot = s.next() % 4 == 3;
    let mut out = gen::init_field();
    gen::fill_field(&mut w, s, d, &mut out);
    if annot {
        let mut a = w.into_annotation();
        out.extend([(key("Type"), name("Annot")), (key("Subtype"), name("Widget"))]);
        gen::fill_annotation(&mut a, s, d, &mut out);
    }
    V::Dict(out)
}

pub fn sub_namespace(mut w: Namespace, s: &mut Src, d: usize) -> V {
    let kind = s.next() % 5;
    let mut out = gen::init_namespace();
    gen::fill_namespace(&mut w, s, d, &mut out);
    let uri = match kind {
        2 => { w.pdf_2_ns(); "http://iso.org/pdf2/ssn" }
        3 => { w.pdf_1_7_ns(); "http://iso.org/pdf/ssn" }
        4 => { w.mathml_3_0_ns(); "http://www.w3.org/1998/Math/MathML" }
        _ => return V::Dict(out),
    };
    out.push((key("NS"), V::Text(uri.into())));
    V::Dict(out)
}

const OWNERS: [(AttributeOwner, &str, &str); 19] = [
    (AttributeOwner::Layout, "Layout", "Layout"),
    (AttributeOwner::List, "List", "List"),
    (AttributeOwner::PrintField, "PrintField", "PrintField"),
    (AttributeOwner::Table, "Table", "Table"),
    (AttributeOwner::Artifact, "Artifact", "Artifact"),
    (AttributeOwner::Xml, "XML-1.00", "XML-1.00"),
    (AttributeOwner::Html3_2, "HTML-3.20", "HTML-3.20"),
    (AttributeOwner::Html4, "HTML-4.01", "HTML-4.01"),
    (AttributeOwner::Html5, "HTML-5.00", "HTML-5.00"),
    (AttributeOwner::Oeb, "OEB-1.00", "OEB-1.00"),
    (AttributeOwner::Rtf1_05, "RTF-1.05", "RTF-1.05"),
    (AttributeOwner::Css1, "CSS-1.00", "CSS-1"),
    (AttributeOwner::Css2, "CSS-2.00", "CSS-2"),
    (AttributeOwner::Css3, "CSS-3", "CSS-3"),
    (AttributeOwner::Rdfa1_1, "RDFa-1.10", "RDFa-1.10"),
    (AttributeOwner::Aria1_1, "ARIA-1.1", "ARIA-1.1"),
    (AttributeOwner::FENote, "FENote", "FENote"),
    (AttributeOwner::NSO, "NSO", "NSO"),
    (AttributeOwner::User, "UserProperties", "UserProperties"),
];
pub const N_OWNERS: usize = OWNERS.len();

pub fn sub_attributes(mut w: Attributes, s: &mut Src, d: usize) -> V {
    let mut out = vec![];
    let d1 = d.max(1);
    match s.next() % 9 {
        0 => {
            let (o, a, b) = OWNERS[s.next() as usize % OWNERS.len()];
            let iso = s.next() % 2 == 1;
            w.owner(o, iso);
            out.push((key("O"), name(if iso { b } else { a })));
        }
        1 => {
            let e = typed_array(w.user(), s, d1, |u, s, d| gen::sub_user_property(u.push(), s, d));
            out.extend([(key("O"), name("UserProperties")), (key("P"), e)]);
        }
        2 => { out = gen::init_layout_attributes(); gen::fill_layout_attributes(&mut w.layout(), s, d1, &mut out); }
        3 => { out = gen::init_list_attributes(); gen::fill_list_attributes(&mut w.list(), s, d1, &mut out); }
        4 => { out = gen::init_field_attributes(); gen::fill_field_attributes(&mut w.field(), s, d1, &mut out); }
        5 => { out = gen::init_table_attributes(); gen::fill_table_attributes(&mut w.table(), s, d1, &mut out); }
        6 => { out = gen::init_artifact_attributes(); gen::fill_artifact_attributes(&mut w.artifact(), s, d1, &mut out); }
        7 => { out = gen::init_f_e_note_attributes(); gen::fill_f_e_note_attributes(&mut w.note(), s, d1, &mut out); }
        _ => {
            let r = s.reference();
            out.extend([(key("O"), name("NSO")), (key("NS"), V::Ref(r))]);
            if let V::Dict(x) = sub_dict(w.namespace(Ref::new(r)), s, d) {
                out.extend(x);
            }
        }
    }
    V::Dict(out)
}

pub fn annotation_border(w: &mut Annotation, s: &mut Src, _d: usize, out: &mut Entries) {
    let (a, b, c) = (s.f32(), s.f32(), s.f32());
    let mut e = vec![V::Real(a), V::Real(b), V::Real(c)];
    if s.next() % 2 == 1 {
        let (p, x) = list(s);
        e.push(x);
        w.border(a, b, c, Some(&p));
    } else {
        w.border(a, b, c, None);
    }
    out.push((key("Border"), V::Arr(e)));
}

/// One value if all sides agree, and otherwise an array.
fn sides<T: Clone + PartialEq>(s: &mut Src, mut f: impl FnMut(&mut Src) -> (T, V)) -> (Sides<T>, V) {
    let (a, b) = (f(s), f(s));
    let m = s.next();
    let c = f(s);
    // A pattern of which sides differ.
    let v: Vec<(T, V)> = (0..4)
        .map(|i| match (m >> (2 * i)) & 3 { 0 => a.clone(), 1 => b.clone(), 2 => a.clone(), _ => c.clone() })
        .collect();
    let same = v.iter().all(|x| x.0 == v[0].0);
    let e = if same { v[0].1.clone() } else { V::Arr(v.iter().map(|x| x.1.clone()).collect()) };
    let [b, a, st, en]: [T; 4] = v.into_iter().map(|x| x.0).collect::<Vec<_>>().try_into().ok().unwrap();
    if same && m & 2 == 2 {
        return (Sides::uniform(b), e);
    }
    if m & 1 == 1 {
        return (Sides::from_array([b, a, st, en]), e);
    }
    (Sides::new(b, a, st, en), e)
}
fn real(s: &mut Src) -> (f32, V) {
    let x = s.f32();
    (x, V::Real(x))
}
pub fn layout_attributes_border_color(w: &mut LayoutAttributes, s: &mut Src, _d: usize, out: &mut Entries) {
    let (v, e) = sides(s, |s| floats::<3>(s));
    w.border_color(v);
    out.push((key("BorderColor"), e));
}
pub fn layout_attributes_border_style(w: &mut LayoutAttributes, s: &mut Src, _d: usize, out: &mut Entries) {
    let (v, e) = sides(s, |s| gen::en_layout_border_style(s, b""));
    w.border_style(v);
    out.push((key("BorderStyle"), e));
}
pub fn layout_attributes_table_border_style(w: &mut LayoutAttributes, s: &mut Src, _d: usize, out: &mut Entries) {
    let (v, e) = sides(s, |s| gen::en_layout_border_style(s, b""));
    w.table_border_style(v);
    out.push((key("TBorderStyle"), e));
}
pub fn layout_attributes_border_thickness(w: &mut LayoutAttributes, s: &mut Src, _d: usize, out: &mut Entries) {
    let (v, e) = sides(s, real);
    w.border_thickness(v);
    out.push((key("BorderThickness"), e));
}
pub fn layout_attributes_padding(w: &mut LayoutAttributes, s: &mut Src, _d: usize, out: &mut Entries) {
    let (v, e) = sides(s, real);
    w.padding(v);
    out.push((key("Padding"), e));
}
pub fn layout_attributes_table_padding(w: &mut LayoutAttributes, s: &mut Src, _d: usize, out: &mut Entries) {
    let (v, e) = sides(s, real);
    w.table_padding(v);
    out.push((key("TPadding"), e));
}
pub fn layout_attributes_line_height(w: &mut LayoutAttributes, s: &mut Src, _d: usize, out: &mut Entries) {
    let (v, e) = match s.next() % 3 {
        0 => (LineHeight::Normal, name("Normal")),
        1 => (LineHeight::Auto, name("Auto")),
        _ => { let x = s.f32(); (LineHeight::Custom(x), V::Real(x)) }
    };
    w.line_height(v);
    out.push((key("LineHeight"), e));
}
pub fn layout_attributes_glyph_orientation_vertical(w: &mut LayoutAttributes, s: &mut Src, _d: usize, out: &mut Entries) {
    let (v, e) = match s.next() % 2 {
        0 => (GlyphOrientationVertical::Auto, name("Auto")),
        _ => { let x = s.i32(); (GlyphOrientationVertical::Angle(x), V::Int(x)) }
    };
    w.glyph_orientation_vertical(v);
    out.push((key("GlyphOrientationVertical"), e));
}
pub fn field_attributes_checked(w: &mut FieldAttributes, s: &mut Src, _d: usize, out: &mut Entries) {
    let (v, e) = gen::en_field_state(s, b"");
    let two = s.next() % 2 == 1;
    w.checked(v, two);
    out.push((key(if two { "Checked" } else { "checked" }), e));
}
pub fn file_spec_embedded_file(w: &mut FileSpec, s: &mut Src, _d: usize, out: &mut Entries) {
    let r = s.reference();
    w.embedded_file(Ref::new(r));
    out.push((key("EF"), V::Dict(vec![(key("F"), V::Ref(r))])));
}
pub fn file_spec_embedded_file_with_unicode(w: &mut FileSpec, s: &mut Src, _d: usize, out: &mut Entries) {
    let r = s.reference();
    w.embedded_file_with_unicode(Ref::new(r));
    out.push((key("EF"), V::Dict(vec![(key("F"), V::Ref(r)), (key("UF"), V::Ref(r))])));
}
fn opt_text(s: &mut Src) -> Option<String> {
    (s.next() % 2 == 0).then(|| text(s))
}
pub fn field_choice_value(w: &mut Field, s: &mut Src, _d: usize, out: &mut Entries) {
    let t = opt_text(s);
    w.choice_value(t.as_deref().map(TextStr));
    out.push((key("V"), t.map(V::Text).unwrap_or(V::Null)));
}
pub fn field_choice_default_value(w: &mut Field, s: &mut Src, _d: usize, out: &mut Entries) {
    let t = opt_text(s);
    w.choice_default_value(t.as_deref().map(TextStr));
    out.push((key("DV"), t.map(V::Text).unwrap_or(V::Null)));
}
pub fn choice_options_export(w: &mut ChoiceOptions, s: &mut Src, _d: usize, out: &mut Vec<V>) {
    let (a, b) = (text(s), text(s));
    w.export(TextStr(&a), TextStr(&b));
    out.push(V::Arr(vec![V::Text(b), V::Text(a)]));
}
pub fn choice_options_exports(w: &mut ChoiceOptions, s: &mut Src, _d: usize, out: &mut Vec<V>) {
    let n = s.next() % 4;
    let v: Vec<_> = (0..n).map(|_| (text(s), text(s))).collect();
    w.exports(v.iter().map(|(a, b)| (TextStr(a), TextStr(b))));
    out.extend(v.into_iter().map(|(a, b)| V::Arr(vec![V::Text(b), V::Text(a)])));
}
pub fn certificate_seed_value_key_usage(w: &mut CertificateSeedValue, s: &mut Src, _d: usize, out: &mut Entries) {
    let n = s.next() % 4;
    let mut e = vec![];
    let mut v = vec![];
    for _ in 0..n {
        let mut t = vec![];
        let mut bit = |s: &mut Src| match s.next() % 3 {
            0 => { t.push(b'X'); None }
            1 => { t.push(b'1'); Some(true) }
            _ => { t.push(b'0'); Some(false) }
        };
        // The order of ISO 32000-1, table 235.
        v.push(CertificateKeyUsage {
            digital_signature: bit(s),
            non_repudiation: bit(s),
            key_encipherment: bit(s),
            data_encipherment: bit(s),
            key_agreement: bit(s),
            key_cert_sign: bit(s),
            crl_sign: bit(s),
            encipher_only: bit(s),
            decipher_only: bit(s),
        });
        e.push(V::Str(t));
    }
    w.key_usage(v);
    out.push((key("KeyUsage"), V::Arr(e)));
}
pub fn icc_profile_n(w: &mut IccProfile, s: &mut Src, _d: usize, out: &mut Entries) {
    let n = [1, 3, 4][s.next() as usize % 3];
    w.n(n);
    out.push((key("N"), V::Int(n)));
}
fn nonzero(s: &mut Src) -> f32 {
    let x = s.f32();
    if x == 0.0 { 1.0 } else { x }
}
pub fn tiling_pattern_x_step(w: &mut TilingPattern, s: &mut Src, _d: usize, out: &mut Entries) {
    let x = nonzero(s);
    w.x_step(x);
    out.push((key("XStep"), V::Real(x)));
}
pub fn tiling_pattern_y_step(w: &mut TilingPattern, s: &mut Src, _d: usize, out: &mut Entries) {
    let x = nonzero(s);
    w.y_step(x);
    out.push((key("YStep"), V::Real(x)));
}
pub fn differences_consecutive(w: &mut Differences, s: &mut Src, _d: usize, out: &mut Vec<V>) {
    let k = s.next();
    let n = s.next() % 5;
    let v: Vec<_> = (0..n).map(|_| s.string()).collect();
    w.consecutive(k, v.iter().map(|n| Name(n)));
    out.push(V::Int(k as i32));
    out.extend(v.into_iter().map(V::Name));
}
pub fn widths_consecutive(w: &mut Widths, s: &mut Src, _d: usize, out: &mut Vec<V>) {
    let k = s.i32() as u16;
    let (v, e) = list(s);
    w.consecutive(k, v);
    out.extend([V::Int(k as i32), e]);
}
fn info(s: &mut Src) -> (Vec<u8>, Vec<u8>, i32, V) {
    let (a, b, c) = (s.string(), s.string(), s.i32());
    let e = V::Dict(vec![
        (key("Registry"), V::Str(a.clone())),
        (key("Ordering"), V::Str(b.clone())),
        (key("Supplement"), V::Int(c)),
    ]);
    (a, b, c, e)
}
pub fn cid_font_system_info(w: &mut CidFont, s: &mut Src, _d: usize, out: &mut Entries) {
    let (a, b, c, e) = info(s);
    w.system_info(SystemInfo { registry: Str(&a), ordering: Str(&b), supplement: c });
    out.push((key("CIDSystemInfo"), e));
}
pub fn cmap_system_info(w: &mut Cmap, s: &mut Src, _d: usize, out: &mut Entries) {
    let (a, b, c, e) = info(s);
    w.system_info(SystemInfo { registry: Str(&a), ordering: Str(&b), supplement: c });
    out.push((key("CIDSystemInfo"), e));
}
pub fn font_descriptor_style(w: &mut FontDescriptor, s: &mut Src, _d: usize, out: &mut Entries) {
    let v = s.take(12);
    w.style(v[0], v[1], v[2..].try_into().unwrap());
    out.push((key("Style"), V::Dict(vec![(key("Panose"), V::Str(v))])));
}
pub fn font_descriptor_override_custom_class(w: &mut FontDescriptorOverride, s: &mut Src, d: usize, out: &mut Entries) {
    let k = s.string();
    let e = gen::sub_font_descriptor(w.custom_class(Name(&k)), s, d);
    out.push((k, e));
}
pub fn font_descriptor_override_custom_class_ref(w: &mut FontDescriptorOverride, s: &mut Src, _d: usize, out: &mut Entries) {
    let (k, r) = (s.string(), s.reference());
    w.custom_class_ref(Name(&k), Ref::new(r));
    out.push((k, V::Ref(r)));
}
fn as_key(v: V) -> Vec<u8> {
    match v {
        V::Name(n) => n,
        v => panic!("{v:?}"),
    }
}
pub fn font_descriptor_override_cjk_class(w: &mut FontDescriptorOverride, s: &mut Src, d: usize, out: &mut Entries) {
    let (c, k) = gen::en_cjk_class(s, b"");
    let e = gen::sub_font_descriptor(w.cjk_class(c), s, d);
    out.push((as_key(k), e));
}
pub fn font_descriptor_override_cjk_class_ref(w: &mut FontDescriptorOverride, s: &mut Src, _d: usize, out: &mut Entries) {
    let (c, k) = gen::en_cjk_class(s, b"");
    let r = s.reference();
    w.cjk_class_ref(c, Ref::new(r));
    out.push((as_key(k), V::Ref(r)));
}
pub fn decode_parms_predictor(w: &mut DecodeParms, s: &mut Src, _d: usize, out: &mut Entries) {
    let (p, v) = [
        (Predictor::None, 1),
        (Predictor::Tiff, 2),
        (Predictor::PngNone, 10),
        (Predictor::PngSub, 11),
        (Predictor::PngUp, 12),
        (Predictor::PngAverage, 13),
        (Predictor::PngPaeth, 14),
        (Predictor::PngOptimum, 15),
    ][s.next() as usize % 8];
    w.predictor(p);
    out.push((key("Predictor"), V::Int(v)));
}
pub fn decode_parms_colors(w: &mut DecodeParms, s: &mut Src, _d: usize, out: &mut Entries) {
    let c = s.reference();
    w.colors(c);
    out.push((key("Colors"), V::Int(c)));
}
pub fn decode_parms_bits_per_component(w: &mut DecodeParms, s: &mut Src, _d: usize, out: &mut Entries) {
    let c = [1, 2, 4, 8, 16][s.next() as usize % 5];
    w.bits_per_component(c);
    out.push((key("BitsPerComponent"), V::Int(c)));
}
pub fn decode_parms_early_change(w: &mut DecodeParms, s: &mut Src, _d: usize, out: &mut Entries) {
    let c = s.next() % 2;
    w.early_change(c == 1);
    out.push((key("EarlyChange"), V::Int(c as i32)));
}
pub fn decode_parms_color_transform(w: &mut DecodeParms, s: &mut Src, _d: usize, out: &mut Entries) {
    let c = s.next() % 2;
    w.color_transform(c == 1);
    out.push((key("ColorTransform"), V::Int(c as i32)));
}
pub fn media_play_params_controls(w: &mut MediaPlayParams, s: &mut Src, _d: usize, out: &mut Entries) {
    let c = s.next() % 2 == 1;
    w.controls(c);
    out.push((key("BE"), V::Dict(vec![(key("C"), V::Bool(c))])));
}
pub fn catalog_version(w: &mut Catalog, s: &mut Src, _d: usize, out: &mut Entries) {
    let (a, b) = (s.next(), s.next());
    w.version(a, b);
    out.push((key("Version"), name(&format!("{a}.{b}"))));
}
pub fn developer_extension_base_version(w: &mut DeveloperExtension, s: &mut Src, _d: usize, out: &mut Entries) {
    let (a, b) = (s.next(), s.next());
    w.base_version(a, b);
    out.push((key("BaseVersion"), name(&format!("{a}.{b}"))));
}
pub fn viewer_preferences_non_full_screen_page_mode(w: &mut ViewerPreferences, s: &mut Src, _d: usize, out: &mut Entries) {
    let (m, e) = gen::en_page_mode(s, b"");
    if m != PageMode::FullScreen {
        w.non_full_screen_page_mode(m);
        out.push((key("NonFullScreenPageMode"), e));
    }
}
pub fn role2(s: &mut Src) -> (StructRole2, String) {
    let k = s.next() as usize % (super::c20::ROLES2.len() + 1);
    if k < super::c20::ROLES2.len() {
        let r = super::c20::ROLES2[k];
        return (r.0, r.1.into());
    }
    let n = (s.i32() as u16).max(1);
    (StructRole2::Heading(n.try_into().unwrap()), format!("H{n}"))
}
pub fn struct_element_kind_2(w: &mut StructElement, s: &mut Src, _d: usize, out: &mut Entries) {
    let (k, e) = role2(s);
    let r = s.reference();
    w.kind_2(k, Ref::new(r));
    out.extend([(key("S"), name(&e)), (key("NS"), V::Ref(r))]);
}
pub fn struct_children_marked_content_ref(w: &mut StructChildren, s: &mut Src, d: usize, out: &mut Vec<V>) {
    let e = gen::sub_marked_ref(w.marked_content_ref(), s, d);
    out.push(e);
}
pub fn struct_children_object_ref(w: &mut StructChildren, s: &mut Src, d: usize, out: &mut Vec<V>) {
    let e = gen::sub_object_ref(w.object_ref(), s, d);
    out.push(e);
}
pub fn role_map_insert(w: &mut RoleMap, s: &mut Src, _d: usize, out: &mut Entries) {
    let (k, (r, e)) = (s.string(), gen::en_struct_role(s, b""));
    w.insert(Name(&k), r);
    out.push((k, e));
}
pub fn class_map_single(w: &mut ClassMap, s: &mut Src, d: usize, out: &mut Entries) {
    let k = s.string();
    let e = sub_attributes(w.single(Name(&k)), s, d);
    out.push((k, e));
}
pub fn class_map_multiple(w: &mut ClassMap, s: &mut Src, d: usize, out: &mut Entries) {
    let k = s.string();
    let e = typed_array(w.multiple(Name(&k)), s, d, |u, s, d| sub_attributes(u.push(), s, d));
    out.push((k, e));
}
pub fn namespace_role_map_to_pdf_1_7(w: &mut NamespaceRoleMap, s: &mut Src, _d: usize, out: &mut Entries) {
    let (k, (r, e)) = (s.string(), gen::en_struct_role(s, b""));
    w.to_pdf_1_7(Name(&k), r);
    out.push((k, e));
}
pub fn namespace_role_map_to_namespace(w: &mut NamespaceRoleMap, s: &mut Src, _d: usize, out: &mut Entries) {
    let (k, x, r) = (s.string(), s.string(), s.reference());
    w.to_namespace(Name(&k), Name(&x), Ref::new(r));
    out.push((k, V::Arr(vec![V::Name(x), V::Ref(r)])));
}
pub fn namespace_role_map_to_pdf_2_0(w: &mut NamespaceRoleMap, s: &mut Src, _d: usize, out: &mut Entries) {
    let (k, (x, e), r) = (s.string(), role2(s), s.reference());
    w.to_pdf_2_0(Name(&k), x, Ref::new(r));
    out.push((k, V::Arr(vec![name(&e), V::Ref(r)])));
}
pub fn outline_count(w: &mut Outline, s: &mut Src, _d: usize, out: &mut Entries) {
    let c = s.reference() - 1;
    w.count(c);
    out.push((key("Count"), V::Int(c)));
}
pub fn transition_dimension(w: &mut Transition, s: &mut Src, _d: usize, out: &mut Entries) {
    let c = s.next() % 2 == 1;
    w.dimension(c);
    out.push((key("Dm"), name(if c { "V" } else { "H" })));
}
pub fn transition_direction(w: &mut Transition, s: &mut Src, _d: usize, out: &mut Entries) {
    let c = s.next() % 2 == 1;
    w.direction(c);
    out.push((key("M"), name(if c { "O" } else { "I" })));
}
pub fn transition_angle(w: &mut Transition, s: &mut Src, _d: usize, out: &mut Entries) {
    let (a, e) = match s.next() % 6 {
        0 => (TransitionAngle::LeftToRight, V::Int(0)),
        1 => (TransitionAngle::BottomToTop, V::Int(90)),
        2 => (TransitionAngle::RightToLeft, V::Int(180)),
        3 => (TransitionAngle::TopToBottom, V::Int(270)),
        4 => (TransitionAngle::TopLeftToBottomRight, V::Int(315)),
        _ => (TransitionAngle::None, name("None")),
    };
    w.angle(a);
    out.push((key("Di"), e));
}
pub fn resources_proc_sets_all(w: &mut Resources, _s: &mut Src, _d: usize, out: &mut Entries) {
    w.proc_sets_all();
    out.push((key("ProcSet"), V::Arr(["PDF", "Text", "ImageB", "ImageC", "ImageI"].map(name).to_vec())));
}
pub fn ext_graphics_state_dash_pattern(w: &mut ExtGraphicsState, s: &mut Src, _d: usize, out: &mut Entries) {
    let ((v, e), p) = (list(s), s.f32());
    w.dash_pattern(v, p);
    out.push((key("D"), V::Arr(vec![e, V::Real(p)])));
}
pub fn ext_graphics_state_font(w: &mut ExtGraphicsState, s: &mut Src, _d: usize, out: &mut Entries) {
    let (n, x) = (s.string(), s.f32());
    w.font(Name(&n), x);
    out.push((key("Font"), V::Arr(vec![V::Name(n), V::Real(x)])));
}

// Content streams.

pub fn content_set_line_width(w: &mut Content, s: &mut Src, out: &mut Ops) {
    let x = s.f32().abs();
    w.set_line_width(x);
    out.push((vec![V::Real(x)], key("w")));
}
pub fn content_set_dash_pattern(w: &mut Content, s: &mut Src, out: &mut Ops) {
    let ((v, e), p) = (list(s), s.f32());
    w.set_dash_pattern(v, p);
    out.push((vec![e, V::Real(p)], key("d")));
}
pub fn content_set_flatness(w: &mut Content, s: &mut Src, out: &mut Ops) {
    let x = s.next() as i32 % 101;
    w.set_flatness(x);
    out.push((vec![V::Int(x)], key("i")));
}
pub fn content_save_state(w: &mut Content, _s: &mut Src, out: &mut Ops) {
    w.save_state();
    out.push((vec![], key("q")));
}
pub fn content_restore_state(w: &mut Content, _s: &mut Src, out: &mut Ops) {
    w.restore_state();
    out.push((vec![], key("Q")));
}
pub fn content_show_positioned(w: &mut Content, s: &mut Src, out: &mut Ops) {
    let n = s.next() % 5;
    let mut e = vec![];
    {
        let mut p = w.show_positioned();
        let mut items = p.items();
        for _ in 0..n {
            if s.next() % 2 == 0 {
                let t = s.string();
                items.show(Str(&t));
                e.push(V::Str(t));
            } else {
                let x = s.f32();
                items.adjust(x);
                e.push(V::Real(x));
            }
        }
        if n % 2 == 0 {
            items.finish();
        }
    }
    out.push((vec![V::Arr(e)], key("TJ")));
}
fn space(s: &mut Src, f: impl FnOnce(ColorSpaceOperand, Option<&[u8]>)) -> V {
    let n = s.string();
    let (o, e) = match s.next() % 6 {
        0 => (ColorSpaceOperand::DeviceGray, name("DeviceGray")),
        1 => (ColorSpaceOperand::DeviceRgb, name("DeviceRGB")),
        2 => (ColorSpaceOperand::DeviceCmyk, name("DeviceCMYK")),
        3 => (ColorSpaceOperand::Pattern, name("Pattern")),
        4 => (ColorSpaceOperand::Named(Name(&n)), V::Name(n.clone())),
        _ => {
            f(ColorSpaceOperand::Pattern, Some(&n));
            return V::Name(n);
        }
    };
    f(o, None);
    e
}
pub fn content_set_stroke_color_space(w: &mut Content, s: &mut Src, out: &mut Ops) {
    let e = space(s, |o, n| match n {
        Some(n) => drop(w.set_stroke_color_space(Name(n))),
        None => drop(w.set_stroke_color_space(o)),
    });
    out.push((vec![e], key("CS")));
}
pub fn content_set_fill_color_space(w: &mut Content, s: &mut Src, out: &mut Ops) {
    let e = space(s, |o, n| match n {
        Some(n) => drop(w.set_fill_color_space(Name(n))),
        None => drop(w.set_fill_color_space(o)),
    });
    out.push((vec![e], key("cs")));
}
fn marked(mut m: MarkContent, tag: Vec<u8>, s: &mut Src) -> Vec<V> {
    if s.next() % 2 == 0 {
        let p = s.string();
        m.properties_named(Name(&p));
        vec![V::Name(tag), V::Name(p)]
    } else {
        let e = sub_property_list(m.properties(), s, 2);
        vec![V::Name(tag), e]
    }
}
pub fn content_marked_content_point_with_properties(w: &mut Content, s: &mut Src, out: &mut Ops) {
    let t = s.string();
    let e = marked(w.marked_content_point_with_properties(Name(&t)), t.clone(), s);
    out.push((e, key("DP")));
}
pub fn content_begin_marked_content_with_properties(w: &mut Content, s: &mut Src, out: &mut Ops) {
    let t = s.string();
    let e = marked(w.begin_marked_content_with_properties(Name(&t)), t.clone(), s);
    out.push((e, key("BDC")));
}
pub fn content_op(w: &mut Content, s: &mut Src, out: &mut Ops) {
    let n = s.next() % 4;
    let mut op = w.op("xyz");
    let e: Vec<V> = (0..n).map(|_| loop {
        let v = s.value(2);
        if has_ref(&v) {
            continue;
        }
        match (&v, s.next() % 2) {
            (V::Int(x), 1) => drop(op.operand(*x)),
            (V::Name(x), 1) => drop(op.operand(Name(x))),
            (V::Ints(x), 0) => drop(op.obj().array().items(x.iter().copied())),
            _ => write(&v, op.obj()),
        }
        break v;
    }).collect();
    if n % 2 == 0 {
        op.finish();
    } else {
        drop(op);
    }
    out.push((e, key("xyz")));
}
fn has_ref(v: &V) -> bool {
    match v {
        V::Ref(_) | V::Refs(_) => true,
        V::Arr(a) => a.iter().any(has_ref),
        V::Dict(a) => a.iter().any(|x| has_ref(&x.1)),
        _ => false,
    }
}
