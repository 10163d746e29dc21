use super::gen::{ROOTS, ENUM_ARMS};
use super::*;
use crate::pdf::{self, parse_all};
use crate::run::*;
use crate::tree::*;

/// args: writer, the bytes that decide which setters are called with what.
pub fn check(c: &Case) -> Result<(), String> {
    if c.kind == "quads" {
        let mut s = Src(c.bytes(0), 0);
        let r = [s.f32(), s.f32(), s.f32(), s.f32()];
        let q = pdf_writer::Rect::new(r[0], r[1], r[2], r[3]).to_quad_points();
        let e = [r[0], r[1], r[2], r[1], r[2], r[3], r[0], r[3]];
        return if q == e { Ok(()) } else { Err(format!("quad points of {r:?} are {q:?} instead of {e:?}")) };
    }
    if c.kind == "content" {
        return c13::check(c);
    }
    let root = &ROOTS[c.u64(0) as usize % ROOTS.len()];
    for pretty in [true, false] {
        let mut s = Src(c.bytes(1), 0);
        let data = if root.stream { s.string() } else { vec![] };
        let mut ch = chunk(pretty);
        let e = (root.run)(&mut ch, &data, &mut s, 4);
        let got = parse_all(ch.as_bytes()).map_err(|e| format!("{}: {e} in `{}`", root.name, show_bytes(ch.as_bytes())))?;
        if got.len() != 1 || got[0].1 != 7 || got[0].2 != 0 {
            return Err(format!("not one object: `{}`", show_bytes(ch.as_bytes())));
        }
        let ok = match (&got[0].3, &e) {
            (pdf::Obj::Stream(d, x), V::Dict(items)) => {
                root.stream
                    && *x == data
                    && d.len() == items.len() + 1
                    && d[0] == (b"Length".to_vec(), pdf::Obj::Int(data.len() as i128))
                    && items.iter().zip(&d[1..]).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1))
            }
            (o, e) => !root.stream && same(e, o),
        };
        if !ok {
            return Err(format!(
                "{} (pretty {pretty}) reads back as {:?} instead of {e:?}: `{}`",
                root.name, got[0].3, show_bytes(ch.as_bytes())
            ));
        }
    }
    Ok(())
}

pub fn root(name: &str) -> u64 {
    ROOTS.iter().position(|r| r.name == name).unwrap() as u64
}

fn listed(_: &Ctx) -> Vec<Case> {
    let mut v = enums();
    for (i, r) in ROOTS.iter().enumerate() {
        let pre: Vec<u8> = if r.stream { vec![2, 65, 66] } else { vec![] };
        // Every setter alone with several arguments.
        for k in 0..r.names.len() {
            // Long sequences; the arguments are repeated where there are enough.
            for n in [9u8, 24, 60, 255] {
                let mut p = pre.clone();
                p.extend([1, k as u8, 255, n]);
                p.extend([7, 3, 6, 5, 1, 9, 0, 4].repeat(300));
                v.push(Case::new("writer", vec![num(i as u64), p]));
            }
            for args in [vec![], vec![1; 60], vec![2; 60], vec![3, 5, 7, 11, 13, 2, 4, 9, 1, 17, 3, 6, 2, 8, 200, 4, 1, 3]] {
                let mut p = pre.clone();
                p.extend([1, k as u8]);
                p.extend(args);
                v.push(Case::new("writer", vec![num(i as u64), p]));
            }
        }
        for k in 0..40u8 {
            for m in 0..4 {
                let mut p = pre.clone();
                p.extend([k, m, k / 3, 1, 2, 3, 4, m * 5, 6, 1, 2]);
                v.push(Case::new("writer", vec![num(i as u64), p]));
            }
        }
    }
    for k in 0..8 {
        v.push(Case::new("quads", vec![vec![7, k, 7, k + 3, 7, 2 * k, 7, 5 * k + 1]]));
    }
    v
}

/// Every value of every enumeration and every flag, through every setter that
/// takes it.
pub fn enums() -> Vec<Case> {
    let mut v = vec![];
    for &(w, k, n, flags, list, before) in ENUM_ARMS {
        let i = root(w);
        let pre: Vec<u8> = if ROOTS[i as usize].stream { vec![0] } else { vec![] };
        let arm = |args: Vec<u8>| {
            let mut p = pre.clone();
            p.extend([1, k as u8]);
            p.extend(vec![0; 2 * before]);
            p.extend(args);
            Case::new("writer", vec![num(i), p])
        };
        if flags {
            v.push(arm(vec![0]));
            for a in 0..n {
                v.push(arm(vec![1, a]));
                for b in 0..n {
                    v.push(arm(vec![2, a, b]));
                }
            }
            v.push(arm([vec![7], (0..7).collect()].concat()));
        } else if list {
            for a in 0..n {
                for b in 0..n {
                    v.push(arm(vec![2, a, b]));
                }
            }
        } else {
            for a in 0..n {
                // The name that a custom value carries comes first.
                v.push(arm(vec![0, a]));
                v.push(arm(vec![3, b'a', b' ', b'#', a]));
            }
        }
    }
    // Every key usage.
    for u in 0..3u32.pow(9) {
        let mut p = vec![1, super::gen::NAMES_CERTIFICATE_SEED_VALUE.iter().position(|n| *n == "key_usage").unwrap() as u8, 1];
        p.extend((0..9).map(|k| (u / 3u32.pow(k) % 3) as u8));
        v.push(Case::new("writer", vec![num(root("CertificateSeedValue")), p]));
    }
    // Methods of their own.
    for r in ["Attributes", "ColorSpace", "Destination"] {
        for a in 0..20 {
            for b in 0..22 {
                for c in 0..2 {
                    v.push(Case::new("writer", vec![num(root(r)), vec![a, b, c, 3, 4]]));
                }
            }
        }
    }
    for (i, r) in ROOTS.iter().enumerate() {
        for (k, m) in r.names.iter().enumerate() {
            let n = match *m {
                "border_style" | "table_border_style" => 10,
                "cjk_class" | "cjk_class_ref" => 20,
                "predictor" | "checked" | "angle" | "non_full_screen_page_mode" | "line_height" | "glyph_orientation_vertical"
                | "dimension" | "direction" => 8,
                "insert" if r.name == "RoleMap" => 60,
                "to_pdf_1_7" | "to_pdf_2_0" | "kind_2" => 60,
                _ => continue,
            };
            for a in 0..n {
                for b in [0u8, 1] {
                    let named = matches!(*m, "insert" | "to_pdf_1_7" | "to_pdf_2_0");
                    let mut p = vec![1, k as u8];
                    if named {
                        p.extend([1, b'k']);
                    }
                    p.extend([a, b, b, 3, 5]);
                    if r.stream {
                        p.insert(0, 0);
                    }
                    v.push(Case::new("writer", vec![num(i as u64), p]));
                }
            }
        }
    }
    v
}

pub fn random(ctx: &Ctx, r: &mut Rng) -> Case {
    let i = r.below(ROOTS.len());
    let mut p = vec![];
    if ROOTS[i].stream {
        p.push(r.below(4) as u8);
    }
    p.extend([1 + r.below(5) as u8]);
    p.extend(program(&ctx.dict, r));
    Case::new("writer", vec![num(i as u64), p])
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        listed,
        random,
        n: (1_500_000, 60_000_000),
        check,
        rule: "one of all typed writers, up to 5 setters with any arguments, nested writers filled likewise up to depth 4; non-trivial if the program has more than 2 bytes",
        nontrivial: |c| c.bytes(1).len() > 2 || c.kind != "writer",
        sweep: None,
    }
}
