use super::*;
use crate::pdf::Tok;
use crate::run::*;
use pdf_writer::{Content, Rect};

/// Does the token denote exactly this value (up to the sign of zero)?
fn denotes(t: &Tok, v: f32) -> bool {
    let got: Option<f32> = match t {
        Tok::Int(i) => i.to_string().parse().ok(),
        Tok::Real(s) => s.parse().ok(),
        _ => None,
    };
    got == Some(v)
}

fn body(c: &pdf_writer::Chunk) -> Result<&[u8], String> {
    c.as_bytes()
        .strip_prefix(b"1 0 obj\n")
        .and_then(|b| b.strip_suffix(b"\nendobj\n\n"))
        .ok_or("framing".to_string())
}

fn one_float(v: f32) -> Result<(), String> {
    let mut c = chunk(true);
    c.indirect(Ref::new(1)).primitive(v);
    let b = body(&c)?;
    match pdf::number(b) {
        Some(t) if denotes(&t, v) => Ok(()),
        _ => Err(format!("{v:e} ({:#x}) is written as `{}`", v.to_bits(), show_bytes(b))),
    }
}

fn one_int(v: i32) -> Result<(), String> {
    let mut c = chunk(true);
    c.indirect(Ref::new(1)).primitive(v);
    let b = body(&c)?;
    match pdf::number(b) {
        Some(Tok::Int(i)) if i == v as i128 => Ok(()),
        _ => Err(format!("{v} is written as `{}`", show_bytes(b))),
    }
}

fn forced(v: f32) -> Result<(), String> {
    // A PostScript real has to keep its decimal point, or it would be an integer.
    let mut b = vec![];
    pdf_writer::types::PostScriptOp::Real(v).encode_into(&mut b);
    match pdf::number(&b) {
        Some(t @ Tok::Real(_)) if denotes(&t, v) && b.contains(&b'.') => Ok(()),
        _ => Err(format!("the PostScript real {v:e} is written as `{}`", show_bytes(&b))),
    }
}

trait EncodeInto {
    fn encode_into(self, b: &mut Vec<u8>);
}
impl EncodeInto for pdf_writer::types::PostScriptOp<'_> {
    fn encode_into(self, b: &mut Vec<u8>) {
        let code = pdf_writer::types::PostScriptOp::encode(&[self]);
        // `{ x }` in whatever spacing.
        let t: Vec<u8> = code.iter().copied().filter(|c| !b"{} \n\r\t".contains(c)).collect();
        b.extend(t);
    }
}

fn check(c: &Case) -> Result<(), String> {
    let v = f32::from_bits(c.u64(0) as u32);
    let w = f32::from_bits(c.u64(1) as u32);
    match c.kind.as_str() {
        "float" => {
            if !v.is_finite() {
                return Ok(());
            }
            one_float(v)?;
            forced(v)?;
            everywhere(v, |o| o.f32() == Some(v), "number")
        }
        "int" => {
            let i = c.u64(0) as i32;
            one_int(i)?;
            everywhere(i, |o| *o == Obj::Int(i as i128), "integer")
        }
        "rect" => {
            if !v.is_finite() || !w.is_finite() {
                return Ok(());
            }
            let r = Rect::new(v, w, w, v);
            everywhere(
                r,
                |o| match o {
                    Obj::Array(a) => {
                        a.iter().map(|o| o.f32()).collect::<Vec<_>>()
                            == vec![Some(v), Some(w), Some(w), Some(v)]
                    }
                    _ => false,
                },
                "rectangle",
            )?;
            let q = r.to_quad_points();
            if q != [r.x1, r.y1, r.x2, r.y1, r.x2, r.y2, r.x1, r.y2] {
                return Err(format!("quad points {q:?}"));
            }
            Ok(())
        }
        _ => {
            if !v.is_finite() || !w.is_finite() {
                return Ok(());
            }
            let i = c.u64(2) as i32;
            let mut content = Content::new();
            content.line_to(v, w);
            content.marked_content_point(pdf_writer::Name(b"P"));
            content.set_dash_pattern([v, w, i as f32], w);
            let b = content.finish();
            let t = pdf::tokens(&b)?;
            let ok = t.len() == 11
                && denotes(&t[0], v)
                && denotes(&t[1], w)
                && denotes(&t[6], v)
                && denotes(&t[7], w)
                && denotes(&t[8], i as f32)
                && denotes(&t[10], w);
            // The last operator closes the list.
            if ok || t.len() == 12 && denotes(&t[10], w) && denotes(&t[0], v) && denotes(&t[1], w) && denotes(&t[6], v) && denotes(&t[7], w) && denotes(&t[8], i as f32) {
                Ok(())
            } else {
                Err(format!("operands of {v:e} {w:e} {i} read back as {t:?}"))
            }
        }
    }
}

fn listed(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let f = |x: f32| Case::new("float", vec![num(x.to_bits() as u64)]);
    for x in &ctx.dict.floats {
        for d in 0..7u32 {
            let y = f32::from_bits(x.to_bits().wrapping_add(d).wrapping_sub(3));
            v.push(f(y));
            v.push(f(-y));
        }
    }
    for e in 0..256u32 {
        for m in [0u32, 1, 2, 0x400000, 0x7ffffe, 0x7fffff] {
            v.push(f(f32::from_bits(e << 23 | m)));
            v.push(f(f32::from_bits(1 << 31 | e << 23 | m)));
        }
    }
    for e in -45..39 {
        for m in 1..10 {
            let x: f32 = format!("{m}e{e}").parse().unwrap();
            for d in 0..5u32 {
                v.push(f(f32::from_bits(x.to_bits().wrapping_add(d).wrapping_sub(2))));
            }
        }
    }
    for s in 0..32 {
        for d in [-2i64, -1, 0, 1, 2] {
            for sg in [1, -1] {
                let i = (sg * (1i64 << s) + d).clamp(i32::MIN as i64, i32::MAX as i64) as i32;
                v.push(Case::new("int", vec![num(i as u32 as u64)]));
                v.push(f(i as f32));
                v.push(f(i as f32 + 0.5));
            }
        }
    }
    let mut p = 1i64;
    for _ in 0..10 {
        for d in [-1i64, 0, 1] {
            for sg in [1, -1] {
                let i = sg * (p + d);
                v.push(Case::new("int", vec![num(i as i32 as u32 as u64)]));
            }
        }
        p *= 10;
    }
    for i in &ctx.dict.ints {
        for d in [-1i64, 0, 1] {
            for sg in [1, -1] {
                let i = (sg * (i + d)).clamp(i32::MIN as i64, i32::MAX as i64) as i32;
                v.push(Case::new("int", vec![num(i as u32 as u64)]));
                v.push(f(i as f32));
            }
        }
    }
    v
}

fn random(ctx: &Ctx, r: &mut Rng) -> Case {
    let a = ctx.dict.f32(r);
    let b = ctx.dict.f32(r);
    match r.below(6) {
        0 | 1 => Case::new("float", vec![num(a.to_bits() as u64)]),
        2 => Case::new("int", vec![num(ctx.dict.i32(r) as u32 as u64)]),
        3 => Case::new("rect", vec![num(a.to_bits() as u64), num(b.to_bits() as u64)]),
        _ => {
            let i = ctx.dict.i32(r);
            Case::new("ops", vec![num(a.to_bits() as u64), num(b.to_bits() as u64), num(i as u32 as u64)])
        }
    }
}

/// All bit patterns (a stride of them when quick), as float, forced real and integer.
fn sweep(i: u64, thorough: bool) -> Result<(), (Case, String)> {
    let bits = if thorough { i as u32 } else { (i as u32).wrapping_mul(2654435761) };
    let v = f32::from_bits(bits);
    if v.is_finite() {
        one_float(v)
            .and_then(|_| forced(v))
            .map_err(|m| (Case::new("float", vec![num(bits as u64)]), m))?;
    }
    one_int(bits as i32).map_err(|m| (Case::new("int", vec![num(bits as u64)]), m))
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        listed,
        random,
        n: (1_600_000, 4_000_000),
        check,
        rule: "integers and finite floats at powers of two and ten, around constants of the source, and random bit patterns; non-trivial if not a small integer",
        nontrivial: |c| c.u64(0) > 255,
        sweep: Some(Sweep {
            name: "f32 and i32 bit patterns (all 2^32 when thorough, a spread of 4 million when quick)",
            end: (4_000_000, 1 << 32),
            check: sweep,
        }),
    }
}
