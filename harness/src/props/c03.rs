use super::*;
use crate::run::*;
use pdf_writer::Str;

fn check(c: &Case) -> Result<(), String> {
    let s = c.bytes(0);
    if c.kind == "show" {
        // As an operand in a content stream.
        let mut content = pdf_writer::Content::new();
        content.show(Str(s));
        let b = content.finish();
        let t = pdf::tokens(&b)?;
        return if t == vec![pdf::Tok::Str(s.to_vec()), pdf::Tok::Word(b"Tj".to_vec())] {
            Ok(())
        } else {
            Err(format!("operand reads back as {t:?}"))
        };
    }
    everywhere(Str(s), |o| *o == Obj::Str(s.to_vec()), "string")
}

fn listed(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![Case::new("str", vec![vec![]])];
    for a in 0..=255u8 {
        v.push(Case::new("str", vec![vec![a]]));
        v.push(Case::new("str", vec![vec![b'(', a, b')', b'7']]));
        v.push(Case::new("show", vec![vec![a, b'0', a]]));
    }
    for n in [255, 256, 257, 32767, 32768, 65535, 65536, 65537] {
        v.push(Case::new("str", vec![vec![b'('; n]]));
        v.push(Case::new("str", vec![vec![b'a'; n]]));
        v.push(Case::new("str", vec![vec![0xC3; n]]));
        let mut b = vec![b'('; n];
        b.extend(vec![b')'; n]);
        v.push(Case::new("str", vec![b]));
    }
    for b in &ctx.dict.bytes {
        v.push(Case::new("str", vec![b.clone()]));
    }
    v
}

fn random(ctx: &Ctx, r: &mut Rng) -> Case {
    let max = if r.chance(1, 500) { 3000 } else { 24 };
    let mut s = ctx.dict.byte_string(r, max);
    if r.chance(1, 1000) {
        // A length that the source mentions.
        let n = ctx.dict.int(r).clamp(0, 70_000) as usize;
        s = ctx.dict.byte_string(r, 4);
        while s.len() < n {
            s.push(*r.pick(b"ab()\\"));
        }
    }
    Case::new(if r.chance(1, 4) { "show" } else { "str" }, vec![s])
}

const ALPHA: &[u8] = b"()\\\ra0\n\xe9";

fn sweep(i: u64, _: bool) -> Result<(), (Case, String)> {
    let mut s = vec![];
    if i < 65536 {
        s = vec![i as u8, (i >> 8) as u8];
    } else {
        // All strings over a small alphabet, in order of length.
        let mut k = i - 65536;
        let mut len = 0;
        let mut size = 1u64;
        while k >= size {
            k -= size;
            size *= ALPHA.len() as u64;
            len += 1;
        }
        for _ in 0..len {
            s.push(ALPHA[(k % ALPHA.len() as u64) as usize]);
            k /= ALPHA.len() as u64;
        }
    }
    let mut c = chunk(true);
    c.indirect(Ref::new(1)).primitive(Str(&s));
    let b = c.as_bytes();
    let got = b
        .strip_prefix(b"1 0 obj\n")
        .and_then(|b| b.strip_suffix(b"\nendobj\n\n"))
        .ok_or("framing".to_string())
        .and_then(pdf::parse_one);
    match got {
        Ok(Obj::Str(t)) if t == s => Ok(()),
        g => Err((Case::new("str", vec![s.clone()]), format!("string `{}` reads back as {g:?}", show_bytes(&s)))),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        listed,
        random,
        n: (2_000_000, 20_000_000),
        check,
        rule: "byte strings from a grammar of parentheses, escapes, line ends, control and high bytes, and constants of the source; non-trivial if not purely alphanumeric",
        nontrivial: |c| c.bytes(0).iter().any(|b| !b.is_ascii_alphanumeric()),
        sweep: Some(Sweep {
            name: "all strings of length 2, then all strings over an alphabet of 8 bytes in order of length",
            end: (65536 + 37449, 65536 + 1 + 8 + 64 + 512 + 4096 + 32768 + 262144 + 2097152),
            check: sweep,
        }),
    }
}
