use super::*;
use crate::pdf::TextPart;
use crate::run::*;
use pdf_writer::types::*;
use pdf_writer::{LanguageIdentifier, TextStr, TextStrWithLang};

fn str_arg(b: &[u8]) -> String {
    String::from_utf8_lossy(b).replace('\u{1b}', "?")
}

/// Alphanumeric codes of a case: [len.., bytes].
fn code(b: &[u8]) -> [u8; 2] {
    let f = |i: usize| {
        let c = *b.get(i).unwrap_or(&b'e');
        if c.is_ascii_alphanumeric() { c } else { b'a' + c % 26 }
    };
    [f(0), f(1)]
}

fn check(c: &Case) -> Result<(), String> {
    match c.kind.as_str() {
        "text" => {
            let s = str_arg(c.bytes(0));
            everywhere(
                TextStr(&s),
                |o| match o {
                    Obj::Str(b) => {
                        let want: Vec<TextPart> =
                            if s.is_empty() { vec![] } else { vec![TextPart::Text(s.clone())] };
                        pdf::text_string(b) == Ok(want)
                    }
                    _ => false,
                },
                &format!("text string {s:?}"),
            )
        }
        "lang" => {
            // Triples of arguments: language, region (empty for none), text.
            let n = c.args.len() / 3;
            let mut want = vec![];
            let mut texts = vec![];
            for i in 0..n {
                let l = code(c.bytes(3 * i));
                let r = if c.bytes(3 * i + 1).is_empty() { None } else { Some(code(c.bytes(3 * i + 1))) };
                let t = str_arg(c.bytes(3 * i + 2));
                let mut tag = String::from_utf8(l.to_vec()).unwrap();
                if let Some(r) = r {
                    tag.push_str(std::str::from_utf8(&r).unwrap());
                }
                want.push(TextPart::Lang(tag));
                if !t.is_empty() {
                    want.push(TextPart::Text(t.clone()));
                }
                texts.push((LanguageIdentifier::new(l, r), t));
            }
            let parts: Vec<(LanguageIdentifier, &str)> = texts.iter().map(|(l, t)| (*l, t.as_str())).collect();
            everywhere(
                TextStrWithLang(&parts),
                |o| match o {
                    Obj::Str(b) => b.starts_with(&[0xFE, 0xFF]) && pdf::text_string(b).as_ref() == Ok(&want),
                    _ => false,
                },
                &format!("text string {texts:?}"),
            )
        }
        "ident" => {
            let l = String::from_utf8_lossy(c.bytes(0)).to_string();
            let r = String::from_utf8_lossy(c.bytes(1)).to_string();
            let ok = |s: &str| s.len() == 2 && s.bytes().all(|b| b.is_ascii_alphanumeric());
            let arr = |s: &str| -> [u8; 2] { [s.as_bytes()[0], s.as_bytes()[1]] };
            let want = if ok(&l) { Some(LanguageIdentifier::new(arr(&l), None)) } else { None };
            if LanguageIdentifier::from_lang(&l) != want {
                return Err(format!("from_lang({l:?}) is {:?}", LanguageIdentifier::from_lang(&l)));
            }
            let want =
                if ok(&l) && ok(&r) { Some(LanguageIdentifier::new(arr(&l), Some(arr(&r)))) } else { None };
            if LanguageIdentifier::from_lang_region(&l, &r) != want {
                return Err(format!(
                    "from_lang_region({l:?}, {r:?}) is {:?}",
                    LanguageIdentifier::from_lang_region(&l, &r)
                ));
            }
            Ok(())
        }
        _ => {
            // Through a method that takes any text string.
            let s = str_arg(c.bytes(0));
            let mut ch = chunk(c.bytes(1).is_empty());
            ch.outline_item(pdf_writer::Ref::new(3)).title(TextStr(&s)).flags(OutlineItemFlags::BOLD);
            let objs = pdf::parse_all(ch.as_bytes())?;
            match objs[0].3.get(b"Title") {
                Some(Obj::Str(b)) => {
                    let t = pdf::text_of(&pdf::text_string(b)?);
                    if t == s { Ok(()) } else { Err(format!("title {s:?} reads back as {t:?}")) }
                }
                o => Err(format!("title reads back as {o:?}")),
            }
        }
    }
}

fn listed(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![Case::new("text", vec![vec![]]), Case::new("lang", vec![])];
    for c in 0..0x110u32 {
        if let Some(ch) = char::from_u32(c) {
            v.push(Case::new("text", vec![ch.to_string().into_bytes()]));
            v.push(Case::new("text", vec![format!("a{ch}").into_bytes()]));
            v.push(Case::new("text", vec![format!("{ch}(").into_bytes()]));
            v.push(Case::new("lang", vec![b"en".to_vec(), b"US".to_vec(), ch.to_string().into_bytes()]));
            v.push(Case::new("ident", vec![format!("{ch}n").into_bytes(), format!("U{ch}").into_bytes()]));
            v.push(Case::new("ident", vec![ch.to_string().into_bytes(), b"US".to_vec()]));
            v.push(Case::new("ident", vec![b"en".to_vec(), format!("U{ch}X").into_bytes()]));
        }
    }
    for b in &ctx.dict.bytes {
        v.push(Case::new("text", vec![b.clone()]));
        v.push(Case::new("title", vec![b.clone()]));
    }
    for n in [255, 256, 1000, 4096, 32766, 32768, 65536] {
        v.push(Case::new("text", vec!["a".repeat(n).into_bytes()]));
        v.push(Case::new("text", vec!["é".repeat(n).into_bytes()]));
    }
    v
}

fn random(ctx: &Ctx, r: &mut Rng) -> Case {
    let max = if r.chance(1, 300) { 400 } else { 14 };
    match r.below(8) {
        0..=3 => Case::new("text", vec![ctx.dict.string(r, max).into_bytes()]),
        4 => Case::new("title", vec![ctx.dict.string(r, max).into_bytes(), vec![0; r.below(2)]]),
        5 => Case::new("ident", vec![ctx.dict.string(r, 3).into_bytes(), ctx.dict.string(r, 3).into_bytes()]),
        _ => {
            let n = r.below(4);
            let mut a = vec![];
            for _ in 0..n {
                a.push(r.bytes(2));
                let k = r.below(2) * 2;
                a.push(r.bytes(k));
                a.push(ctx.dict.string(r, max).into_bytes());
            }
            Case::new("lang", a)
        }
    }
}

/// Every Unicode scalar value, alone and between other characters.
fn sweep(i: u64, _: bool) -> Result<(), (Case, String)> {
    let Some(ch) = char::from_u32(i as u32) else { return Ok(()) };
    if ch == '\u{1b}' {
        return Ok(());
    }
    for s in [format!("{ch}"), format!("x{ch}\u{20ac}")] {
        let mut c = chunk(true);
        c.indirect(Ref::new(1)).primitive(TextStr(&s));
        let b = c.as_bytes();
        let got = b
            .strip_prefix(b"1 0 obj\n")
            .and_then(|b| b.strip_suffix(b"\nendobj\n\n"))
            .ok_or("framing".to_string())
            .and_then(pdf::parse_one);
        let ok = match &got {
            Ok(Obj::Str(t)) => pdf::text_string(t) == Ok(vec![TextPart::Text(s.clone())]),
            _ => false,
        };
        if !ok {
            return Err((
                Case::new("text", vec![s.clone().into_bytes()]),
                format!("text string {s:?} reads back as {got:?}"),
            ));
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        listed,
        random,
        n: (1_600_000, 10_000_000),
        check,
        rule: "Unicode strings around the ASCII, BMP and surrogate boundaries and constants of the source, with and without language tags; non-trivial if not purely alphanumeric",
        nontrivial: |c| c.args.iter().flatten().any(|b| !b.is_ascii_alphanumeric()),
        sweep: Some(Sweep {
            name: "every Unicode scalar value except U+001B, alone and in context",
            end: (0x110000, 0x110000),
            check: sweep,
        }),
    }
}
