use super::*;
use crate::run::*;
use pdf_writer::Name;

fn check(c: &Case) -> Result<(), String> {
    let s = c.bytes(0);
    match c.kind.as_str() {
        "op" => {
            let mut content = pdf_writer::Content::with_settings(Settings { pretty: c.bytes(1).is_empty() });
            content.set_parameters(Name(s)).x_object(Name(s)).set_font(Name(s), 2.0);
            let b = content.finish();
            let t = pdf::tokens(&b)?;
            let n = || pdf::Tok::Name(s.to_vec());
            let w = |x: &[u8]| pdf::Tok::Word(x.to_vec());
            if t == vec![n(), w(b"gs"), n(), w(b"Do"), n(), pdf::Tok::Int(2), w(b"Tf")] {
                Ok(())
            } else {
                Err(format!("operands read back as {t:?}"))
            }
        }
        "key" => {
            // As a dictionary key with every kind of value.
            for pretty in [true, false] {
                let mut ch = chunk(pretty);
                {
                    let mut d = ch.indirect(Ref::new(2)).dict();
                    d.pair(Name(s), 1).pair(Name(b"B"), Name(s)).pair(Name(s), true);
                    d.insert(Name(s)).array().item(Name(s)).item(Name(s)).item(3);
                    d.insert(Name(s)).dict();
                    d.pair(Name(s), Ref::new(4));
                }
                let objs = pdf::parse_all(ch.as_bytes())?;
                let n = s.to_vec();
                let want = Obj::Dict(vec![
                    (n.clone(), Obj::Int(1)),
                    (b"B".to_vec(), Obj::Name(n.clone())),
                    (n.clone(), Obj::Bool(true)),
                    (n.clone(), Obj::Array(vec![Obj::Name(n.clone()), Obj::Name(n.clone()), Obj::Int(3)])),
                    (n.clone(), Obj::Dict(vec![])),
                    (n.clone(), Obj::Ref(4, 0)),
                ]);
                if objs.len() != 1 || objs[0].3 != want {
                    return Err(format!("keys (pretty {pretty}) read back as {objs:?}"));
                }
            }
            Ok(())
        }
        _ => everywhere(Name(s), |o| *o == Obj::Name(s.to_vec()), "name"),
    }
}

fn listed(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    for k in ["name", "op", "key"] {
        v.push(Case::new(k, vec![vec![]]));
        v.push(Case::new(k, vec![vec![], vec![1]]));
        for a in 0..=255u8 {
            v.push(Case::new(k, vec![vec![a]]));
            v.push(Case::new(k, vec![vec![b'A', a, b'4', b'1']]));
            v.push(Case::new(k, vec![vec![a, b'#', a], vec![1]]));
        }
        for b in &ctx.dict.bytes {
            v.push(Case::new(k, vec![b.clone()]));
        }
        for n in [126, 127, 128, 129, 255, 256, 257, 4000] {
            v.push(Case::new(k, vec![vec![b'n'; n]]));
            v.push(Case::new(k, vec![vec![b' '; n]]));
        }
    }
    v
}

fn random(ctx: &Ctx, r: &mut Rng) -> Case {
    let max = if r.chance(1, 500) { 400 } else { 12 };
    let s = ctx.dict.byte_string(r, max);
    let k = *r.pick(&["name", "op", "key"]);
    Case::new(k, vec![s, vec![0; r.below(2)]])
}

/// All names of length 2, and of length 3 in the thorough tier.
fn sweep(i: u64, _: bool) -> Result<(), (Case, String)> {
    let s = if i < 65536 {
        vec![i as u8, (i >> 8) as u8]
    } else {
        let k = i - 65536;
        vec![k as u8, (k >> 8) as u8, (k >> 16) as u8]
    };
    let mut c = chunk(true);
    c.indirect(Ref::new(1)).primitive(Name(&s));
    let b = c.as_bytes();
    let got = b
        .strip_prefix(b"1 0 obj\n")
        .and_then(|b| b.strip_suffix(b"\nendobj\n\n"))
        .ok_or("framing".to_string())
        .and_then(pdf::parse_one);
    match got {
        Ok(Obj::Name(t)) if t == s => Ok(()),
        g => Err((Case::new("name", vec![s.clone()]), format!("name `{}` reads back as {g:?}", show_bytes(&s)))),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        listed,
        random,
        n: (1_600_000, 10_000_000),
        check,
        rule: "names with delimiters, white space, `#`, control and high bytes and constants of the source, as values, keys and operands; non-trivial if not purely alphanumeric",
        nontrivial: |c| c.bytes(0).iter().any(|b| !b.is_ascii_alphanumeric()),
        sweep: Some(Sweep {
            name: "all names of length 2 (and of length 3 when thorough)",
            end: (65536, 65536 + (1 << 24)),
            check: sweep,
        }),
    }
}
