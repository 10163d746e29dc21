use super::*;
use crate::pdf::{parse_all, tokens, Tok};
use crate::run::*;
use crate::tree::*;
use crate::xref;
use pdf_writer::{Finish, Name, Pdf};

/// What looks like a reference, or like the end of something.
const LIKE: [&[u8]; 40] = [
    b"1 0 R", b"5 0 R 6 0 R", b"(1 0 R", b") 1 0 R", b"() 1 0 R", b"\\(3 0 R", b"\\) 3 0 R", b"\\", b"\\\\) 1 0 R", b"((1 0 R) 2 0 R)",
    b"%", b"% 1 0 R", b"stream", b">>\nstream\n1 0 R", b"endobj", b"\nendobj\n", b"9 0 obj", b"endstream", b"R", b"obj",
    b"1 0\nR", b"<< /A 1 0 R >>", b"[1 0 R]", b"/A 1 0 R", b"\x00 1 0 R", b"\xff\xfe)1 0 R", b"1\t0\x0cR", b"(", b")", b"(\\",
    b"2 0 R)", b">> stream", b"\\()1 0 R", b"\r\n1 0 R\r\n", b"s", b"0 R", b"1 0 ", b" R", b"(((", b")\\",
];

enum What {
    Value(V),
    Stream(Vec<u8>, Vec<(Vec<u8>, V)>),
}

fn like(s: &mut Vec<u8>, src: &mut Src<'_>) {
    match src.next() % 8 {
        0..=2 => *s = LIKE[src.next() as usize % LIKE.len()].to_vec(),
        3 => s.extend(LIKE[src.next() as usize % LIKE.len()]),
        4 => {
            let mut n = LIKE[src.next() as usize % LIKE.len()].to_vec();
            n.append(s);
            *s = n;
        }
        5 => {
            // Many parentheses.
            let n = 1 + src.next() as usize * 3;
            *s = vec![b'('; n];
            s.extend(vec![b')'; n - 1 - src.next() as usize % n.min(3)]);
            s.extend(b" 1 0 R ");
            s.extend(vec![b')'; 1 + src.next() as usize % 2]);
        }
        _ => {}
    }
}

/// Strings and names that look like other things.
fn spice(v: &mut V, src: &mut Src<'_>) {
    match v {
        V::Name(s) | V::Str(s) => like(s, src),
        V::Arr(v) => v.iter_mut().for_each(|v| spice(v, src)),
        V::Dict(v) => v.iter_mut().for_each(|(k, v)| {
            if src.next() % 3 == 0 {
                like(k, src);
            }
            spice(v, src)
        }),
        V::Names(v) => v.iter_mut().for_each(|v| like(v, src)),
        V::Pairs(v) => v.iter_mut().for_each(|v| like(&mut v.0, src)),
        _ => {}
    }
}

/// The references in it, in order.
fn refs(v: &V, out: &mut Vec<i32>) {
    match v {
        V::Ref(r) => out.push(*r),
        V::Refs(r) => out.extend(r),
        V::Arr(v) => v.iter().for_each(|v| refs(v, out)),
        V::Dict(v) => v.iter().for_each(|v| refs(&v.1, out)),
        _ => {}
    }
}
fn mapped(v: &V, f: &dyn Fn(i32) -> i32) -> V {
    match v {
        V::Ref(r) => V::Ref(f(*r)),
        V::Refs(r) => V::Refs(r.iter().map(|r| f(*r)).collect()),
        V::Arr(v) => V::Arr(v.iter().map(|v| mapped(v, f)).collect()),
        V::Dict(v) => V::Dict(v.iter().map(|v| (v.0.clone(), mapped(&v.1, f))).collect()),
        _ => v.clone(),
    }
}

fn is_white(b: u8) -> bool {
    matches!(b, 0 | 9 | 10 | 12 | 13 | 32)
}

/// args: program, what strings look like, mapping.
fn check(c: &Case) -> Result<(), String> {
    let mut src = Src(c.bytes(0), 0);
    let mut sp = Src(c.bytes(1), 0);
    let mut ms = Src(c.bytes(2), 0);
    let mode = src.next();
    let pretty = mode % 2 == 0;
    let mut ch = chunk(pretty);
    let mut model: Vec<(i32, What)> = vec![];
    let mut id = 0;
    let mut asks: Vec<i32> = vec![];
    while !src.done() && model.len() < 12 {
        let k = src.next();
        id = match k / 4 % 8 {
            0 => src.reference(),
            _ => id % 1000 + 1,
        };
        asks.push(id);
        if k % 4 == 0 {
            let mut data = src.string();
            like(&mut data, &mut sp);
            let mut items = vec![];
            for _ in 0..src.next() % 4 {
                let mut key = src.string();
                let mut v = src.value(2);
                spice(&mut v, &mut sp);
                if key == b"Length" {
                    key.clear();
                }
                items.push((key, v));
            }
            let mut st = ch.stream(Ref::new(id), &data);
            for (k, v) in &items {
                write(v, st.insert(Name(k)));
                refs(v, &mut asks);
            }
            st.finish();
            model.push((id, What::Stream(data, items)));
        } else {
            let mut v = src.value(3);
            spice(&mut v, &mut sp);
            write(&v, ch.indirect(Ref::new(id)));
            refs(&v, &mut asks);
            model.push((id, What::Value(v)));
        }
    }
    if model.is_empty() {
        return Ok(());
    }

    let a = ms.i32() as i64;
    let b = ms.next();
    let f = move |r: i32| -> i32 {
        let x = match b % 5 {
            0 => r as i64 + a,
            1 => (r as i64 ^ a).wrapping_mul(0x9E37_79B9),
            2 => 1 + r as i64 % 3,
            3 => r as i64 * 1000 + a,
            _ => r as i64,
        };
        (x.rem_euclid(i32::MAX as i64 - 1) + 1) as i32
    };
    let mut asked = vec![];
    let into = ms.next() % 3 == 0;
    let mut target = chunk(ms.next() % 2 == 0);
    let mut before = vec![];
    let mut first = 0;
    let r = if into {
        for i in 0..ms.next() % 3 {
            target.indirect(Ref::new(900 + i as i32)).array().item(Name(b"R")).item(1);
            first += 1;
        }
        before = target.as_bytes().to_vec();
        ch.renumber_into(&mut target, |r| {
            asked.push(r.get());
            Ref::new(f(r.get()))
        });
        target
    } else {
        ch.renumber(|r| {
            asked.push(r.get());
            Ref::new(f(r.get()))
        })
    };
    let shown = || format!("`{}` renumbered to `{}`", show_bytes(ch.as_bytes()), show_bytes(r.as_bytes()));
    if asked != asks {
        return Err(format!("asked about {asked:?} instead of {asks:?}: {}", shown()));
    }
    if !r.as_bytes().starts_with(&before) {
        return Err("what the target had was changed".into());
    }
    let ids: Vec<i32> = r.refs().skip(first).map(|r| r.get()).collect();
    let want: Vec<i32> = model.iter().map(|m| f(m.0)).collect();
    if ids != want || r.refs().len() != first + want.len() {
        return Err(format!("the references are {ids:?} instead of {want:?}"));
    }
    let old = parse_all(ch.as_bytes()).map_err(|e| format!("{e}: {}", shown()))?;
    let got = parse_all(r.as_bytes()).map_err(|e| format!("{e}: {}", shown()))?;
    if got.len() != first + model.len() || old.len() != model.len() {
        return Err(format!("{} objects instead of {}: {}", got.len(), first + model.len(), shown()));
    }
    let numbers = got.iter().skip(first).map(|g| g.1 as i32).collect::<Vec<_>>();
    if numbers != want {
        return Err(format!("the objects are {numbers:?} instead of {want:?}: {}", shown()));
    }
    for (i, (_, w)) in model.iter().enumerate() {
        let o = &got[first + i].3;
        let ok = match w {
            What::Value(v) => same(&mapped(v, &f), o),
            What::Stream(data, items) => match o {
                Obj::Stream(d, got) => {
                    got == data
                        && d.len() == items.len() + 1
                        && d[0] == (b"Length".to_vec(), Obj::Int(data.len() as i128))
                        && items.iter().zip(&d[1..]).all(|(a, b)| a.0 == b.0 && same(&mapped(&a.1, &f), &b.1))
                }
                _ => false,
            },
        };
        if !ok {
            return Err(format!("object {} reads back as {o:?}: {}", want[i], shown()));
        }
        // Nothing but the references changed.
        let a = interior(ch.as_bytes(), old[i].0, old.get(i + 1).map_or(ch.len(), |o| o.0));
        let b = interior(r.as_bytes(), got[first + i].0, got.get(first + i + 1).map_or(r.len(), |o| o.0));
        let mut l = vec![];
        match w {
            What::Value(v) => refs(v, &mut l),
            What::Stream(_, items) => items.iter().for_each(|i| refs(&i.1, &mut l)),
        }
        unchanged(a, b, &l, &f).map_err(|e| format!("{e}: {}", shown()))?;
    }
    // The positions are in the cross-reference table.
    let mut u = r.refs().map(|r| r.get()).collect::<Vec<_>>();
    u.sort();
    u.dedup();
    if u.len() == r.refs().len() && u.last() < Some(&5000) {
        let mut pdf = Pdf::new();
        pdf.extend(&r);
        let b = pdf.finish();
        let x = xref::read_table(&b).map_err(|e| format!("{e}: {}", shown()))?;
        for g in &got {
            if x.objects.get(&g.1).map(|o| &o.1) != Some(&g.3) {
                return Err(format!("object {} is not where the table says: {}", g.1, shown()));
            }
        }
    }
    Ok(())
}

/// From the first token to the last one.
fn interior(s: &[u8], from: usize, to: usize) -> &[u8] {
    let s = &s[from..to];
    let a = s.windows(3).position(|w| w == b"obj").unwrap() + 3;
    let b = s.windows(6).rposition(|w| w == b"endobj").unwrap();
    let mut s = &s[a..b];
    while s.first().is_some_and(|b| is_white(*b)) {
        s = &s[1..];
    }
    while s.last().is_some_and(|b| is_white(*b)) {
        s = &s[..s.len() - 1];
    }
    s
}

/// Whether `b` is `a` with these references replaced.
fn unchanged(mut a: &[u8], mut b: &[u8], refs: &[i32], f: &dyn Fn(i32) -> i32) -> Result<(), String> {
    for r in refs {
        let x = format!("{r} 0 R");
        let y = format!("{} 0 R", f(*r));
        // The first place where the one can become the other, and where the text
        // before reads as a whole number of tokens.
        let mut i = 0;
        loop {
            if a[i..].starts_with(x.as_bytes()) && b[i..].starts_with(y.as_bytes()) && whole(&a[..i]) {
                break;
            }
            if i >= a.len().min(b.len()) || a[i] != b[i] {
                return Err(format!("more than the reference {r} is different"));
            }
            i += 1;
        }
        a = &a[i + x.len()..];
        b = &b[i + y.len()..];
    }
    if a != b {
        return Err("bytes are different that are not references".into());
    }
    Ok(())
}
fn whole(s: &[u8]) -> bool {
    s.last().is_none_or(|b| is_white(*b) || b"[]>)".contains(b)) && tokens(s).is_ok_and(|t| !matches!(t.last(), Some(Tok::Int(_))) || s.last().is_some_and(|b| is_white(*b)))
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        listed: |_| {
            let mut v = vec![];
            for mode in 0..2u8 {
                for l in 0..255u8 {
                    v.push(Case::new("renumber", vec![vec![mode, 5, 10, 4, 6, 0, 8, 1, 7, 4, 0, 8, 1, 9], vec![5, l, 0, 0, 5, l, 1, 1], vec![7, 40]]));
                }
                for l in 0..LIKE.len() as u8 {
                    // A string and a reference in an array, and in a stream.
                    v.push(Case::new("renumber", vec![vec![mode, 5, 10, 4, 6, 0, 8, 1, 7, 4, 0, 8, 1, 9], vec![0, l, 0, l, 0, l], vec![7, 40]]));
                    v.push(Case::new("renumber", vec![vec![mode, 4, 0, 2, 1, 65, 6, 0, 1, 66, 8, 1, 7], vec![0, l, 0, l, 0, l], vec![7, 40]]));
                    for k in 0..LIKE.len() as u8 {
                        v.push(Case::new("renumber", vec![vec![mode, 5, 10, 4, 6, 0, 8, 1, 7, 6, 0, 8, 1, 9, 5, 8, 1, 3], vec![0, l, 0, k], vec![7, 40, 1, 0, k]]));
                    }
                }
            }
            v
        },
        random: |ctx, r| {
            let p = program(&ctx.dict, r);
            let n = 4 + r.below(40);
            let sp = (0..n).map(|_| r.next() as u8).collect();
            let m = (0..8).map(|_| r.next() as u8).collect();
            Case::new("renumber", vec![p, sp, m])
        },
        n: (500_000, 3_000_000),
        check,
        rule: "objects and streams with contents that look like references, renumbered with several mappings into new and existing chunks; non-trivial if there is more than one step",
        nontrivial: |c| c.bytes(0).len() > 8,
        sweep: None,
    }
}
