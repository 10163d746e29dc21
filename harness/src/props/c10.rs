use super::*;
use crate::pdf::parse_all;
use crate::run::*;
use crate::tree::*;
use crate::xref;
use pdf_writer::Pdf;

#[derive(Clone)]
struct Model {
    ch: Chunk,
    /// Everything that was written to it, one chunk.
    objs: Vec<(i32, V)>,
}

fn verify(m: &Model) -> Result<(), String> {
    let refs: Vec<i32> = m.ch.refs().map(|r| r.get()).collect();
    let want: Vec<i32> = m.objs.iter().map(|o| o.0).collect();
    if refs != want {
        return Err(format!("the references are {refs:?} instead of {want:?}"));
    }
    let got = parse_all(m.ch.as_bytes()).map_err(|e| format!("{e} in `{}`", show_bytes(m.ch.as_bytes())))?;
    if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| g.1 != *w as i64) {
        return Err(format!("the objects in the bytes are not {want:?}"));
    }
    if m.ch.refs().len() != want.len() || m.ch.len() != m.ch.as_bytes().len() {
        return Err("wrong length".into());
    }
    Ok(())
}

/// args: program.
fn check(c: &Case) -> Result<(), String> {
    let mut src = Src(c.bytes(0), 0);
    let modes = src.next();
    let pretty = modes % 2 == 0;
    let mut chunks: Vec<Model> = (0..3).map(|i| Model { ch: chunk((modes >> i) % 2 == 0), objs: vec![] }).collect();
    let mut steps = 0;
    let mut fresh = 1;
    while !src.done() && steps < 30 {
        steps += 1;
        let op = src.next();
        let i = src.next() as usize % 3;
        match op % 5 {
            0..=2 => {
                let step = src.next() as i32;
                fresh += if step % 32 == 31 { 0 } else { 1 + step % 3 };
                let v = src.value(2);
                write(&v, chunks[i].ch.indirect(Ref::new(fresh)));
                chunks[i].objs.push((fresh, v));
            }
            3 => {
                fresh += 1;
                let data = src.string();
                chunks[i].ch.stream(Ref::new(fresh), &data);
                chunks[i].objs.push((fresh, V::Null));
            }
            _ => {
                let j = src.next() as usize % 3;
                if i != j && chunks[i].objs.len() + chunks[j].objs.len() < 40 {
                    let other = chunks[j].clone();
                    let mut bytes = chunks[i].ch.as_bytes().to_vec();
                    bytes.extend(other.ch.as_bytes());
                    chunks[i].ch.extend(&other.ch);
                    if chunks[i].ch.as_bytes() != bytes {
                        return Err("appending changed the bytes".into());
                    }
                    chunks[i].objs.extend(other.objs);
                }
            }
        }
        verify(&chunks[i])?;
    }
    // Positions show in the cross-reference table: every first occurrence.
    let all: Vec<i32> = chunks.iter().flat_map(|m| m.objs.iter().map(|o| o.0)).collect();
    let mut unique = all.clone();
    unique.sort();
    unique.dedup();
    for m in &chunks {
        let mut u: Vec<i32> = m.objs.iter().map(|o| o.0).collect();
        u.sort();
        let n = u.len();
        u.dedup();
        if u.len() == n {
            finish(&[m], pretty)?;
        }
    }
    if unique.len() == all.len() {
        finish(&[&chunks[0], &chunks[1], &chunks[2]], pretty)?;
        finish(&[&chunks[2], &chunks[0]], !pretty)?;
    }
    Ok(())
}

fn finish(ms: &[&Model], pretty: bool) -> Result<(), String> {
    let mut pdf = Pdf::with_settings(Settings { pretty });
    for m in ms {
        pdf.extend(&m.ch);
    }
    let want: Vec<i32> = ms.iter().flat_map(|m| m.objs.iter().map(|o| o.0)).collect();
    let refs: Vec<i32> = pdf.refs().map(|r| r.get()).collect();
    if refs != want {
        return Err(format!("the references of the document are {refs:?} instead of {want:?}"));
    }
    let b = pdf.finish();
    let f = xref::read_table(&b)?;
    let mut keys: Vec<i64> = f.objects.keys().copied().collect();
    keys.sort();
    let mut w: Vec<i64> = want.iter().map(|v| *v as i64).collect();
    w.sort();
    if keys != w {
        return Err(format!("the table has {keys:?} instead of {w:?}"));
    }
    for m in ms {
        for (id, v) in &m.objs {
            let o = &f.objects[&(*id as i64)].1;
            if !matches!(o, Obj::Stream(..)) && !same(v, o) {
                return Err(format!("object {id} reads back as {o:?}"));
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        listed: |_| {
            let mut v = vec![];
            for a in 0..5u8 {
                for b in 0..5u8 {
                    for d in 0..5u8 {
                        for p in 0..8u8 {
                            v.push(Case::new("history", vec![vec![p, a, 0, 1, 2, 7, b, 1, 0, 2, 7, d, 0, 1, 2, 7, 4, 0, 1, 4, 1, 2]]));
                        }
                    }
                }
            }
            v
        },
        random: |ctx, r| Case::new("history", vec![program(&ctx.dict, r)]),
        n: (500_000, 3_000_000),
        check,
        rule: "histories of objects, streams and appends over three chunks, then documents; non-trivial if there is more than one step",
        nontrivial: |c| c.bytes(0).len() > 8,
        sweep: None,
    }
}
