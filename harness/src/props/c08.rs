use super::*;
use crate::pdf::parse_all;
use crate::run::*;
use crate::tree::*;
use pdf_writer::{Finish, Name};

/// args: the bytes that decide a sequence of objects and streams.
fn check(c: &Case) -> Result<(), String> {
    let mut src = Src(c.bytes(0), 0);
    let mut objs: Vec<(i32, V, Option<Vec<u8>>)> = vec![];
    while !src.done() && objs.len() < 6 {
        let id = src.reference();
        let kind = src.next();
        if kind == 250 {
            // Deep nesting.
            let depth = src.next() as usize + src.next() as usize;
            let shape = src.next() as usize;
            let mut v = src.value(2);
            for k in 0..depth {
                v = match shape {
                    0 => V::Dict(vec![(b"K".to_vec(), v)]),
                    1 => V::Arr(vec![v]),
                    _ if k % shape == 0 => V::Arr(vec![V::Int(1), v, V::Int(2)]),
                    _ => V::Dict(vec![(b"A".to_vec(), V::Int(1)), (b"B".to_vec(), v), (b"C".to_vec(), V::Null)]),
                };
            }
            objs.push((id, v, None));
        } else if kind % 4 == 3 {
            let n = src.next() % 4;
            let d = V::Dict((0..n).map(|_| (src.string(), src.value(3))).collect());
            let data = src.string();
            objs.push((id, d, Some(data)));
        } else {
            objs.push((id, src.value(5), None));
        }
    }
    let mut read = vec![];
    for pretty in [true, false] {
        let mut ch = chunk(pretty);
        for (id, v, data) in &objs {
            match (v, data) {
                (V::Dict(items), Some(data)) => {
                    let mut s = ch.stream(Ref::new(*id), data);
                    for (k, v) in items {
                        write(v, s.insert(Name(k)));
                    }
                    if items.len() % 2 == 0 {
                        s.finish();
                    }
                }
                _ => write(v, ch.indirect(Ref::new(*id))),
            }
        }
        let got = parse_all(ch.as_bytes()).map_err(|e| format!("{e} in `{}`", show_bytes(ch.as_bytes())))?;
        if got.len() != objs.len() {
            return Err(format!("{} objects instead of {}: `{}`", got.len(), objs.len(), show_bytes(ch.as_bytes())));
        }
        for (g, (id, v, data)) in got.iter().zip(&objs) {
            let ok = match (&g.3, data, v) {
                (Obj::Stream(d, x), Some(data), V::Dict(items)) => {
                    x == data
                        && d.len() == items.len() + 1
                        && d[0] == (b"Length".to_vec(), Obj::Int(data.len() as i128))
                        && items.iter().zip(&d[1..]).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1))
                }
                (o, None, v) => same(v, o),
                _ => false,
            };
            if g.1 != *id as i64 || g.2 != 0 || !ok {
                return Err(format!(
                    "pretty {pretty}: {v:?} as object {id} reads back as {} {} {:?}: `{}`",
                    g.1, g.2, g.3, show_bytes(ch.as_bytes())
                ));
            }
        }
        read.push(got.into_iter().map(|g| (g.1, g.3)).collect::<Vec<_>>());
    }
    if read[0] != read[1] {
        return Err("pretty and compact mode differ".into());
    }
    Ok(())
}

fn listed(_: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    // Every pair of kinds of items in an array and as values in a dictionary,
    // and nested.
    for a in 0..20u8 {
        for b in 0..20u8 {
            for outer in [10u8, 13] {
                for w in [0u8, 1, 3] {
                    let item = |k: u8| -> Vec<u8> {
                        match k {
                            0..=3 | 8 | 9 | 18 | 19 => vec![k, w, w, w, w],
                            4..=7 => vec![k, 2, b'(', w],
                            10..=15 => vec![k, 1, 0, 2, 1, w],
                            _ => vec![k, w, 1, w, 2, w],
                        }
                    };
                    let mut p = vec![0, 0, outer, 2];
                    if outer == 13 {
                        p.extend([1, b'A']);
                    }
                    p.extend(item(a));
                    if outer == 13 {
                        p.extend([1, b'B']);
                    }
                    p.extend(item(b));
                    v.push(Case::new("objects", vec![p]));
                }
            }
        }
    }
    for depth in 0..300u32 {
        for shape in 0..3u8 {
            let d = depth.min(255) as u8;
            v.push(Case::new("objects", vec![vec![0, 250, d, (depth - d as u32) as u8, shape, 2, 1, 7]]));
        }
    }
    // Deep nesting.
    for k in [10u8, 13] {
        let mut p = vec![0, 0];
        for _ in 0..5 {
            p.extend([k, 1]);
            if k == 13 {
                p.extend([1, b'K']);
            }
        }
        v.push(Case::new("objects", vec![p]));
    }
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        listed,
        random: |ctx, r| Case::new("objects", vec![program(&ctx.dict, r)]),
        n: (2_000_000, 10_000_000),
        check,
        rule: "up to 6 objects or streams of trees of depth up to 5; non-trivial if the program has more than 4 bytes",
        nontrivial: |c| c.bytes(0).len() > 4,
        sweep: None,
    }
}
