use super::*;
use crate::run::*;
use crate::tree::*;
use pdf_writer::{Content, Date, LanguageIdentifier, Name, Str, TextStr, TextStrWithLang};

fn compare(what: &str, l: &pdf_writer::Limits, m: &Max) -> Result<(), String> {
    let g = Max::of(l);
    if g != *m {
        return Err(format!("the limits of the {what} are {g:?} instead of {m:?}"));
    }
    Ok(())
}

/// args: program, deciding a history of writes, appends, and merges.
fn check(c: &Case) -> Result<(), String> {
    let mut src = Src(c.bytes(0), 0);
    let mut ch: Vec<Chunk> = (0..2).map(|i| chunk(i == 0)).collect();
    let mut mx: Vec<Max> = vec![Max::default(); 2];
    let mut content = Content::new();
    let mut cmax = Max::default();
    let mut steps = 0;
    for i in 0..2 {
        compare("empty chunk", ch[i].limits(), &mx[i])?;
    }
    while !src.done() && steps < 20 {
        steps += 1;
        let op = src.next();
        let i = src.next() as usize % 2;
        match op % 10 {
            0..=3 => {
                let id = src.reference();
                let v = src.value(4);
                mx[i].int(id);
                mx[i].add(&v);
                write(&v, ch[i].indirect(Ref::new(id)));
            }
            4 => {
                let id = src.reference();
                let data = src.string();
                let n = src.next() % 3;
                let items: Vec<_> = (0..n).map(|_| (src.string(), src.value(2))).collect();
                let mut s = ch[i].stream(Ref::new(id), &data);
                for (k, v) in &items {
                    write(v, s.insert(Name(k)));
                }
                drop(s);
                mx[i].int(id);
                mx[i].name(6);
                mx[i].int(data.len() as i32);
                for (k, v) in &items {
                    mx[i].name(k.len());
                    mx[i].add(v);
                }
                mx[i].dict = mx[i].dict.max(items.len() + 1);
            }
            5 => {
                let other = ch[1 - i].clone();
                ch[i].extend(&other);
                let o = mx[1 - i].clone();
                mx[i].merge(&o);
            }
            6 => {
                // Operands of a content stream.
                match src.next() % 5 {
                    0 => {
                        let v = [src.f32(), src.f32(), src.f32()];
                        content.set_fill_rgb(v[0], v[1], v[2]);
                        v.iter().for_each(|v| cmax.real(*v));
                    }
                    1 => {
                        let s = src.string();
                        content.show(Str(&s));
                        cmax.string = cmax.string.max(s.len());
                    }
                    2 => {
                        let n = src.string();
                        content.set_font(Name(&n), 1.0);
                        cmax.name(n.len());
                        cmax.real(1.0);
                    }
                    3 => {
                        let n = src.next() % 6;
                        let v: Vec<f32> = (0..n).map(|_| src.f32()).collect();
                        content.set_dash_pattern(v.iter().copied(), 2.0);
                        v.iter().for_each(|v| cmax.real(*v));
                        cmax.array = cmax.array.max(v.len());
                        cmax.real(2.0);
                    }
                    _ => {
                        let v = src.value(2);
                        if let V::Dict(items) = &v {
                            let mut m = content.begin_marked_content_with_properties(Name(b"Span"));
                            let mut d = m.properties();
                            for (k, v) in items {
                                write(v, d.insert(Name(k)));
                            }
                            drop(d);
                            drop(m);
                            content.end_marked_content();
                            cmax.name(4);
                            cmax.add(&v);
                        }
                    }
                }
            }
            7 => {
                let done = std::mem::replace(&mut content, Content::new()).finish();
                compare("finished content stream", done.limits(), &cmax)?;
                ch[i].merge_limits(done.limits());
                mx[i].merge(&cmax);
                cmax = Max::default();
            }
            8 => {
                // Strings that are not given as their bytes.
                let id = src.reference();
                mx[i].int(id);
                let t = src.text();
                let n = src.next();
                let o = ch[i].indirect(Ref::new(id));
                let len = match n % 4 {
                    0 => {
                        o.primitive(TextStr(&t));
                        string_len(TextStr(&t))
                    }
                    1 | 2 => {
                        let region = (n & 4 == 4).then_some(*b"CH");
                        let parts = [(LanguageIdentifier::new(*b"de", region), t.as_str()), (LanguageIdentifier::new(*b"en", None), "x")];
                        let k = (n % 4) as usize;
                        o.primitive(TextStrWithLang(&parts[..k]));
                        string_len(TextStrWithLang(&parts[..k]))
                    }
                    _ => {
                        let mut d = Date::new(1900 + n as u16);
                        if n & 4 == 4 {
                            d = d.month(n % 12 + 1).day(3).hour(4).minute(5).second(6);
                        }
                        if n & 8 == 8 {
                            d = d.month(2).day(3).hour(4).minute(5).second(6).utc_offset_hour(-3);
                        }
                        o.primitive(d);
                        string_len(d)
                    }
                };
                mx[i].string = mx[i].string.max(len);
            }
            _ => {
                let mut l = pdf_writer::Limits::new();
                l.merge(ch[i].limits());
                compare("merged limits", &l, &mx[i])?;
                l.merge(ch[1 - i].limits());
                let mut m = mx[i].clone();
                m.merge(&mx[1 - i]);
                compare("merged limits", &l, &m)?;
            }
        }
        compare("chunk", ch[i].limits(), &mx[i])?;
    }
    compare("finished content stream", content.finish().limits(), &cmax)
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        listed: |_| {
            let mut v = vec![];
            // Very many items, entries, or bytes.
            for k in 0..20u8 {
                v.push(Case::new("history", vec![vec![0, 0, 0, k, 255, 255]]));
                v.push(Case::new("history", vec![vec![0, 0, 0, k, 255, 255, 5, 1, 9, 1, 7, 0]]));
            }
            for op in 0..10u8 {
                for k in 0..20u8 {
                    for w in 0..8u8 {
                        v.push(Case::new("history", vec![vec![0, 0, 0, k, w, 9, 8, 7, 6, op, 1, 1, 2, 3, 4, 5, 0, w, 7, 0, 5, 0, 8, 1]]));
                    }
                }
            }
            v
        },
        random: |ctx, r| Case::new("history", vec![program(&ctx.dict, r)]),
        n: (1_600_000, 8_000_000),
        check,
        rule: "histories of objects, streams, text strings and dates, content operators, appends and merges over two chunks and a content stream; non-trivial if there is more than one step",
        nontrivial: |c| c.bytes(0).len() > 8,
        sweep: None,
    }
}
