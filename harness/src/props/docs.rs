//! Histories of one document, for C01, C02 and C21.

use super::*;
use crate::run::*;
use crate::tree::*;
use crate::xref::{self, get};
use pdf_writer::{Filter, Pdf, TextStr, XRefFilter};

#[derive(Clone, Debug)]
enum What {
    Value(V),
    Stream(Vec<u8>),
    Catalog,
    Info,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Table,
    Stream,
    Header,
}

struct Ids {
    used: Vec<i32>,
    mode: u8,
}

impl Ids {
    fn fresh(&mut self, src: &mut Src) -> i32 {
        let a = src.next() as i32;
        let top = self.used.iter().max().copied().unwrap_or(0);
        let low = self.used.iter().min().copied().unwrap_or(300);
        let mut id = match self.mode % 6 {
            0 => top + 1,
            1 => top + 1 + a % 4,
            2 => low - 1 - a % 3,
            3 => 1 + a % 40,
            4 => 1 + a * 3,
            _ => match a % 16 {
                0 => 254 + src.next() as i32 % 4,
                1 => 65534 + src.next() as i32 % 4,
                2 => top + 40,
                _ => 1 + a,
            },
        };
        while id < 1 || self.used.contains(&id) {
            id = if id < 1 { 1 } else { id + 1 };
        }
        self.used.push(id);
        id
    }
}

fn header(version: (u8, u8), marker: [u8; 4]) -> Vec<u8> {
    let mut v = format!("%PDF-{}.{}\n%", version.0, version.1).into_bytes();
    v.extend(marker);
    v.push(b'\n');
    v
}

fn run(c: &Case, mode: Mode) -> Result<(), String> {
    let mut src = Src(c.bytes(0), 0);
    let pretty = src.next() % 2 == 0;
    let mut ids = Ids { used: vec![], mode: src.next() };
    let end = src.next();
    let mut version = (1, 7);
    let mut marker = [128; 4];
    let settings = Settings { pretty };
    let mut pdf = match (end / 8) % 3 {
        0 => Pdf::with_settings(settings),
        1 => Pdf::with_settings_and_capacity(settings, src.next() as usize),
        _ if pretty => [Pdf::new(), Pdf::with_capacity(3)].into_iter().nth(src.next() as usize % 2).unwrap(),
        _ => Pdf::with_settings(settings),
    };
    let mut objs: Vec<(i32, What)> = vec![];
    let mut root = None;
    let mut info = None;
    let mut file_id: Option<(Vec<u8>, Vec<u8>)> = None;
    let mut steps = 0;
    while !src.done() && steps < 40 {
        steps += 1;
        let before = if mode == Mode::Header { pdf.as_bytes().to_vec() } else { vec![] };
        let refs_before: Vec<Ref> = if mode == Mode::Header { pdf.refs().collect() } else { vec![] };
        let mut in_place = false;
        match src.next() % 16 {
            0..=3 => {
                let id = ids.fresh(&mut src);
                let v = src.value(2);
                write(&v, pdf.indirect(Ref::new(id)));
                objs.push((id, What::Value(v)));
            }
            4 => {
                let id = ids.fresh(&mut src);
                let data = src.string();
                pdf.stream(Ref::new(id), &data);
                objs.push((id, What::Stream(data)));
            }
            5 | 6 => {
                let mut ch = chunk(pretty);
                for _ in 0..src.next() % 4 {
                    let id = ids.fresh(&mut src);
                    let v = src.value(1);
                    write(&v, ch.indirect(Ref::new(id)));
                    objs.push((id, What::Value(v)));
                }
                pdf.extend(&ch);
            }
            7 | 8 => {
                let (a, b) = (src.next() % 12, src.next() % 12);
                pdf.set_version(a, b);
                in_place = true;
                if a < 10 {
                    version.0 = a;
                }
                if b < 10 {
                    version.1 = b;
                }
            }
            9 => {
                let m = [src.next(), src.next(), src.next(), src.next()];
                pdf.set_binary_marker(&m);
                in_place = true;
                marker = m;
            }
            10 => {
                let mut p = (src.string(), src.string());
                if src.next() == 11 && !p.0.is_empty() {
                    p.0 = p.0.repeat(1 + 6000 / p.0.len());
                }
                pdf.set_file_id(p.clone());
                in_place = true;
                file_id = Some(p);
            }
            11 => {
                let id = ids.fresh(&mut src);
                let pages = Ref::new(1 + src.next() as i32);
                pdf.catalog(Ref::new(id)).pages(pages);
                objs.push((id, What::Catalog));
                root = Some(id);
            }
            12 => {
                let id = ids.fresh(&mut src);
                pdf.document_info(Ref::new(id)).title(TextStr("t")).creator(TextStr("c"));
                objs.push((id, What::Info));
                info = Some(id);
            }
            13 => {
                // Reach the next field width.
                let want = match src.next() % 3 {
                    0 if src.next() == 77 => 1 << 24,
                    0 => 256usize,
                    1 => 65536,
                    _ => 0,
                };
                let slack = src.next() as usize % 64;
                let have = pdf.len();
                if have < want {
                    let id = ids.fresh(&mut src);
                    let data = vec![b'x'; (want - have).saturating_sub(slack)];
                    pdf.stream(Ref::new(id), &data);
                    objs.push((id, What::Stream(data)));
                }
            }
            14 => {
                // Many objects without a gap, or with gaps at a distance.
                let n = [9, 17, 33, 65, 100, 130, 257, 300][src.next() as usize % 8];
                let every = [0, 0, 2, 7, 64, 70, 128, 200][src.next() as usize % 8];
                let down = src.next() % 4 == 0;
                let top = ids.used.iter().max().copied().unwrap_or(0) + 1 + src.next() as i32 % 3;
                let mut list: Vec<i32> = (0..n).map(|k| top + k + if every > 0 { k / every } else { 0 }).collect();
                if down {
                    list.reverse();
                }
                if objs.len() < 600 {
                    for id in list {
                        ids.used.push(id);
                        write(&V::Null, pdf.indirect(Ref::new(id)));
                        objs.push((id, What::Value(V::Null)));
                    }
                }
            }
            _ => {
                let id = ids.fresh(&mut src);
                write(&V::Null, pdf.indirect(Ref::new(id)));
                objs.push((id, What::Value(V::Null)));
            }
        }
        if mode == Mode::Header {
            let now = pdf.as_bytes();
            let h = header(version, marker);
            if !now.starts_with(&h) {
                return Err(format!("the document begins `{}` instead of `{}`", show_bytes(&now[..16.min(now.len())]), show_bytes(&h)));
            }
            if now.len() < before.len() || now[h.len()..before.len()] != before[h.len()..] {
                return Err("a step changed bytes that were already written".into());
            }
            if in_place && now.len() != before.len() {
                return Err("setting the header changed the length".into());
            }
            if in_place && pdf.refs().collect::<Vec<_>>() != refs_before {
                return Err("setting the header changed the objects".into());
            }
        }
    }

    let last = ids.fresh(&mut src);
    let key = end | 1;
    let as_stream = match mode {
        Mode::Table => false,
        Mode::Stream => true,
        Mode::Header => end % 4 == 1,
    };
    let mut filters = None;
    let b = if !as_stream {
        pdf.finish()
    } else {
        match end % 4 {
            0 | 1 => pdf.finish_with_xref_stream(Ref::new(last)),
            k => {
                let list = vec![Filter::AsciiHexDecode, Filter::FlateDecode];
                filters = Some(if k == 2 { vec!["FlateDecode"] } else { vec!["ASCIIHexDecode", "FlateDecode"] });
                pdf.finish_with_xref_stream_and_filter(Ref::new(last), move |d| {
                    let v: Vec<u8> = [key].into_iter().chain(d.iter().map(|x| x ^ key)).collect();
                    (v, if k == 2 { XRefFilter::Single(Filter::FlateDecode) } else { XRefFilter::Multiple(list) })
                })
            }
        }
    };

    if mode == Mode::Header {
        let h = header(version, marker);
        return if b.starts_with(&h) {
            Ok(())
        } else {
            Err(format!("the file begins `{}` instead of `{}`", show_bytes(&b[..16.min(b.len())]), show_bytes(&h)))
        };
    }

    let f = if as_stream {
        let fl = filters.is_some();
        xref::read_stream(&b, last as i64, |d| if fl { d[1..].iter().map(|x| x ^ key).collect() } else { d.to_vec() })?
    } else {
        xref::read_table(&b)?
    };

    // All objects, and nothing else.
    let mut want: Vec<i64> = objs.iter().map(|o| o.0 as i64).collect();
    if as_stream {
        want.push(last as i64);
    }
    want.sort();
    let have: Vec<i64> = f.objects.keys().copied().collect();
    if have != want {
        return Err(format!("the objects {have:?} are located instead of {want:?}"));
    }
    let size = want.last().map_or(0, |v| *v) + 1;
    for (id, w) in &objs {
        let o = &f.objects[&(*id as i64)].1;
        let ok = match (w, o) {
            (What::Value(v), o) => same(v, o),
            (What::Stream(d), Obj::Stream(dict, data)) => {
                d == data && get(dict, b"Length") == Some(&Obj::Int(d.len() as i128))
            }
            (What::Catalog, Obj::Dict(d)) => get(d, b"Type") == Some(&Obj::Name(b"Catalog".to_vec())),
            (What::Info, Obj::Dict(d)) => get(d, b"Title").is_some(),
            _ => false,
        };
        if !ok {
            return Err(format!("object {id} reads back as {o:?} instead of {w:?}"));
        }
    }

    // The trailer.
    let mut trailer: Vec<(Vec<u8>, Obj)> = vec![(b"Size".to_vec(), Obj::Int(size as i128))];
    if let Some(r) = root {
        trailer.push((b"Root".to_vec(), Obj::Ref(r as i64, 0)));
    }
    if let Some(r) = info {
        trailer.push((b"Info".to_vec(), Obj::Ref(r as i64, 0)));
    }
    if let Some((x, y)) = &file_id {
        trailer.push((b"ID".to_vec(), Obj::Array(vec![Obj::Str(x.clone()), Obj::Str(y.clone())])));
    }
    let mut got = f.trailer.clone();
    if as_stream {
        if let Some(fs) = &filters {
            let names: Vec<Obj> = fs.iter().map(|n| Obj::Name(n.as_bytes().to_vec())).collect();
            trailer.push((b"Filter".to_vec(), if names.len() == 1 { names[0].clone() } else { Obj::Array(names) }));
        }
        got.retain(|(k, _)| !matches!(&k[..], b"Length" | b"Type" | b"W" | b"Index"));
    }
    let sort = |v: &mut Vec<(Vec<u8>, Obj)>| v.sort_by(|a, b| a.0.cmp(&b.0));
    sort(&mut got);
    sort(&mut trailer);
    if got != trailer {
        return Err(format!("the trailer is {got:?} instead of {trailer:?}"));
    }
    Ok(())
}

fn listed(_: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    for p in 0..2u8 {
        for m in 0..6u8 {
            for end in 0..24u8 {
                v.push(Case::new("document", vec![vec![p, m, end]]));
                v.push(Case::new("document", vec![vec![p, m, end, 14, 3, 14, 9, 12, 1, 11, 2, 7, 7, 2, 1, 14, 5]]));
                v.push(Case::new("document", vec![vec![p, m, end, 7, 2, 0, 9, 1, 2, 3, 4, 14, 20, 7, 1, 11, 7, 11, 4]]));
                for slack in [0u8, 3, 8, 16, 20, 30] {
                    v.push(Case::new("document", vec![vec![p, m, end, 14, 7, 13, 0, slack, 9, 14, 2]]));
                    v.push(Case::new("document", vec![vec![p, m, end, 13, 1, slack, 5, 14, 14, 3]]));
                }
                for a in [0u8, 1, 5, 16, 32] {
                    for k in 0..4u8 {
                        v.push(Case::new("document", vec![vec![p, m, end, 14, a, k, 14, a + 1, k, 14, 40, 2, 10, 2, 65, 66, 1, 67]]));
                    }
                }
            }
        }
    }
    v
}

fn random(ctx: &Ctx, r: &mut Rng) -> Case {
    let mut v = program(&ctx.dict, r);
    if v.len() > 3 && r.chance(1, 2) {
        let n = 4 + r.below(40);
        v.truncate(3);
        for _ in 0..n {
            v.push(r.next() as u8);
        }
    }
    Case::new("document", vec![v])
}

fn prop(id: &'static str, check: fn(&Case) -> Result<(), String>) -> Prop {
    Prop {
        id,
        listed,
        random,
        n: (50_000, 2_000_000),
        check,
        rule: "histories of one document (objects, streams, chunks, header and trailer settings) with dense, sparse, descending and large numbers, then finished; non-trivial if there is a step",
        nontrivial: |c| c.bytes(0).len() > 4,
        sweep: None,
    }
}

pub fn c01() -> Prop {
    prop("C01", |c| run(c, Mode::Table))
}
pub fn c02() -> Prop {
    prop("C02", |c| run(c, Mode::Stream))
}
pub fn c21() -> Prop {
    prop("C21", |c| run(c, Mode::Header))
}
