use super::*;
use crate::run::*;
use crate::tree::Src;
use pdf_writer::types::{SystemInfo, UnicodeCmap};
use pdf_writer::writers::WMode;
use pdf_writer::{Name, Str};

#[derive(Debug, Clone, PartialEq)]
enum Tk {
    Name(Vec<u8>),
    Str(Vec<u8>),
    Word(Vec<u8>),
}

/// Names, strings and words; comments end with their line.
fn tokens(b: &[u8]) -> Result<Vec<Tk>, String> {
    pdf::tokens(b)?
        .into_iter()
        .map(|t| {
            Ok(match t {
                pdf::Tok::Name(n) => Tk::Name(n),
                pdf::Tok::Str(s) => Tk::Str(s),
                pdf::Tok::Word(w) => Tk::Word(w),
                pdf::Tok::Int(i) => Tk::Word(i.to_string().into_bytes()),
                t => return Err(format!("unexpected {t:?}")),
            })
        })
        .collect()
}

fn w(s: &str) -> Tk {
    Tk::Word(s.as_bytes().to_vec())
}
fn n(s: &str) -> Tk {
    Tk::Name(s.as_bytes().to_vec())
}

fn ch(s: &mut Src) -> char {
    loop {
        let c = match s.next() % 8 {
            0 => 0x10000 + ((s.next() as u32) << 8 | s.next() as u32) * 16 + s.next() as u32 % 16,
            1 => 0xd7f0 + s.next() as u32 % 16,
            2 => 0xe000 + s.next() as u32,
            3 => 0xfff0 + s.next() as u32 % 40,
            4 => 0x10ffff - s.next() as u32,
            5 => (s.next() as u32) << 8 | s.next() as u32,
            _ => s.next() as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
        if s.done() {
            return 'x';
        }
    }
}

/// args: name, registry, ordering, supplement, flags, entries.
fn check(c: &Case) -> Result<(), String> {
    let one = |i: usize| -> Vec<u8> { c.bytes(i).iter().copied().filter(|b| *b != 10 && *b != 13).collect() };
    let (name, registry, ordering) = (one(0), one(1), one(2));
    let supplement = c.u64(3) as i32;
    let flags = c.u64(4);
    let wide = flags & 1 == 1;
    let mode = if flags & 2 == 2 { WMode::Vertical } else { WMode::Horizontal };
    let plain = flags & 4 == 4 && mode == WMode::Horizontal;
    let count = (flags >> 3) as usize % 420;
    let mut s = Src(c.bytes(5), 0);
    let mut entries: Vec<(u16, Vec<char>)> = vec![];
    for i in 0..count {
        let code = match s.next() % 4 {
            0 => i as u16,
            1 => (s.next() as u16) << 8 | s.next() as u16,
            2 => 0xffff - s.next() as u16,
            _ => s.next() as u16,
        };
        let code = if wide { code } else { code & 255 };
        let k = match s.next() % 8 {
            0 => 0,
            1 => 2,
            2 => 3 + s.next() as usize % 6,
            3 => match s.next() {
                255 => s.next() as usize * 9,
                n => n as usize,
            },
            _ => 1,
        };
        let text = (0..k).map(|_| ch(&mut s)).collect();
        entries.push((code, text));
    }
    let info = SystemInfo { registry: Str(&registry), ordering: Str(&ordering), supplement };
    fn build<G: pdf_writer::types::GlyphId>(
        name: &[u8], info: SystemInfo, mode: WMode, plain: bool, e: &[(u16, Vec<char>)], g: fn(u16) -> G,
    ) -> Vec<u8> {
        let mut m = if plain { UnicodeCmap::<G>::new(Name(name), info) } else { UnicodeCmap::<G>::with_writing_mode(Name(name), info, mode) };
        for (i, (c, t)) in e.iter().enumerate() {
            if t.len() == 1 && i % 2 == 0 {
                m.pair(g(*c), t[0]);
            } else {
                m.pair_with_multiple(g(*c), t.iter().copied());
            }
        }
        m.finish().into_vec()
    }
    let bytes = if wide {
        build::<u16>(&name, info, mode, plain, &entries, |c| c)
    } else {
        build::<u8>(&name, info, mode, plain, &entries, |c| c as u8)
    };
    if !bytes.starts_with(b"%!PS-Adobe-3.0 Resource-CMap\n") {
        return Err(format!("the first line is not that of a character map: `{}`", show_bytes(&bytes[..bytes.len().min(60)])));
    }
    if !bytes.ends_with(b"\n%%EOF") {
        return Err("no end mark".into());
    }
    let t = tokens(&bytes).map_err(|e| format!("{e} in `{}`", show_bytes(&bytes)))?;
    let st = |b: &[u8]| Tk::Str(b.to_vec());
    let m = if mode == WMode::Vertical { "1" } else { "0" };
    let sup = supplement.to_string();
    let (lo, hi): (&[u8], &[u8]) = if wide { (&[0, 0], &[255, 255]) } else { (&[0], &[255]) };
    let head = vec![
        n("CIDInit"), n("ProcSet"), w("findresource"), w("begin"), w("12"), w("dict"), w("begin"), w("begincmap"),
        n("CIDSystemInfo"), w("3"), w("dict"), w("dup"), w("begin"),
        n("Registry"), st(&registry), w("def"), n("Ordering"), st(&ordering), w("def"),
        n("Supplement"), w(&sup), w("def"), w("end"), w("def"),
        n("CMapName"), Tk::Name(name.clone()), w("def"), n("CMapVersion"), w("1"), w("def"), n("CMapType"), w("0"), w("def"),
        n("WMode"), w(m), w("def"), w("1"), w("begincodespacerange"), st(lo), st(hi), w("endcodespacerange"),
    ];
    let tail = vec![w("endcmap"), w("CMapName"), w("currentdict"), n("CMap"), w("defineresource"), w("pop"), w("end"), w("end")];
    if t.len() < head.len() + tail.len() || t[..head.len()] != head[..] {
        return Err(format!("header: {:?}", &t[..t.len().min(head.len())]));
    }
    if t[t.len() - tail.len()..] != tail[..] {
        return Err(format!("end: {:?}", &t[t.len() - tail.len()..]));
    }
    let body = &t[head.len()..t.len() - tail.len()];
    let mut at = 0;
    let mut got: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    while at < body.len() {
        let Tk::Word(k) = &body[at] else { return Err(format!("{:?} for the number of entries", body[at])) };
        let k: usize = String::from_utf8_lossy(k).parse().map_err(|_| format!("{:?} for the number of entries", body[at]))?;
        if !(1..=100).contains(&k) {
            return Err(format!("a block of {k} entries"));
        }
        if body.get(at + 1) != Some(&w("beginbfchar")) || body.get(at + 2 + 2 * k) != Some(&w("endbfchar")) {
            return Err(format!("a block does not have the announced {k} entries"));
        }
        for j in 0..k {
            let (Tk::Str(a), Tk::Str(b)) = (&body[at + 2 + 2 * j], &body[at + 3 + 2 * j]) else {
                return Err("an entry is not two strings".into());
            };
            got.push((a.clone(), b.clone()));
        }
        at += 3 + 2 * k;
    }
    let want: Vec<(Vec<u8>, Vec<u8>)> = entries
        .iter()
        .map(|(c, t)| {
            let code = if wide { c.to_be_bytes().to_vec() } else { vec![*c as u8] };
            let text: String = t.iter().collect();
            (code, text.encode_utf16().flat_map(u16::to_be_bytes).collect())
        })
        .collect();
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("{} entries for {}; entry {i} is {:?} instead of {:?}", got.len(), want.len(), got.get(i), want.get(i)));
    }
    Ok(())
}

fn case(name: &[u8], reg: &[u8], ord: &[u8], sup: i32, wide: bool, vertical: bool, plain: bool, count: usize, data: Vec<u8>) -> Case {
    let flags = wide as u64 | (vertical as u64) << 1 | (plain as u64) << 2 | (count as u64) << 3;
    Case::new("cmap", vec![name.to_vec(), reg.to_vec(), ord.to_vec(), num(sup as i64 as u64), num(flags), data])
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        listed: |_| {
            let mut v = vec![];
            for count in (0..8).chain(95..106).chain(195..206).chain([299, 300, 301, 400]) {
                for f in 0..8 {
                    v.push(case(b"Custom", b"Adobe", b"UCS", 0, f & 1 == 1, f & 2 == 2, f & 4 == 4, count, vec![]));
                    v.push(case(b"A(B", b"Ad)(o\\be", b"", i32::MIN, f & 1 == 1, f & 2 == 2, f & 4 == 4, count, vec![7, 3, 2]));
                }
            }
            // Each kind of character, around the surrogates and the planes.
            for kind in 0..8u8 {
                for a in 0..=255u8 {
                    for n in 0..3u8 {
                        v.push(case(b"C", b"A", b"U", 1, true, false, false, 1, vec![3, a, [3, 1, 2][n as usize], 0, kind, a, a ^ 0x5a, 3, kind, 255 - a, a]));
                    }
                }
            }
            for n in [28u8, 29, 57, 114, 228, 255] {
                for kind in 0..8u8 {
                    v.push(case(b"C", b"A", b"U", 1, true, false, false, 2, [vec![3, 7, 3, 255, n], vec![kind, 5, 9, 77].repeat(2400)].concat()));
                }
            }
            // Long sequences, so that a block is long.
            for j in [0u8, 5, 12, 31] {
                for count in [1, 99, 100, 101, 203] {
                    v.push(case(b"C", b"A", b"U", 1, j & 1 == 1, false, false, count, vec![8 * j + 3; 60_000]));
                }
            }
            for a in 0..=255u8 {
                v.push(case(&[a], &[a], &[a, a], a as i32, true, false, false, 2, vec![1, a, 255 - a, 3, 7, a, 1, 255, a, 0, 7, a]));
                v.push(case(&[a], &[40, a], &[a, 41], -(a as i32), false, true, false, 1, vec![3, a, 3, 7, 65]));
            }
            v
        },
        random: |ctx, r| {
            let count = [0, 1, 2, 3, 5, 99, 100, 101, 130, 200, 201][r.below(11)];
            let n = r.below(12 * count + 2);
            let data = r.bytes(n);
            let (a, b, c) = (ctx.dict.byte_string(r, 12), ctx.dict.byte_string(r, 12), ctx.dict.byte_string(r, 12));
            let f = r.next();
            case(&a, &b, &c, ctx.dict.i32(r), f & 1 == 1, f & 2 == 2, f & 4 == 4, count, data)
        },
        n: (300_000, 4_000_000),
        check,
        rule: "names, collections, both widths and modes and up to 400 mappings; non-trivial if there is a mapping",
        nontrivial: |c| c.u64(4) >> 3 > 0,
        sweep: None,
    }
}
