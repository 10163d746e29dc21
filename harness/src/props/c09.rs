use super::*;
use crate::pdf::parse_all;
use crate::run::*;
use crate::tree::*;
use pdf_writer::{Content, Filter, Finish, Name};

const FILTERS: &[(Filter, &[u8])] = &[
    (Filter::AsciiHexDecode, b"ASCIIHexDecode"),
    (Filter::Ascii85Decode, b"ASCII85Decode"),
    (Filter::LzwDecode, b"LZWDecode"),
    (Filter::FlateDecode, b"FlateDecode"),
    (Filter::RunLengthDecode, b"RunLengthDecode"),
    (Filter::CcittFaxDecode, b"CCITTFaxDecode"),
    (Filter::Jbig2Decode, b"JBIG2Decode"),
    (Filter::DctDecode, b"DCTDecode"),
    (Filter::JpxDecode, b"JPXDecode"),
    (Filter::Crypt, b"Crypt"),
];

/// args: data, filter and flags, entries.
fn check(c: &Case) -> Result<(), String> {
    let data = c.bytes(0);
    let f = c.bytes(1).first().copied().unwrap_or(0) as usize;
    let flags = c.bytes(1).get(1).copied().unwrap_or(0);
    let mut src = Src(c.bytes(2), 0);
    let mut items = vec![];
    while !src.done() && items.len() < 5 {
        items.push((src.string(), src.value(2)));
    }
    for pretty in [true, false] {
        let mut ch = chunk(pretty);
        ch.indirect(Ref::new(3)).primitive(1);
        let mut s = ch.stream(Ref::new(7), data);
        let mut n = 1 + items.len();
        if flags & 1 == 1 {
            s.filter(FILTERS[f % FILTERS.len()].0);
            n += 1;
        }
        for (k, v) in &items {
            write(v, s.insert(Name(k)));
        }
        if flags & 2 == 2 {
            s.decode_parms().early_change(false).columns(3);
            n += 1;
        }
        if flags & 4 == 4 {
            s.finish();
        } else {
            drop(s);
        }
        ch.indirect(Ref::new(8)).primitive(2);
        let b = ch.as_bytes();
        let shown = || show_bytes(b);
        let got = parse_all(b).map_err(|e| format!("{e} in `{}`", shown()))?;
        let Some((_, 7, 0, Obj::Stream(d, x))) = got.get(1) else {
            return Err(format!("no stream object: `{}`", shown()));
        };
        if got.len() != 3 || x != data || d.len() != n {
            return Err(format!("the stream reads back as {d:?}, {x:?}: `{}`", shown()));
        }
        let mut at = 0;
        let mut next = |k: &[u8], ok: &dyn Fn(&Obj) -> bool| {
            at += 1;
            d[at - 1].0 == k && ok(&d[at - 1].1)
        };
        let mut ok = next(b"Length", &|o| *o == Obj::Int(data.len() as i128));
        if flags & 1 == 1 {
            ok &= next(b"Filter", &|o| *o == Obj::Name(FILTERS[f % FILTERS.len()].1.to_vec()));
        }
        for (k, v) in &items {
            ok &= next(k, &|o| same(v, o));
        }
        if flags & 2 == 2 {
            ok &= next(b"DecodeParms", &|o| {
                *o == Obj::Dict(vec![
                    (b"EarlyChange".to_vec(), Obj::Int(0)),
                    (b"Columns".to_vec(), Obj::Int(3)),
                ])
            });
        }
        if !ok {
            return Err(format!("the entries read back as {d:?}"));
        }
        // Each keyword on its own line.
        let text = [b"\nstream\n".as_slice(), data, b"\nendstream\nendobj\n"].concat();
        if !b.windows(text.len()).any(|w| w == text) {
            return Err(format!("the data is not between lines of its own: `{}`", shown()));
        }
        // The bytes of a content stream go through unchanged.
        let mut content = Content::new();
        content.set_line_width(data.len() as f32).stroke();
        let buf = content.finish();
        let mut ch = chunk(pretty);
        ch.stream(Ref::new(1), &buf);
        match parse_all(ch.as_bytes())?.first() {
            Some((_, 1, 0, Obj::Stream(d, x)))
                if *x == buf.as_slice() && d.len() == 1 && d[0].1 == Obj::Int(buf.len() as i128) => {}
            o => return Err(format!("content stream reads back as {o:?}")),
        }
    }
    Ok(())
}

fn listed(_: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let mut datas: Vec<Vec<u8>> = [
        b"".as_slice(),
        b"endstream",
        b"\nendstream",
        b"\nendstream\nendobj\n",
        b"\r",
        b"\n",
        b"\r\n",
        b"a\n",
        b"\na",
        b">>",
        b"stream\n",
    ]
    .iter()
    .map(|b| b.to_vec())
    .collect();
    for b in 0..=255u8 {
        datas.push(vec![b]);
        datas.push(vec![b'x', b]);
        datas.push(vec![b, b'x']);
    }
    for n in [9usize, 10, 99, 100, 255, 256, 1000, 4096, 65535, 65536, 100_000] {
        datas.push(vec![b'd'; n]);
    }
    for d in &datas {
        v.push(Case::new("stream", vec![d.clone(), vec![3, 1], vec![]]));
        v.push(Case::new("stream", vec![d.clone(), vec![0, 0], vec![]]));
    }
    for f in 0..FILTERS.len() as u8 {
        for flags in 0..8 {
            v.push(Case::new("stream", vec![b"x".to_vec(), vec![f, flags], vec![1, b'K', 2, 1, 5]]));
        }
    }
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        listed,
        random: |ctx, r| {
            let n = [4, 16, 64, 300][r.below(4)];
            let data = if r.chance(1, 3) { r.bytes(n) } else { ctx.dict.byte_string(r, n) };
            let e = program(&ctx.dict, r);
            Case::new("stream", vec![data, vec![r.next() as u8, r.next() as u8], e[..e.len().min(60)].to_vec()])
        },
        n: (800_000, 4_000_000),
        check,
        rule: "stream data, filter, decode parameters and entries; non-trivial if there is data",
        nontrivial: |c| !c.bytes(0).is_empty(),
        sweep: None,
    }
}
