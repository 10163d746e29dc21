//! A strict reader of cross-reference tables and streams (ISO 32000-1, 7.5).

use crate::pdf::{self, Lexer, Obj};
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Entry {
    Free { next: u64, gen: u64 },
    Used { offset: u64, gen: u64 },
}

#[derive(Debug)]
pub struct File {
    pub objects: BTreeMap<i64, (u64, Obj)>,
    pub trailer: Vec<(Vec<u8>, Obj)>,
    pub start: usize,
}

fn find_start(b: &[u8]) -> Result<(usize, usize), String> {
    let tail = b"\n%%EOF";
    if !b.ends_with(tail) {
        return Err("the file does not end with %%EOF on its own line".into());
    }
    let t = &b[..b.len() - tail.len()];
    let digits = t.iter().rev().take_while(|c| c.is_ascii_digit()).count();
    if digits == 0 || digits > 18 {
        return Err("startxref is not followed by a number".into());
    }
    let n: usize = std::str::from_utf8(&t[t.len() - digits..]).unwrap().parse().unwrap();
    let t = &t[..t.len() - digits];
    if !t.ends_with(b"startxref\n") {
        return Err("no startxref keyword on its own line".into());
    }
    let at = t.len() - b"startxref\n".len();
    if at > 0 && b[at - 1] != b'\n' && b[at - 1] != b'\r' {
        return Err("startxref does not begin a line".into());
    }
    Ok((n, at))
}

/// Everything but object 0 is located, and the free entries are one list.
fn check_entries(b: &[u8], entries: &[Entry]) -> Result<BTreeMap<i64, (u64, Obj)>, String> {
    let n = entries.len();
    let mut objects = BTreeMap::new();
    let mut free = 0;
    for (i, e) in entries.iter().enumerate() {
        match e {
            Entry::Used { offset, gen } => {
                if *gen != 0 {
                    return Err(format!("object {i} has generation {gen}"));
                }
                let o = *offset as usize;
                if o >= b.len() || !b[o].is_ascii_digit() {
                    return Err(format!("no object begins at offset {o} of entry {i}"));
                }
                if o > 0 && !pdf::is_white(b[o - 1]) {
                    return Err(format!("offset {o} of entry {i} is in the middle of a token"));
                }
                let mut l = Lexer::new(b);
                l.pos = o;
                let (num, g, obj) = l.indirect().map_err(|e| format!("entry {i}, offset {o}: {e}"))?;
                if num != i as i64 || g != 0 {
                    return Err(format!("entry {i} points to object {num} {g}"));
                }
                objects.insert(num, (*offset, obj));
            }
            Entry::Free { gen, .. } => {
                free += 1;
                let want = if i == 0 { 65535 } else { 0 };
                if *gen != want {
                    return Err(format!("free entry {i} has generation {gen}"));
                }
            }
        }
    }
    // The list.
    let mut seen = vec![false; n];
    let mut at = 0usize;
    let mut steps = 0;
    loop {
        match entries.get(at) {
            Some(Entry::Free { next, .. }) => {
                if seen[at] {
                    return Err(format!("free entry {at} is in the list twice"));
                }
                seen[at] = true;
                steps += 1;
                at = *next as usize;
                if at == 0 {
                    break;
                }
            }
            _ => return Err(format!("the free list leads to {at}, which is not free")),
        }
    }
    if steps != free {
        return Err(format!("the free list has {steps} of {free} free entries"));
    }
    Ok(objects)
}

/// A file that ends with a table.
pub fn read_table(b: &[u8]) -> Result<File, String> {
    let (start, sx) = find_start(b)?;
    if start >= b.len() || !b[start..].starts_with(b"xref\n0 ") {
        return Err(format!("startxref {start} does not point to a table that starts at 0"));
    }
    if start > 0 && b[start - 1] != b'\n' {
        return Err("xref does not begin a line".into());
    }
    let mut at = start + b"xref\n0 ".len();
    let ds = at;
    while b[at].is_ascii_digit() {
        at += 1;
    }
    let n: usize = std::str::from_utf8(&b[ds..at]).unwrap().parse().map_err(|_| "no table size".to_string())?;
    if b[at] != b'\n' {
        return Err("the table header is not a line".into());
    }
    at += 1;
    let mut entries = vec![];
    for i in 0..n {
        let e = b.get(at..at + 20).ok_or("the table is too short")?;
        at += 20;
        let num = |s: &[u8]| -> Result<u64, String> {
            if !s.iter().all(|c| c.is_ascii_digit()) {
                return Err(format!("entry {i} is malformed"));
            }
            Ok(std::str::from_utf8(s).unwrap().parse().unwrap())
        };
        let a = num(&e[..10])?;
        let g = num(&e[11..16])?;
        if e[10] != b' ' || e[16] != b' ' || !matches!(&e[18..], b"\r\n" | b" \n" | b" \r") {
            return Err(format!("entry {i} is malformed"));
        }
        entries.push(match e[17] {
            b'n' => Entry::Used { offset: a, gen: g },
            b'f' => Entry::Free { next: a, gen: g },
            _ => return Err(format!("entry {i} is neither free nor used")),
        });
    }
    if !b[at..].starts_with(b"trailer\n") {
        return Err("no trailer after the table".into());
    }
    let mut l = Lexer::new(&b[..sx]);
    l.pos = at + 8;
    let Obj::Dict(trailer) = l.object()? else { return Err("the trailer is not a dictionary".into()) };
    l.skip_white();
    if l.pos != sx {
        return Err("there is something between the trailer and startxref".into());
    }
    if get(&trailer, b"Size") != Some(&Obj::Int(n as i128)) {
        return Err(format!("/Size is not {n}"));
    }
    let objects = check_entries(b, &entries)?;
    Ok(File { objects, trailer, start })
}

pub fn get<'a>(d: &'a [(Vec<u8>, Obj)], key: &[u8]) -> Option<&'a Obj> {
    d.iter().find(|(k, _)| k == key).map(|(_, v)| v)
}

/// A file that ends with a stream; `unfilter` decodes its data.
pub fn read_stream(b: &[u8], id: i64, unfilter: impl Fn(&[u8]) -> Vec<u8>) -> Result<File, String> {
    let (start, sx) = find_start(b)?;
    let mut l = Lexer::new(&b[..sx]);
    l.pos = start;
    if start >= sx || !b[start].is_ascii_digit() || (start > 0 && b[start - 1] != b'\n') {
        return Err(format!("startxref {start} does not point to an object"));
    }
    let (num, g, obj) = l.indirect()?;
    let Obj::Stream(dict, data) = obj else { return Err("startxref does not point to a stream".into()) };
    if num != id || g != 0 {
        return Err(format!("the cross-reference stream is object {num} {g} instead of {id}"));
    }
    l.skip_white();
    if l.pos != sx {
        return Err("there is something between the stream and startxref".into());
    }
    if get(&dict, b"Type") != Some(&Obj::Name(b"XRef".to_vec())) {
        return Err("the stream has no /Type /XRef".into());
    }
    let Some(Obj::Int(size)) = get(&dict, b"Size") else { return Err("no /Size".into()) };
    let Some(Obj::Array(w)) = get(&dict, b"W") else { return Err("no /W".into()) };
    let w: Vec<usize> = w.iter().filter_map(|o| o.int()).map(|v| v as usize).collect();
    if w.len() != 3 || w.iter().any(|v| *v > 8) {
        return Err(format!("bad /W {w:?}"));
    }
    if let Some(o) = get(&dict, b"Index") {
        if *o != Obj::Array(vec![Obj::Int(0), Obj::Int(*size)]) {
            return Err(format!("/Index {o:?} does not cover 0..{size}"));
        }
    }
    let data = unfilter(&data);
    let len: usize = w.iter().sum();
    if data.len() as i128 != len as i128 * size {
        return Err(format!("{} bytes of data for {size} entries of {len} bytes", data.len()));
    }
    let mut entries = vec![];
    for e in data.chunks(len.max(1)) {
        let mut at = 0;
        let mut field = |n: usize, default: u64| {
            if n == 0 {
                return default;
            }
            let v = e[at..at + n].iter().fold(0u64, |a, b| a << 8 | *b as u64);
            at += n;
            v
        };
        let ty = field(w[0], 1);
        let a = field(w[1], 0);
        let g = field(w[2], 0);
        entries.push(match ty {
            0 => Entry::Free { next: a, gen: g },
            1 => Entry::Used { offset: a, gen: g },
            _ => return Err(format!("entry of type {ty}")),
        });
    }
    let objects = check_entries(b, &entries)?;
    match objects.get(&id) {
        Some((o, _)) if *o == start as u64 => {}
        _ => return Err("the stream does not locate itself".into()),
    }
    Ok(File { objects, trailer: dict, start })
}
