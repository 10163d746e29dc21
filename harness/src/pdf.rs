#![allow(dead_code)]
//! A strict reader of PDF syntax (ISO 32000-1, 7.2 and 7.3), written from the
//! standard and independent of the writer.

#[derive(Clone, Debug, PartialEq)]
pub enum Obj {
    Null,
    Bool(bool),
    Int(i128),
    Real(String),
    Str(Vec<u8>),
    Name(Vec<u8>),
    Array(Vec<Obj>),
    Dict(Vec<(Vec<u8>, Obj)>),
    Ref(i64, i64),
    Stream(Vec<(Vec<u8>, Obj)>, Vec<u8>),
}

impl Obj {
    pub fn get(&self, key: &[u8]) -> Option<&Obj> {
        match self {
            Obj::Dict(d) | Obj::Stream(d, _) => d.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i128> {
        match self {
            Obj::Int(v) => Some(*v),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<f64> {
        match self {
            Obj::Int(v) => Some(*v as f64),
            Obj::Real(s) => real_value(s.as_bytes()),
            _ => None,
        }
    }
    pub fn f32(&self) -> Option<f32> {
        match self {
            Obj::Int(v) => v.to_string().parse().ok(),
            Obj::Real(s) => s.parse().ok(),
            _ => None,
        }
    }
}

pub fn is_white(b: u8) -> bool {
    matches!(b, 0 | 9 | 10 | 12 | 13 | 32)
}
pub fn is_delim(b: u8) -> bool {
    matches!(b, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'{' | b'}' | b'/' | b'%')
}
pub fn is_regular(b: u8) -> bool {
    !is_white(b) && !is_delim(b)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Int(i128),
    Real(String),
    Str(Vec<u8>),
    Name(Vec<u8>),
    Word(Vec<u8>),
    ArrOpen,
    ArrClose,
    DictOpen,
    DictClose,
    BraceOpen,
    BraceClose,
}

/// An integer or real in PDF syntax (no exponent).
pub fn number(w: &[u8]) -> Option<Tok> {
    let (neg, d) = match w.first()? {
        b'-' => (true, &w[1..]),
        b'+' => (false, &w[1..]),
        _ => (false, w),
    };
    if d.is_empty() {
        return None;
    }
    let dots = d.iter().filter(|b| **b == b'.').count();
    if dots > 1 || d.iter().any(|b| !b.is_ascii_digit() && *b != b'.') || d == b"." {
        return None;
    }
    if dots == 0 {
        let mut v: i128 = 0;
        for b in d {
            // A number beyond any integer is a real.
            match v.checked_mul(10).and_then(|v| v.checked_add((b - b'0') as i128)) {
                Some(x) => v = x,
                None => return Some(Tok::Real(String::from_utf8(w.to_vec()).unwrap())),
            }
        }
        return Some(Tok::Int(if neg { -v } else { v }));
    }
    Some(Tok::Real(String::from_utf8(w.to_vec()).unwrap()))
}

pub fn real_value(w: &[u8]) -> Option<f64> {
    std::str::from_utf8(w).ok()?.parse().ok()
}

fn hexval(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}

#[derive(Clone)]
pub struct Lexer<'a> {
    pub s: &'a [u8],
    pub pos: usize,
}

impl<'a> Lexer<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        Self { s, pos: 0 }
    }
    pub fn peek_byte(&self) -> Option<u8> {
        self.s.get(self.pos).copied()
    }
    pub fn skip_white(&mut self) {
        while let Some(b) = self.peek_byte() {
            if is_white(b) {
                self.pos += 1;
            } else if b == b'%' {
                while let Some(b) = self.peek_byte() {
                    if b == b'\n' || b == b'\r' {
                        break;
                    }
                    self.pos += 1;
                }
            } else {
                break;
            }
        }
    }
    pub fn token(&mut self) -> Result<Option<Tok>, String> {
        self.skip_white();
        let Some(b) = self.peek_byte() else { return Ok(None) };
        Ok(Some(match b {
            b'[' => {
                self.pos += 1;
                Tok::ArrOpen
            }
            b']' => {
                self.pos += 1;
                Tok::ArrClose
            }
            b'{' => {
                self.pos += 1;
                Tok::BraceOpen
            }
            b'}' => {
                self.pos += 1;
                Tok::BraceClose
            }
            b'<' if self.s.get(self.pos + 1) == Some(&b'<') => {
                self.pos += 2;
                Tok::DictOpen
            }
            b'<' => Tok::Str(self.hex_string()?),
            b'>' if self.s.get(self.pos + 1) == Some(&b'>') => {
                self.pos += 2;
                Tok::DictClose
            }
            b'>' | b')' => return Err(format!("unexpected delimiter {:?} at {}", b as char, self.pos)),
            b'(' => Tok::Str(self.literal_string()?),
            b'/' => Tok::Name(self.name()?),
            _ => {
                let start = self.pos;
                while self.peek_byte().is_some_and(is_regular) {
                    self.pos += 1;
                }
                let w = &self.s[start..self.pos];
                match number(w) {
                    Some(t) => t,
                    None => Tok::Word(w.to_vec()),
                }
            }
        }))
    }
    fn name(&mut self) -> Result<Vec<u8>, String> {
        self.pos += 1;
        let mut out = vec![];
        while let Some(b) = self.peek_byte() {
            if !is_regular(b) {
                break;
            }
            self.pos += 1;
            if b == b'#' {
                let (Some(h), Some(l)) = (
                    self.s.get(self.pos).and_then(|b| hexval(*b)),
                    self.s.get(self.pos + 1).and_then(|b| hexval(*b)),
                ) else {
                    return Err("bad # escape in a name".into());
                };
                self.pos += 2;
                out.push(h * 16 + l);
            } else {
                // Regular characters outside of ! to ~ shall be escaped.
                if !(b'!'..=b'~').contains(&b) {
                    return Err(format!("byte {b:#x} must be escaped in a name"));
                }
                out.push(b);
            }
        }
        Ok(out)
    }
    fn hex_string(&mut self) -> Result<Vec<u8>, String> {
        self.pos += 1;
        let mut out = vec![];
        let mut half = None;
        loop {
            let Some(b) = self.peek_byte() else { return Err("unterminated hex string".into()) };
            self.pos += 1;
            if b == b'>' {
                break;
            }
            if is_white(b) {
                continue;
            }
            let Some(v) = hexval(b) else { return Err(format!("bad hex digit {b:#x}")) };
            match half.take() {
                None => half = Some(v),
                Some(h) => out.push(h * 16 + v),
            }
        }
        if let Some(h) = half {
            out.push(h * 16);
        }
        Ok(out)
    }
    fn literal_string(&mut self) -> Result<Vec<u8>, String> {
        self.pos += 1;
        let mut depth = 0;
        let mut out = vec![];
        loop {
            let Some(b) = self.peek_byte() else { return Err("unterminated literal string".into()) };
            self.pos += 1;
            match b {
                b'(' => {
                    depth += 1;
                    out.push(b);
                }
                b')' => {
                    if depth == 0 {
                        return Ok(out);
                    }
                    depth -= 1;
                    out.push(b);
                }
                b'\r' => {
                    if self.peek_byte() == Some(b'\n') {
                        self.pos += 1;
                    }
                    out.push(b'\n');
                }
                b'\\' => {
                    let Some(e) = self.peek_byte() else { return Err("unterminated escape".into()) };
                    self.pos += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b'r' => out.push(b'\r'),
                        b't' => out.push(b'\t'),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'\n' => {}
                        b'\r' => {
                            if self.peek_byte() == Some(b'\n') {
                                self.pos += 1;
                            }
                        }
                        b'0'..=b'7' => {
                            let mut v = (e - b'0') as u32;
                            for _ in 0..2 {
                                match self.peek_byte() {
                                    Some(d @ b'0'..=b'7') => {
                                        v = v * 8 + (d - b'0') as u32;
                                        self.pos += 1;
                                    }
                                    _ => break,
                                }
                            }
                            out.push(v as u8);
                        }
                        c => out.push(c),
                    }
                }
                _ => out.push(b),
            }
        }
    }

    /// A complete object (no streams).
    pub fn object(&mut self) -> Result<Obj, String> {
        let Some(t) = self.token()? else { return Err("object expected, found the end".into()) };
        self.object_from(t)
    }

    pub fn object_from(&mut self, t: Tok) -> Result<Obj, String> {
        Ok(match t {
            Tok::Int(a) => {
                // Perhaps a reference.
                let save = self.pos;
                if a >= 0 {
                    if let Ok(Some(Tok::Int(g))) = self.token() {
                        if g >= 0 {
                            if let Ok(Some(Tok::Word(w))) = self.token() {
                                if w == b"R" {
                                    return Ok(Obj::Ref(a as i64, g as i64));
                                }
                            }
                        }
                    }
                    self.pos = save;
                }
                Obj::Int(a)
            }
            Tok::Real(s) => Obj::Real(s),
            Tok::Str(s) => Obj::Str(s),
            Tok::Name(s) => Obj::Name(s),
            Tok::Word(w) => match w.as_slice() {
                b"true" => Obj::Bool(true),
                b"false" => Obj::Bool(false),
                b"null" => Obj::Null,
                _ => return Err(format!("object expected, found `{}`", crate::run::show_bytes(&w))),
            },
            Tok::ArrOpen => {
                let mut v = vec![];
                loop {
                    match self.token()? {
                        None => return Err("unterminated array".into()),
                        Some(Tok::ArrClose) => break,
                        Some(t) => v.push(self.object_from(t)?),
                    }
                }
                Obj::Array(v)
            }
            Tok::DictOpen => {
                let mut v = vec![];
                loop {
                    match self.token()? {
                        None => return Err("unterminated dictionary".into()),
                        Some(Tok::DictClose) => break,
                        Some(Tok::Name(k)) => v.push((k, self.object()?)),
                        Some(t) => return Err(format!("dictionary key expected, found {t:?}")),
                    }
                }
                Obj::Dict(v)
            }
            t => return Err(format!("object expected, found {t:?}")),
        })
    }

    pub fn word(&mut self, w: &[u8]) -> Result<(), String> {
        match self.token()? {
            Some(Tok::Word(x)) if x == w => Ok(()),
            t => Err(format!("expected `{}`, found {t:?}", crate::run::show_bytes(w))),
        }
    }

    /// `N G obj ... endobj`, including streams.
    pub fn indirect(&mut self) -> Result<(i64, i64, Obj), String> {
        let (Some(Tok::Int(n)), Some(Tok::Int(g))) = (self.token()?, self.token()?) else {
            return Err("object header expected".into());
        };
        self.word(b"obj")?;
        let o = self.object()?;
        let save = self.pos;
        match self.token()? {
            Some(Tok::Word(w)) if w == b"endobj" => Ok((n as i64, g as i64, o)),
            Some(Tok::Word(w)) if w == b"stream" => {
                // The keyword is followed by CR LF or LF.
                if self.s[self.pos..].starts_with(b"\r\n") {
                    self.pos += 2;
                } else if self.s[self.pos..].starts_with(b"\n") {
                    self.pos += 1;
                } else {
                    return Err("`stream` is not followed by an end-of-line marker".into());
                }
                let Some(len) = o.get(b"Length").and_then(|o| o.int()) else {
                    return Err("stream without a direct integer /Length".into());
                };
                let len = len as usize;
                if self.pos + len > self.s.len() {
                    return Err(format!("/Length {len} exceeds the file"));
                }
                let data = self.s[self.pos..self.pos + len].to_vec();
                self.pos += len;
                // An end-of-line marker before endstream, not part of the length.
                if self.s[self.pos..].starts_with(b"\r\n") {
                    self.pos += 2;
                } else if self.s[self.pos..].starts_with(b"\n") || self.s[self.pos..].starts_with(b"\r") {
                    self.pos += 1;
                } else {
                    return Err("stream data of /Length bytes is not followed by an end-of-line".into());
                }
                if !self.s[self.pos..].starts_with(b"endstream") {
                    return Err("endstream does not follow /Length bytes of data".into());
                }
                self.pos += b"endstream".len();
                self.word(b"endobj")?;
                let Obj::Dict(d) = o else { return Err("stream without a dictionary".into()) };
                Ok((n as i64, g as i64, Obj::Stream(d, data)))
            }
            t => {
                self.pos = save;
                Err(format!("expected endobj or stream, found {t:?}"))
            }
        }
    }
}

/// Parse exactly one object.
pub fn parse_one(s: &[u8]) -> Result<Obj, String> {
    let mut l = Lexer::new(s);
    let o = l.object()?;
    l.skip_white();
    if l.pos != s.len() {
        return Err(format!("trailing bytes `{}`", crate::run::show_bytes(&s[l.pos..])));
    }
    Ok(o)
}

/// Parse a sequence of indirect objects.
pub fn parse_all(s: &[u8]) -> Result<Vec<(usize, i64, i64, Obj)>, String> {
    let mut l = Lexer::new(s);
    let mut v = vec![];
    loop {
        l.skip_white();
        if l.pos == s.len() {
            return Ok(v);
        }
        let at = l.pos;
        let (n, g, o) = l.indirect()?;
        v.push((at, n, g, o));
    }
}

/// All tokens.
pub fn tokens(s: &[u8]) -> Result<Vec<Tok>, String> {
    let mut l = Lexer::new(s);
    let mut v = vec![];
    while let Some(t) = l.token()? {
        v.push(t);
    }
    Ok(v)
}

/// A text string (7.9.2.2): PDFDocEncoding or UTF-16BE with a byte order mark.
/// Language escapes are returned as items of their own.
#[derive(Clone, Debug, PartialEq)]
pub enum TextPart {
    Text(String),
    Lang(String),
}

pub fn text_string(s: &[u8]) -> Result<Vec<TextPart>, String> {
    if s.starts_with(&[0xFE, 0xFF]) {
        let b = &s[2..];
        if b.len() % 2 != 0 {
            return Err("odd number of bytes in UTF-16".into());
        }
        let units: Vec<u16> = b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
        let mut parts = vec![];
        let mut i = 0;
        let mut cur = vec![];
        let flush = |cur: &mut Vec<u16>, parts: &mut Vec<TextPart>| -> Result<(), String> {
            if !cur.is_empty() {
                parts.push(TextPart::Text(String::from_utf16(cur).map_err(|e| e.to_string())?));
                cur.clear();
            }
            Ok(())
        };
        while i < units.len() {
            if units[i] == 0x1b {
                flush(&mut cur, &mut parts)?;
                let Some(j) = (i + 1..units.len()).find(|&j| units[j] == 0x1b) else {
                    return Err("unterminated language escape".into());
                };
                parts.push(TextPart::Lang(String::from_utf16(&units[i + 1..j]).map_err(|e| e.to_string())?));
                i = j + 1;
            } else {
                cur.push(units[i]);
                i += 1;
            }
        }
        flush(&mut cur, &mut parts)?;
        return Ok(parts);
    }
    if s.starts_with(&[0xEF, 0xBB, 0xBF]) {
        let t = std::str::from_utf8(&s[3..]).map_err(|e| e.to_string())?;
        return Ok(if t.is_empty() { vec![] } else { vec![TextPart::Text(t.into())] });
    }
    let mut t = String::new();
    for &b in s {
        t.push(pdfdoc(b).ok_or_else(|| format!("byte {b:#x} is undefined in PDFDocEncoding"))?);
    }
    Ok(if t.is_empty() { vec![] } else { vec![TextPart::Text(t)] })
}

/// PDFDocEncoding (Annex D.2).
pub fn pdfdoc(b: u8) -> Option<char> {
    Some(match b {
        9 | 10 | 13 => b as char,
        0x18 => '\u{02D8}',
        0x19 => '\u{02C7}',
        0x1A => '\u{02C6}',
        0x1B => '\u{02D9}',
        0x1C => '\u{02DD}',
        0x1D => '\u{02DB}',
        0x1E => '\u{02DA}',
        0x1F => '\u{02DC}',
        0x20..=0x7E => b as char,
        0x80 => '\u{2022}',
        0x81 => '\u{2020}',
        0x82 => '\u{2021}',
        0x83 => '\u{2026}',
        0x84 => '\u{2014}',
        0x85 => '\u{2013}',
        0x86 => '\u{0192}',
        0x87 => '\u{2044}',
        0x88 => '\u{2039}',
        0x89 => '\u{203A}',
        0x8A => '\u{2212}',
        0x8B => '\u{2030}',
        0x8C => '\u{201E}',
        0x8D => '\u{201C}',
        0x8E => '\u{201D}',
        0x8F => '\u{2018}',
        0x90 => '\u{2019}',
        0x91 => '\u{201A}',
        0x92 => '\u{2122}',
        0x93 => '\u{FB01}',
        0x94 => '\u{FB02}',
        0x95 => '\u{0141}',
        0x96 => '\u{0152}',
        0x97 => '\u{0160}',
        0x98 => '\u{0178}',
        0x99 => '\u{017D}',
        0x9A => '\u{0131}',
        0x9B => '\u{0142}',
        0x9C => '\u{0153}',
        0x9D => '\u{0161}',
        0x9E => '\u{017E}',
        0xA0 => '\u{20AC}',
        0xA1..=0xAC | 0xAE..=0xFF => b as char,
        _ => return None,
    })
}

pub fn text_of(parts: &[TextPart]) -> String {
    let mut s = String::new();
    for p in parts {
        if let TextPart::Text(t) = p {
            s.push_str(t);
        }
    }
    s
}

/// The operations of a content stream.
pub fn content(s: &[u8]) -> Result<Vec<(Vec<Obj>, Vec<u8>)>, String> {
    let mut l = Lexer::new(s);
    let (mut out, mut args) = (vec![], vec![]);
    while let Some(t) = l.token()? {
        match t {
            Tok::Word(w) if !matches!(w.as_slice(), b"true" | b"false" | b"null") => {
                out.push((std::mem::take(&mut args), w));
            }
            t => args.push(l.object_from(t)?),
        }
    }
    if !args.is_empty() {
        return Err(format!("operands {args:?} without an operator"));
    }
    Ok(out)
}
