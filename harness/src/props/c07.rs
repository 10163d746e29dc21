use super::*;
use crate::run::*;
use pdf_writer::Date;

#[derive(Debug, PartialEq, Clone)]
struct Fields {
    year: u32,
    rest: Vec<u32>,
    /// Sign, hours, minutes; `Z` is +0.
    offset: Option<(i32, u32, u32)>,
}

/// ISO 32000-1, 7.9.4.
fn parse_date(s: &[u8]) -> Option<Fields> {
    let s = s.strip_prefix(b"D:")?;
    let mut pos = 0;
    let mut digits = |n: usize, pos: &mut usize| -> Option<u32> {
        let t = s.get(*pos..*pos + n)?;
        if !t.iter().all(|b| b.is_ascii_digit()) {
            return None;
        }
        *pos += n;
        std::str::from_utf8(t).ok()?.parse().ok()
    };
    let year = digits(4, &mut pos)?;
    let mut rest = vec![];
    let limits = [(1, 12), (1, 31), (0, 23), (0, 59), (0, 59)];
    while rest.len() < 5 && pos < s.len() && s[pos].is_ascii_digit() {
        let v = digits(2, &mut pos)?;
        let (lo, hi) = limits[rest.len()];
        if v < lo || v > hi {
            return None;
        }
        rest.push(v);
    }
    let mut offset = None;
    if pos < s.len() {
        if rest.len() != 5 {
            return None;
        }
        match s[pos] {
            b'Z' => {
                pos += 1;
                offset = Some((1, 0, 0));
                // Z may be followed by 00'00.
                if pos < s.len() {
                    return None;
                }
            }
            c @ (b'+' | b'-') => {
                pos += 1;
                let h = digits(2, &mut pos)?;
                if s.get(pos) != Some(&b'\'') {
                    return None;
                }
                pos += 1;
                let m = digits(2, &mut pos)?;
                if s.get(pos) == Some(&b'\'') {
                    pos += 1;
                }
                if h > 23 || m > 59 {
                    return None;
                }
                offset = Some((if c == b'+' { 1 } else { -1 }, h, m));
            }
            _ => return None,
        }
    }
    if pos != s.len() {
        return None;
    }
    Some(Fields { year, rest, offset })
}

/// args: year (2 bytes), then a byte string of (field, value) pairs applied in order.
fn check(c: &Case) -> Result<(), String> {
    let year = c.u64(0) as u16;
    let mut d = Date::new(year);
    let mut f: [Option<u32>; 5] = [None; 5];
    let mut oh: Option<i32> = None;
    let mut om = 0u32;
    for p in c.bytes(1).chunks(2) {
        if p.len() < 2 {
            continue;
        }
        let v = p[1];
        match p[0] % 7 {
            0 => {
                d = d.month(v);
                f[0] = Some(v.clamp(1, 12) as u32);
            }
            1 => {
                d = d.day(v);
                f[1] = Some(v.clamp(1, 31) as u32);
            }
            2 => {
                d = d.hour(v);
                f[2] = Some(v.min(23) as u32);
            }
            3 => {
                d = d.minute(v);
                f[3] = Some(v.min(59) as u32);
            }
            4 => {
                d = d.second(v);
                f[4] = Some(v.min(59) as u32);
            }
            5 => {
                d = d.utc_offset_hour(v as i8);
                oh = Some((v as i8).clamp(-23, 23) as i32);
            }
            _ => {
                d = d.utc_offset_minute(v);
                om = v.min(59) as u32;
            }
        }
    }
    let mut rest = vec![];
    for x in f {
        match x {
            Some(v) => rest.push(v),
            None => break,
        }
    }
    let offset = match oh {
        Some(h) if rest.len() == 5 => Some((if h < 0 { -1 } else { 1 }, h.unsigned_abs(), om)),
        _ => None,
    };
    let want = Fields { year: (year as u32).min(9999), rest, offset };
    everywhere(
        d,
        |o| match o {
            Obj::Str(s) => parse_date(s).as_ref() == Some(&want),
            _ => false,
        },
        &format!("date {want:?}"),
    )
}

fn listed(_: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    for y in [0u64, 1, 9, 10, 99, 100, 999, 1000, 2024, 9998, 9999, 10000, 65535] {
        v.push(Case::new("date", vec![num(y), vec![]]));
    }
    // Every value of every field with everything else set, and truncated.
    for field in 0..7u8 {
        for val in 0..=255u8 {
            let mut p = vec![0, 7, 1, 8, 2, 9, 3, 10, 4, 11, 5, 252, 6, 30];
            p[2 * field as usize + 1] = val;
            v.push(Case::new("date", vec![num(1998), p.clone()]));
            let mut q = p.clone();
            q[11] = 0;
            q[2 * field as usize + 1] = val;
            v.push(Case::new("date", vec![num(1998), q]));
            p.truncate(2 * field as usize + 2);
            v.push(Case::new("date", vec![num(1998), p]));
        }
    }
    // Every subset of the fields.
    for set in 0..128u8 {
        let mut p = vec![];
        for i in 0..7 {
            if set >> i & 1 == 1 {
                p.extend([i, 3 + i]);
            }
        }
        v.push(Case::new("date", vec![num(7), p]));
    }
    // Every offset.
    for h in 0..=255u8 {
        for m in [0u8, 1, 29, 30, 58, 59, 60, 255] {
            v.push(Case::new("date", vec![num(2000), vec![0, 1, 1, 1, 2, 0, 3, 0, 4, 0, 5, h, 6, m]]));
        }
    }
    v
}

fn random(_: &Ctx, r: &mut Rng) -> Case {
    let y = match r.below(3) {
        0 => r.below(65536) as u64,
        1 => r.below(10001) as u64,
        _ => [0, 9, 10, 99, 100, 999, 1000, 9999, 10000][r.below(9)],
    };
    let mut p = vec![];
    if r.chance(1, 2) {
        for i in 0..7 {
            if r.chance(7, 8) {
                p.extend([i, r.next() as u8 % 64]);
            }
        }
    } else {
        for _ in 0..r.below(10) {
            p.extend([r.below(7) as u8, r.next() as u8]);
        }
    }
    Case::new("date", vec![num(y), p])
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        listed,
        random,
        n: (1_600_000, 8_000_000),
        check,
        rule: "dates built by any sequence of setters with any argument; non-trivial if some field is set",
        nontrivial: |c| !c.bytes(1).is_empty(),
        sweep: None,
    }
}
