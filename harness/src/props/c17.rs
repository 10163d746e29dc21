use super::*;
use crate::run::*;
use pdf_writer::types::PageMode;
use pdf_writer::{Content, Name, Pdf};
use std::panic::{catch_unwind, AssertUnwindSafe};

const MODES: [PageMode; 6] = [
    PageMode::UseNone,
    PageMode::UseOutlines,
    PageMode::UseThumbs,
    PageMode::FullScreen,
    PageMode::UseOC,
    PageMode::UseAttachments,
];

fn returns(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_ok()
}

fn expect(what: &str, allowed: bool, f: impl FnOnce()) -> Result<(), String> {
    match (allowed, returns(f)) {
        (true, false) => Err(format!("{what} panicked although the documented requirement holds")),
        (false, true) => Err(format!("{what} was accepted although the documentation rules it out")),
        _ => Ok(()),
    }
}

fn steps(kind: &str, ops: &[u8], pretty: bool) -> Result<(), String> {
    let mut c = chunk(pretty);
    let mut cs = c.color_space(Ref::new(3));
    let (mut alt, mut tint) = (false, false);
    let mut log = String::new();
    macro_rules! run {
        ($w:ident, $limit:expr, $once:expr, $attrs:expr) => {
            for op in ops {
                let op = op % $limit;
                let allowed = match op {
                    0..=2 => !alt,
                    3..=5 => alt && !($once && tint),
                    _ => alt && tint,
                };
                log.push_str(["alternate gray, ", "alternate lab, ", "alternate ref, ", "exponential, ", "stitching, ", "tint ref, ", "attrs, "][op as usize]);
                expect(&format!("{kind}: {log}the last call"), allowed, || match op {
                    0 => $w.alternate_color_space().device_gray(),
                    1 => $w.alternate_color_space().lab([0.9, 1.0, 0.8], None, None),
                    2 => drop($w.alternate_color_space_ref(Ref::new(9))),
                    3 => drop($w.tint_exponential().n(1.0)),
                    4 => drop($w.tint_stitching()),
                    5 => drop($w.tint_ref(Ref::new(8))),
                    _ => $attrs,
                })?;
                if !allowed {
                    break;
                }
                alt |= op <= 2;
                tint |= (3..=5).contains(&op);
            }
        };
    }
    if kind == "separation" {
        let mut w = cs.separation(Name(b"Spot"));
        run!(w, 6, false, unreachable!());
    } else {
        let mut w = cs.device_n([Name(b"A"), Name(b"B")]);
        run!(w, 7, true, drop(w.attrs()));
    }
    Ok(())
}

fn document(ids: &[u8], own: u64) -> Result<(), String> {
    let mut sorted: Vec<u8> = ids.to_vec();
    sorted.sort();
    let unique = sorted.windows(2).all(|w| w[0] != w[1]);
    let build = || {
        let mut pdf = Pdf::new();
        for (k, i) in ids.iter().enumerate() {
            match k % 3 {
                0 => drop(pdf.indirect(Ref::new(*i as i32 + 1)).primitive(k as i32)),
                1 => drop(pdf.stream(Ref::new(*i as i32 + 1), b"abc")),
                _ => {
                    let mut c = chunk(true);
                    c.indirect(Ref::new(*i as i32 + 1)).primitive(Name(b"x"));
                    pdf.extend(&c);
                }
            }
        }
        pdf
    };
    let what = format!("finishing a document with the objects {ids:?}");
    if own == 0 {
        expect(&what, unique, || drop(build().finish()))
    } else {
        let own = own as i32;
        let free = ids.iter().all(|i| *i as i32 + 1 != own);
        expect(&format!("{what} and the xref stream {own}"), unique && free, || {
            drop(build().finish_with_xref_stream(Ref::new(own)))
        })
    }
}

fn check(c: &Case) -> Result<(), String> {
    let n = c.u64(0) as i64 as i32;
    let f = f32::from_bits(c.u64(0) as u32);
    let pretty = c.u64(1) % 2 == 0;
    let float_ok = f.is_finite();
    match c.kind.as_str() {
        "ref" => expect(&format!("Ref::new({n})"), n > 0, || drop(Ref::new(n))),
        "icc" => expect(&format!("IccProfile::n({n})"), [1, 3, 4].contains(&n), || {
            drop(chunk(pretty).icc_profile(Ref::new(1), b"data").n(n))
        }),
        "flatness" => expect(&format!("set_flatness({n})"), (0..=100).contains(&n), || {
            drop(Content::new().set_flatness(n))
        }),
        "colors" => expect(&format!("DecodeParms::colors({n})"), n > 0, || {
            drop(chunk(pretty).stream(Ref::new(1), b"").decode_parms().colors(n))
        }),
        "bits" => expect(&format!("DecodeParms::bits_per_component({n})"), [1, 2, 4, 8, 16].contains(&n), || {
            drop(chunk(pretty).stream(Ref::new(1), b"").decode_parms().bits_per_component(n))
        }),
        "outline" => expect(&format!("Outline::count({n})"), n >= 0, || {
            drop(chunk(pretty).outline(Ref::new(1)).count(n))
        }),
        "mode" => {
            let m = MODES[n as u32 as usize % 6];
            expect(&format!("non_full_screen_page_mode({m:?})"), m != PageMode::FullScreen, || {
                drop(Pdf::new().catalog(Ref::new(1)).viewer_preferences().non_full_screen_page_mode(m))
            })
        }
        "width" if float_ok => expect(&format!("set_line_width({f})"), f >= 0.0, || {
            drop(Content::new().set_line_width(f))
        }),
        "xstep" if float_ok => expect(&format!("x_step({f})"), f != 0.0, || {
            drop(chunk(pretty).tiling_pattern(Ref::new(1), b"").x_step(f))
        }),
        "ystep" if float_ok => expect(&format!("y_step({f})"), f != 0.0, || {
            drop(chunk(pretty).tiling_pattern(Ref::new(1), b"").y_step(f))
        }),
        "separation" | "device_n" => steps(&c.kind, c.bytes(0), pretty),
        "document" => document(c.bytes(0), c.u64(1)),
        "huge" => {
            let data = vec![0u8; i32::MAX as usize + 1 + n as usize];
            expect(&format!("a stream of {} bytes", data.len()), false, || {
                drop(chunk(pretty).stream(Ref::new(1), &data))
            })
        }
        _ => Ok(()),
    }
}

const INTS: [&str; 7] = ["ref", "icc", "flatness", "colors", "bits", "outline", "mode"];
const FLOATS: [&str; 3] = ["width", "xstep", "ystep"];

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        listed: |ctx| {
            let mut v = vec![Case::new("huge", vec![num(0), num(0)]), Case::new("huge", vec![num(7), num(1)])];
            for k in INTS {
                for i in (-300i64..1000).chain([i32::MIN as i64, i32::MAX as i64, 65536, -65536]) {
                    v.push(Case::new(k, vec![num(i as u64), num(i as u64)]));
                }
                for i in &ctx.dict.ints {
                    for d in -1..=1 {
                        v.push(Case::new(k, vec![num(i.wrapping_add(d) as u64), num(0)]));
                    }
                }
            }
            for k in FLOATS {
                for f in [0.0f32, -0.0, 1e-45, -1e-45, 1e-38, -1e-38, 1.0, -1.0, 1e-7, -1e-7, 0.001, -0.001, f32::MAX, f32::MIN, f32::EPSILON, -f32::EPSILON, 0.5, -0.5] {
                    v.push(Case::new(k, vec![num(f.to_bits() as u64), num(0)]));
                }
                for f in &ctx.dict.floats {
                    v.push(Case::new(k, vec![num(f.to_bits() as u64), num(0)]));
                    v.push(Case::new(k, vec![num((-f).to_bits() as u64), num(1)]));
                }
            }
            // Every sequence of up to four calls.
            for (k, m) in [("separation", 6u8), ("device_n", 7u8)] {
                for n in 1..=4u32 {
                    for s in 0..(m as u32).pow(n) {
                        let ops: Vec<u8> = (0..n).map(|i| (s / (m as u32).pow(i) % m as u32) as u8).collect();
                        v.push(Case::new(k, vec![ops, num(s as u64)]));
                    }
                }
            }
            for n in 0..=4u32 {
                for s in 0..5u32.pow(n) {
                    let ids: Vec<u8> = (0..n).map(|i| (s / 5u32.pow(i) % 5) as u8).collect();
                    for own in 0..=6 {
                        v.push(Case::new("document", vec![ids.clone(), num(own)]));
                    }
                }
            }
            v
        },
        random: |ctx, r| match r.below(10) {
            0..=3 => Case::new(INTS[r.below(INTS.len())], vec![num(ctx.dict.i32(r) as i64 as u64), num(r.next())]),
            4 => Case::new(FLOATS[r.below(3)], vec![num(r.next() & 0xffff_ffff), num(r.next())]),
            5 | 6 => {
                let n = r.below(9);
                Case::new(*r.pick(&["separation", "device_n"]), vec![r.bytes(n), num(r.next())])
            }
            _ => {
                // Mostly all different, in any order.
                let n = r.below(24);
                let mut ids: Vec<u8> = (0..n as u8).map(|i| i.wrapping_mul(3)).collect();
                for i in (1..n).rev() {
                    ids.swap(i, r.below(i + 1));
                }
                if n > 1 && r.chance(1, 2) {
                    let (a, b) = (r.below(n), r.below(n));
                    ids[a] = ids[b];
                }
                let own = if r.chance(1, 2) { 0 } else { r.below(80) as u64 };
                Case::new("document", vec![ids, num(own)])
            }
        },
        n: (500_000, 3_000_000),
        check,
        rule: "a checked method and its argument, a sequence of calls, or the object numbers of a document; non-trivial if the arguments are not all zero",
        nontrivial: |c| c.bytes(0).iter().any(|b| *b != 0),
        sweep: None,
    }
}
