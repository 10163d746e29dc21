use super::gen::{arm_content, ENUM_OPS, N_OPS, OPS};
use super::*;
use crate::pdf;
use crate::run::*;
use crate::tree::*;
use pdf_writer::{Content, Settings};

/// args: the bytes that decide which operations are written, and whether they are repeated.
pub fn check(c: &Case) -> Result<(), String> {
    for pretty in [true, false] {
        let mut s = Src(c.bytes(0), 0);
        let mut w = Content::with_settings(Settings { pretty });
        let mut e = vec![];
        let long = c.args.len() > 1;
        while e.len() < if long { 12_000 } else { 40 } {
            if s.done() && long && !c.bytes(0).is_empty() {
                s = Src(c.bytes(0), 0);
            }
            if s.done() {
                break;
            }
            let k = s.next() as usize % N_OPS;
            arm_content(&mut w, k, &mut s, &mut e);
        }
        let buf = w.finish();
        let got = pdf::content(buf.as_slice()).map_err(|e| format!("{e} in `{}`", show_bytes(buf.as_slice())))?;
        if got.len() != e.len() {
            return Err(format!("{} operations instead of {}: `{}`", got.len(), e.len(), show_bytes(buf.as_slice())));
        }
        for (g, x) in got.iter().zip(&e) {
            if g.1 != x.1 || g.0.len() != x.0.len() || !x.0.iter().zip(&g.0).all(|(a, b)| same(a, b)) {
                return Err(format!(
                    "pretty {pretty}: operation {g:?} instead of {x:?} in `{}`",
                    show_bytes(buf.as_slice())
                ));
            }
        }
    }
    Ok(())
}

pub fn enums() -> Vec<Case> {
    let mut v = vec![];
    for &(k, n, i) in ENUM_OPS {
        for a in 0..n {
            let mut p = vec![k as u8];
            p.extend(vec![0; 2 * i]);
            p.extend([0, a]);
            v.push(Case::new("content", vec![p]));
        }
    }
    v
}

fn listed(_: &Ctx) -> Vec<Case> {
    let mut v = enums();
    for k in 0..OPS.len() as u8 {
        for n in [9u8, 24, 60, 255] {
            v.push(Case::new("content", vec![[vec![k, 255, n], [7, 3, 6, 5, 1, 9, 0, 4].repeat(300)].concat()]));
        }
        for args in [vec![], vec![1; 40], vec![7, 2, 7, 3, 7, 4, 7, 5, 7, 6, 7, 7], vec![3, 5, 7, 11, 13, 2, 4, 9, 1, 17, 3, 6, 2, 8]] {
            let mut p = vec![k];
            p.extend(args);
            v.push(Case::new("content", vec![p]));
        }
    }
    // Long streams.
    for k in 0..OPS.len() as u8 {
        v.push(Case::new("content", vec![vec![k, 3, 5, 7, 11, 13, 2, 4, 9, 1, 17, 3, 6, 2, 8], vec![]]));
    }
    // Pairs of operations.
    for a in 0..OPS.len() as u8 {
        for b in 0..OPS.len() as u8 {
            v.push(Case::new("content", vec![vec![a, b, b, a, b, a, a, b]]));
        }
    }
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        listed,
        random: |ctx, r| {
            let mut p = vec![];
            for _ in 0..1 + r.below(5) {
                p.push(r.below(N_OPS) as u8);
                let q = program(&ctx.dict, r);
                p.extend(&q[..q.len().min(r.below(24))]);
            }
            Case::new("content", vec![p])
        },
        n: (1_500_000, 60_000_000),
        check,
        rule: "up to 40 operations with any operands; non-trivial if the program has more than 2 bytes",
        nontrivial: |c| c.bytes(0).len() > 2,
        sweep: None,
    }
}
