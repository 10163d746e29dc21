use super::*;
use crate::run::*;
use crate::tree::{program, Src};
use pdf_writer::types::PostScriptOp as P;

#[derive(Debug, Clone, PartialEq)]
enum T {
    Int(i64),
    Real(f32),
    Op(usize),
    If(Vec<T>),
    IfElse(Vec<T>, Vec<T>),
}

/// ISO 32000-1, Table 42, in the order of the enumeration.
const NAMES: [&str; 40] = [
    "abs",
    "add",
    "atan",
    "ceiling",
    "cos",
    "cvi",
    "cvr",
    "div",
    "exp",
    "floor",
    "idiv",
    "ln",
    "log",
    "mod",
    "mul",
    "neg",
    "round",
    "sin",
    "sqrt",
    "sub",
    "truncate",
    "and",
    "bitshift",
    "eq",
    "false",
    "ge",
    "gt",
    "le",
    "lt",
    "ne",
    "not",
    "or",
    "true",
    "xor",
    "copy",
    "dup",
    "exch",
    "index",
    "pop",
    "roll",
];
fn op(i: usize) -> P<'static> {
    [
        P::Abs,
        P::Add,
        P::Atan,
        P::Ceiling,
        P::Cos,
        P::Cvi,
        P::Cvr,
        P::Div,
        P::Exp,
        P::Floor,
        P::Idiv,
        P::Ln,
        P::Log,
        P::Mod,
        P::Mul,
        P::Neg,
        P::Round,
        P::Sin,
        P::Sqrt,
        P::Sub,
        P::Truncate,
        P::And,
        P::Bitshift,
        P::Eq,
        P::False,
        P::Ge,
        P::Gt,
        P::Le,
        P::Lt,
        P::Ne,
        P::Not,
        P::Or,
        P::True,
        P::Xor,
        P::Copy,
        P::Dup,
        P::Exch,
        P::Index,
        P::Pop,
        P::Roll,
    ][i]
}

fn tree(s: &mut Src, depth: usize, budget: &mut i32) -> Vec<T> {
    let n = match s.next() % 8 {
        0 => 0,
        1..=3 => 1,
        7 if s.next() == 255 => 50_000,
        k => k as usize - 2,
    };
    let mut v = vec![];
    for _ in 0..n {
        *budget -= 1;
        if *budget < 0 {
            break;
        }
        let k = s.next();
        v.push(match k % 16 {
            0 | 1 => T::Int(s.i32() as i64),
            2 | 3 => T::Real(s.f32()),
            4..=6 if depth < 12 => T::If(tree(s, depth + 1, budget)),
            7 | 8 if depth < 12 => {
                let a = tree(s, depth + 1, budget);
                let b = tree(s, depth + 1, budget);
                T::IfElse(a, b)
            }
            _ => T::Op(s.next() as usize % NAMES.len()),
        });
    }
    v
}

fn with<R>(v: &[T], f: &mut dyn FnMut(&[P<'_>]) -> R) -> R {
    // Blocks live until the call ends.
    fn build<'a>(v: &[T], arena: &'a Arena) -> &'a [P<'a>] {
        let mut out: Vec<P<'a>> = vec![];
        for t in v {
            out.push(match t {
                T::Int(i) => P::Integer(*i as i32),
                T::Real(r) => P::Real(*r),
                T::Op(i) => op(*i),
                T::If(a) => P::If(build(a, arena)),
                T::IfElse(a, b) => P::IfElse(build(a, arena), build(b, arena)),
            });
        }
        arena.keep(out)
    }
    let arena = Arena::default();
    f(build(v, &arena))
}
#[derive(Default)]
struct Arena(std::cell::RefCell<Vec<Box<[P<'static>]>>>);
impl Arena {
    fn keep<'a>(&'a self, v: Vec<P<'a>>) -> &'a [P<'a>] {
        // The boxes are only dropped with the arena and hold no destructors.
        let b: Box<[P<'static>]> = unsafe { std::mem::transmute(v.into_boxed_slice()) };
        let p: *const [P<'static>] = &*b;
        self.0.borrow_mut().push(b);
        unsafe { &*p }
    }
}

/// Words and braces.
fn words(b: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut v: Vec<Vec<u8>> = vec![];
    let mut w = vec![];
    for &c in b {
        match c {
            0 | 9 | 10 | 12 | 13 | 32 | b'{' | b'}' => {
                if !w.is_empty() {
                    v.push(std::mem::take(&mut w));
                }
                if c == b'{' || c == b'}' {
                    v.push(vec![c]);
                }
            }
            b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'/' | b'%' => return Err(format!("stray delimiter {}", c as char)),
            _ => w.push(c),
        }
    }
    if !w.is_empty() {
        v.push(w);
    }
    Ok(v)
}
fn block(w: &[Vec<u8>], at: &mut usize) -> Result<Vec<T>, String> {
    let mut out = vec![];
    let mut open: Vec<Vec<T>> = vec![];
    loop {
        let Some(t) = w.get(*at) else { return Err("unclosed block".into()) };
        *at += 1;
        match &t[..] {
            b"{" => {
                open.push(block(w, at)?);
                continue;
            }
            b"}" => {
                return if open.is_empty() { Ok(out) } else { Err("a block without operator".into()) };
            }
            b"if" => {
                if open.len() != 1 {
                    return Err("if without one block".into());
                }
                out.push(T::If(open.pop().unwrap()));
            }
            b"ifelse" => {
                if open.len() != 2 {
                    return Err("ifelse without two blocks".into());
                }
                let b = open.pop().unwrap();
                out.push(T::IfElse(open.pop().unwrap(), b));
            }
            t => {
                if !open.is_empty() {
                    return Err("a block without operator".into());
                }
                let s = String::from_utf8_lossy(t).to_string();
                if let Some(i) = NAMES.iter().position(|n| *n == s) {
                    out.push(T::Op(i));
                } else if let Ok(i) = s.parse::<i64>() {
                    out.push(T::Int(i));
                } else if s.contains('.') && !s.contains(['e', 'E', 'n', 'i']) {
                    let v = s.parse::<f32>().map_err(|_| format!("unknown word {s}"))?;
                    out.push(T::Real(v));
                } else {
                    return Err(format!("unknown word {s}"));
                }
            }
        }
    }
}

fn check(c: &Case) -> Result<(), String> {
    let mut s = Src(c.bytes(0), 0);
    let mut budget = 40_000;
    let t = tree(&mut s, 0, &mut budget);
    let bytes = with(&t, &mut |p| P::encode(p).to_vec());
    let w = words(&bytes)?;
    if w.first().map(|x| &x[..]) != Some(b"{") {
        return Err(format!("no opening brace in `{}`", show_bytes(&bytes)));
    }
    let mut at = 1;
    let got = block(&w, &mut at).map_err(|e| format!("{e} in `{}`", show_bytes(&bytes)))?;
    if at != w.len() {
        return Err(format!("more after the program in `{}`", show_bytes(&bytes)));
    }
    if got != t {
        return Err(format!("`{}` is not {t:?}", show_bytes(&bytes)));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        listed: |ctx| {
            let mut v = vec![];
            // Each operator, alone, doubled, and in blocks.
            for k in 0..NAMES.len() as u8 {
                v.push(Case::new("program", vec![vec![1, 15, k]]));
                v.push(Case::new("program", vec![vec![4, 15, k, 15, k]]));
                v.push(Case::new("program", vec![vec![1, 4, 1, 15, k]]));
                v.push(Case::new("program", vec![vec![5, 7, 1, 15, k, 4, 15, 0, 15, k, 15, k, 4, 0]]));
            }
            // Long programs.
            for k in [0u8, 5, 20, 40] {
                v.push(Case::new("program", vec![[vec![7, 255], [15, k, 15, 1, 4, 1, 15, 1, 4, 2, 15, 2, 15, 3, 7, 1, 15, 4, 0].repeat(4000)].concat()]));
            }
            for n in 0..13usize {
                for last in [0u8, 1, 4, 5] {
                    let mut d = vec![];
                    for _ in 0..n {
                        d.extend([1, 4]);
                    }
                    d.extend([last, 15, 3, 15, 4, 2, 6, 200]);
                    v.push(Case::new("program", vec![d]));
                }
            }
            for k in 0..=255u8 {
                for m in 0..8 {
                    v.push(Case::new("program", vec![vec![4, 2, m, k, 0, m, k]]));
                    v.push(Case::new("program", vec![vec![1, 0, m, k, k, k, k]]));
                    v.push(Case::new("program", vec![vec![1, 2, m, k, 0, 128, k]]));
                }
            }
            for f in &ctx.dict.ints {
                let mut d = vec![1, 0, 2];
                d.extend((*f as i32).to_le_bytes());
                v.push(Case::new("program", vec![d]));
                let mut d = vec![1, 2, 2];
                d.extend((*f as f32).to_le_bytes());
                v.push(Case::new("program", vec![d]));
            }
            v
        },
        random: |ctx, r| {
            let mut d = program(&ctx.dict, r);
            if r.chance(1, 3) {
                let f = ctx.dict.f32(r).to_le_bytes();
                d.splice(0..0, [4, 2, 2].into_iter().chain(f));
            }
            Case::new("program", vec![d])
        },
        n: (1_500_000, 12_000_000),
        check,
        rule: "programs over all operators, integers, reals and nested conditionals; non-trivial if there is more than one operation",
        nontrivial: |c| c.bytes(0).len() > 4,
        sweep: None,
    }
}
