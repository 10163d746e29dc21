//! Value trees, written through the object writers of the crate.

use crate::pdf::{self, Obj as O};
use crate::run::{Dict as Consts, Rng};
use pdf_writer::{Array, Dict, Finish, Limits, Name, Null, Obj, Primitive, Rect, Ref, Str};

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i32),
    Real(f32),
    Name(Vec<u8>),
    Str(Vec<u8>),
    Ref(i32),
    Rect([f32; 4]),
    Arr(Vec<V>),
    Dict(Vec<(Vec<u8>, V)>),
    /// Written with `items`.
    Ints(Vec<i32>),
    Reals(Vec<f32>),
    Names(Vec<Vec<u8>>),
    Refs(Vec<i32>),
    /// Written with `pairs`.
    Pairs(Vec<(Vec<u8>, i32)>),
    /// A text string.
    Text(String),
    /// Started and dropped without an item, the n-th way.
    Empty(u8),
}

/// Bytes that decide what is built; zero at the end.
pub struct Src<'a>(pub &'a [u8], pub usize);

impl Src<'_> {
    pub fn next(&mut self) -> u8 {
        self.1 += 1;
        self.0.get(self.1 - 1).copied().unwrap_or(0)
    }
    pub fn done(&self) -> bool {
        self.1 >= self.0.len()
    }
    pub fn take(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next()).collect()
    }
    pub fn i32(&mut self) -> i32 {
        match self.next() % 8 {
            0 => 0,
            1 => self.next() as i8 as i32,
            2 => i32::from_le_bytes(self.take(4).try_into().unwrap()),
            3 => i32::MIN + self.next() as i32 % 3,
            4 => i32::MAX - self.next() as i32 % 3,
            5 => self.next() as i32 * 1000 + 7,
            6 => -(self.next() as i32),
            _ => self.next() as i32,
        }
    }
    pub fn f32(&mut self) -> f32 {
        let v = match self.next() % 8 {
            0 => 0.0,
            1 => self.next() as f32 / 8.0,
            2 => f32::from_le_bytes(self.take(4).try_into().unwrap()),
            3 => -(self.next() as f32) / 3.0,
            4 => 10f32.powi(self.next() as i32 % 77 - 38),
            5 => -(10f32.powi(self.next() as i32 % 77 - 38)),
            6 => self.next() as f32,
            _ => self.next() as i8 as f32 + 0.5,
        };
        if v.is_finite() { v } else { 0.25 }
    }
    pub fn reference(&mut self) -> i32 {
        match self.next() % 4 {
            0 => 1,
            1 => 1 + self.next() as i32,
            2 => i32::MAX - 1 - self.next() as i32,
            _ => 1 + self.next() as i32 * 997,
        }
    }
    /// A fixed number of reals, now and then the usual default.
    pub fn floats(&mut self, n: usize) -> Vec<f32> {
        match self.next() % 16 {
            1 => vec![0.0; n],
            2 => vec![1.0; n],
            3 => (0..n).map(|i| (i % 2) as f32).collect(),
            4 if n == 6 => vec![1.0, 0.0, 0.0, 1.0, 0.0, 0.0],
            4 => (0..n).map(|i| (i % 4 == 0) as u8 as f32).collect(),
            _ => (0..n).map(|_| self.f32()).collect(),
        }
    }
    /// Mostly a small number, seldom a large one.
    pub fn count(&mut self, below: u8) -> usize {
        match self.next() {
            255 => match self.next() {
                255 => 66_000,
                n => n as usize * 2,
            },
            n => (n % below) as usize,
        }
    }
    pub fn string(&mut self) -> Vec<u8> {
        let n = self.count(8);
        self.take(n)
    }
    pub fn text(&mut self) -> String {
        let n = self.count(8);
        (0..n)
            .map(|_| {
                let c = match self.next() % 6 {
                    0 => 0x10000 + (self.next() as u32) * 4096 + self.next() as u32,
                    1 => (self.next() as u32) << 8 | self.next() as u32,
                    2 => 0x2018 + self.next() as u32 % 16,
                    _ => self.next() as u32,
                };
                char::from_u32(c).filter(|c| *c != '\x1b').unwrap_or('\u{1f600}')
            })
            .collect()
    }
    pub fn value(&mut self, depth: usize) -> V {
        let k = self.next() % 20;
        match k {
            0 => V::Null,
            1 => V::Bool(self.next() % 2 == 1),
            2 => V::Int(self.i32()),
            3 => V::Real(self.f32()),
            4 | 5 => V::Name(self.string()),
            6 | 7 => V::Str(self.string()),
            8 => V::Ref(self.reference()),
            9 => V::Rect([self.f32(), self.f32(), self.f32(), self.f32()]),
            10..=12 if depth > 0 => {
                let n = self.count(5);
                V::Arr((0..n).map(|_| self.value(depth - 1)).collect())
            }
            13..=15 if depth > 0 => {
                let n = self.count(5);
                V::Dict((0..n).map(|_| (self.string(), self.value(depth - 1))).collect())
            }
            16 => match self.next() % 4 {
                0 => {
                    let n = self.count(4);
                    V::Ints((0..n).map(|_| self.i32()).collect())
                }
                1 => {
                    let n = self.count(4);
                    V::Reals((0..n).map(|_| self.f32()).collect())
                }
                2 => {
                    let n = self.count(4);
                    V::Names((0..n).map(|_| self.string()).collect())
                }
                _ => {
                    let n = self.count(4);
                    V::Refs((0..n).map(|_| self.reference()).collect())
                }
            },
            17 => {
                let n = self.count(4);
                V::Pairs((0..n).map(|_| (self.string(), self.i32())).collect())
            }
            18 => V::Empty(self.next() % 6),
            _ => match self.next() {
                b if b % 2 == 0 => V::Int(b as i32),
                _ => V::Text(self.text()),
            },
        }
    }
}

/// Random bytes that decide a tree.
pub fn program(c: &Consts, r: &mut Rng) -> Vec<u8> {
    let n = [6, 12, 24, 60, 150, 400][r.below(6)];
    let mut v = vec![];
    while v.len() < n {
        match r.below(8) {
            // Deep structures.
            0 | 1 => v.extend([10 + r.below(6) as u8, 1 + r.below(4) as u8]),
            2 => v.push(*r.pick(b"()<>[]{}/%# \\\n\r\x00az")),
            3 if !c.bytes.is_empty() => v.extend(r.pick(&c.bytes).iter().take(6)),
            4 => v.push(r.below(20) as u8),
            _ => v.push(r.next() as u8),
        }
    }
    v
}

pub fn write(v: &V, o: Obj<'_>) {
    match v {
        V::Null => o.primitive(Null),
        V::Bool(b) => o.primitive(*b),
        V::Int(i) => o.primitive(*i),
        V::Real(f) => o.primitive(*f),
        V::Name(n) => o.primitive(Name(n)),
        V::Str(s) => o.primitive(Str(s)),
        V::Ref(r) => o.primitive(Ref::new(*r)),
        V::Rect(r) => o.primitive(rect(*r)),
        V::Arr(items) => {
            let mut a = o.array();
            for (i, v) in items.iter().enumerate() {
                if !array_item(&mut a, v, i) {
                    write(v, a.push());
                }
            }
            if items.len() % 2 == 0 {
                a.finish();
            }
        }
        V::Dict(items) => {
            let mut d = o.dict();
            for (i, (k, v)) in items.iter().enumerate() {
                if !dict_pair(&mut d, k, v, i) {
                    write(v, d.insert(Name(k)));
                }
            }
            if items.len() % 2 == 0 {
                d.finish();
            }
        }
        V::Ints(v) => {
            o.array().items(v.iter().copied());
        }
        V::Reals(v) => {
            o.array().typed::<f32>().items(v.iter().copied());
        }
        V::Names(v) => {
            o.array().items(v.iter().map(|n| Name(n)));
        }
        V::Refs(v) => {
            o.array().typed::<Ref>().items(v.iter().map(|n| Ref::new(*n)));
        }
        V::Text(v) => o.primitive(pdf_writer::TextStr(v)),
        V::Pairs(v) => {
            o.dict().pairs(v.iter().map(|(k, v)| (Name(k), *v)));
        }
        V::Empty(k) => match k {
            0 => drop(o.array()),
            1 => drop(o.dict()),
            2 => o.array().finish(),
            3 => o.dict().finish(),
            4 => drop(o.array().typed::<i32>()),
            _ => drop(o.dict().typed::<i32>()),
        },
    }
}

fn rect(r: [f32; 4]) -> Rect {
    Rect::new(r[0], r[1], r[2], r[3])
}

/// Every second primitive is written with `item`.
fn array_item(a: &mut Array<'_>, v: &V, i: usize) -> bool {
    fn go<T: Primitive>(a: &mut Array<'_>, v: T) -> bool {
        a.item(v);
        true
    }
    if i % 2 == 0 {
        return false;
    }
    match v {
        V::Null => go(a, Null),
        V::Bool(b) => go(a, *b),
        V::Int(b) => go(a, *b),
        V::Real(b) => go(a, *b),
        V::Name(b) => go(a, Name(b)),
        V::Str(b) => go(a, Str(b)),
        V::Ref(b) => go(a, Ref::new(*b)),
        V::Rect(b) => go(a, rect(*b)),
        _ => false,
    }
}
fn dict_pair(d: &mut Dict<'_>, k: &[u8], v: &V, i: usize) -> bool {
    fn go<T: Primitive>(d: &mut Dict<'_>, k: &[u8], v: T) -> bool {
        d.pair(Name(k), v);
        true
    }
    if i % 2 == 0 {
        return false;
    }
    match v {
        V::Null => go(d, k, Null),
        V::Bool(b) => go(d, k, *b),
        V::Int(b) => go(d, k, *b),
        V::Real(b) => go(d, k, *b),
        V::Name(b) => go(d, k, Name(b)),
        V::Str(b) => go(d, k, Str(b)),
        V::Ref(b) => go(d, k, Ref::new(*b)),
        V::Rect(b) => go(d, k, rect(*b)),
        _ => false,
    }
}

/// Whether this is what was read back.
pub fn same(v: &V, o: &O) -> bool {
    let real = |f: f32, o: &O| o.f32() == Some(f);
    match (v, o) {
        (V::Null, O::Null) => true,
        (V::Bool(a), O::Bool(b)) => a == b,
        (V::Int(a), O::Int(b)) => *a as i128 == *b,
        (V::Real(a), o) => real(*a, o),
        (V::Name(a), O::Name(b)) | (V::Str(a), O::Str(b)) => a == b,
        (V::Ref(a), O::Ref(b, 0)) => *a as i64 == *b,
        (V::Rect(a), O::Array(b)) => b.len() == 4 && a.iter().zip(b).all(|(a, b)| real(*a, b)),
        (V::Arr(a), O::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (V::Dict(a), O::Dict(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1))
        }
        (V::Ints(a), O::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| *b == O::Int(*a as i128)),
        (V::Reals(a), O::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| real(*a, b)),
        (V::Names(a), O::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| *b == O::Name(a.clone())),
        (V::Refs(a), O::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| *b == O::Ref(*a as i64, 0)),
        (V::Pairs(a), O::Dict(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && b.1 == O::Int(a.1 as i128))
        }
        (V::Text(a), O::Str(b)) => pdf::text_string(b).is_ok_and(|t| pdf::text_of(&t) == *a),
        (V::Empty(k), O::Array(b)) => b.is_empty() && k % 2 == 0,
        (V::Empty(k), O::Dict(b)) => b.is_empty() && k % 2 == 1,
        _ => false,
    }
}

/// The maxima, computed from the values.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Max {
    pub int: i32,
    pub real: f32,
    pub name: usize,
    pub string: usize,
    pub array: usize,
    pub dict: usize,
}

impl Max {
    pub fn of(l: &Limits) -> Max {
        Max {
            int: l.int(),
            real: l.real(),
            name: l.name_len(),
            string: l.str_len(),
            array: l.array_len(),
            dict: l.dict_entries(),
        }
    }
    pub fn merge(&mut self, o: &Max) {
        self.int = self.int.max(o.int);
        self.real = self.real.max(o.real);
        self.name = self.name.max(o.name);
        self.string = self.string.max(o.string);
        self.array = self.array.max(o.array);
        self.dict = self.dict.max(o.dict);
    }
    pub fn int(&mut self, v: i32) {
        self.int = self.int.max(v.saturating_abs());
    }
    /// Reals with an integral value are written as integers.
    pub fn real(&mut self, v: f32) {
        if v as i32 as f32 == v {
            self.int(v as i32);
        } else {
            self.real = self.real.max(v.abs());
        }
    }
    pub fn name(&mut self, n: usize) {
        self.name = self.name.max(n);
    }
    pub fn add(&mut self, v: &V) {
        match v {
            V::Null | V::Bool(_) => {}
            V::Int(i) => self.int(*i),
            V::Real(f) => self.real(*f),
            V::Name(n) => self.name(n.len()),
            V::Str(s) => self.string = self.string.max(s.len()),
            V::Ref(r) => self.int(*r),
            V::Rect(r) => {
                r.iter().for_each(|f| self.real(*f));
                self.array = self.array.max(4);
            }
            V::Arr(v) => {
                v.iter().for_each(|v| self.add(v));
                self.array = self.array.max(v.len());
            }
            V::Dict(v) => {
                for (k, v) in v {
                    self.name(k.len());
                    self.add(v);
                }
                self.dict = self.dict.max(v.len());
            }
            V::Ints(v) => {
                v.iter().for_each(|i| self.int(*i));
                self.array = self.array.max(v.len());
            }
            V::Reals(v) => {
                v.iter().for_each(|i| self.real(*i));
                self.array = self.array.max(v.len());
            }
            V::Names(v) => {
                v.iter().for_each(|i| self.name(i.len()));
                self.array = self.array.max(v.len());
            }
            V::Refs(v) => {
                v.iter().for_each(|i| self.int(*i));
                self.array = self.array.max(v.len());
            }
            V::Pairs(v) => {
                for (k, v) in v {
                    self.name(k.len());
                    self.int(*v);
                }
                self.dict = self.dict.max(v.len());
            }
            V::Text(t) => self.string = self.string.max(string_len(pdf_writer::TextStr(t))),
            V::Empty(_) => {}
        }
    }
}

/// How long the string is that a text string, a date etc. is written as.
pub fn string_len(p: impl pdf_writer::Primitive) -> usize {
    let mut c = pdf_writer::Chunk::new();
    c.indirect(pdf_writer::Ref::new(1)).primitive(p);
    let t = crate::pdf::tokens(c.as_bytes()).expect("a string");
    t.iter()
        .find_map(|t| match t {
            crate::pdf::Tok::Str(s) => Some(s.len()),
            _ => None,
        })
        .expect("a string")
}
