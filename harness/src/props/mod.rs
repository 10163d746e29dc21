use crate::run::Prop;

mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c22;
mod docs;
mod gen;

mod special;

pub fn all() -> Vec<Prop> {
    vec![docs::c01(), docs::c02(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(),
        c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c13::prop(), c14::prop(), c15::prop(), c16::prop(), c17::prop(), c18::prop(), c19::prop(), c20::prop(), docs::c21(), c22::prop()]
}

use crate::pdf::{self, Obj};
use crate::run::show_bytes;
use pdf_writer::{Chunk, Primitive, Ref, Settings};

pub fn chunk(pretty: bool) -> Chunk {
    Chunk::with_settings(Settings { pretty })
}

/// Write a primitive as an indirect object and read it back.
pub fn through_object<T: Primitive>(v: T, pretty: bool) -> Result<Obj, String> {
    let mut c = chunk(pretty);
    c.indirect(Ref::new(7)).primitive(v);
    let objs = pdf::parse_all(c.as_bytes()).map_err(|e| format!("{e} in `{}`", show_bytes(c.as_bytes())))?;
    if objs.len() != 1 || objs[0].1 != 7 || objs[0].2 != 0 {
        return Err(format!("not one object: `{}`", show_bytes(c.as_bytes())));
    }
    Ok(objs[0].3.clone())
}

/// Write a primitive as an array item between two others and read it back.
pub fn through_array<T: Primitive + Clone>(v: T, pretty: bool) -> Result<Obj, String> {
    let mut c = chunk(pretty);
    c.indirect(Ref::new(7)).array().item(1).item(v.clone()).item(v).item(true);
    let objs = pdf::parse_all(c.as_bytes()).map_err(|e| format!("{e} in `{}`", show_bytes(c.as_bytes())))?;
    match &objs.first().map(|o| o.3.clone()) {
        Some(Obj::Array(a)) if a.len() == 4 && a[0] == Obj::Int(1) && a[3] == Obj::Bool(true) && a[1] == a[2] => {
            Ok(a[1].clone())
        }
        _ => Err(format!("array items are not separate: `{}`", show_bytes(c.as_bytes()))),
    }
}

/// Write a primitive as a dictionary value and read it back.
pub fn through_dict<T: Primitive + Clone>(v: T, pretty: bool) -> Result<Obj, String> {
    let mut c = chunk(pretty);
    c.indirect(Ref::new(7))
        .dict()
        .pair(pdf_writer::Name(b"K"), v.clone())
        .pair(pdf_writer::Name(b"L"), v);
    let objs = pdf::parse_all(c.as_bytes()).map_err(|e| format!("{e} in `{}`", show_bytes(c.as_bytes())))?;
    match &objs.first().map(|o| o.3.clone()) {
        Some(Obj::Dict(a))
            if a.len() == 2 && a[0].0 == b"K" && a[1].0 == b"L" && a[0].1 == a[1].1 =>
        {
            Ok(a[0].1.clone())
        }
        _ => Err(format!("dictionary entries are not separate: `{}`", show_bytes(c.as_bytes()))),
    }
}

pub fn everywhere<T: Primitive + Clone>(v: T, ok: impl Fn(&Obj) -> bool, what: &str) -> Result<(), String> {
    for pretty in [true, false] {
        for (ctx, o) in [
            ("object", through_object(v.clone(), pretty)?),
            ("array item", through_array(v.clone(), pretty)?),
            ("dictionary value", through_dict(v.clone(), pretty)?),
        ] {
            if !ok(&o) {
                return Err(format!("{what} as {ctx} (pretty {pretty}) reads back as {o:?}"));
            }
        }
    }
    Ok(())
}
