//! Structure roles.
use super::*;
use crate::pdf::Obj;
use crate::run::*;
use pdf_writer::types::{RoleMapOpts, StructRole as S, StructRole2 as R, StructRole2Compat};
use std::num::NonZeroU16;

/// ISO 32000-1, 14.8.4: the role, its name and the kind of structure.
pub const ROLES1: [(S, &str, &str); 49] = [
    (S::Document, "Document", "Grouping"),
    (S::Part, "Part", "Grouping"),
    (S::Art, "Art", "Grouping"),
    (S::Sect, "Sect", "Grouping"),
    (S::Div, "Div", "Grouping"),
    (S::BlockQuote, "BlockQuote", "Grouping"),
    (S::Caption, "Caption", "Grouping"),
    (S::TOC, "TOC", "Grouping"),
    (S::TOCI, "TOCI", "Grouping"),
    (S::Index, "Index", "Grouping"),
    (S::NonStruct, "NonStruct", "Grouping"),
    (S::Private, "Private", "Grouping"),
    (S::P, "P", "BlockLevel(ParagraphLike)"),
    (S::StructuredHeading, "H", "BlockLevel(ParagraphLike)"),
    (S::H1, "H1", "BlockLevel(ParagraphLike)"),
    (S::H2, "H2", "BlockLevel(ParagraphLike)"),
    (S::H3, "H3", "BlockLevel(ParagraphLike)"),
    (S::H4, "H4", "BlockLevel(ParagraphLike)"),
    (S::H5, "H5", "BlockLevel(ParagraphLike)"),
    (S::H6, "H6", "BlockLevel(ParagraphLike)"),
    (S::L, "L", "BlockLevel(List)"),
    (S::LI, "LI", "BlockLevel(List)"),
    (S::Lbl, "Lbl", "BlockLevel(List)"),
    (S::LBody, "LBody", "BlockLevel(List)"),
    (S::Table, "Table", "BlockLevel(Table)"),
    (S::TR, "TR", "Table"),
    (S::TH, "TH", "Table"),
    (S::TD, "TD", "Table"),
    (S::THead, "THead", "Table"),
    (S::TBody, "TBody", "Table"),
    (S::TFoot, "TFoot", "Table"),
    (S::Span, "Span", "InlineLevel(Generic)"),
    (S::Quote, "Quote", "InlineLevel(Generic)"),
    (S::Note, "Note", "InlineLevel(Generic)"),
    (S::Reference, "Reference", "InlineLevel(Generic)"),
    (S::BibEntry, "BibEntry", "InlineLevel(Generic)"),
    (S::Code, "Code", "InlineLevel(Generic)"),
    (S::Link, "Link", "InlineLevel(Link)"),
    (S::Annot, "Annot", "InlineLevel(Annotation)"),
    (S::Ruby, "Ruby", "InlineLevel(Generic)"),
    (S::Warichu, "Warichu", "InlineLevel(Generic)"),
    (S::RB, "RB", "InlineLevel(RubyWarichu)"),
    (S::RT, "RT", "InlineLevel(RubyWarichu)"),
    (S::RP, "RP", "InlineLevel(RubyWarichu)"),
    (S::WT, "WT", "InlineLevel(RubyWarichu)"),
    (S::WP, "WP", "InlineLevel(RubyWarichu)"),
    (S::Figure, "Figure", "Illustration"),
    (S::Formula, "Formula", "Illustration"),
    (S::Form, "Form", "Illustration"),
];
/// ISO 32000-2, annex L and 14.8.4; headings apart.
pub const ROLES2: [(R, &str, &str); 40] = [
    (R::Document, "Document", "Document"),
    (R::DocumentFragment, "DocumentFragment", "Document"),
    (R::Part, "Part", "Grouping"),
    (R::Sect, "Sect", "Grouping"),
    (R::Div, "Div", "Grouping"),
    (R::Aside, "Aside", "Grouping"),
    (R::NonStruct, "NonStruct", "Grouping"),
    (R::P, "P", "BlockLevel"),
    (R::StructuredHeading, "H", "BlockLevel"),
    (R::Title, "Title", "BlockLevel"),
    (R::FENote, "FENote", "BlockLevel"),
    (R::Sub, "Sub", "SubBlockLevel"),
    (R::Lbl, "Lbl", "InlineLevel(Generic)"),
    (R::Span, "Span", "InlineLevel(Generic)"),
    (R::Em, "Em", "InlineLevel(Generic)"),
    (R::Strong, "Strong", "InlineLevel(Generic)"),
    (R::Link, "Link", "InlineLevel(Generic)"),
    (R::Annot, "Annot", "InlineLevel(Generic)"),
    (R::Form, "Form", "InlineLevel(Generic)"),
    (R::Ruby, "Ruby", "InlineLevel(RubyWarichu)"),
    (R::RB, "RB", "InlineLevel(RubyWarichu)"),
    (R::RT, "RT", "InlineLevel(RubyWarichu)"),
    (R::RP, "RP", "InlineLevel(RubyWarichu)"),
    (R::Warichu, "Warichu", "InlineLevel(RubyWarichu)"),
    (R::WT, "WT", "InlineLevel(RubyWarichu)"),
    (R::WP, "WP", "InlineLevel(RubyWarichu)"),
    (R::L, "L", "List"),
    (R::LI, "LI", "List"),
    (R::LBody, "LBody", "List"),
    (R::Table, "Table", "Table"),
    (R::TR, "TR", "Table"),
    (R::TH, "TH", "Table"),
    (R::TD, "TD", "Table"),
    (R::THead, "THead", "Table"),
    (R::TBody, "TBody", "Table"),
    (R::TFoot, "TFoot", "Table"),
    (R::Caption, "Caption", "Caption"),
    (R::Figure, "Figure", "Figure"),
    (R::Formula, "Formula", "Formula"),
    (R::Artifact, "Artifact", "Artifact"),
];

/// What the standard calls a role of PDF 2.0.
fn name2(r: R) -> String {
    match r {
        R::Heading(l) => format!("H{l}"),
        _ => ROLES2.iter().find(|x| x.0 == r).unwrap().1.into(),
    }
}
/// The role of PDF 1.7 with this name.
fn named1(n: &str) -> Option<S> {
    ROLES1.iter().find(|x| x.1 == n).map(|x| x.0)
}

fn role2(c: &Case) -> R {
    let i = c.u64(0) as usize;
    match (ROLES2.get(i), NonZeroU16::new(c.u64(1) as u16)) {
        (Some(r), _) => r.0,
        (None, Some(l)) => R::Heading(l),
        (None, None) => R::P,
    }
}

/// args: which role, its level or the options.
fn check(c: &Case) -> Result<(), String> {
    if c.kind == "role" {
        let (r, n, kind) = ROLES1[c.u64(0) as usize % ROLES1.len()];
        if r.to_name().0 != n.as_bytes() {
            return Err(format!("{r:?} is called {:?}", r.to_name()));
        }
        if format!("{:?}", r.role_type()) != kind {
            return Err(format!("{r:?} is {:?} instead of {kind}", r.role_type()));
        }
        // The same name, or the documented equivalent.
        let same = ROLES2.iter().find(|x| x.1 == n).map(|x| x.0).or_else(|| {
            let l: u16 = n.strip_prefix('H')?.parse().ok()?;
            Some(R::Heading(NonZeroU16::new(l)?))
        });
        let e = same.or(match r {
            S::Quote => Some(R::Em),
            S::Note => Some(R::FENote),
            S::Reference => Some(R::Link),
            S::Code => Some(R::Strong),
            _ => None,
        });
        if r.into_pdf_2_0() != e || R::try_from(r).ok() != e {
            return Err(format!("{r:?} is {:?} in PDF 2.0 instead of {e:?}", r.into_pdf_2_0()));
        }
    } else {
        let r = role2(c);
        let n = name2(r);
        let mut buf = [0xAA; 6];
        if r.to_name(&mut buf).0 != n.as_bytes() {
            return Err(format!("{r:?} is called {:?}", r.to_name(&mut [0; 6])));
        }
        let kind = ROLES2.iter().find(|x| x.0 == r).map_or("BlockLevel", |x| x.2);
        if format!("{:?}", r.role_type()) != kind {
            return Err(format!("{r:?} is {:?} instead of {kind}", r.role_type()));
        }
        let o = c.u64(2) as u8;
        let mut opts = RoleMapOpts::empty();
        for (b, f) in [(1, RoleMapOpts::MAP_HN_TO_H6), (2, RoleMapOpts::MAP_TITLE_TO_H1), (4, RoleMapOpts::MAP_SUB_TO_SPAN)] {
            if o & b != 0 {
                opts |= f;
            }
        }
        let (exact, e) = match named1(&n) {
            Some(s) => (true, s),
            None => (false, match r {
                R::DocumentFragment | R::Aside => S::Div,
                R::Heading(_) => if o & 1 != 0 { S::H6 } else { S::P },
                R::Title => if o & 2 != 0 { S::H1 } else { S::P },
                R::FENote => S::Note,
                R::Sub => if o & 4 != 0 { S::Span } else { S::Div },
                R::Em | R::Strong => S::Span,
                _ => S::Private,
            }),
        };
        let got = r.compatibility_1_7(opts);
        let want = if exact { StructRole2Compat::Compatible(e) } else { StructRole2Compat::RoleMapping(e) };
        if got != want || got.role() != e || got.into_pdf_1_7() != exact.then_some(e) || got.role_mapped_1_7() != (!exact).then_some(e) {
            return Err(format!("{r:?} with options {o} is {got:?} instead of {want:?}"));
        }
        if S::try_from(r).ok() != exact.then_some(e) {
            return Err(format!("{r:?} as a role of PDF 1.7 is {:?}", S::try_from(r)));
        }
        // Written into a structure element.
        let mut ch = chunk(false);
        ch.indirect(Ref::new(7)).start::<pdf_writer::writers::StructElement>().kind_2(r, Ref::new(9));
        let got = crate::pdf::parse_all(ch.as_bytes())?;
        let want = vec![
            (b"Type".to_vec(), Obj::Name(b"StructElem".to_vec())),
            (b"S".to_vec(), Obj::Name(n.clone().into_bytes())),
            (b"NS".to_vec(), Obj::Ref(9, 0)),
        ];
        if got.len() != 1 || got[0].3 != Obj::Dict(want) {
            return Err(format!("{r:?} is written as {:?}", got));
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        listed: |_| {
            let mut v = vec![];
            for i in 0..ROLES1.len() {
                v.push(Case::new("role", vec![num(i as u64)]));
            }
            for i in 0..ROLES2.len() {
                for o in 0..8 {
                    v.push(Case::new("role2", vec![num(i as u64), num(1), num(o)]));
                }
            }
            for l in 1..=65535 {
                for o in 0..2 {
                    v.push(Case::new("role2", vec![num(99), num(l), num(o)]));
                }
            }
            v
        },
        random: |_, r| Case::new("role2", vec![num(r.below(45) as u64), num(1 + r.below(65535) as u64), num(r.next() & 7)]),
        n: (40_000, 400_000),
        check,
        rule: "every role of PDF 1.7, every role of PDF 2.0 with all mapping options, and every heading level",
        nontrivial: |_| true,
        sweep: None,
    }
}
