//! `Some(&x)` becomes `Some(vx_r)` with `let x = *vx_r;` in front of what uses
//! it, and `Some(&b'/')` becomes `Some(vx_r)` with the guard `*vx_r == b'/'`.

use std::collections::BTreeMap;
use std::ops::Range;

use syn::spanned::Spanned;
use syn::visit::{self, Visit};

use crate::inline::{apply, is_test, range, Subst};

#[derive(Default)]
struct Refs {
    /// Where, name, and what is bound or compared.
    idents: Vec<(Range<usize>, String)>,
    tests: Vec<(Range<usize>, Vec<Range<usize>>)>,
    other: bool,
    depth: usize,
}

fn literals(p: &syn::Pat, out: &mut Vec<Range<usize>>) -> bool {
    match p {
        syn::Pat::Lit(l) => {
            out.push(range(l));
            true
        }
        syn::Pat::Paren(p) => literals(&p.pat, out),
        syn::Pat::Or(o) => o.cases.iter().all(|c| literals(c, out)),
        _ => false,
    }
}

impl<'a> Visit<'a> for Refs {
    fn visit_pat_reference(&mut self, p: &'a syn::PatReference) {
        let mut lits = vec![];
        match &*p.pat {
            _ if self.depth > 0 => self.other = true,
            syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => {
                self.idents.push((range(p), i.ident.to_string()))
            }
            q if literals(q, &mut lits) => self.tests.push((range(p), lits)),
            _ => self.other = true,
        }
    }
    fn visit_pat_or(&mut self, p: &'a syn::PatOr) {
        self.depth += 1;
        visit::visit_pat_or(self, p);
        self.depth -= 1;
    }
    fn visit_expr(&mut self, _: &'a syn::Expr) {}
}

struct Walk<'s> {
    text: &'s str,
    edits: Vec<(Range<usize>, String)>,
    count: usize,
}

struct Done {
    pat: String,
    lets: String,
    tests: Vec<String>,
    names: BTreeMap<String, String>,
}

impl Walk<'_> {
    fn pattern(&mut self, p: &syn::Pat) -> Option<Done> {
        let mut r = Refs::default();
        r.visit_pat(p);
        if r.other || (r.idents.is_empty() && r.tests.is_empty()) {
            return None;
        }
        let mut edits = vec![];
        let mut d = Done { pat: String::new(), lets: String::new(), tests: vec![], names: BTreeMap::new() };
        for (at, name) in r.idents {
            self.count += 1;
            let v = format!("vx_r{}_{name}", self.count);
            d.lets += &format!("let {name} = *{v}; ");
            d.names.insert(name, format!("(*{v})"));
            edits.push((at, v));
        }
        for (at, lits) in r.tests {
            self.count += 1;
            let v = format!("vx_r{}", self.count);
            let t: Vec<String> = lits.into_iter().map(|l| format!("*{v} == {}", &self.text[l])).collect();
            d.tests.push(format!("({})", t.join(" || ")));
            edits.push((at, v));
        }
        d.pat = apply(self.text, range(p), &mut edits);
        Some(d)
    }
    fn front(&mut self, b: &syn::Block, lets: &str) {
        let at = range(b).start + 1;
        self.edits.push((at..at, format!(" {lets}")));
    }
}

impl<'a> Visit<'a> for Walk<'_> {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
        if !is_test(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        if let Some(d) = self.pattern(&a.pat) {
            self.edits.push((range(&a.pat), d.pat));
            let mut tests = d.tests;
            if let Some((_, g)) = &a.guard {
                let refs = BTreeMap::new();
                let mut s = Subst { map: &d.names, refs: &refs, edits: vec![], bad: false };
                s.visit_expr(g);
                let r = range(&**g);
                tests.push(format!("({})", apply(self.text, r.clone(), &mut s.edits)));
                self.edits.push((r, tests.join(" && ")));
            } else if !tests.is_empty() {
                let at = range(&a.pat).end;
                self.edits.push((at..at, format!(" if {}", tests.join(" && "))));
            }
            if !d.lets.is_empty() {
                let r = range(&*a.body);
                self.edits.push((r.start..r.start, format!("{{ {}", d.lets)));
                self.visit_expr(&a.body);
                self.edits.push((r.end..r.end, " }".into()));
                return;
            }
        } else if let Some((_, g)) = &a.guard {
            self.visit_expr(g);
        }
        self.visit_expr(&a.body);
    }
    fn visit_expr_if(&mut self, i: &'a syn::ExprIf) {
        if let syn::Expr::Let(l) = &*i.cond {
            if let Some(d) = self.pattern(&l.pat) {
                if d.tests.is_empty() {
                    self.edits.push((range(&*l.pat), d.pat));
                    self.front(&i.then_branch, &d.lets);
                } else {
                    let (start, t) = (range(i).start, range(&i.then_branch).start);
                    let e = self.text[range(&*l.expr)].to_string();
                    self.edits.push((
                        start..t,
                        format!("match {e} {{ {} if {} => ", d.pat, d.tests.join(" && ")),
                    ));
                    self.front(&i.then_branch, &d.lets);
                    self.visit_block(&i.then_branch);
                    let end = range(&i.then_branch).end;
                    match &i.else_branch {
                        Some((e, b)) => {
                            let r = range(e).start..range(&**b).start;
                            self.edits.push((r, " _ => { ".into()));
                            self.visit_expr(b);
                            let end = range(&**b).end;
                            self.edits.push((end..end, " } }".into()));
                        }
                        None => self.edits.push((end..end, " _ => {} }".into())),
                    }
                    return;
                }
            }
        }
        visit::visit_expr_if(self, i);
    }
    fn visit_expr_while(&mut self, w: &'a syn::ExprWhile) {
        if let syn::Expr::Let(l) = &*w.cond {
            if let Some(d) = self.pattern(&l.pat) {
                if d.tests.is_empty() {
                    self.edits.push((range(&*l.pat), d.pat));
                    self.front(&w.body, &d.lets);
                }
            }
        }
        visit::visit_expr_while(self, w);
    }
    fn visit_local(&mut self, l: &'a syn::Local) {
        if l.init.is_some() {
            if let Some(d) = self.pattern(&l.pat) {
                if d.tests.is_empty() {
                    self.edits.push((range(&l.pat), d.pat));
                    let end = range(l).end;
                    if let Some(i) = &l.init {
                        self.visit_expr(&i.expr);
                    }
                    self.edits.push((end..end, format!(" {}", d.lets)));
                    return;
                }
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.visit_expr(&c.body);
    }
    fn visit_expr_macro(&mut self, m: &'a syn::ExprMacro) {
        // matches!(E, Some(&b'x'))
        if !m.mac.path.is_ident("matches") {
            return;
        }
        let parsed = m.mac.parse_body_with(|i: syn::parse::ParseStream| {
            let e: syn::Expr = i.parse()?;
            let _: syn::Token![,] = i.parse()?;
            let p = syn::Pat::parse_multi_with_leading_vert(i)?;
            let g = match i.parse::<Option<syn::Token![if]>>()? {
                Some(_) => Some(i.parse::<syn::Expr>()?),
                None => None,
            };
            i.parse::<Option<syn::Token![,]>>()?;
            Ok((e, p, g))
        });
        if let Ok((e, p, g)) = parsed {
            if let Some(d) = self.pattern(&p) {
                let mut tests = d.tests;
                if let Some(g) = g {
                    let refs = BTreeMap::new();
                    let mut s = Subst { map: &d.names, refs: &refs, edits: vec![], bad: false };
                    s.visit_expr(&g);
                    tests.push(format!("({})", apply(self.text, range(&g), &mut s.edits)));
                }
                let t = format!(
                    "(match {} {{ {}{}{} => true, _ => false }})",
                    &self.text[range(&e)],
                    d.pat,
                    if tests.is_empty() { "" } else { " if " },
                    tests.join(" && "),
                );
                self.edits.push((range(m), t));
            }
        }
    }
}

pub fn refpat(files: &mut [(String, String)]) {
    for (_, text) in files.iter_mut() {
        let Ok(ast) = syn::parse_file(text) else { return };
        let mut w = Walk { text, edits: vec![], count: 0 };
        w.visit_file(&ast);
        if !w.edits.is_empty() {
            let mut new = apply(text, 0..text.len(), &mut w.edits);
            if syn::parse_file(&new).is_ok() {
                std::mem::swap(text, &mut new);
            }
        }
    }
}
