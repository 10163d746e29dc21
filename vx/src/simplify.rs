//! Rewrites that leave the unchanged sources alone: a range with literal ends
//! that has a name is written where it is used, a loop over a short array
//! literal is written out, and `&b"..."[..]` becomes
//! `b"...".as_slice()`, and a call with one of two arguments becomes one of two calls.

use std::collections::BTreeMap;
use std::ops::Range;

use syn::visit::{self, Visit};

use crate::inline::{apply, is_test, range};

struct Walk<'s> {
    text: &'s str,
    edits: Vec<(Range<usize>, String)>,
}

struct Uses<'n> {
    name: &'n str,
    index: Vec<Range<usize>>,
    all: usize,
}
impl<'a> Visit<'a> for Uses<'_> {
    fn visit_expr_index(&mut self, i: &'a syn::ExprIndex) {
        if let syn::Expr::Path(p) = &*i.index {
            if p.path.is_ident(self.name) {
                self.index.push(range(&*i.index));
            }
        }
        visit::visit_expr_index(self, i);
    }
    fn visit_ident(&mut self, i: &'a syn::Ident) {
        if i == self.name {
            self.all += 1;
        }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if m.tokens.to_string().contains(self.name) {
            self.all += 1;
        }
    }
}

#[derive(Default)]
struct Jumps {
    any: bool,
    depth: usize,
}
impl<'a> Visit<'a> for Jumps {
    fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) {
        self.any |= self.depth == 0 || b.label.is_some();
    }
    fn visit_expr_continue(&mut self, c: &'a syn::ExprContinue) {
        self.any |= self.depth == 0 || c.label.is_some();
    }
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, l);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, l);
        self.depth -= 1;
    }
}

/// A value that can be taken later than it stands: a literal, a variable, a
/// field, or a tuple of these.
fn plain(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) | syn::Expr::Path(_) => true,
        syn::Expr::Field(f) => plain(&f.base),
        syn::Expr::Paren(p) => plain(&p.expr),
        syn::Expr::Tuple(t) => t.elems.iter().all(plain),
        _ => false,
    }
}

/// The variables of a value.
fn names(e: &syn::Expr, out: &mut Vec<String>) {
    match e {
        syn::Expr::Path(p) => out.extend(p.path.get_ident().map(|i| i.to_string())),
        syn::Expr::Field(f) => names(&f.base, out),
        syn::Expr::Paren(p) => names(&p.expr, out),
        syn::Expr::Tuple(t) => t.elems.iter().for_each(|e| names(e, out)),
        _ => {}
    }
}

#[derive(Default)]
struct Changed(BTreeMap<String, ()>);
impl<'a> Visit<'a> for Changed {
    fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
        let mut v = vec![];
        names(&a.left, &mut v);
        self.0.extend(v.into_iter().map(|n| (n, ())));
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(
            b.op,
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_)
                | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)
        ) {
            let mut v = vec![];
            names(&b.left, &mut v);
            self.0.extend(v.into_iter().map(|n| (n, ())));
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        let mut v = vec![];
        names(&m.receiver, &mut v);
        self.0.extend(v.into_iter().map(|n| (n, ())));
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_reference(&mut self, r: &'a syn::ExprReference) {
        if r.mutability.is_some() {
            let mut v = vec![];
            names(&r.expr, &mut v);
            self.0.extend(v.into_iter().map(|n| (n, ())));
        }
        visit::visit_expr_reference(self, r);
    }
}

fn place(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) => true,
        syn::Expr::Field(f) => place(&f.base),
        _ => false,
    }
}

fn pure(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) => true,
        syn::Expr::Paren(p) => pure(&p.expr),
        syn::Expr::Unary(u) => pure(&u.expr),
        syn::Expr::Binary(b) => pure(&b.left) && pure(&b.right),
        e => place(e),
    }
}

/// The expression a block consists of.
fn only(b: &syn::Block) -> Option<&syn::Expr> {
    match &b.stmts[..] {
        [syn::Stmt::Expr(e, None)] => Some(e),
        _ => None,
    }
}

fn literal(e: &Option<Box<syn::Expr>>) -> bool {
    matches!(e.as_deref(), Some(syn::Expr::Lit(_)))
}

impl<'a> Visit<'a> for Walk<'_> {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
        if !is_test(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        for s in &b.stmts {
            let syn::Stmt::Local(l) = s else { continue };
            let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) else { continue };
            let syn::Expr::Range(r) = &*init.expr else { continue };
            if i.mutability.is_some() || !literal(&r.start) || !literal(&r.end) {
                continue;
            }
            let name = i.ident.to_string();
            let mut u = Uses { name: &name, index: vec![], all: 0 };
            u.visit_block(b);
            if u.index.len() + 1 == u.all {
                let t = self.text[range(r)].to_string();
                for at in u.index {
                    self.edits.push((at, t.clone()));
                }
                self.edits.push((range(l), String::new()));
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'a syn::ExprReference) {
        if let syn::Expr::Index(i) = &*r.expr {
            if let (syn::Expr::Lit(l), syn::Expr::Range(n)) = (&*i.expr, &*i.index) {
                if matches!(l.lit, syn::Lit::ByteStr(_)) && n.start.is_none() && n.end.is_none() {
                    let t = format!("{}.as_slice()", &self.text[range(l)]);
                    self.edits.push((range(r), t));
                    return;
                }
            }
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        // X.f(if C { A } else { B }); with nothing that happens in X or C.
        if let syn::Stmt::Expr(syn::Expr::MethodCall(m), Some(_)) = s {
            if let (true, Some(syn::Expr::If(i)), 1) = (place(&m.receiver), m.args.first(), m.args.len()) {
                if let (true, Some(a), Some(b)) = (
                    pure(&i.cond),
                    only(&i.then_branch),
                    i.else_branch.as_ref().and_then(|(_, e)| match &**e {
                        syn::Expr::Block(b) => only(&b.block),
                        _ => None,
                    }),
                ) {
                    let mut part = |e: &'a syn::Expr| {
                        let mut w = Walk { text: self.text, edits: vec![] };
                        w.visit_expr(e);
                        apply(self.text, range(e), &mut w.edits)
                    };
                    let (a, b) = (part(a), part(b));
                    let head = &self.text[range(m).start..range(i).start];
                    let t = format!("if {} {{ {head}{a}); }} else {{ {head}{b}); }}", &self.text[range(&*i.cond)]);
                    self.edits.push((range(s), t));
                    return;
                }
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        if let syn::Expr::Array(a) = &*l.expr {
            let mut j = Jumps::default();
            j.visit_block(&l.body);
            let mut c = Changed::default();
            c.visit_block(&l.body);
            let mut v = vec![];
            a.elems.iter().for_each(|e| names(e, &mut v));
            let simple = matches!(&*l.pat, syn::Pat::Ident(_) | syn::Pat::Tuple(_));
            if l.label.is_none()
                && simple
                && !j.any
                && a.elems.len() <= 8
                && a.elems.iter().all(plain)
                && !v.iter().any(|n| c.0.contains_key(n))
            {
                let pat = &self.text[range(&*l.pat)];
                let body = &self.text[range(&l.body)];
                let mut t = String::from("{ ");
                for e in &a.elems {
                    t += &format!("{{ let {pat} = {}; {body} }} ", &self.text[range(e)]);
                }
                t += "}";
                self.edits.push((range(l), t));
                return;
            }
        }
        visit::visit_expr_for_loop(self, l);
    }
}

pub fn simplify(files: &mut [(String, String)]) {
    for (_, text) in files.iter_mut() {
        let Ok(ast) = syn::parse_file(text) else { return };
        let mut w = Walk { text, edits: vec![] };
        w.visit_file(&ast);
        if !w.edits.is_empty() {
            let mut new = apply(text, 0..text.len(), &mut w.edits);
            if syn::parse_file(&new).is_ok() {
                std::mem::swap(text, &mut new);
            }
        }
    }
}
