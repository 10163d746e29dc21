//! Functions that are not in `known.txt` (the functions of the tree that the
//! contracts were written for) have no contract of their own: their calls are
//! replaced by their bodies, before anything is extracted. The same for
//! constants with simple values. What can not be replaced is left as it is, and
//! its callers are then not accepted by the verifier.

use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;

use syn::spanned::Spanned;
use syn::visit::{self, Visit};

const KNOWN: &str = include_str!("../known.txt");

pub fn range<T: Spanned>(t: &T) -> Range<usize> {
    t.span().byte_range()
}

struct Helper {
    file: usize,
    /// The type of the impl block.
    ty: Option<String>,
    /// Has `self`.
    receiver: bool,
    generic: bool,
    /// name, mutable, type, is a reference
    params: Vec<(String, bool, String, bool)>,
    block: syn::Block,
    text: String,
}

struct Const {
    ty: Option<String>,
    text: String,
}

#[derive(Default)]
struct Found {
    fns: Vec<(Option<String>, syn::Signature, syn::Block)>,
    consts: Vec<(Option<String>, String, syn::Type, syn::Expr)>,
}

pub fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg")
            && a.meta.require_list().map(|l| l.tokens.to_string() == "test").unwrap_or(false)
    })
}

fn collect(items: &[syn::Item], out: &mut Found) {
    for i in items {
        match i {
            syn::Item::Fn(f) if !is_test(&f.attrs) => {
                out.fns.push((None, f.sig.clone(), (*f.block).clone()));
                for s in &f.block.stmts {
                    if let syn::Stmt::Item(syn::Item::Const(c)) = s {
                        out.consts.push((None, c.ident.to_string(), (*c.ty).clone(), (*c.expr).clone()));
                    }
                }
            }
            syn::Item::Const(c) => {
                out.consts.push((None, c.ident.to_string(), (*c.ty).clone(), (*c.expr).clone()))
            }
            syn::Item::Impl(i) if !is_test(&i.attrs) => {
                let ty = crate::index::type_name(&i.self_ty);
                for m in &i.items {
                    match m {
                        syn::ImplItem::Fn(f) => {
                            if i.trait_.is_none() {
                                out.fns.push((Some(ty.clone()), f.sig.clone(), f.block.clone()));
                            }
                            for s in &f.block.stmts {
                                if let syn::Stmt::Item(syn::Item::Const(c)) = s {
                                    out.consts.push((None, c.ident.to_string(), (*c.ty).clone(), (*c.expr).clone()));
                                }
                            }
                        }
                        syn::ImplItem::Const(c) if i.trait_.is_none() => out.consts.push((
                            Some(ty.clone()),
                            c.ident.to_string(),
                            c.ty.clone(),
                            c.expr.clone(),
                        )),
                        _ => {}
                    }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    collect(items, out);
                }
            }
            _ => {}
        }
    }
}

/// All functions and constants, for `known.txt`.
pub fn list(files: &[(String, String)]) -> String {
    let mut v = BTreeSet::new();
    for (name, text) in files {
        let Ok(ast) = syn::parse_file(text) else { continue };
        let mut f = Found::default();
        collect(&ast.items, &mut f);
        for (ty, sig, _) in f.fns {
            v.insert(key(name, &ty, &sig.ident.to_string()));
        }
        for (ty, c, ..) in f.consts {
            v.insert(key(name, &ty, &c));
        }
    }
    v.into_iter().map(|l| l + "\n").collect()
}

fn key(file: &str, ty: &Option<String>, name: &str) -> String {
    match ty {
        Some(t) => format!("{t}::{name}"),
        None => format!("{file}:{name}"),
    }
}

/// What a body must not contain to be put in another place.
#[derive(Default)]
struct Leaves {
    bad: bool,
    bound: BTreeSet<String>,
    in_closure: usize,
}
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        if self.in_closure == 0 {
            self.bad = true;
        }
    }
    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) {
        if self.in_closure == 0 {
            self.bad = true;
        }
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) {
        self.in_closure += 1;
        visit::visit_expr_closure(self, e);
        self.in_closure -= 1;
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.bound.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'a syn::Item) {
        self.bad = true;
    }
}

fn place(e: &syn::Expr) -> Option<(String, String)> {
    match e {
        syn::Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => {
            let i = p.path.segments[0].ident.to_string();
            Some((i.clone(), i))
        }
        syn::Expr::Field(f) => {
            let (root, text) = place(&f.base)?;
            let m = match &f.member {
                syn::Member::Named(i) => i.to_string(),
                syn::Member::Unnamed(i) => i.index.to_string(),
            };
            Some((root, format!("{text}.{m}")))
        }
        syn::Expr::Paren(p) => place(&p.expr),
        _ => None,
    }
}

/// Replace variables by texts.
pub struct Subst<'s> {
    pub map: &'s BTreeMap<String, String>,
    /// References to a place: the place, and how the reference is taken.
    pub refs: &'s BTreeMap<String, (String, &'static str)>,
    pub edits: Vec<(Range<usize>, String)>,
    pub bad: bool,
}
impl Subst<'_> {
    fn of_ref(&self, e: &syn::Expr) -> Option<String> {
        let syn::Expr::Path(p) = e else { return None };
        Some(self.refs.get(&p.path.get_ident()?.to_string())?.0.clone())
    }
}
impl<'a> Visit<'a> for Subst<'_> {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        if let Some(t) = self.of_ref(&m.receiver) {
            self.edits.push((range(&*m.receiver), t));
            for a in &m.args {
                self.visit_expr(a);
            }
        } else {
            visit::visit_expr_method_call(self, m);
        }
    }
    fn visit_expr_field(&mut self, f: &'a syn::ExprField) {
        match self.of_ref(&f.base) {
            Some(t) => self.edits.push((range(&*f.base), t)),
            None => visit::visit_expr_field(self, f),
        }
    }
    fn visit_expr_index(&mut self, f: &'a syn::ExprIndex) {
        match self.of_ref(&f.expr) {
            Some(t) => {
                self.edits.push((range(&*f.expr), t));
                self.visit_expr(&f.index);
            }
            None => visit::visit_expr_index(self, f),
        }
    }
    fn visit_expr_unary(&mut self, u: &'a syn::ExprUnary) {
        match (&u.op, self.of_ref(&u.expr)) {
            (syn::UnOp::Deref(_), Some(t)) => self.edits.push((range(u), t)),
            _ => visit::visit_expr_unary(self, u),
        }
    }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            let name = p.path.segments[0].ident.to_string();
            if let Some(t) = self.map.get(&name) {
                self.edits.push((range(p), t.clone()));
            } else if let Some((t, how)) = self.refs.get(&name) {
                self.edits.push((range(p), format!("{how}{t}")));
            }
        }
    }
    fn visit_field_value(&mut self, f: &'a syn::FieldValue) {
        if f.colon_token.is_none() {
            if let syn::Member::Named(i) = &f.member {
                if let Some(t) = self.map.get(&i.to_string()) {
                    self.edits.push((range(f), format!("{i}: {t}")));
                }
                if self.refs.contains_key(&i.to_string()) {
                    self.bad = true;
                }
            }
        } else {
            visit::visit_field_value(self, f);
        }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        // Only plain uses.
        fn go(ts: proc_macro2::TokenStream, s: &mut Subst<'_>) {
            let mut dot = false;
            for t in ts {
                match &t {
                    proc_macro2::TokenTree::Ident(i) => {
                        if s.refs.contains_key(&i.to_string()) {
                            s.bad = true;
                        }
                        if !dot {
                            if let Some(r) = s.map.get(&i.to_string()) {
                                s.edits.push((i.span().byte_range(), r.clone()));
                            }
                        }
                    }
                    proc_macro2::TokenTree::Group(g) => go(g.stream(), s),
                    proc_macro2::TokenTree::Literal(l) => {
                        let l = l.to_string();
                        if s.map.keys().any(|k| l.contains(&format!("{{{k}"))) {
                            s.bad = true;
                        }
                    }
                    _ => {}
                }
                dot = matches!(&t, proc_macro2::TokenTree::Punct(p) if p.as_char() == '.');
            }
        }
        go(m.tokens.clone(), self);
    }
}

pub fn apply(text: &str, r: Range<usize>, edits: &mut Vec<(Range<usize>, String)>) -> String {
    edits.sort_by_key(|e| e.0.start);
    let mut out = String::new();
    let mut at = r.start;
    for (e, t) in edits.iter() {
        out.push_str(&text[at..e.start]);
        out.push_str(t);
        at = e.end;
    }
    out.push_str(&text[at..r.end]);
    out
}

fn no_lifetimes(t: &str) -> String {
    let mut out = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().is_some_and(|c| c.is_alphanumeric() || *c == '_') {
                it.next();
            }
        } else {
            out.push(c);
        }
    }
    out.replace("< >", "").replace("<>", "")
}

struct Calls<'s> {
    helpers: &'s [(String, Helper)],
    /// Method names that are not only those of a helper.
    taken: &'s BTreeSet<String>,
    consts: &'s BTreeMap<String, Const>,
    counter: &'s mut usize,
    ty: Option<String>,
    edits: Vec<(Range<usize>, String)>,
    /// The statement around.
    stmt: Option<Range<usize>>,
}

impl Calls<'_> {
    fn helper_of(&self, e: &syn::Expr) -> Option<&Helper> {
        match e {
            syn::Expr::Call(c) => {
                let syn::Expr::Path(p) = &*c.func else { return None };
                let n = p.path.segments.len();
                let name = p.path.segments[n - 1].ident.to_string();
                let q = (n > 1).then(|| p.path.segments[n - 2].ident.to_string());
                self.helpers.iter().map(|h| (&h.0, &h.1)).find(|(k, h)| {
                    **k == name
                        && match (&h.ty, &q) {
                            (None, None) => true,
                            (None, Some(q)) => q.chars().next().is_some_and(|c| c.is_lowercase()),
                            (Some(t), Some(q)) => t == q || (q == "Self" && self.ty.as_ref() == Some(t)),
                            (Some(_), None) => false,
                        }
                }).map(|x| x.1)
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let own = place(&m.receiver).is_some_and(|p| p.1 == "self");
                self.helpers.iter().map(|h| (&h.0, &h.1)).find(|(k, h)| {
                    **k == name && h.receiver
                        && ((own && h.ty == self.ty) || !self.taken.contains(&name))
                }).map(|x| x.1)
            }
            _ => None,
        }
    }
    fn replacement(&mut self, e: &syn::Expr, text: &str, alone: bool) -> Option<String> {
        let (recv, args): (Option<&syn::Expr>, Vec<&syn::Expr>) = match e {
            syn::Expr::Call(c) => (None, c.args.iter().collect()),
            syn::Expr::MethodCall(m) => (Some(&m.receiver), m.args.iter().collect()),
            _ => return None,
        };
        let k = *self.counter + 1;
        let h = self.helper_of(e)?;
        let (recv, args) = match (h.receiver, recv) {
            (true, Some(r)) => (Some(r), args),
            (true, None) => (Some(*args.first()?), args[1..].to_vec()),
            (false, Some(_)) => return None,
            (false, None) => (None, args),
        };
        if args.len() != h.params.len() {
            return None;
        }
        let mut l = Leaves::default();
        l.visit_block(&h.block);
        if l.bad {
            return None;
        }
        let mut map = BTreeMap::new();
        let mut refs = BTreeMap::new();
        let mut lets = String::new();
        if let Some(r) = recv {
            let r = match r {
                syn::Expr::Reference(r) => &r.expr,
                r => r,
            };
            let (root, t) = place(r)?;
            if l.bound.contains(&root) {
                return None;
            }
            if t != "self" {
                map.insert("self".to_string(), t);
            }
        }
        for ((name, mutable, ty, is_ref), a) in h.params.iter().zip(&args) {
            if name == "_" {
                continue;
            }
            let t = place(a);
            if let (false, Some((root, t))) = (*mutable, &t) {
                if (*is_ref || t == name) && !l.bound.contains(root) {
                    if t != name {
                        map.insert(name.clone(), t.clone());
                    }
                    continue;
                }
            }
            if let (false, true, syn::Expr::Reference(r)) = (*mutable, *is_ref, *a) {
                if let Some((root, t)) = place(&r.expr) {
                    if !l.bound.contains(&root) && !l.bound.contains(name) {
                        let how = if r.mutability.is_some() { "&mut " } else { "&" };
                        refs.insert(name.clone(), (t, how));
                        continue;
                    }
                }
            }
            let new = format!("vx_in{k}_{name}");
            let ty = if h.generic { String::new() } else { format!(": {ty}") };
            lets += &format!("let {}{new}{ty} = {}; ", if *mutable { "mut " } else { "" }, &text[range(*a)]);
            if l.bound.contains(name) {
                // Bound again inside, where the scope ends the replacement.
                return None;
            }
            map.insert(name.clone(), new);
        }
        let mut s = Subst { map: &map, refs: &refs, edits: vec![], bad: false };
        s.visit_block(&h.block);
        if s.bad {
            return None;
        }
        let r = range(&h.block);
        let body = apply(&h.text, r, &mut s.edits);
        let mut body: syn::Block = syn::parse_str(&body).ok()?;
        if h.ty != self.ty {
            // `Self` is another type here.
            if let Some(t) = &h.ty {
                let text = quote::quote!(#body).to_string();
                let text: Vec<String> = text.split(' ').map(|w| if w == "Self" { t.clone() } else { w.to_string() }).collect();
                body = syn::parse_str(&text.join(" ")).ok()?;
            }
        }
        *self.counter += 1;
        let stmts = &body.stmts;
        if lets.is_empty() {
            if let [syn::Stmt::Expr(e, None)] = &stmts[..] {
                let e = quote::quote!(#e).to_string();
                return Some(if alone { format!("{e};") } else { format!("({e})") });
            }
        }
        let inner = quote::quote!(#(#stmts)*).to_string();
        Some(if alone { format!("{{ {lets}{inner} }}") } else { format!("({{ {lets}{inner} }})") })
    }
}

struct Any<'s, 'c>(&'s Calls<'c>, bool);
impl<'a> Visit<'a> for Any<'_, '_> {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        if self.0.helper_of(e).is_some() {
            self.1 = true;
        }
        visit::visit_expr(self, e);
    }
}

struct Walk<'s, 'c> {
    calls: &'s mut Calls<'c>,
    text: &'s str,
}
impl Walk<'_, '_> {
    fn try_expr(&mut self, e: &syn::Expr, alone: Option<Range<usize>>) -> bool {
        if self.calls.helper_of(e).is_none() {
            return false;
        }
        // Arguments first.
        let mut any = Any(self.calls, false);
        visit::visit_expr(&mut any, e);
        if any.1 {
            return false;
        }
        match self.calls.replacement(e, self.text, alone.is_some()) {
            Some(t) => {
                self.calls.edits.push((alone.unwrap_or(range(e)), t));
                true
            }
            None => false,
        }
    }
}
impl<'a> Visit<'a> for Walk<'_, '_> {
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        if is_test(&i.attrs) {
            return;
        }
        let old = self.calls.ty.replace(crate::index::type_name(&i.self_ty));
        visit::visit_item_impl(self, i);
        self.calls.ty = old;
    }
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
        if !is_test(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        if let syn::Stmt::Expr(e, Some(_)) = s {
            if self.try_expr(e, Some(range(s))) {
                return;
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        if self.try_expr(e, None) {
            return;
        }
        if let syn::Expr::Path(p) = e {
            let n = p.path.segments.len();
            let name = p.path.segments[n - 1].ident.to_string();
            if p.qself.is_none() {
                if let Some(c) = self.calls.consts.get(&name) {
                    let ok = match (&c.ty, n) {
                        (None, 1) => true,
                        (Some(t), 2) => {
                            let q = p.path.segments[0].ident.to_string();
                            &q == t || (q == "Self" && self.calls.ty.as_ref() == Some(t))
                        }
                        _ => false,
                    };
                    if ok {
                        self.calls.edits.push((range(e), c.text.clone()));
                        return;
                    }
                }
            }
        }
        visit::visit_expr(self, e);
    }
}

/// Whether the value can stand where the constant stands.
fn simple(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) => true,
        syn::Expr::Unary(u) => simple(&u.expr),
        syn::Expr::Binary(b) => simple(&b.left) && simple(&b.right),
        syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Name") || p.path.is_ident("Str")) && c.args.iter().all(simple),
        syn::Expr::Path(p) => p.path.segments.len() == 2,
        syn::Expr::Paren(p) => simple(&p.expr),
        _ => false,
    }
}

pub fn inline(files: &mut Vec<(String, String)>) {
    let known: BTreeSet<&str> = KNOWN.lines().collect();
    let mut counter = 0;
    for _ in 0..12 {
        let mut helpers = vec![];
        let mut consts = BTreeMap::new();
        let mut taken = BTreeSet::new();
        let mut seen = BTreeMap::new();
        for (n, (name, text)) in files.iter().enumerate() {
            let Ok(ast) = syn::parse_file(text) else { return };
            let mut f = Found::default();
            collect(&ast.items, &mut f);
            for (ty, c, t, e) in f.consts {
                if !known.contains(&key(name, &ty, &c)[..]) && simple(&e) {
                    let v = &text[range(&e)];
                    let v = match (&t, &e) {
                        (syn::Type::Path(p), syn::Expr::Lit(_) | syn::Expr::Binary(_) | syn::Expr::Unary(_))
                            if p.path.get_ident().is_some_and(|i| "i32 u8 u16 u32 u64 usize i64 i8".split(' ').any(|t| i == t)) =>
                        {
                            let t = &text[range(&t)];
                            if matches!(e, syn::Expr::Lit(_)) && !v.starts_with('b') { format!("{v}{t}") } else { format!("(({v}) as {t})") }
                        }
                        (syn::Type::Path(p), _) if p.path.is_ident("f32") => format!("{v}"),
                        _ => v.to_string(),
                    };
                    consts.insert(c, Const { ty, text: v });
                }
            }
            for (ty, sig, block) in f.fns {
                let fname = sig.ident.to_string();
                if known.contains(&key(name, &ty, &fname)[..]) {
                    taken.insert(fname);
                    continue;
                }
                *seen.entry(fname.clone()).or_insert(0) += 1;
                let mut params = vec![];
                let mut ok = sig.asyncness.is_none() && sig.unsafety.is_none();
                let mut generic = sig.generics.type_params().next().is_some();
                for a in &sig.inputs {
                    if let syn::FnArg::Typed(t) = a {
                        let mut ty = &*t.ty;
                        let is_ref = matches!(ty, syn::Type::Reference(_));
                        if let syn::Type::Reference(r) = ty {
                            ty = &r.elem;
                        }
                        if matches!(ty, syn::Type::ImplTrait(_)) {
                            generic = true;
                        }
                        let tt = no_lifetimes(&text[range(&*t.ty)]);
                        match &*t.pat {
                            syn::Pat::Ident(i) => params.push((i.ident.to_string(), i.mutability.is_some(), tt, is_ref)),
                            syn::Pat::Wild(_) => params.push(("_".into(), false, tt, is_ref)),
                            _ => ok = false,
                        }
                    }
                }
                if ok {
                    helpers.push((fname, Helper {
                        file: n,
                        receiver: sig.receiver().is_some(),
                        ty,
                        generic,
                        params,
                        block,
                        text: text.clone(),
                    }));
                }
            }
        }
        // A name stands for one helper only, unless the type tells.
        helpers.retain(|h| seen[&h.0] == 1 || h.1.ty.is_some());
        if helpers.is_empty() && consts.is_empty() {
            return;
        }
        for (n, c) in &seen {
            if *c > 1 {
                taken.insert(n.clone());
            }
        }
        let mut changed = false;
        for (_, text) in files.iter_mut() {
            let Ok(ast) = syn::parse_file(text) else { return };
            let mut calls = Calls {
                helpers: &helpers,
                taken: &taken,
                consts: &consts,
                counter: &mut counter,
                ty: None,
                edits: vec![],
                stmt: None,
            };
            let mut w = Walk { calls: &mut calls, text };
            w.visit_file(&ast);
            if !calls.edits.is_empty() {
                changed = true;
                let n = text.len();
                *text = apply(text, 0..n, &mut calls.edits);
            }
        }
        if !changed || counter > 500 {
            return;
        }
    }
}
