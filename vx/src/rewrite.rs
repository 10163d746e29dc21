use std::collections::BTreeMap;
use std::ops::Range;

use proc_macro2::{TokenStream, TokenTree};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

use crate::index::{range_of, Index, Src};

/// Per-function directives from the template.
#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub contract: String,
    pub ret: Option<String>,
    pub rename: Option<String>,
    /// loop index -> (kind, binder, invariant text)
    pub loops: BTreeMap<usize, LoopSpec>,
    /// (anchor, text)
    pub ats: Vec<(String, String)>,
    pub rewrites: Vec<(String, String)>,
    pub lifts: Vec<Lift>,
    /// closure index -> (params and return, contract)
    pub clos: BTreeMap<usize, (String, String)>,
    pub opts: Vec<String>,
    /// Contracts of nested functions, which are hoisted: (name, ret, contract)
    pub inner: Vec<(String, String, String)>,
    /// variable -> type, for drop elaboration of variables and calls.
    pub external_body: bool,
}

#[derive(Default, Clone, Debug)]
pub struct LoopSpec {
    pub kind: String,
    pub binder: String,
    pub text: String,
}

#[derive(Default, Clone, Debug)]
pub struct Lift {
    pub sig: String,
    pub call: String,
    pub subst: Vec<(String, String)>,
    pub contract: String,
}

pub struct Ctx<'i> {
    pub index: &'i Index,
    /// The name of the Self type, if any.
    pub self_name: Option<String>,
    /// Method names that return an owned writer with a `Drop` implementation.
    pub drop_methods: Vec<String>,
    /// Methods that consume a writer without dropping it.
    pub consume_methods: Vec<String>,
}

#[derive(Debug)]
struct Edit {
    range: Range<usize>,
    text: String,
    seq: usize,
}

pub struct Rewriter<'i, 's> {
    ctx: &'s Ctx<'i>,
    src: &'s Src,
    spec: &'s FnSpec,
    edits: Vec<Edit>,
    pub errors: Vec<String>,
    loops: usize,
    drop_generics: bool,
    closures: usize,
    all_closures: usize,
    fresh: usize,
    pub lifted: Vec<String>,
    pub hoisted: Vec<String>,
    used_ats: Vec<bool>,
    pub params: Vec<String>,
    /// Variables holding a writer with a Drop implementation, per open block.
    drop_vars: Vec<Vec<String>>,
    pub notes: Vec<String>,
    in_tail: bool,
    mut_self: bool,
    /// Parameters that are iterators.
    iter_params: Vec<String>,
    param_types: std::collections::BTreeMap<String, String>,
    mappings: Vec<String>,
    /// The byte string literals of the function.
    lits: std::collections::BTreeSet<Vec<u8>>,
    strlits: std::collections::BTreeSet<String>,
}

/// A literal as a function whose contract says what the tokenizer of tok.vt
/// reads from it, between tokens and inside of a comment. These are only hints:
/// the verifier evaluates each of them.
fn lit_fn(l: &[u8]) -> (String, Option<String>) {
    thread_local!(static MADE: std::cell::RefCell<std::collections::BTreeSet<Vec<u8>>> = Default::default());
    let hash = l.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
    let name = format!("vx_lit_{hash:016x}");
    if !MADE.with(|m| m.borrow_mut().insert(l.to_vec())) {
        return (name, None);
    }
    let q = bytes_array(l);
    let seq = |b: &[u8]| {
        let v: Vec<String> = b.iter().map(|x| format!("{x}u8")).collect();
        if v.is_empty() { "Seq::<u8>::empty()".to_string() } else { format!("seq![{}]", v.join(", ")) }
    };
    let mut ensures = format!("r@.len() == {}, ", l.len());
    let mut body = format!("reveal(lit_reads); assert({q}@ =~= {}); ", seq(l));
    if !l.is_empty() {
        ensures.push_str(&format!("r@[0] == {}, r@.last() == {}, ", l[0], l[l.len() - 1]));
    }
    if l.len() <= 4 {
        ensures.push_str(&format!("r@ =~= {}, ", seq(l)));
    }
    let mut fact = |from: &str, view: &str, b: &[u8]| {
        if let Some(r) = lex_from(from, b) {
            let list = |v: &[(bool, Vec<u8>)]| {
                let toks: Vec<String> =
                    v.iter().map(|(n, t)| format!("Tok::{}({})", if *n { "Name" } else { "Reg" }, seq(t))).collect();
                if toks.is_empty() { "Seq::<Tok>::empty()".to_string() } else { format!("seq![{}]", toks.join(", ")) }
            };
            let state = format!("Lx {{ mode: LMode::{}, cur: {}, acc: 0, st: st0(), toks: {} }}", r.0, seq(&r.1), list(&r.2));
            let mut all = r.2.clone();
            let kind = match r.0 {
                "Gap" => 0,
                "Comment" => 1,
                "Lt" => 3,
                m => {
                    all.push((m == "Name", r.1.clone()));
                    2
                }
            };
            body.push_str(&format!(
                "assert({q}@{view} =~= {s}); assert(run(lx(LMode::{from}, Seq::<Tok>::empty()), {s}) == {state}) by (compute); assert(flush({state}) =~= {all}); ",
                s = seq(b),
                all = list(&all),
            ));
            let from = match (from, view.is_empty()) {
                ("Gap", true) => 0,
                ("Gap", false) => 3,
                _ => 1,
            };
            ensures.push_str(&format!("lit_reads(r@, {from}, {kind}, {}), ", list(&all)));
        }
    };
    fact("Gap", "", l);
    fact("Comment", "", l);
    if l.first() == Some(&b'>') {
        fact("Gap", ".skip(1)", &l[1..]);
    }
    let text = format!(
        "pub fn {name}() -> (r: &'static [u8; {}])\n    ensures {ensures}\n{{ proof {{ {body} }} {q} }}\n",
        l.len()
    );
    (name, Some(text))
}

/// Mode, current token, and finished tokens (name or not).
fn lex_from(from: &str, b: &[u8]) -> Option<(&'static str, Vec<u8>, Vec<(bool, Vec<u8>)>)> {
    let mut mode = if from == "Gap" { "Gap" } else { "Comment" };
    let mut cur: Vec<u8> = vec![];
    let mut toks = vec![];
    for &c in b {
        if mode == "Comment" {
            if c == 10 || c == 13 {
                mode = "Gap";
            }
            continue;
        }
        let white = matches!(c, 0 | 9 | 10 | 12 | 13 | 32);
        let delim = b"()<>[]{}/%".contains(&c);
        if mode == "Lt" || (mode == "Name" && (c == b'#' || (!white && !delim && !(33..=126).contains(&c)))) {
            return None;
        }
        if !white && !delim {
            if mode == "Gap" {
                mode = "Reg";
            }
            cur.push(c);
            continue;
        }
        if mode != "Gap" {
            toks.push((mode == "Name", std::mem::take(&mut cur)));
        }
        mode = match c {
            _ if white => "Gap",
            b'/' => "Name",
            b'%' => "Comment",
            b'<' => "Lt",
            _ => return None,
        };
    }
    Some((mode, cur, toks))
}

pub fn bytes_array(b: &[u8]) -> String {
    if b.is_empty() {
        return "(&[0u8; 0])".into();
    }
    let mut s = String::from("(&[");
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&format!("{x}u8"));
    }
    s.push_str("])");
    s
}

fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

impl<'i, 's> Rewriter<'i, 's> {
    pub fn new(ctx: &'s Ctx<'i>, src: &'s Src, spec: &'s FnSpec) -> Self {
        Self {
            ctx,
            src,
            spec,
            edits: vec![],
            errors: vec![],
            loops: 0,
            drop_generics: false,
            closures: 0,
            all_closures: 0,
            fresh: 0,
            lifted: vec![],
            hoisted: vec![],
            used_ats: vec![false; spec.ats.len()],
            drop_vars: vec![],
            params: vec![],
            notes: vec![],
            in_tail: false,
            mut_self: false,
            iter_params: vec![],
            param_types: Default::default(),
            mappings: vec![],
            lits: Default::default(),
            strlits: Default::default(),
        }
    }

    fn edit(&mut self, range: Range<usize>, text: String) {
        let seq = self.edits.len() + 1;
        self.edits.push(Edit { range, text, seq });
    }

    fn insert(&mut self, pos: usize, text: String) {
        self.edit(pos..pos, text);
    }

    fn slice(&self, r: Range<usize>) -> &str {
        &self.src.text[r]
    }

    /// Render a range of the source with the edits applied.
    /// `X[a..]`, `X[..b]` and `X[a..b]`.
    fn slice_of(&mut self, i: &syn::ExprIndex) -> Option<String> {
        if !self.spec.opts.iter().any(|o| o == "ranges") {
            return None;
        }
        let syn::Expr::Range(r) = i.index.as_ref() else { return None };
        if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
            return None;
        }
        self.visit_expr(&i.expr);
        let x = self.render(range_of(i.expr.as_ref()));
        let mut end = |e: &Option<Box<syn::Expr>>| {
            e.as_ref().map(|e| {
                self.visit_expr(e);
                self.render(range_of(e.as_ref()))
            })
        };
        let (a, b) = (end(&r.start), end(&r.end));
        self.notes.push("slice by a range".into());
        Some(match (a, b) {
            (Some(a), Some(b)) => format!("vx_range(&{x}, {a}, {b})"),
            (Some(a), None) => format!("vx_from(&{x}, {a})"),
            (None, Some(b)) => format!("vx_range(&{x}, 0, {b})"),
            (None, None) => format!("vx_from(&{x}, 0)"),
        })
    }

    pub fn render(&self, r: Range<usize>) -> String {
        // Replacements, outermost first.
        let mut v: Vec<&Edit> = self
            .edits
            .iter()
            .filter(|e| e.range.start >= r.start && e.range.end <= r.end)
            .collect();
        v.sort_by_key(|e| {
            (e.range.start, std::cmp::Reverse(e.range.end), e.seq)
        });
        // Insertions at the start of a replaced range go before it.
        v.sort_by(|a, b| {
            let ka = (a.range.start, a.range.len() != 0);
            let kb = (b.range.start, b.range.len() != 0);
            ka.cmp(&kb)
                .then_with(|| {
                    if a.range.len() != 0 && b.range.len() != 0 {
                        // Outer first; for equal ranges the later edit wins.
                        b.range.end.cmp(&a.range.end).then(b.seq.cmp(&a.seq))
                    } else {
                        a.seq.cmp(&b.seq)
                    }
                })
        });
        let mut out = String::new();
        let mut pos = r.start;
        let mut prev_end = r.start;
        for e in v {
            if e.range.start < pos {
                continue;
            }
            // An insertion strictly inside an already replaced range is part of
            // that replacement's own rendering.
            if e.range.start < prev_end {
                continue;
            }
            out.push_str(&self.src.text[pos..e.range.start]);
            out.push_str(&e.text);
            pos = e.range.end;
            prev_end = e.range.end;
        }
        out.push_str(&self.src.text[pos..r.end]);
        out
    }

    /// All proof texts for an anchor.
    fn at(&mut self, anchor: &str) -> String {
        let mut s = String::new();
        for (i, (a, t)) in self.spec.ats.iter().enumerate() {
            if norm(a) == anchor {
                self.used_ats[i] = true;
                s.push('\n');
                s.push_str(t);
                s.push('\n');
            }
        }
        self.with_params(&s)
    }

    /// `$0`, `$1`, ... are the parameters (without the receiver), whatever they
    /// are called in the source.
    fn with_params(&self, t: &str) -> String {
        let mut s = t.to_string();
        for (i, p) in self.params.iter().enumerate().rev() {
            s = s.replace(&format!("${i}"), p);
        }
        s
    }

    /// Rewrite a function. Returns (header with contract, body).
    pub fn function(
        &mut self,
        attrs: &[syn::Attribute],
        sig: &syn::Signature,
        block: &syn::Block,
        _whole: Range<usize>,
        is_trait: bool,
    ) -> String {
        let _ = attrs;
        let assumed = self.spec.external_body;
        self.params = sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                syn::FnArg::Typed(t) => Some(pat_ident(&t.pat).unwrap_or_default()),
                _ => None,
            })
            .collect();
        // Signature.
        let mut out = String::new();
        if assumed {
            out.push_str("#[verifier::external_body]\n");
        }
        if !assumed && !self.spec.loops.is_empty() {
            out.push_str("#[verifier::spinoff_prover]\n");
        }
        for o in &self.spec.opts {
            if let Some(a) = o.strip_prefix("attr ") {
                out.push_str(a);
                out.push('\n');
            }
        }
        if !is_trait {
            out.push_str("pub ");
        }
        out.push_str("fn ");
        let name = self.spec.rename.clone().unwrap_or(sig.ident.to_string());
        out.push_str(&name);
        let paren = sig.paren_token.span.join().byte_range();
        self.visit_inputs(sig);
        let mut inputs = self.render(paren);
        let nested = nested_impl(&mut inputs);
        if self.drop_generics {
        } else if sig.generics.lt_token.is_some() {
            let r = range_of(&sig.generics.lt_token.unwrap()).start
                ..range_of(&sig.generics.gt_token.unwrap()).end;
            let mut g = iter_bounds(self.slice(r));
            if let Some(n) = &nested {
                g.truncate(g.len() - 1);
                g.push_str(&format!(", VxT: {n}>"));
            }
            out.push_str(&g);
        } else if let Some(n) = &nested {
            out.push_str(&format!("<VxT: {n}>"));
        }
        out.push_str(&inputs);
        if let syn::ReturnType::Type(_, ty) = &sig.output {
            let t = match iter_item(ty) {
                // The items of an iterator, as `map` collects them.
                Some(r) => format!("Vec<{}>", self.slice(r)),
                None => self.slice(range_of(ty.as_ref())).to_string(),
            };
            match &self.spec.ret {
                Some(n) => out.push_str(&format!(" -> ({n}: {t})")),
                None => out.push_str(&format!(" -> {t}")),
            }
        }
        if let (Some(w), false) = (&sig.generics.where_clause, self.drop_generics) {
            out.push(' ');
            out.push_str(&iter_bounds(self.slice(range_of(w))));
        }
        out.push('\n');
        let contract = self.with_params(&self.spec.contract);
        out.push_str(&contract);
        out.push('\n');

        if assumed {
            out.push_str("{ unimplemented!() }");
            return out;
        }

        // Body.
        let body_r = range_of(block);
        let has_tail = matches!(block.stmts.last(), Some(syn::Stmt::Expr(_, None)));
        for o in &self.spec.opts {
            if o.starts_with("drop-self") {
                self.mut_self = true;
                // Not twice.
                for i in &sig.inputs {
                    if let syn::FnArg::Receiver(r) = i {
                        if r.reference.is_some() {
                            self.errors.push("lost anchor: self by value".into());
                        }
                    }
                }
            }
        }
        self.block(block, true);
        let mut start = self.at("start");
        for o in &self.spec.opts {
            if let Some(buf) = o.strip_prefix("toks ") {
                let buf = self.with_params(buf);
                let mut t = format!("\n broadcast use {{tok_laws}}; proof {{ grows_id({buf}@); }}\n");
                for l in &self.lits {
                    let q = bytes_array(l);
                    t.push_str(&format!(
                        " proof {{ assert({q}@ =~= seq!{}); }}\n",
                        q.trim_start_matches("(&").trim_end_matches(')').replace("[0u8; 0]", "[]")
                    ));
                }
                start.insert_str(0, &t);
            }
            if let Some(f) = o.strip_prefix("strlits ") {
                let mut t = String::new();
                for l in &self.strlits {
                    let b: Vec<String> = l.bytes().map(|b| format!("{b}u8")).collect();
                    t.push_str(&format!(
                        " proof {{ reveal_strlit({l:?}); assert({f}({l:?}@) =~= seq![{}]); }}\n",
                        b.join(", ")
                    ));
                }
                start.insert_str(0, &t);
            }
            if o == "lits" {
                let mut t = String::new();
                for l in &self.lits {
                    let q = bytes_array(l);
                    t.push_str(&format!(
                        " proof {{ assert({q}@ =~= seq!{}); }}\n",
                        q.trim_start_matches("(&").trim_end_matches(')').replace("[0u8; 0]", "[]")
                    ));
                }
                start.insert_str(0, &t);
            }
        }
        if !start.is_empty() {
            self.insert(body_r.start + 1, start);
        }
        let end = self.at("end");
        if !end.is_empty() {
            let unit = matches!(sig.output, syn::ReturnType::Default);
            let pos = if has_tail && !unit {
                range_of(block.stmts.last().unwrap()).start
            } else {
                body_r.end - 1
            };
            let semi = if has_tail && unit { ";" } else { "" };
            self.insert(pos, format!("{semi}{end}"));
        }
        let mut result = self.at("result");
        let vacuity = std::env::var("VX_VACUITY").is_ok();
        let in_result = vacuity && !result.is_empty();
        if in_result {
            result.push_str(" proof { assert(false); } ");
        }
        if !result.is_empty() {
            if has_tail && !matches!(sig.output, syn::ReturnType::Default) {
                let r = range_of(block.stmts.last().unwrap());
                self.insert(r.start, "let vx_ret = ".into());
                self.insert(r.end, format!("; {result} vx_ret"));
            } else {
                self.errors.push("lost anchor: result".into());
            }
        }
        if vacuity && !in_result {
            // Must fail, or the exit is unreachable under the contracts.
            let unit = matches!(sig.output, syn::ReturnType::Default);
            let pos = if has_tail && !unit {
                range_of(block.stmts.last().unwrap()).start
            } else {
                body_r.end - 1
            };
            let semi = if has_tail && unit { ";" } else { "" };
            self.insert(pos, format!("{semi} proof {{ assert(false); }} "));
            if has_tail && !unit {
                // before what other edits put in front of the result
                self.edits.last_mut().unwrap().seq = 0;
            }
        }
        // Statement anchors.
        self.stmt_anchors(block);
        for (i, used) in self.used_ats.clone().iter().enumerate() {
            if !used {
                self.errors.push(format!("lost anchor `{}`", self.spec.ats[i].0));
            }
        }
        for k in self.spec.loops.keys() {
            if *k >= self.loops {
                self.errors.push(format!("lost anchor: loop {k}"));
            }
        }
        for k in self.spec.clos.keys() {
            if *k >= self.all_closures {
                self.errors.push(format!("lost anchor: closure {k}"));
            }
        }
        if self.closures < self.spec.lifts.len() {
            self.errors.push("lost anchor: closure".into());
        }
        let mut body = self.render(body_r);
        for (a, b) in &self.spec.rewrites {
            // Optional ones may find nothing.
            let (na, nb) = (a.trim_start_matches('?'), b.as_str());
            let optional = a.starts_with('?');
            if !body.contains(na) {
                // Try again modulo whitespace.
                match find_ws(&body, na) {
                    Some(r) => body.replace_range(r, nb),
                    None if optional => {}
                    None => self.errors.push(format!("lost anchor: rewrite `{a}`")),
                }
            } else {
                body = body.replace(na, nb);
            }
        }
        if self.mut_self {
            body = replace_ident(&body, "self", "vx_self");
            body.insert_str(1, " let mut vx_self = self; ");
        }
        out.push_str(&body);
        out
    }

    /// The type name of `self`, a parameter, or a field of these.
    fn place_type(&self, e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Path(p) => {
                let id = p.path.get_ident()?.to_string();
                match &self.ctx.self_name {
                    Some(s) if id == "self" => Some(s.clone()),
                    _ => self.param_types.get(&id).cloned(),
                }
            }
            syn::Expr::Field(f) => {
                let base = self.place_type(f.base.as_ref())?;
                match &f.member {
                    syn::Member::Named(n) => self.ctx.index.field_type(&base, &n.to_string()),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn visit_inputs(&mut self, sig: &syn::Signature) {
        for i in &sig.inputs {
            match i {
                syn::FnArg::Receiver(r) => {
                    for a in &r.attrs {
                        self.edit(range_of(a), String::new());
                    }
                    if let (None, Some(m)) = (&r.reference, &r.mutability) {
                        // `mut self` => `self`, with a mutable copy in the body.
                        self.edit(range_of(m), String::new());
                        self.mut_self = true;
                    }
                }
                syn::FnArg::Typed(t) => {
                    if let syn::Pat::Wild(w) = t.pat.as_ref() {
                        self.edit(range_of(w), format!("vx_u{}", range_of(w).start));
                    }
                    if let Some(id) = pat_ident(&t.pat) {
                        let mut ty = t.ty.as_ref();
                        if let syn::Type::Reference(r) = ty {
                            ty = r.elem.as_ref();
                        }
                        if let syn::Type::Path(p) = ty {
                            if let Some(s) = p.path.segments.last() {
                                self.param_types.insert(id, s.ident.to_string());
                            }
                        }
                    }
                    for a in &t.attrs {
                        self.edit(range_of(a), String::new());
                    }
                    // Iterators => sequences of items.
                    let ty = self.slice(range_of(t.ty.as_ref())).to_string();
                    if ty.starts_with("impl FnMut(")
                        && self.spec.opts.iter().any(|o| o == "pure-fns")
                    {
                        // a function argument that keeps no state
                        if let syn::Pat::Ident(p) = t.pat.as_ref() {
                            if let Some(m) = &p.mutability {
                                self.edit(range_of(m), String::new());
                            }
                        }
                        self.edit(range_of(t.ty.as_ref()), ty.replacen("FnMut", "Fn", 1));
                        self.notes.push("function argument without state".into());
                    }
                    // Function pointers => functions.
                    if let syn::Type::BareFn(_) = t.ty.as_ref() {
                        self.edit(range_of(t.ty.as_ref()), format!("impl F{}", &ty[1..]));
                        self.notes.push("function pointer as a function".into());
                    }
                    // A function with state => the record of its calls.
                    if self.spec.opts.iter().any(|o| o == "mapping") {
                        let generic = sig.generics.params.len() == 1
                            && matches!(sig.generics.params.first(), Some(syn::GenericParam::Type(g)) if g.ident == ty
                                && (self.slice(range_of(&sig.generics)).contains("FnMut(")
                                    || sig.generics.where_clause.as_ref().is_some_and(|w| self.slice(range_of(w)).contains("FnMut("))));
                        let new = if generic {
                            Some("VxMapping")
                        } else if ty.starts_with("&mut dyn FnMut(") {
                            Some("&mut VxMapping")
                        } else if ty.starts_with("impl FnMut(") {
                            Some("VxMapping")
                        } else {
                            None
                        };
                        if let (Some(new), Some(id)) = (new, pat_ident(&t.pat)) {
                            self.edit(range_of(t.ty.as_ref()), new.into());
                            self.mappings.push(id);
                            if generic {
                                self.drop_generics = true;
                            }
                            self.notes.push("function with state by the record of its calls".into());
                        }
                    }
                    let mut bounds = ty.clone();
                    for g in &sig.generics.params {
                        if let syn::GenericParam::Type(g) = g {
                            if g.ident == ty {
                                bounds = self.slice(range_of(g)).to_string();
                                if let Some(w) = &sig.generics.where_clause {
                                    for p in &w.predicates {
                                        let p = self.slice(range_of(p));
                                        if p.starts_with(&ty) {
                                            bounds.push_str(p);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if bounds.contains("IntoIterator<Item") {
                        if let Some(id) = pat_ident(&t.pat) {
                            self.iter_params.push(id);
                            self.notes.push("iterator parameter by its items".into());
                        }
                        let new = iter_bounds(&ty);
                        if new != ty {
                            self.edit(range_of(t.ty.as_ref()), new);
                        }
                    }
                }
            }
        }
    }

    fn stmt_anchors(&mut self, block: &syn::Block) {
        for i in 0..self.spec.ats.len() {
            let (a, t) = self.spec.ats[i].clone();
            let (after, pat) = if let Some(p) = a.strip_prefix("after ") {
                (true, p)
            } else if let Some(p) = a.strip_prefix("before ") {
                (false, p)
            } else {
                continue;
            };
            // `N:text` selects the N-th match.
            let (n, pat) = match pat.split_once(':') {
                Some((n, p)) if n.trim().parse::<usize>().is_ok() => {
                    (n.trim().parse::<usize>().unwrap(), p)
                }
                _ => (0, pat),
            };
            let pat = squash(pat);
            let mut found = vec![];
            find_stmts(block, &mut |s: &syn::Stmt| {
                found.push(range_of(s));
            });
            // Innermost statements containing the text, in source order.
            let mut hits: Vec<Range<usize>> = found
                .iter()
                .filter(|r| squash(self.slice((*r).clone())).contains(&pat))
                .cloned()
                .collect();
            let all = hits.clone();
            hits.retain(|r| {
                !all.iter().any(|o| {
                    o != r && o.start >= r.start && o.end <= r.end
                })
            });
            hits.sort_by_key(|r| r.start);
            match hits.get(n) {
                Some(r) => {
                    self.used_ats[i] = true;
                    let pos = if after { r.end } else { r.start };
                    let t = self.with_params(&t);
                    self.insert(pos, format!("\n{t}\n"));
                }
                None => {}
            }
        }
    }

    fn block(&mut self, block: &syn::Block, _top: bool) {
        self.drop_vars.push(vec![]);
        let n = block.stmts.len();
        for (i, s) in block.stmts.iter().enumerate() {
            let tail = i + 1 == n && matches!(s, syn::Stmt::Expr(_, None));
            self.stmt(s, tail);
        }
        let mut vars = self.drop_vars.pop().unwrap();
        vars.retain(|v| !moved_in(block, v));
        if _top {
            for o in &self.spec.opts {
                if let Some(f) = o.strip_prefix("drop-self") {
                    vars.insert(0, format!("self{}", f.trim()));
                }
            }
        }
        if !vars.is_empty() {
            let r = range_of(block);
            let has_tail =
                matches!(block.stmts.last(), Some(syn::Stmt::Expr(_, None)));
            let mut text = String::new();
            for v in vars.iter().rev() {
                text.push_str(&format!(" {v}.vx_drop(); "));
            }
            self.notes.push(format!("scope-end drop of {}", vars.join(", ")));
            if has_tail {
                let tr = range_of(block.stmts.last().unwrap());
                let t = self.slice(tr.clone()).trim().to_string();
                if t == "self" || t == "()" {
                    self.insert(tr.start, text);
                } else if matches!(
                    block.stmts.last(),
                    Some(syn::Stmt::Expr(
                        syn::Expr::ForLoop(_) | syn::Expr::While(_),
                        None
                    ))
                ) {
                    self.insert(tr.end, text);
                } else {
                    self.insert(tr.start, "let vx_tail = ".into());
                    self.insert(tr.end, format!("; {text} vx_tail"));
                }
            } else {
                self.insert(r.end - 1, text);
            }
        }
    }

    fn stmt(&mut self, s: &syn::Stmt, tail: bool) {
        match s {
            syn::Stmt::Local(l) => {
                for a in &l.attrs {
                    self.edit(range_of(a), String::new());
                }
                if let (syn::Pat::Slice(p), Some(init)) = (&l.pat, &l.init) {
                    // `let [a, b] = e;` takes the array apart
                    if p.elems.iter().all(|e| matches!(e, syn::Pat::Ident(_))) {
                        let r = range_of(p);
                        self.edit(r.start..r.start + 1, "(".into());
                        self.edit(r.end - 1..r.end, ")".into());
                        let e = range_of(&init.expr);
                        self.insert(e.start, format!("vx_parts{}(", p.elems.len()));
                        self.insert(e.end, ")".into());
                    }
                }
                visit::visit_local(self, l);
                if let Some(init) = &l.init {
                    if self.owned_writer(&init.expr) {
                        if let Some(id) = pat_ident(&l.pat) {
                            // Hoist temporaries in the chain.
                            self.drop_vars.last_mut().unwrap().push(id);
                        }
                    }
                }
            }
            syn::Stmt::Expr(e, semi) => {
                self.visit_expr(e);
                if !tail || semi.is_some() {
                    self.drop_stmt(e);
                }
            }
            syn::Stmt::Item(item) => {
                if let syn::Item::Fn(f) = item {
                    let name = f.sig.ident.to_string();
                    let mut spec = FnSpec::default();
                    if let Some((_, r, c)) =
                        self.spec.inner.iter().find(|(n, _, _)| *n == name)
                    {
                        spec.contract = c.clone();
                        if !r.is_empty() {
                            spec.ret = Some(r.clone());
                        }
                    }
                    let mut rw = Rewriter::new(self.ctx, self.src, &spec);
                    let t = rw.function(&f.attrs, &f.sig, &f.block, range_of(f), false);
                    self.errors.extend(rw.errors.clone());
                    self.hoisted.push(t);
                    self.notes.push(format!("nested fn {name} hoisted"));
                }
                self.edit(range_of(item), String::new());
            }
            syn::Stmt::Macro(m) => {
                let r = range_of(&m.mac);
                if let Some(mut t) = self.macro_text(&m.mac) {
                    if m.semi_token.is_some() && (t == "vx_panic()" || t == "vx_never()") {
                        t = t.replace("()", "::<()>()");
                    }
                    self.edit(r, t);
                }
            }
        }
    }

    /// Does evaluating this expression produce an owned writer that has to be
    /// dropped?
    fn owned_writer(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.ctx.drop_methods.contains(&n) {
                    return true;
                }
                false
            }
            _ => false,
        }
    }

    /// Drop elaboration for expression statements.
    fn drop_stmt(&mut self, e: &syn::Expr) {
        // var.finish()
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "finish" && m.args.is_empty() {
                if let syn::Expr::Path(p) = m.receiver.as_ref() {
                    let v = p.path.segments.last().unwrap().ident.to_string();
                    let mut hit = false;
                    for scope in &mut self.drop_vars {
                        if let Some(i) = scope.iter().position(|x| *x == v) {
                            scope.remove(i);
                            hit = true;
                        }
                    }
                    if hit {
                        self.edit(range_of(&m.method), "vx_drop".into());
                        self.notes.push(format!("finish of {v}"));
                        return;
                    }
                }
            }
        }
        if let syn::Expr::Call(c) = e {
            if let syn::Expr::Path(p) = c.func.as_ref() {
                if p.path.is_ident("drop") && c.args.len() == 1 {
                    if let syn::Expr::Path(p) = &c.args[0] {
                        let v = p.path.segments.last().unwrap().ident.to_string();
                        for scope in &mut self.drop_vars {
                            scope.retain(|x| *x != v);
                        }
                        self.edit(range_of(e), format!("{v}.vx_drop()"));
                        return;
                    }
                }
            }
        }
        // A chain of method calls.
        let mut chain = vec![];
        let mut cur = e;
        while let syn::Expr::MethodCall(m) = cur {
            chain.push(m);
            cur = &m.receiver;
        }
        chain.reverse();
        let last_owned = chain
            .iter()
            .rposition(|m| self.ctx.drop_methods.contains(&m.method.to_string()));
        let Some(k) = last_owned else { return };
        // Everything up to and including the k-th call yields an owned writer.
        let t = format!("vx_t{}", self.fresh);
        self.fresh += 1;
        let mut text = String::new();
        let head = self.render(range_of(e).start..range_of(chain[k]).end);
        text.push_str(&format!("{{ let mut {t} = {head}; "));
        if k + 1 < chain.len() {
            let rest =
                self.render(range_of(chain[k]).end..range_of(*chain.last().unwrap()).end);
            text.push_str(&format!("{t}{rest}; "));
        }
        text.push_str(&format!("{t}.vx_drop(); }}"));
        self.notes.push("end-of-statement drop".into());
        self.edit(range_of(e), text);
    }

    /// Rewritten text for a macro call, if it has to be rewritten.
    /// Whether a panic must be shown to be unreachable.
    fn nopanic(&self) -> bool {
        self.spec.opts.iter().any(|o| o == "nopanic")
    }

    /// `assert!` stops the program if the condition is false; with `nopanic`, and
    /// for `debug_assert!` always, the condition must be shown to hold.
    fn must(&self, name: &str) -> &'static str {
        if self.nopanic() || name.starts_with("debug") { "vx_must" } else { "vx_assert" }
    }

    fn macro_text(&mut self, mac: &syn::Macro) -> Option<String> {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "assert" | "debug_assert" => {
                let args = mac
                    .parse_body_with(Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated)
                    .ok()?;
                let c = args.first()?;
                self.visit_expr(c);
                let f = self.must(&name);
                Some(format!("{f}({})", self.render(range_of(c))))
            }
            "panic" if !self.nopanic() => Some("vx_panic()".into()),
            "panic" | "unreachable" | "todo" | "unimplemented" => Some("vx_never()".into()),
            "assert_eq" | "assert_ne" | "debug_assert_eq" | "debug_assert_ne" => {
                let args = mac
                    .parse_body_with(Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated)
                    .ok()?;
                let (a, b) = (args.first()?, args.get(1)?);
                self.visit_expr(a);
                self.visit_expr(b);
                let op = if name.ends_with("eq") { "==" } else { "!=" };
                let f = self.must(&name);
                Some(format!(
                    "{f}({} {op} {})",
                    self.render(range_of(a)),
                    self.render(range_of(b))
                ))
            }
            "matches" => {
                // Only byte string literals would need a rewrite.
                None
            }
            "vec" => {
                let args = mac
                    .parse_body_with(Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated)
                    .ok()?;
                if args.is_empty() {
                    return Some("Vec::new()".into());
                }
                None
            }
            _ => None,
        }
    }

    /// `write!(TARGET, "fmt", args..).unwrap()`.
    fn write_text(&mut self, mac: &syn::Macro) -> Option<String> {
        let args = mac
            .parse_body_with(Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated)
            .ok()?;
        let args: Vec<_> = args.iter().collect();
        if args.len() < 2 {
            return None;
        }
        for a in &args {
            self.visit_expr(a);
        }
        let target = self.render(range_of(args[0]));
        let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(fmt), .. }) = args[1] else {
            return None;
        };
        let fmt = fmt.value();
        let mut pos = 2;
        let mut out = String::from("{ ");
        let mut lit: Vec<u8> = vec![];
        let bytes: Vec<char> = fmt.chars().collect();
        let mut i = 0;
        while i < bytes.len() {
            match bytes[i] {
                '{' if bytes.get(i + 1) == Some(&'{') => {
                    lit.push(b'{');
                    i += 2;
                }
                '}' if bytes.get(i + 1) == Some(&'}') => {
                    lit.push(b'}');
                    i += 2;
                }
                '{' => {
                    let j = (i..bytes.len()).find(|&j| bytes[j] == '}')?;
                    let inner: String = bytes[i + 1..j].iter().collect();
                    let (arg, spec) = match inner.split_once(':') {
                        Some((a, s)) => (a.to_string(), s.to_string()),
                        None => (inner.clone(), String::new()),
                    };
                    if !lit.is_empty() {
                        out.push_str(&format!(
                            "vx_fmt_lit(&mut {target}, {}); ",
                            bytes_array(&lit)
                        ));
                        lit.clear();
                    }
                    let value = if arg.is_empty() {
                        let e = args.get(pos)?;
                        pos += 1;
                        self.render(range_of(*e))
                    } else {
                        arg.clone()
                    };
                    let plus = spec.contains('+');
                    let w = spec.trim_start_matches('+');
                    let zero = w.starts_with('0') && w.len() > 1;
                    let width: usize = if w.is_empty() {
                        0
                    } else {
                        w.parse().ok()?
                    };
                    let f = match (plus, zero || width == 0) {
                        (false, true) if width == 0 => {
                            format!("vx_fmt_display(&mut {target}, {value}); ")
                        }
                        (false, true) => format!(
                            "vx_fmt_zero(&mut {target}, {value}, {width}); "
                        ),
                        (true, true) => format!(
                            "vx_fmt_plus_zero(&mut {target}, {value}, {width}); "
                        ),
                        _ => return None,
                    };
                    out.push_str(&f);
                    i = j + 1;
                }
                c => {
                    let mut b = [0; 4];
                    lit.extend(c.encode_utf8(&mut b).as_bytes());
                    i += 1;
                }
            }
        }
        if !lit.is_empty() {
            out.push_str(&format!("vx_fmt_lit(&mut {target}, {}); ", bytes_array(&lit)));
        }
        out.push('}');
        self.notes.push("write! expanded".into());
        Some(out)
    }

    fn loop_common(
        &mut self,
        kind: &str,
        body: &syn::Block,
        whole: Range<usize>,
        expr: Option<Range<usize>>,
    ) -> usize {
        let k = self.loops;
        self.loops += 1;
        let body_r = range_of(body);
        match self.spec.loops.get(&k) {
            Some(l) => {
                if l.kind != kind && l.kind != "any" {
                    self.errors.push(format!(
                        "lost anchor: loop {k} is a `{kind}`, expected a `{}`",
                        l.kind
                    ));
                }
                if let (Some(e), false) = (expr, l.binder.is_empty()) {
                    self.insert(e.start, format!("{}: ", l.binder));
                }
                let text = self.with_params(&l.text);
                self.insert(body_r.start, format!("\n{text}\n"));
            }
            None => {
                if !self.spec.opts.iter().any(|o| o == "free-loops") {
                    self.errors.push(format!("lost anchor: loop {k} has no contract"));
                }
            }
        }
        let mut s = self.at(&format!("loop {k} start"));
        if self.spec.opts.iter().any(|o| o.starts_with("toks ")) {
            s.insert_str(0, " broadcast use {tok_laws}; ");
        }
        if !s.is_empty() {
            self.insert(body_r.start + 1, s);
        }
        let s = self.at(&format!("loop {k} end"));
        if !s.is_empty() {
            self.insert(body_r.end - 1, s);
        }
        let s = self.at(&format!("loop {k} before"));
        if !s.is_empty() {
            self.insert(whole.start, s);
        }
        let s = self.at(&format!("loop {k} after"));
        if !s.is_empty() {
            self.insert(whole.end, s);
        }
        k
    }
}

/// Is this variable moved away somewhere in the block?
fn moved_in(block: &syn::Block, v: &str) -> bool {
    struct M<'a>(&'a str, bool);
    impl M<'_> {
        fn is(&self, e: &syn::Expr) -> bool {
            matches!(e, syn::Expr::Path(p) if p.path.is_ident(self.0))
        }
    }
    impl<'a> Visit<'a> for M<'_> {
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            self.1 |= c.args.iter().any(|a| self.is(a));
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
            self.1 |= c.args.iter().any(|a| self.is(a));
            self.1 |= c.method == "typed" && self.is(&c.receiver);
            visit::visit_expr_method_call(self, c);
        }
        fn visit_field_value(&mut self, f: &'a syn::FieldValue) {
            self.1 |= self.is(&f.expr);
            visit::visit_field_value(self, f);
        }
        fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
            if let Some(e) = &r.expr {
                self.1 |= self.is(e);
            }
            visit::visit_expr_return(self, r);
        }
        fn visit_local(&mut self, l: &'a syn::Local) {
            if let Some(i) = &l.init {
                self.1 |= self.is(&i.expr);
            }
            visit::visit_local(self, l);
        }
        fn visit_block(&mut self, b: &'a syn::Block) {
            if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
                self.1 |= self.is(e);
            }
            visit::visit_block(self, b);
        }
    }
    let mut m = M(v, false);
    m.visit_block(block);
    m.1
}

fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// Find `pat` in `text` ignoring whitespace differences.
fn find_ws(text: &str, pat: &str) -> Option<Range<usize>> {
    let p: Vec<char> = pat.chars().filter(|c| !c.is_whitespace()).collect();
    if p.is_empty() {
        return None;
    }
    let t: Vec<(usize, char)> =
        text.char_indices().filter(|(_, c)| !c.is_whitespace()).collect();
    for i in 0..t.len().saturating_sub(p.len() - 1) {
        if (0..p.len()).all(|j| t[i + j].1 == p[j]) {
            let end = t[i + p.len() - 1];
            return Some(t[i].0..end.0 + end.1.len_utf8());
        }
    }
    None
}

fn find_stmts(block: &syn::Block, f: &mut dyn FnMut(&syn::Stmt)) {
    struct V<'a>(&'a mut dyn FnMut(&syn::Stmt));
    impl<'ast> Visit<'ast> for V<'_> {
        fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
            (self.0)(s);
            visit::visit_stmt(self, s);
        }
    }
    V(f).visit_block(block);
}

fn pat_ident(p: &syn::Pat) -> Option<String> {
    match p {
        syn::Pat::Ident(i) => Some(i.ident.to_string()),
        syn::Pat::Type(t) => pat_ident(&t.pat),
        _ => None,
    }
}

impl<'ast> Visit<'ast> for Rewriter<'_, '_> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        self.edit(range_of(a), String::new());
    }

    fn visit_block(&mut self, b: &'ast syn::Block) {
        self.block(b, false);
    }

    fn visit_item_fn(&mut self, _: &'ast syn::ItemFn) {}

    fn visit_lit(&mut self, l: &'ast syn::Lit) {
        if let syn::Lit::ByteStr(b) = l {
            if self.spec.opts.iter().any(|o| o == "litfns") {
                let (name, text) = lit_fn(&b.value());
                self.edit(range_of(b), format!("{name}()"));
                self.hoisted.extend(text);
            } else {
                self.edit(range_of(b), bytes_array(&b.value()));
                self.lits.insert(b.value());
            }
        }
        if let syn::Lit::Str(b) = l {
            self.strlits.insert(b.value());
        }
    }

    fn visit_pat(&mut self, p: &'ast syn::Pat) {
        visit::visit_pat(self, p);
    }

    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        visit::visit_expr_match(self, m);
        // Guards on an indexed value.
        if matches!(m.expr.as_ref(), syn::Expr::Index(_)) && m.arms.iter().any(|a| a.guard.is_some()) {
            let x = self.render(range_of(m.expr.as_ref()));
            self.edit(range_of(m.expr.as_ref()), format!("({{ let vx_m = {x}; vx_m }})"));
        }
        // `P if G => B, _ => E` at the end, where G calls: `P => if G { B } else { E }, _ => E`
        if let [.., a, last] = m.arms.as_slice() {
            struct Calls(bool);
            impl<'a> Visit<'a> for Calls {
                fn visit_expr_method_call(&mut self, _: &'a syn::ExprMethodCall) {
                    self.0 = true;
                }
                fn visit_expr_call(&mut self, _: &'a syn::ExprCall) {
                    self.0 = true;
                }
            }
            if let (Some((kw, g)), syn::Pat::Wild(_), None) = (&a.guard, &last.pat, &last.guard) {
                let mut c = Calls(false);
                c.visit_expr(g);
                let plain = matches!(last.body.as_ref(), syn::Expr::Block(b) if b.block.stmts.is_empty())
                    || matches!(last.body.as_ref(), syn::Expr::Lit(_) | syn::Expr::Path(_) | syn::Expr::Tuple(_));
                if c.0 && plain {
                    let (g, b, e) = (
                        self.render(range_of(g.as_ref())),
                        self.render(range_of(a.body.as_ref())),
                        self.render(range_of(last.body.as_ref())),
                    );
                    let r = range_of(kw).start..range_of(a.body.as_ref()).end;
                    let comma = if a.comma.is_none() { "," } else { "" };
                    self.edit(r, format!("=> if {g} {{ {b} }} else {{ {e} }}{comma}"));
                    self.notes.push("guard with calls by a conditional".into());
                }
            }
        }
    }

    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        // `for &x in e` => `for x__r in e { let x = *x__r;`
        // and tuple patterns `for (a, b) in slice` (default binding modes).
        let whole = range_of(f);
        let er = range_of(f.expr.as_ref());
        let enumerated = match f.expr.as_ref() {
            syn::Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => Some(range_of(m.receiver.as_ref())),
            _ => None,
        };
        let k = self.loop_common("for", &f.body, whole.clone(), Some(er.clone()));
        match f.pat.as_ref() {
            syn::Pat::Reference(r) => {
                let inner = self.slice(range_of(r.pat.as_ref())).to_string();
                let tmp = format!("vx_r{k}");
                self.edit(range_of(r), tmp.clone());
                let br = range_of(&f.body);
                match r.pat.as_ref() {
                    syn::Pat::Ident(_) => {
                        self.insert(br.start + 1, format!(" let {inner} = *{tmp}; "))
                    }
                    _ => self
                        .insert(br.start + 1, format!(" let {inner} = *{tmp}; ")),
                }
                self.notes.push("reference pattern in for".into());
            }
            syn::Pat::Tuple(t) if enumerated.is_some() && t.elems.len() == 2 => {
                let tmp = format!("vx_r{k}");
                let i = self.slice(range_of(&t.elems[0])).to_string();
                let mut s = format!(" let {i} = vx_n{k}; vx_n{k} = vx_n{k} + 1;");
                match &t.elems[1] {
                    syn::Pat::Tuple(p) => {
                        for (j, e) in p.elems.iter().enumerate() {
                            let n = self.slice(range_of(e)).to_string();
                            s.push_str(&format!(" let {n} = &{tmp}.{j};"));
                        }
                    }
                    syn::Pat::Reference(r) => {
                        let n = self.slice(range_of(r.pat.as_ref())).to_string();
                        s.push_str(&format!(" let {n} = *{tmp};"));
                    }
                    e => {
                        let n = self.slice(range_of(e)).to_string();
                        s.push_str(&format!(" let {n} = {tmp};"));
                    }
                }
                self.edit(range_of(t), tmp);
                let br = range_of(&f.body);
                self.insert(br.start + 1, s);
                self.insert(whole.start, format!("let mut vx_n{k}: usize = 0; "));
                self.notes.push("enumerate by a counter".into());
            }
            syn::Pat::Tuple(t) => {
                let tmp = format!("vx_r{k}");
                let names: Vec<String> = t
                    .elems
                    .iter()
                    .map(|p| self.slice(range_of(p)).to_string())
                    .collect();
                if self.spec.opts.iter().any(|o| o == "tuple-for-by-ref") {
                    self.edit(range_of(t), tmp.clone());
                    let mut s = String::new();
                    for (i, n) in names.iter().enumerate() {
                        s.push_str(&format!(" let {n} = &{tmp}.{i};"));
                    }
                    let br = range_of(&f.body);
                    self.insert(br.start + 1, s);
                    self.notes.push("tuple pattern by reference in for".into());
                }
            }
            p => self.visit_pat(p),
        }
        if let syn::Expr::Path(p) = f.expr.as_ref() {
            if p.path.get_ident().is_some_and(|i| self.iter_params.contains(&i.to_string())) {
                self.insert(er.end, ".vx_vec()".into());
            }
        }
        // `for u in s.encode_utf16()` => over a slice of the code units.
        if let syn::Expr::MethodCall(m) = f.expr.as_ref() {
            if m.method == "encode_utf16" && m.args.is_empty() {
                if let syn::Pat::Ident(_) = f.pat.as_ref() {
                    let name = self.slice(range_of(f.pat.as_ref())).to_string();
                    let tmp = format!("vx_r{k}");
                    self.edit(range_of(f.pat.as_ref()), tmp.clone());
                    let x = self.slice(range_of(m.receiver.as_ref())).to_string();
                    self.edit(range_of(f.expr.as_ref()), format!("vx_utf16({x})"));
                    let br = range_of(&f.body);
                    self.insert(br.start + 1, format!(" let {name} = *{tmp}; "));
                    self.notes.push("encode_utf16 by its slice form".into());
                    self.block(&f.body, false);
                    return;
                }
            }
        }
        if let Some(r) = enumerated {
            self.edit(r.end..er.end, String::new());
            if let syn::Expr::MethodCall(m) = f.expr.as_ref() {
                self.visit_expr(&m.receiver);
            }
            self.block(&f.body, false);
            return;
        }
        self.visit_expr(&f.expr);
        self.block(&f.body, false);
    }

    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        // `a == b` of a generic type: a call whose contract is `PartialEq::eq`
        let neg = match b.op {
            syn::BinOp::Eq(_) => "",
            syn::BinOp::Ne(_) => "!",
            _ => return visit::visit_expr_binary(self, b),
        };
        if self.spec.opts.iter().any(|o| o == "eq") {
            let (l, o, r) = (range_of(&b.left), range_of(&b.op), range_of(&b.right));
            self.insert(l.start, format!("{neg}vx_eq(&("));
            self.edit(l.end..r.start, "), &(".into());
            let _ = o;
            self.insert(r.end, "))".into());
        }
        visit::visit_expr_binary(self, b)
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let k = self.all_closures;
        self.all_closures += 1;
        if let Some((sig, text)) = self.spec.clos.get(&k).cloned() {
            let whole = range_of(c);
            let head = whole.start..range_of(c.body.as_ref()).start;
            let braces = !matches!(c.body.as_ref(), syn::Expr::Block(_));
            // The parameters are kept unless the directive gives them.
            let params = c
                .inputs
                .iter()
                .map(|p| self.slice(range_of(p)).to_string())
                .collect::<Vec<_>>();
            let h = if sig.starts_with('|') {
                sig.clone()
            } else {
                format!("|{}| {}", params.join(", "), sig)
            };
            // A reference pattern as the first parameter.
            let mut pre = String::new();
            if let (Some(syn::Pat::Reference(p)), true) = (c.inputs.first(), sig.starts_with('|')) {
                let name = sig[1..].split(':').next().unwrap_or("").trim().to_string();
                pre = format!(" let {} = *{name}; ", self.slice(range_of(p.pat.as_ref())));
            }
            if let (Some(syn::Pat::Ident(p)), true) = (c.inputs.first(), sig.starts_with('|')) {
                let name = sig[1..].split(':').next().unwrap_or("").trim().to_string();
                if p.ident != name {
                    pre = format!(" let {} = {name}; ", p.ident);
                }
            }
            if let (Some(syn::Pat::Tuple(p)), true) = (c.inputs.first(), sig.starts_with('|')) {
                let name = sig[1..].split(':').next().unwrap_or("").trim().to_string();
                pre = format!(" let {} = {name}; ", self.slice(range_of(p)));
            }
            let braces = braces || !pre.is_empty();
            self.edit(head, format!("{h}\n{text}\n{}{pre}", if braces { "{ " } else { "" }));
            if braces {
                self.insert(whole.end, " }".into());
            }
            self.notes.push("closure contract".into());
        }
        self.visit_expr(&c.body);
    }

    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        self.loop_common("while", &w.body, range_of(w), None);
        self.visit_expr(&w.cond);
        self.block(&w.body, false);
    }

    fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
        self.loop_common("loop", &w.body, range_of(w), None);
        self.block(&w.body, false);
    }

    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        if let Some(t) = self.macro_text(&m.mac) {
            self.edit(range_of(m), t);
        }
    }

    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        // Immediately invoked closures.
        let mut f = c.func.as_ref();
        while let syn::Expr::Paren(p) = f {
            f = &p.expr;
        }
        if let syn::Expr::Path(p) = f {
            if let Some(id) = p.path.get_ident() {
                if self.mappings.contains(&id.to_string()) {
                    self.edit(range_of(f), format!("{id}.vx_call"));
                    for a in &c.args {
                        self.visit_expr(a);
                    }
                    return;
                }
            }
        }
        // cmp::max(a, b)
        if let syn::Expr::Path(p) = f {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = segs.len();
            if n > 1 && segs[n - 2] == "cmp" && (segs[n - 1] == "max" || segs[n - 1] == "min") && c.args.len() == 2 {
                self.visit_expr(&c.args[0]);
                self.visit_expr(&c.args[1]);
                let (a, b) = (self.render(range_of(&c.args[0])), self.render(range_of(&c.args[1])));
                self.edit(range_of(c), format!("({a}).{}({b})", segs[n - 1]));
                self.notes.push("cmp::max as a method".into());
                return;
            }
        }
        // i32::from(x): lossless, as a cast.
        if let syn::Expr::Path(p) = f {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let ints = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "usize"];
            if segs.len() == 2 && ints.contains(&segs[0].as_str()) && segs[1] == "from" && c.args.len() == 1 {
                self.visit_expr(&c.args[0]);
                let a = self.render(range_of(&c.args[0]));
                self.edit(range_of(c), format!("(({a}) as {})", segs[0]));
                self.notes.push("lossless `from` as a cast".into());
                return;
            }
        }
        if let syn::Expr::Closure(cl) = f {
            if c.args.is_empty() && cl.inputs.is_empty() {
                let k = self.closures;
                self.closures += 1;
                if let Some(l) = self.spec.lifts.get(k).cloned() {
                    visit::visit_expr(self, &cl.body);
                    let mut body = self.render(range_of(cl.body.as_ref()));
                    for (a, b) in &l.subst {
                        body = replace_ident(&body, a, b);
                    }
                    if !body.trim_start().starts_with('{') {
                        body = format!("{{ {body} }}");
                    }
                    self.lifted.push(format!("pub {}\n{}\n{}\n", l.sig, l.contract, body));
                    self.edit(range_of(c), l.call.clone());
                    self.notes.push("lambda-lifted closure".into());
                    return;
                }
            }
        }
        // ManuallyDrop::new(x) => x
        if self.slice(range_of(c.func.as_ref())) == "ManuallyDrop::new" {
            visit::visit_expr_call(self, c);
            let a = self.render(range_of(&c.args[0]));
            self.edit(range_of(c), a);
            self.notes.push("ManuallyDrop::new erased".into());
            return;
        }
        visit::visit_expr_call(self, c);
    }

    fn visit_expr_reference(&mut self, e: &'ast syn::ExprReference) {
        // &X[a..], &X[..b], &X[a..b]
        if e.mutability.is_none() {
            if let syn::Expr::Index(i) = e.expr.as_ref() {
                if let Some(t) = self.slice_of(i) {
                    self.edit(range_of(e), t);
                    return;
                }
            }
        }
        visit::visit_expr_reference(self, e);
    }

    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        // X[a..b].copy_from_slice(Y) => vx_copy_range(&mut X, a, b, Y)
        if m.method == "copy_from_slice" && m.args.len() == 1 && self.spec.opts.iter().any(|o| o == "ranges") {
            if let syn::Expr::Index(i) = m.receiver.as_ref() {
                if let syn::Expr::Range(r) = i.index.as_ref() {
                    if let (syn::RangeLimits::HalfOpen(_), Some(a), Some(b)) = (&r.limits, &r.start, &r.end) {
                        self.visit_expr(&i.expr);
                        self.visit_expr(a);
                        self.visit_expr(b);
                        self.visit_expr(&m.args[0]);
                        let (x, a, b, y) = (
                            self.render(range_of(i.expr.as_ref())),
                            self.render(range_of(a.as_ref())),
                            self.render(range_of(b.as_ref())),
                            self.render(range_of(&m.args[0])),
                        );
                        self.edit(range_of(m), format!("vx_copy_range(&mut {x}, {a}, {b}, {y})"));
                        self.notes.push("copy_from_slice to a range".into());
                        return;
                    }
                }
            }
        }
        // R.extend(X.iter().skip(N)) => R.extend_from_slice(vx_from(&X, N))
        if m.method == "extend" && m.args.len() == 1 && self.spec.opts.iter().any(|o| o == "ranges") {
            if let syn::Expr::MethodCall(k) = &m.args[0] {
                if let (true, 1, syn::Expr::MethodCall(it)) = (k.method == "skip", k.args.len(), k.receiver.as_ref()) {
                    if it.method == "iter" && it.args.is_empty() {
                        self.visit_expr(&m.receiver);
                        self.visit_expr(&it.receiver);
                        self.visit_expr(&k.args[0]);
                        let (r, x, n) = (
                            self.render(range_of(m.receiver.as_ref())),
                            self.render(range_of(it.receiver.as_ref())),
                            self.render(range_of(&k.args[0])),
                        );
                        self.edit(range_of(m), format!("{r}.extend_from_slice(vx_from(&{x}, {n}))"));
                        self.notes.push("extend with a skipped iterator by its slice form".into());
                        return;
                    }
                }
            }
        }
        // X.get(a..b) => vx_get(&X, a, b)
        if m.method == "get" && m.args.len() == 1 && self.spec.opts.iter().any(|o| o == "ranges") {
            if let syn::Expr::Range(r) = &m.args[0] {
                if let (syn::RangeLimits::HalfOpen(_), Some(a), Some(b)) = (&r.limits, &r.start, &r.end) {
                    self.visit_expr(&m.receiver);
                    self.visit_expr(a);
                    self.visit_expr(b);
                    let (x, a, b) = (
                        self.render(range_of(m.receiver.as_ref())),
                        self.render(range_of(a.as_ref())),
                        self.render(range_of(b.as_ref())),
                    );
                    self.edit(range_of(m), format!("vx_get(&{x}, {a}, {b})"));
                    self.notes.push("get by a range".into());
                    return;
                }
            }
        }
        // X[a..].starts_with(..)
        if ["starts_with", "ends_with", "len", "is_empty", "iter"].iter().any(|n| m.method == n) {
            if let syn::Expr::Index(i) = m.receiver.as_ref() {
                if let Some(t) = self.slice_of(i) {
                    for a in &m.args {
                        self.visit_expr(a);
                    }
                    self.edit(range_of(m.receiver.as_ref()), t);
                    return;
                }
            }
        }
        // write!(..).unwrap()
        if m.method == "unwrap" {
            if let syn::Expr::Macro(mac) = m.receiver.as_ref() {
                if mac.mac.path.is_ident("write") {
                    match self.write_text(&mac.mac) {
                        Some(t) => self.edit(range_of(m), t),
                        None => self.errors.push("unsupported write!".into()),
                    }
                    return;
                }
            }
        }
        // X.iter().all(C) => vx_all(X, C), and likewise for `any`, `bytes`, `chars`.
        if (m.method == "all" || m.method == "any") && m.args.len() == 1 {
            if let syn::Expr::MethodCall(it) = m.receiver.as_ref() {
                let n = it.method.to_string();
                if it.args.is_empty() && ["iter", "bytes", "chars"].contains(&n.as_str()) {
                    let suffix = match n.as_str() {
                        "iter" => "",
                        "bytes" => "_bytes",
                        _ => "_chars",
                    };
                    visit::visit_expr_method_call(self, m);
                    let x = self.render(range_of(it.receiver.as_ref()));
                    let c = self.render(range_of(&m.args[0]));
                    self.edit(range_of(m), format!("vx_{}{suffix}({x}, {c})", m.method));
                    self.notes.push(format!("iterator `{n}().{}` by its slice form", m.method));
                    return;
                }
            }
        }
        // X.unwrap_or_else(|_| panic!(..)) => X.vx_or_panic()
        if m.method == "unwrap_or_else" && m.args.len() == 1 {
            if let syn::Expr::Closure(c) = &m.args[0] {
                let mut b = c.body.as_ref();
                let mut diverges = false;
                loop {
                    match b {
                        syn::Expr::Block(k) if k.block.stmts.len() == 1 => match &k.block.stmts[0] {
                            syn::Stmt::Expr(e, _) => b = e,
                            syn::Stmt::Macro(mac) => {
                                diverges = mac.mac.path.is_ident("panic");
                                break;
                            }
                            _ => break,
                        },
                        syn::Expr::Macro(mac) => {
                            diverges = mac.mac.path.is_ident("panic");
                            break;
                        }
                        _ => break,
                    }
                }
                if diverges {
                    self.visit_expr(&m.receiver);
                    let x = self.render(range_of(m.receiver.as_ref()));
                    let f = if self.nopanic() { "unwrap" } else { "vx_or_panic" };
                    self.edit(range_of(m), format!("{x}.{f}()"));
                    self.notes.push("unwrap_or_else with a panic".into());
                    return;
                }
            }
        }
        // X.into_iter() => X.vx_vec() for iterator parameters.
        if m.method == "into_iter" && m.args.is_empty() {
            if let syn::Expr::Path(p) = m.receiver.as_ref() {
                if p.path.get_ident().is_some_and(|i| self.iter_params.contains(&i.to_string())) {
                    self.edit(range_of(&m.method), "vx_vec".into());
                    return;
                }
            }
        }
        // X.into_iter().for_each(|p| { .. }) => for p in X { .. }
        if m.method == "to_be_bytes" && m.args.is_empty() {
            self.edit(range_of(&m.method), "vx_be_bytes".into());
        }
        if m.method == "for_each" && m.args.len() == 1 {
            if let (syn::Expr::MethodCall(it), syn::Expr::Closure(c)) = (m.receiver.as_ref(), &m.args[0]) {
                let param = match it.receiver.as_ref() {
                    syn::Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.iter_params.contains(&i.to_string())),
                    _ => false,
                };
                if let (true, true, 1, syn::Expr::Block(b)) = (it.method == "into_iter", param, c.inputs.len(), c.body.as_ref()) {
                    let xr = range_of(it.receiver.as_ref());
                    let p = self.slice(range_of(&c.inputs[0])).to_string();
                    let k = self.loop_common("for", &b.block, range_of(m), None);
                    let binder = self.spec.loops.get(&k).map(|l| l.binder.clone()).unwrap_or_default();
                    self.insert(xr.start, format!("for {p} in {}", if binder.is_empty() { String::new() } else { binder + ": " }));
                    let br = range_of(&b.block);
                    self.edit(xr.end..br.start, ".vx_vec()".into());
                    self.edit(br.end..range_of(m).end, String::new());
                    self.block(&b.block, false);
                    self.all_closures += 1;
                    self.notes.push("for_each by a loop".into());
                    return;
                }
            }
        }
        // X.map(F) => vx_map(X, F)
        if m.method == "map" && m.args.len() == 1 {
            if let syn::Expr::MethodCall(it) = m.receiver.as_ref() {
                if it.method == "into_iter" || it.method == "iter" {
                    self.visit_expr(&it.receiver);
                    self.visit_expr(&m.args[0]);
                    let x = self.render(range_of(it.receiver.as_ref()));
                    let c = self.render(range_of(&m.args[0]));
                    let f = if it.method == "iter" { "vx_map_ref" } else { "vx_map" };
                    self.edit(range_of(m), format!("{x}.{f}({c})"));
                    self.notes.push("iterator `map` by its collected form".into());
                    return;
                }
            }
        }
        visit::visit_expr_method_call(self, m);
        // Deref expansion on `self`, parameters and their fields.
        let ty = self.place_type(m.receiver.as_ref());
        if let Some(mut ty) = ty {
            let name = m.method.to_string();
            let mut path = String::new();
            while !self.ctx.index.has_inherent(&ty, &name) {
                match self.ctx.index.derefs.get(&ty) {
                    Some((to, field)) => {
                        path.push('.');
                        path.push_str(field);
                        ty = to.clone();
                    }
                    None => {
                        path.clear();
                        break;
                    }
                }
            }
            if !path.is_empty() {
                self.insert(range_of(m.receiver.as_ref()).end, path);
                self.notes.push("deref expanded".into());
            }
        }
    }
}

/// Replace an identifier token.
/// `impl VxItems<impl B>`: the inner type becomes a parameter.
fn nested_impl(text: &mut String) -> Option<String> {
    let i = text.find("impl VxItems<")? + "impl VxItems<".len();
    let j = i + text[i..].find("impl ")?;
    let e = j + text[j..].find(|c| c == ',' || c == '>')?;
    let bound = text[j + 5..e].to_string();
    text.replace_range(j..e, "VxT");
    Some(bound)
}

/// `IntoIterator<Item = T>` => `VxItems<T>`
fn iter_bounds(text: &str) -> String {
    let mut s = text.to_string();
    while let Some(i) = s.find("IntoIterator<Item") {
        let open = i + "IntoIterator".len();
        let mut depth = 0;
        let mut end = s.len();
        let b: Vec<(usize, char)> = s[open..].char_indices().collect();
        for (k, (j, c)) in b.iter().enumerate() {
            match c {
                '<' => depth += 1,
                '>' if k > 0 && b[k - 1].1 != '-' => {
                    depth -= 1;
                    if depth == 0 {
                        end = open + j;
                        break;
                    }
                }
                _ => {}
            }
        }
        let item = s[open + 1..end].split_once('=').map(|x| x.1.trim().to_string()).unwrap_or_default();
        s.replace_range(i..(end + 1).min(s.len()), &format!("VxItems<{item}>"));
    }
    s
}

pub fn replace_ident(text: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = text.chars().collect();
    let is_id = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i < b.len() {
        if is_id(b[i]) && (i == 0 || !is_id(b[i - 1])) {
            let mut j = i;
            while j < b.len() && is_id(b[j]) {
                j += 1;
            }
            let w: String = b[i..j].iter().collect();
            out.push_str(if w == from { to } else { &w });
            i = j;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

/// Text of a struct/enum definition with public fields, filtered derives.
pub fn type_text(src: &Src, item: &crate::index::TypeItem, derives: Option<&str>) -> String {
    use crate::index::TypeItem;
    let mut out = String::new();
    let keep = |attrs: &[syn::Attribute]| -> String {
        if let Some(d) = derives {
            return if d.is_empty() { String::new() } else { format!("#[derive({d})]\n") };
        }
        let mut v = vec![];
        for a in attrs {
            if a.path().is_ident("derive") {
                if let Ok(l) = a.meta.require_list() {
                    for t in l.tokens.clone() {
                        if let TokenTree::Ident(i) = t {
                            let s = i.to_string();
                            if ["Clone", "Copy", "PartialEq", "Eq"].contains(&s.as_str()) {
                                v.push(s);
                            }
                        }
                    }
                }
            }
        }
        // `==` on an enum of plain variants is equality
        if let TypeItem::Enum(_, e) = item {
            if e.variants.iter().all(|v| v.fields.is_empty())
                && v.iter().any(|d| d == "PartialEq")
                && v.iter().any(|d| d == "Eq")
            {
                v.push("Structural".into());
            }
        }
        if v.is_empty() {
            String::new()
        } else {
            format!("#[derive({})]\n", v.join(", "))
        }
    };
    let generics = |g: &syn::Generics| -> String {
        if g.lt_token.is_some() {
            src.text[range_of(&g.lt_token.unwrap()).start..range_of(&g.gt_token.unwrap()).end]
                .to_string()
        } else {
            String::new()
        }
    };
    let ty_text = |t: &syn::Type| -> String {
        let s = src.text[range_of(t)].to_string();
        // ManuallyDrop<T> => T
        if let Some(r) = s.strip_prefix("ManuallyDrop<") {
            return r[..r.len() - 1].to_string();
        }
        // PhantomData<fn() -> T> => PhantomData<T>
        s.replace("PhantomData<fn() -> ", "PhantomData<")
    };
    let fields = |f: &syn::Fields, vis: bool| -> String {
        let p = if vis { "pub " } else { "" };
        match f {
            syn::Fields::Named(n) => {
                let mut s = String::from(" {\n");
                for f in &n.named {
                    s.push_str(&format!(
                        "    {p}{}: {},\n",
                        f.ident.as_ref().unwrap(),
                        ty_text(&f.ty)
                    ));
                }
                s.push('}');
                s
            }
            syn::Fields::Unnamed(u) => {
                let v: Vec<String> =
                    u.unnamed.iter().map(|f| format!("{p}{}", ty_text(&f.ty))).collect();
                format!("({})", v.join(", "))
            }
            syn::Fields::Unit => String::new(),
        }
    };
    match item {
        TypeItem::Struct(_, s) => {
            out.push_str(&keep(&s.attrs));
            out.push_str(&format!("pub struct {}{}", s.ident, generics(&s.generics)));
            out.push_str(&fields(&s.fields, true));
            if !matches!(s.fields, syn::Fields::Named(_)) {
                out.push(';');
            }
            out.push('\n');
        }
        TypeItem::Enum(_, e) => {
            out.push_str(&keep(&e.attrs));
            out.push_str(&format!("pub enum {}{} {{\n", e.ident, generics(&e.generics)));
            for v in &e.variants {
                out.push_str(&format!("    {}{}", v.ident, fields(&v.fields, false)));
                if let Some((_, d)) = &v.discriminant {
                    out.push_str(&format!(" = {}", &src.text[range_of(d)]));
                }
                out.push_str(",\n");
            }
            out.push_str("}\n");
        }
        TypeItem::Const(_, c) => {
            out.push_str(&format!(
                "pub const {}: {} = {};\n",
                c.ident,
                &src.text[range_of(c.ty.as_ref())],
                &src.text[range_of(c.expr.as_ref())]
            ));
        }
    }
    let _ = TokenStream::new();
    out
}

/// The item type of `impl Iterator<Item = T>`.
fn iter_item(ty: &syn::Type) -> Option<std::ops::Range<usize>> {
    let syn::Type::ImplTrait(t) = ty else { return None };
    t.bounds.iter().find_map(|b| {
        let syn::TypeParamBound::Trait(b) = b else { return None };
        let last = b.path.segments.last()?;
        if !last.ident.to_string().ends_with("Iterator") {
            return None;
        }
        let syn::PathArguments::AngleBracketed(a) = &last.arguments else { return None };
        a.args.iter().find_map(|a| match a {
            syn::GenericArgument::AssocType(a) if a.ident == "Item" => Some(range_of(&a.ty)),
            _ => None,
        })
    })
}
