use std::path::Path;
use std::rc::Rc;

use crate::index::{range_of, ImplItem, Index, Src, TypeItem};
use crate::rewrite::{type_text, Ctx, FnSpec, Lift, LoopSpec, Rewriter};

#[derive(Default)]
pub struct Out {
    pub text: String,
    pub map: Vec<Entry>,
    pub stack: Vec<String>,
    pub drop_methods: Vec<String>,
    pub proved_in: Option<String>,
    pub consume_methods: Vec<String>,
    pub vars: std::collections::BTreeMap<String, String>,
}

pub struct Entry {
    pub item: String,
    pub file: String,
    pub start: usize,
    pub end: usize,
    pub src_line: usize,
    pub errors: Vec<String>,
    pub notes: Vec<String>,
    pub assumed: bool,
    pub proved_in: String,
    pub kind: &'static str,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Out {
    pub fn map_json(&self) -> String {
        let mut s = String::from("[\n");
        for (i, e) in self.map.iter().enumerate() {
            if i > 0 {
                s.push_str(",\n");
            }
            let l = |v: &Vec<String>| {
                v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", ")
            };
            s.push_str(&format!(
                "{{\"item\": {}, \"file\": {}, \"kind\": {}, \"start\": {}, \"end\": {}, \"src_line\": {}, \"assumed\": {}, \"proved_in\": {}, \"errors\": [{}], \"notes\": [{}]}}",
                esc(&e.item), esc(&e.file), esc(e.kind), e.start, e.end, e.src_line, e.assumed, esc(&e.proved_in), l(&e.errors), l(&e.notes)
            ));
        }
        s.push_str("\n]\n");
        s
    }

    fn line(&self) -> usize {
        self.text.matches('\n').count() + 1
    }
}

fn directive(line: &str) -> Option<&str> {
    line.trim_start().strip_prefix("//@").map(|s| s.trim())
}

thread_local! {
    /// Whether guards are requirements under which nothing panics, or facts that
    /// hold when a function returns.
    static NOPANIC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// `N"abc"`, `W"abc"` and `B"abc"` stand for name tokens, words and bytes, and
/// `//@ put` for the contract of a method that adds entries or items.
fn shorthands(text: &str) -> String {
    let mut o = String::new();
    let mut lines = text.lines();
    while let Some(l) = lines.next() {
        let t = l.trim_start();
        let nopanic = NOPANIC.with(|n| n.get());
        if let Some(r) = t.strip_prefix("//@ guard-req ") {
            if nopanic {
                o.push_str(&format!("        {},\n", literals(r)));
            }
            continue;
        }
        if let Some(r) = t.strip_prefix("//@ guard-ens ") {
            if !nopanic {
                o.push_str(&format!("        {},\n", literals(r)));
            }
            continue;
        }
        if t == "//@ guard-opt" {
            if nopanic {
                o.push_str("//@ opt nopanic\n");
            }
            continue;
        }
        let kind = ["put", "obj", "sub"].into_iter().find(|k| t.starts_with(&format!("//@ {k} ")));
        let Some(kind) = kind else {
            o.push_str(&literals(l));
            o.push('\n');
            continue;
        };
        let a: Vec<&str> = t.split_whitespace().skip(2).collect();
        let (file, f, field) = (a[0], a[1], a[2]);
        let (mut req, mut ens, mut toks, mut after, mut opts) = (String::new(), String::new(), String::new(), String::new(), String::new());
        for l in lines.by_ref() {
            let t = l.trim_start();
            if t == "//@ end" {
                break;
            } else if let Some(r) = t.strip_prefix("//@ req ") {
                req.push_str(&format!(" {},", literals(r).trim()));
            } else if let Some(r) = t.strip_prefix("//@ ens ") {
                ens.push_str(&format!("        {},\n", literals(r).trim()));
            } else if let Some(r) = t.strip_prefix("//@ guard ") {
                if NOPANIC.with(|n| n.get()) {
                    req.push_str(&format!(" {},", literals(r).trim()));
                    opts.push_str("//@ opt nopanic\n");
                } else {
                    ens.push_str(&format!("        {},\n", literals(r).trim()));
                }
            } else if let Some(r) = t.strip_prefix("//@ toks ") {
                toks = literals(r);
            } else if t.starts_with("//@ opt ") {
                opts.push_str(t);
                opts.push('\n');
            } else {
                after.push_str(&literals(l));
                after.push('\n');
            }
        }
        if after.trim_start().starts_with("requires") || toks.is_empty() {
            o.push_str(&format!("//@ error bad shorthand for {f}\n"));
        }
        let owner = field.strip_suffix(".dict").filter(|p| p.ends_with("stream"));
        match kind {
            "put" => {
                let n = a[3..].join(" ");
                let data = owner.map(|p| format!("        res.{p}.data == old(self).{p}.data,\n")).unwrap_or_default();
                o.push_str(&format!(
                    "//@ fn {file} {f}\n//@ ret res\n//@ opt toks self.{field}.buf\n{opts}//@ contract\n    requires old(self).{field}.wf(), old(self).{field}.len + {n} <= i32::MAX,{req}\n    ensures\n        (*res).{field}.put(old(self).{field}, {toks}, ({n}) as int),\n        *final(res) == *final(self),\n{data}{ens}{after}//@ end\n"
                ));
            }
            // A method that consumes the object `field` and writes it.
            "obj" => o.push_str(&format!(
                "//@ fn {file} {f}\n//@ opt toks self.{field}.buf\n{opts}    requires self.{field}.wf(),{req}\n    ensures\n        wrote(old(self.{field}.buf)@, final(self.{field}.buf)@, {toks} + end_toks(self.{field}.indirect)),\n        self.{field}.indirect ==> gap_end(final(self.{field}.buf)@),\n{ens}{after}//@ end\n"
            )),
            // A method that starts a writer `res.inner` after adding the entries.
            _ => {
                let inner = a[3];
                let n = a[4..].join(" ");
                let data = owner.map(|p| format!("        final(self).{p}.data == old(self).{p}.data,\n")).unwrap_or_default();
                o.push_str(&format!(
                    "//@ fn {file} {f}\n//@ ret res\n//@ opt toks self.{field}.buf\n{opts}//@ contract\n    requires old(self).{field}.wf(), old(self).{field}.len + {n} <= i32::MAX,{req}\n    ensures\n        res.{inner}.wf(), !res.{inner}.indirect,\n        wrote((*old(self).{field}.buf)@, (*res.{inner}.buf)@, {toks}),\n        *final(res.{inner}.buf) == *final(self).{field}.buf,\n        final(self).{field}.same(old(self).{field}), final(self).{field}.wf(), final(self).{field}.len == old(self).{field}.len + {n},\n{data}{ens}{after}//@ end\n"
                ));
            }
        }
    }
    o
}

fn literals(l: &str) -> String {
    let b: Vec<char> = l.chars().collect();
    let (mut o, mut i) = (String::new(), 0);
    while i < b.len() {
        let lit = matches!(b[i], 'N' | 'W' | 'B')
            && b.get(i + 1) == Some(&'"')
            && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_' || b[i - 1] == '"'));
        if lit {
            if let Some(k) = b[i + 2..].iter().position(|c| *c == '"') {
                let bytes: Vec<String> = b[i + 2..i + 2 + k].iter().map(|c| format!("{}u8", *c as u32)).collect();
                let s = format!("seq![{}]", bytes.join(", "));
                o.push_str(&match b[i] {
                    'N' => format!("Tok::Name({s})"),
                    'W' => format!("Tok::Reg({s})"),
                    _ => s,
                });
                i += k + 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

pub fn expand(index: &Index, path: &Path, out: &mut Out) -> Result<(), String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{path:?}: {e}"))?;
    let text = shorthands(&text);
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let Some(d) = directive(lines[i]) else {
            if let Some(unit) = &out.proved_in {
                let l = lines[i].trim_start();
                if ["proof fn", "pub proof fn", "pub broadcast proof fn"].iter().any(|p| l.starts_with(p)) {
                    out.text.push_str(&format!("#[verifier::external_body] /* proved in {unit} */ "));
                }
            }
            out.text.push_str(lines[i]);
            out.text.push('\n');
            i += 1;
            continue;
        };
        let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
        let rest = rest.trim();
        match cmd {
            // The same contracts, with the bodies proved in another unit.
            "include-proved" => {
                let (unit, file) =
                    rest.split_once(' ').ok_or("include-proved UNIT FILE")?;
                let p = path.parent().unwrap().join(file.trim());
                let old = out.proved_in.replace(unit.to_string());
                expand(index, &p, out)?;
                out.proved_in = old;
                i += 1;
            }
            "include" => {
                let p = path.parent().unwrap().join(rest);
                expand(index, &p, out)?;
                i += 1;
            }
            "nopanic-mode" => {
                NOPANIC.with(|n| n.set(true));
                i += 1;
            }
            "drop-methods" => {
                out.drop_methods = rest.split_whitespace().map(|s| s.into()).collect();
                i += 1;
            }
            "type" => {
                expand_type(index, rest, out);
                i += 1;
            }
            "bitflags" => {
                expand_bitflags(index, rest, out);
                i += 1;
            }
            "fn" => {
                let (spec, next) = parse_fn(&lines, i + 1)?;
                expand_fn(index, rest, spec, out);
                i = next;
            }
            "impl" => {
                let mut j = i + 1;
                let mut inject = String::new();
                let mut methods: Vec<(String, FnSpec)> = vec![];
                loop {
                    if j >= lines.len() {
                        return Err(format!("unterminated impl in {path:?}"));
                    }
                    match directive(lines[j]) {
                        Some("endimpl") => {
                            j += 1;
                            break;
                        }
                        Some(d) if d.starts_with("method ") => {
                            let name = d["method ".len()..].trim().to_string();
                            let (spec, next) = parse_fn(&lines, j + 1)?;
                            methods.push((name, spec));
                            j = next;
                        }
                        Some(d) => return Err(format!("unexpected `{d}` in impl")),
                        None => {
                            inject.push_str(lines[j]);
                            inject.push('\n');
                            j += 1;
                        }
                    }
                }
                expand_impl(index, rest, inject, methods, out);
                i = j;
            }
            other => return Err(format!("unknown directive `{other}` in {path:?}")),
        }
    }
    Ok(())
}

/// Parse the sections of a function up to `//@ end`.
fn parse_fn(lines: &[&str], mut i: usize) -> Result<(FnSpec, usize), String> {
    enum Sec {
        Contract,
        Loop(usize),
        At(usize),
        Lift(usize),
        Inner(usize),
        Clo(usize),
    }
    let mut spec = FnSpec::default();
    let mut sec = Sec::Contract;
    while i < lines.len() {
        if let Some(d) = directive(lines[i]) {
            let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match cmd {
                "end" => return Ok((spec, i + 1)),
                "ret" => spec.ret = Some(rest.into()),
                "rename" => spec.rename = Some(rest.into()),
                "opt" => spec.opts.push(rest.into()),
                "external-body" => spec.external_body = true,
                "loop" => {
                    let parts: Vec<&str> = rest.split_whitespace().collect();
                    let k = parts[0].parse::<usize>().map_err(|e| e.to_string())?;
                    spec.loops.insert(
                        k,
                        LoopSpec {
                            kind: parts.get(1).unwrap_or(&"while").to_string(),
                            binder: parts.get(2).unwrap_or(&"").to_string(),
                            text: String::new(),
                        },
                    );
                    sec = Sec::Loop(k);
                }
                "at" => {
                    spec.ats.push((rest.into(), String::new()));
                    sec = Sec::At(spec.ats.len() - 1);
                }
                "rewrite" | "rewrite?" => {
                    let (a, b) = rest
                        .split_once("=>>")
                        .ok_or_else(|| format!("bad rewrite `{rest}`"))?;
                    let opt = if cmd == "rewrite?" { "?" } else { "" };
                    spec.rewrites.push((format!("{opt}{}", a.trim()), b.trim().into()));
                }
                "lift-closure" => {
                    // sig ;; call ;; a=b,c=d
                    let p: Vec<&str> = rest.split(";;").collect();
                    spec.lifts.push(Lift {
                        sig: p[0].trim().into(),
                        call: p[1].trim().into(),
                        subst: p
                            .get(2)
                            .unwrap_or(&"")
                            .split(',')
                            .filter_map(|s| s.split_once('='))
                            .map(|(a, b)| (a.trim().into(), b.trim().into()))
                            .collect(),
                        contract: String::new(),
                    });
                    sec = Sec::Lift(spec.lifts.len() - 1);
                }
                "closure" => {
                    let (k, sig) = rest.split_once(' ').unwrap_or((rest, ""));
                    let k = k.parse::<usize>().map_err(|e| e.to_string())?;
                    spec.clos.insert(k, (sig.trim().into(), String::new()));
                    sec = Sec::Clo(k);
                }
                "inner" => {
                    let p: Vec<&str> = rest.split_whitespace().collect();
                    spec.inner.push((
                        p[0].into(),
                        p.get(1).unwrap_or(&"").to_string(),
                        String::new(),
                    ));
                    sec = Sec::Inner(spec.inner.len() - 1);
                }
                "contract" => sec = Sec::Contract,
                other => return Err(format!("unknown section `{other}`")),
            }
        } else {
            let t = match sec {
                Sec::Contract => &mut spec.contract,
                Sec::Loop(k) => &mut spec.loops.get_mut(&k).unwrap().text,
                Sec::At(k) => &mut spec.ats[k].1,
                Sec::Lift(k) => &mut spec.lifts[k].contract,
                Sec::Inner(k) => &mut spec.inner[k].2,
                Sec::Clo(k) => &mut spec.clos.get_mut(&k).unwrap().1,
            };
            t.push_str(lines[i]);
            t.push('\n');
        }
        i += 1;
    }
    Err("unterminated function section".into())
}

fn line_of(src: &Src, pos: usize) -> usize {
    src.text[..pos].matches('\n').count() + 1
}

fn fail(out: &mut Out, item: &str, kind: &'static str, msg: String) {
    let l = out.line();
    out.text.push_str(&format!("// vx: {msg}\n"));
    out.map.push(Entry {
        item: item.into(),
        file: String::new(),
        start: l,
        end: l,
        src_line: 0,
        errors: vec![msg],
        notes: vec![],
        assumed: false,
        proved_in: out.proved_in.clone().unwrap_or_default(),
        kind,
    });
}

fn expand_type(index: &Index, rest: &str, out: &mut Out) {
    let (name, derives) = match rest.split_once(" derives=") {
        Some((n, d)) => (n.trim(), Some(d.trim())),
        None => (rest, None),
    };
    let Some(item) = index.types.get(name) else {
        return fail(out, name, "type", format!("lost anchor: type {name}"));
    };
    let (src, pos) = match item {
        TypeItem::Struct(s, i) => (s.clone(), range_of(i.as_ref()).start),
        TypeItem::Enum(s, i) => (s.clone(), range_of(i.as_ref()).start),
        TypeItem::Const(s, i) => (s.clone(), range_of(i.as_ref()).start),
    };
    let start = out.line();
    out.text.push_str(&type_text(&src, item, derives));
    let end = out.line();
    out.map.push(Entry {
        item: name.into(),
        file: src.name.clone(),
        start,
        end,
        src_line: line_of(&src, pos),
        errors: vec![],
        notes: vec![],
        assumed: false,
        proved_in: out.proved_in.clone().unwrap_or_default(),
        kind: "type",
    });
}

/// `//@ bitflags Name`: the constants of a bitflags type as plain constants.
fn expand_bitflags(index: &Index, name: &str, out: &mut Out) {
    let Some((bits, flags)) = index.bitflags.get(name) else {
        return fail(out, name, "type", format!("lost anchor: bitflags {name}"));
    };
    let start = out.line();
    out.text.push_str(&format!(
        "#[derive(Clone, Copy)]\npub struct {name} {{ pub b: {bits} }}\nimpl {name} {{\n    \
         pub fn bits(&self) -> (r: {bits}) ensures r == self.b {{ self.b }}\n    \
         pub fn empty() -> (r: Self) ensures r.b == 0 {{ Self {{ b: 0 }} }}\n    \
         pub fn contains(&self, o: Self) -> (r: bool) ensures r == (self.b & o.b == o.b) {{ self.b & o.b == o.b }}\n"
    ));
    for (f, e) in flags {
        out.text.push_str(&format!("    pub const {f}: {name} = {name} {{ b: {e} }};\n"));
    }
    out.text.push_str("}\n");
    for (f, e) in flags {
        out.text.push_str(&format!("pub const {name}_{f}: {bits} = {e};\n"));
    }
    let end = out.line();
    out.map.push(Entry {
        item: name.into(),
        file: String::new(),
        start,
        end,
        src_line: 0,
        errors: vec![],
        notes: vec![],
        assumed: false,
        proved_in: out.proved_in.clone().unwrap_or_default(),
        kind: "type",
    });
}

fn impl_header(i: &ImplItem, with_trait: bool) -> String {
    let src = &i.src.text;
    let mut s = String::from("impl");
    let g = &i.imp.generics;
    if g.lt_token.is_some() {
        let r = range_of(&g.lt_token.unwrap()).start..range_of(&g.gt_token.unwrap()).end;
        s.push_str(&src[r]);
    }
    s.push(' ');
    if with_trait {
        if let Some((_, p, _)) = &i.imp.trait_ {
            s.push_str(&src[range_of(p)]);
            s.push_str(" for ");
        }
    }
    s.push_str(&src[range_of(i.imp.self_ty.as_ref())]);
    if let Some(w) = &g.where_clause {
        s.push(' ');
        s.push_str(&src[range_of(w)]);
    }
    s.push_str(" {\n");
    s
}

fn expand_fn(index: &Index, rest: &str, mut spec: FnSpec, out: &mut Out) {
    let (file, path) = rest.split_once(' ').unwrap_or(("", rest));
    let path = path.trim();
    let (tr, tail) = match path.split_once(" for ") {
        Some((t, r)) => (Some(t.trim()), r.trim()),
        None => (None, path),
    };
    if let Some((ty, name)) = tail.rsplit_once("::") {
        let found = index.find_methods(tr, ty, name);
        if found.len() != 1 {
            return fail(
                out,
                path,
                "fn",
                format!("lost anchor: fn {path} found {} times", found.len()),
            );
        }
        let (imp, src, m) = &found[0];
        if tr == Some("Drop") && spec.rename.is_none() {
            spec.rename = Some("vx_drop".into());
        }
        let header = impl_header(imp, false);
        emit(
            index,
            out,
            path,
            src,
            Some(ty.to_string()),
            Some(&header),
            &m.attrs,
            &m.sig,
            &m.block,
            range_of(m.as_ref()),
            spec,
            false,
        );
    } else {
        let Some(f) = index.fns.get(&format!("{file}:{tail}")) else {
            return fail(out, path, "fn", format!("lost anchor: fn {tail}"));
        };
        emit(
            index,
            out,
            path,
            &f.src.clone(),
            None,
            None,
            &f.item.attrs,
            &f.item.sig,
            &f.item.block,
            range_of(f.item.as_ref()),
            spec,
            false,
        );
    }
}

#[allow(clippy::too_many_arguments)]
/// Items that the driver could not get decided are only assumed.
fn degrade(name: &str, spec: &mut FnSpec, out: &Out) {
    if out.proved_in.is_some() {
        spec.external_body = true;
    }
    let list = std::env::var("VX_ASSUME").unwrap_or_default();
    if list.split(';').any(|x| x == name) {
        spec.external_body = true;
    }
    if spec.external_body {
        let old = std::mem::take(spec);
        spec.external_body = true;
        spec.contract = old.contract;
        spec.ret = old.ret;
        spec.rename = old.rename;
        spec.opts = old.opts.into_iter().filter(|o| !o.starts_with("attr")).collect();
    }
}

fn emit(
    index: &Index,
    out: &mut Out,
    name: &str,
    src: &Rc<Src>,
    self_name: Option<String>,
    header: Option<&str>,
    attrs: &[syn::Attribute],
    sig: &syn::Signature,
    block: &syn::Block,
    whole: std::ops::Range<usize>,
    mut spec: FnSpec,
    is_trait: bool,
) {
    degrade(name, &mut spec, out);
    let drop_methods = out.drop_methods.clone();
    let ctx = Ctx {
        index,
        self_name,
        drop_methods,
        consume_methods: out.consume_methods.clone(),
    };
    let mut rw = Rewriter::new(&ctx, src, &spec);
    let src_line = line_of(src, whole.start);
    let text = rw.function(attrs, sig, block, whole, is_trait);
    let start = out.line();
    for h in &rw.hoisted {
        out.text.push_str(h);
        out.text.push('\n');
    }
    if let Some(h) = header {
        out.text.push_str(h);
    }
    out.text.push_str(&text);
    out.text.push('\n');
    for l in &rw.lifted {
        out.text.push_str(l);
    }
    if header.is_some() {
        out.text.push_str("}\n");
    }
    let end = out.line();
    let mut notes = rw.notes.clone();
    for (a, b) in &spec.rewrites {
        notes.push(format!("rewrite `{a}` => `{b}`"));
    }
    out.map.push(Entry {
        item: name.into(),
        file: src.name.clone(),
        start,
        end,
        src_line,
        errors: rw.errors.clone(),
        notes,
        assumed: spec.external_body,
        proved_in: out.proved_in.clone().unwrap_or_default(),
        kind: "fn",
    });
}

fn expand_impl(
    index: &Index,
    rest: &str,
    inject: String,
    methods: Vec<(String, FnSpec)>,
    out: &mut Out,
) {
    let (_file, path) = rest.split_once(' ').unwrap_or(("", rest));
    // `Trait for T as Name` puts the impl under another trait.
    let (path, alias) = match path.trim().split_once(" as ") {
        Some((p, a)) => (p.trim(), Some(a.trim())),
        None => (path.trim(), None),
    };
    let Some((tr, ty)) = path.split_once(" for ") else {
        return fail(out, path, "fn", format!("bad impl path {path}"));
    };
    let (tr, ty) = (tr.trim(), ty.trim());
    let found: Vec<&ImplItem> = index
        .impls
        .iter()
        .filter(|i| i.trait_name.as_deref() == Some(tr) && i.self_name == ty)
        .collect();
    if found.len() != 1 {
        return fail(
            out,
            path,
            "fn",
            format!("lost anchor: impl {path} found {} times", found.len()),
        );
    }
    let imp = found[0];
    let mut header = impl_header(imp, true);
    if let Some(a) = alias {
        header = header.replacen(&format!(" {tr} for "), &format!(" {a} for "), 1);
    }
    out.text.push_str(&header);
    out.text.push_str(&inject);
    for it in &imp.imp.items {
        match it {
            syn::ImplItem::Const(c) => {
                let r = range_of(&c.const_token).start..range_of(c).end;
                out.text.push_str(&imp.src.text[r]);
                out.text.push('\n');
            }
            syn::ImplItem::Type(c) => {
                let r = range_of(&c.type_token).start..range_of(c).end;
                out.text.push_str(&imp.src.text[r]);
                out.text.push('\n');
            }
            _ => {}
        }
    }
    // `extra` functions lifted from closures must live outside trait impls.
    let mut lifted_at = vec![];
    for (src, m) in &imp.methods {
        let name = m.sig.ident.to_string();
        let spec = methods
            .iter()
            .find(|(n, _)| *n == name)
            .map(|(_, s)| s.clone())
            .unwrap_or_default();
        let has_lift = !spec.lifts.is_empty();
        if has_lift {
            // Emit into the buffer, then move lifted functions out: they are
            // re-emitted as free functions after the impl.
            let drop_methods = out.drop_methods.clone();
            let ctx = Ctx {
                index,
                self_name: Some(ty.to_string()),
                drop_methods,
                consume_methods: vec![],
            };
            let mut spec = spec;
            degrade(&format!("{path}::{name}"), &mut spec, out);
            let mut rw = Rewriter::new(&ctx, src, &spec);
            let whole = range_of(m.as_ref());
            let src_line = line_of(src, whole.start);
            let text = rw.function(&m.attrs, &m.sig, &m.block, whole, true);
            let start = out.line();
            out.text.push_str(&text);
            out.text.push('\n');
            let end = out.line();
            lifted_at.extend(rw.lifted.clone());
            out.map.push(Entry {
                item: format!("{path}::{name}"),
                file: src.name.clone(),
                start,
                end,
                src_line,
                errors: rw.errors.clone(),
                notes: rw.notes.clone(),
                assumed: spec.external_body,
                proved_in: out.proved_in.clone().unwrap_or_default(),
                kind: "fn",
            });
            continue;
        }
        emit(
            index,
            out,
            &format!("{path}::{name}"),
            src,
            Some(ty.to_string()),
            None,
            &m.attrs,
            &m.sig,
            &m.block,
            range_of(m.as_ref()),
            spec,
            true,
        );
    }
    for (n, _) in &methods {
        if !imp.methods.iter().any(|(_, m)| m.sig.ident == n) {
            fail(out, path, "fn", format!("lost anchor: method {n} of {path}"));
        }
    }
    out.text.push_str("}\n");
    for l in lifted_at {
        let start = out.line();
        out.text.push_str(&l);
        let end = out.line();
        out.map.push(Entry {
            item: format!("{path} (lifted closure)"),
            file: imp.src.name.clone(),
            start,
            end,
            src_line: 0,
            errors: vec![],
            notes: vec![],
            assumed: false,
            proved_in: out.proved_in.clone().unwrap_or_default(),
            kind: "fn",
        });
    }
}
