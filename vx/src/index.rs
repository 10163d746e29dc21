use std::collections::BTreeMap;
use std::ops::Range;
use std::path::Path;
use std::rc::Rc;

use proc_macro2::{TokenStream, TokenTree};
use syn::spanned::Spanned;

/// A parsed source text (a file or an expanded macro invocation).
pub struct Src {
    pub name: String,
    pub text: String,
}

pub fn range_of<T: Spanned>(t: &T) -> Range<usize> {
    t.span().byte_range()
}

/// An impl block header and the functions inside.
#[derive(Clone)]
pub struct ImplItem {
    pub src: Rc<Src>,
    pub imp: Rc<syn::ItemImpl>,
    pub trait_name: Option<String>,
    pub self_name: String,
    /// (origin of the method, method): methods coming from a macro without
    /// arguments have their own source text.
    pub methods: Vec<(Rc<Src>, Rc<syn::ImplItemFn>)>,
}

#[derive(Clone)]
pub struct FnItem {
    pub src: Rc<Src>,
    pub item: Rc<syn::ItemFn>,
}

#[derive(Clone)]
pub enum TypeItem {
    Struct(Rc<Src>, Rc<syn::ItemStruct>),
    Enum(Rc<Src>, Rc<syn::ItemEnum>),
    Const(Rc<Src>, Rc<syn::ItemConst>),
}

#[derive(Default)]
pub struct Index {
    pub fns: BTreeMap<String, FnItem>,
    pub impls: Vec<ImplItem>,
    pub types: BTreeMap<String, TypeItem>,
    /// Type name -> (target type name, field), from `deref!` invocations.
    pub derefs: BTreeMap<String, (String, String)>,
    /// Parameterless macros usable in impl blocks: name -> body text.
    pub macros: BTreeMap<String, String>,
    /// bitflags: type -> (bits type, [(flag, expr text)])
    pub bitflags: BTreeMap<String, (String, Vec<(String, String)>)>,
}

pub fn type_name(ty: &syn::Type) -> String {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        _ => "?".into(),
    }
}

impl Index {
    pub fn load(dir: &Path) -> Result<Self, String> {
        let mut index = Index::default();
        let mut files: Vec<_> = std::fs::read_dir(dir)
            .map_err(|e| format!("cannot read {dir:?}: {e}"))?
            .filter_map(|e| e.ok())
            .map(|e| e.path())
            .filter(|p| p.extension().map_or(false, |e| e == "rs"))
            .collect();
        files.sort();
        let mut parsed = vec![];
        let mut texts = vec![];
        for path in files {
            let text = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
            let name = path.file_name().unwrap().to_string_lossy().to_string();
            texts.push((name, text));
        }
        if std::env::var_os("VX_LIST").is_some() {
            return Err(crate::inline::list(&texts));
        }
        crate::inline::inline(&mut texts);
        crate::simplify::simplify(&mut texts);
        crate::refpat::refpat(&mut texts);
        if std::env::var_os("VX_DUMP").is_some() {
            return Err(texts.into_iter().map(|t| t.1).collect());
        }
        for (name, text) in texts {
            let ast =
                syn::parse_file(&text).map_err(|e| format!("cannot parse {name}: {e}"))?;
            parsed.push((Rc::new(Src { name, text }), ast));
        }
        // Macros first.
        for (src, ast) in &parsed {
            for item in &ast.items {
                if let syn::Item::Macro(m) = item {
                    index.macro_def(src, m);
                }
            }
        }
        for (src, ast) in parsed {
            index.items(&src, ast.items);
        }
        Ok(index)
    }

    fn macro_def(&mut self, src: &Src, m: &syn::ItemMacro) {
        let Some(ident) = &m.ident else { return };
        if !m.mac.path.is_ident("macro_rules") {
            return;
        }
        // `() => { BODY };`
        let tokens: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
        if tokens.len() < 4 {
            return;
        }
        if let (TokenTree::Group(args), TokenTree::Group(body)) = (&tokens[0], &tokens[3])
        {
            if args.stream().is_empty() {
                let r = body.span().byte_range();
                let body = src.text[r.start + 1..r.end - 1].to_string();
                self.macros.insert(ident.to_string(), body);
            }
        }
    }

    fn items(&mut self, src: &Rc<Src>, items: Vec<syn::Item>) {
        for item in items {
            match item {
                syn::Item::Fn(f) => {
                    if has_cfg_test(&f.attrs) {
                        continue;
                    }
                    let key = f.sig.ident.to_string();
                    self.fns.insert(
                        format!("{}:{}", src.name, key),
                        FnItem { src: src.clone(), item: Rc::new(f) },
                    );
                }
                syn::Item::Impl(i) => self.add_impl(src, i),
                syn::Item::Struct(s) => {
                    let k = s.ident.to_string();
                    self.types.insert(k, TypeItem::Struct(src.clone(), Rc::new(s)));
                }
                syn::Item::Enum(s) => {
                    let k = s.ident.to_string();
                    self.types.insert(k, TypeItem::Enum(src.clone(), Rc::new(s)));
                }
                syn::Item::Const(s) => {
                    let k = s.ident.to_string();
                    self.types.insert(k, TypeItem::Const(src.clone(), Rc::new(s)));
                }
                syn::Item::Mod(m) => {
                    if has_cfg_test(&m.attrs) {
                        continue;
                    }
                    if let Some((_, items)) = m.content {
                        self.items(src, items);
                    }
                }
                syn::Item::Macro(m) => self.macro_item(src, m),
                _ => {}
            }
        }
    }

    fn add_impl(&mut self, src: &Rc<Src>, i: syn::ItemImpl) {
        if has_cfg_test(&i.attrs) {
            return;
        }
        let mut methods = vec![];
        for it in &i.items {
            match it {
                syn::ImplItem::Fn(f) => methods.push((src.clone(), Rc::new(f.clone()))),
                syn::ImplItem::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if let Some(body) = self.macros.get(&name) {
                        let text = format!("impl X {{ {body} }}");
                        if let Ok(imp) = syn::parse_str::<syn::ItemImpl>(&text) {
                            let s = Rc::new(Src {
                                name: format!("{}!{}", src.name, name),
                                text,
                            });
                            for it in imp.items {
                                if let syn::ImplItem::Fn(f) = it {
                                    methods.push((s.clone(), Rc::new(f)));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        self.impls.push(ImplItem {
            src: src.clone(),
            trait_name: i
                .trait_
                .as_ref()
                .map(|(_, p, _)| p.segments.last().unwrap().ident.to_string()),
            self_name: type_name(&i.self_ty),
            imp: Rc::new(i),
            methods,
        });
    }

    fn macro_item(&mut self, src: &Rc<Src>, m: syn::ItemMacro) {
        let name = m.mac.path.segments.last().unwrap().ident.to_string();
        let r = match m.mac.delimiter {
            syn::MacroDelimiter::Paren(d) => d.span.join().byte_range(),
            syn::MacroDelimiter::Brace(d) => d.span.join().byte_range(),
            syn::MacroDelimiter::Bracket(d) => d.span.join().byte_range(),
        };
        let body = src.text[r.start + 1..r.end - 1].to_string();
        match name.as_str() {
            // writer!(Ty: |obj| BODY);
            "writer" => {
                let Some((ty, rest)) = body.split_once(':') else { return };
                let rest = rest.trim_start();
                let Some(rest) = rest.strip_prefix('|') else { return };
                let Some((obj, rest)) = rest.split_once('|') else { return };
                let ty = ty.trim();
                let text = format!(
                    "impl<'a> Writer<'a> for {ty}<'a> {{ fn start({obj}: Obj<'a>) -> Self {{ {rest} }} }}"
                );
                if let Ok(i) = syn::parse_str::<syn::ItemImpl>(&text) {
                    let s =
                        Rc::new(Src { name: format!("{}!writer", src.name), text });
                    self.add_impl(&s, i);
                }
            }
            // deref!('a, From<'a> => To<'a>, field);
            "deref" => {
                let parts: Vec<&str> = body.splitn(2, ',').collect();
                if parts.len() != 2 {
                    return;
                }
                let Some((from, rest)) = parts[1].split_once("=>") else { return };
                let Some(comma) = rest.rfind(',') else { return };
                let (to, field) = (&rest[..comma], &rest[comma + 1..]);
                let head = |s: &str| {
                    let s = s.trim();
                    let s = s.split('<').next().unwrap();
                    s.rsplit("::").next().unwrap().trim().to_string()
                };
                self.derefs.insert(head(from), (head(to), field.trim().to_string()));
            }
            "bitflags" => self.bitflags(&body),
            _ => {}
        }
    }

    fn bitflags(&mut self, body: &str) {
        let Ok(ts) = body.parse::<TokenStream>() else { return };
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i + 4 < toks.len() + 0 {
            if toks[i].to_string() == "struct" {
                let name = toks[i + 1].to_string();
                let bits = toks[i + 3].to_string();
                if let TokenTree::Group(g) = &toks[i + 4] {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut flags = vec![];
                    let mut j = 0;
                    while j < inner.len() {
                        if inner[j].to_string() == "const" {
                            let fname = inner[j + 1].to_string();
                            let mut k = j + 3;
                            let mut ex = vec![];
                            while k < inner.len() && inner[k].to_string() != ";" {
                                ex.push(inner[k].clone());
                                k += 1;
                            }
                            let ex: TokenStream = ex.into_iter().collect();
                            flags.push((fname, ex.to_string()));
                            j = k;
                        }
                        j += 1;
                    }
                    self.bitflags.insert(name, (bits, flags));
                }
            }
            i += 1;
        }
    }

    /// Find methods by `Type::name` or `Trait for Type::name`.
    pub fn find_methods(
        &self,
        tr: Option<&str>,
        ty: &str,
        name: &str,
    ) -> Vec<(&ImplItem, Rc<Src>, Rc<syn::ImplItemFn>)> {
        let mut v = vec![];
        for i in &self.impls {
            if i.self_name == ty && i.trait_name.as_deref() == tr {
                for (s, m) in &i.methods {
                    if m.sig.ident == name {
                        v.push((i, s.clone(), m.clone()));
                    }
                }
            }
        }
        v
    }

    /// The name of the type of a field.
    pub fn field_type(&self, ty: &str, field: &str) -> Option<String> {
        let Some(TypeItem::Struct(_, s)) = self.types.get(ty) else { return None };
        s.fields
            .iter()
            .find(|f| f.ident.as_ref().map_or(false, |i| i == field))
            .map(|f| type_name(&f.ty))
    }

    pub fn has_inherent(&self, ty: &str, name: &str) -> bool {
        !self.find_methods(None, ty, name).is_empty()
    }
}

fn has_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg")
            && a.meta
                .require_list()
                .map(|l| l.tokens.to_string() == "test")
                .unwrap_or(false)
    })
}
