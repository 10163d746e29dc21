//! Development aid: lists the methods, enums and writer types of the crate as JSON.
use quote::ToTokens;
use serde_json::{json, Value};
use syn::spanned::Spanned;
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let mut out: Vec<Value> = vec![];
    let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        let file = syn::parse_file(&text).unwrap();
        items(&name, &text, &file.items, &mut out);
    }
    println!("{}", serde_json::to_string(&out).unwrap());
}
fn src(text: &str, s: proc_macro2::Span) -> String {
    let r = s.byte_range();
    text[r].split_whitespace().collect::<Vec<_>>().join(" ")
}
fn docs(a: &[syn::Attribute]) -> String {
    let mut v = vec![];
    for a in a {
        if let syn::Meta::NameValue(n) = &a.meta {
            if n.path.is_ident("doc") {
                if let syn::Expr::Lit(l) = &n.value {
                    if let syn::Lit::Str(s) = &l.lit { v.push(s.value().trim().to_string()); }
                }
            }
        }
    }
    v.join("\n")
}
fn items(name: &str, text: &str, items_: &[syn::Item], out: &mut Vec<Value>) {
    for it in items_ {
        match it {
            syn::Item::Struct(s) => out.push(json!({"kind":"struct","file":name,"name":s.ident.to_string(),
                "fields": s.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), src(text, f.ty.span())])).collect::<Vec<_>>(),
                "generics": src(text, s.generics.span()), "doc": docs(&s.attrs)})),
            syn::Item::Enum(e) => out.push(json!({"kind":"enum","file":name,"name":e.ident.to_string(),"pub":matches!(e.vis, syn::Visibility::Public(_)),
                "generics": src(text, e.generics.span()),
                "variants": e.variants.iter().map(|v| json!([v.ident.to_string(), v.fields.iter().map(|f| src(text, f.ty.span())).collect::<Vec<_>>(), docs(&v.attrs)])).collect::<Vec<_>>()})),
            syn::Item::Macro(m) => out.push(json!({"kind":"macro","file":name,"mac":m.mac.path.to_token_stream().to_string(),"text":src(text, m.mac.span())})),
            syn::Item::Mod(m) => { if let Some((_, i)) = &m.content { if m.ident != "tests" { items(name, text, i, out) } } }
            syn::Item::Impl(im) => {
                let ty = src(text, im.self_ty.span());
                let tr = im.trait_.as_ref().map(|t| src(text, t.1.span()));
                for i in &im.items {
                    if let syn::ImplItem::Fn(f) = i {
                        out.push(json!({"kind":"fn","file":name,"type":ty,"trait":tr,"name":f.sig.ident.to_string(),
                            "vis": src(text, f.vis.span()),
                            "generics": f.sig.generics.params.iter().map(|p| src(text, p.span())).collect::<Vec<_>>(),
                            "where": f.sig.generics.where_clause.as_ref().map(|w| src(text, w.span())),
                            "inputs": f.sig.inputs.iter().map(|a| src(text, a.span())).collect::<Vec<_>>(),
                            "ret": match &f.sig.output { syn::ReturnType::Default => "".into(), syn::ReturnType::Type(_, t) => src(text, t.span()) },
                            "body": src(text, f.block.span()), "doc": docs(&f.attrs)}));
                    }
                }
            }
            syn::Item::Fn(f) => out.push(json!({"kind":"fn","file":name,"type":"","trait":null,"name":f.sig.ident.to_string(),"vis":"","inputs": f.sig.inputs.iter().map(|a| src(text, a.span())).collect::<Vec<_>>(),"ret":"","body": src(text, f.block.span()), "doc": docs(&f.attrs)})),
            _ => {}
        }
    }
}
