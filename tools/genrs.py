#!/usr/bin/env python3
"""Generates harness/src/props/gen.rs from the reviewed tables in tables/.

Development aid: its output is committed, and no check runs it.
"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
from gen import WRITERS, SETTERS, EN, ENUMS, split_args

HERE = gen.HERE
FLAGS = {}
for l in open(os.path.join(HERE, "tables", "flags.txt")):
    l = l.strip()
    if l and not l.startswith("#"):
        n, r = l.split(":", 1)
        FLAGS[n] = [tuple(v.split("=")) for v in r.split()]
SPECIAL = {}  # writer -> [method]
for l in open(os.path.join(HERE, "tables", "special.txt")):
    l = l.split("#")[0].strip()
    if l:
        a, b = l.split(".")
        SPECIAL.setdefault(a, []).append(b)

MODS = {"color.rs": "color", "actions.rs": "actions"}
SKIPW = {"Array", "Dict", "Stream", "Operation", "ShowPositioned", "MarkContent", "PositionedItems", "AppearanceEntry",
         "TrackSizes", "ColorSpace", "Separation", "DeviceN", "Destination", "Attributes", "TypedArray", "TypedDict"}
STREAMS = {"IccProfile": "icc_profile", "TilingPattern": "tiling_pattern", "StreamShading": "stream_shading",
           "EmbeddedFile": "embedded_file", "Cmap": "cmap", "SampledFunction": "sampled_function",
           "PostScriptFunction": "post_script_function", "Metadata": "metadata", "ImageXObject": "image_xobject",
           "FormXObject": "form_xobject"}


def snake(s):
    return re.sub(r"(?<!^)([A-Z])", r"_\1", s).lower()


def bs(s):
    return 'b"%s".to_vec()' % s.replace("\\", "\\\\").replace('"', '\\"')


def ty(t):
    t = t.strip()
    t = re.sub(r"<'\w+>$", "", t)
    return t


def one(t, i):
    """(let lines, argument expression, expected V) for a value of type t."""
    t = ty(t)
    v = "x%d" % i
    if t == "f32":
        return ["let %s = s.f32();" % v], v, "V::Real(%s)" % v
    if t == "i32":
        return ["let %s = s.i32();" % v], v, "V::Int(%s)" % v
    if t == "u8":
        return ["let %s = s.next();" % v], v, "V::Int(%s as i32)" % v
    if t == "u16":
        return ["let %s = s.i32() as u16;" % v], v, "V::Int(%s as i32)" % v
    if t == "bool":
        return ["let %s = s.next() %% 2 == 1;" % v], v, "V::Bool(%s)" % v
    if t == "Name":
        return ["let %s = s.string();" % v], "Name(&%s)" % v, "V::Name(%s.clone())" % v
    if t == "Str":
        return ["let %s = s.string();" % v], "Str(&%s)" % v, "V::Str(%s.clone())" % v
    if t in ("TextStr", "impl TextStrLike"):
        return ["let %s = text(s);" % v], "TextStr(&%s)" % v, "V::Text(%s.clone())" % v
    if t == "&str":
        return ["let %s = text(s);" % v], "&%s" % v, "V::Text(%s.clone())" % v
    if t == "Ref":
        return ["let %s = s.reference();" % v], "Ref::new(%s)" % v, "V::Ref(%s)" % v
    if t == "Rect":
        return ["let %s = [s.f32(), s.f32(), s.f32(), s.f32()];" % v], "Rect::new(%s[0], %s[1], %s[2], %s[3])" % (v, v, v, v), "V::Rect(%s)" % v
    if t == "Date":
        return ["let (%s, e%d) = date(s);" % (v, i)], v, "e%d" % i
    if t in EN:
        return ["let b%d = s.string(); let (%s, e%d) = en_%s(s, &b%d);" % (i, v, i, snake(t), i)], v, "e%d.clone()" % i
    if t in FLAGS:
        return ["let (%s, e%d) = fl_%s(s);" % (v, i, snake(t))], v, "V::Int(e%d)" % i
    if t == "MdpSignatureType":
        return ["let (%s, e%d) = special::mdp(s);" % (v, i)], v, "V::Int(e%d)" % i
    if t == "T":
        return ["let %s = s.reference();" % v], "Ref::new(%s)" % v, "V::Ref(%s)" % v
    m = re.match(r"\[(.*); (\d+)\]$", t)
    if m:
        return many(m[1], i, m[2])
    m = re.match(r"impl IntoIterator<Item = (.*)>$", t)
    if m:
        return many(m[1], i, None)
    raise Exception(t)


def many(t, i, n):
    """A sequence; the expected value is a Vec<V> expression `e{i}`."""
    t = ty(t)
    v = "x%d" % i
    cnt = n if n else "s.count(5)"
    raw = {"Name": ("s.string()", "Name(r)", "V::Name(r.clone())"), "Str": ("s.string()", "Str(r)", "V::Str(r.clone())"),
           "TextStr": ("text(s)", "TextStr(r)", "V::Text(r.clone())"), "impl TextStrLike": ("text(s)", "TextStr(r)", "V::Text(r.clone())"),
           "f32": ("s.f32()", "*r", "V::Real(*r)"), "i32": ("s.i32()", "*r", "V::Int(*r)"),
           "bool": ("s.next() % 2 == 1", "*r", "V::Bool(*r)"), "Ref": ("s.reference()", "Ref::new(*r)", "V::Ref(*r)")}
    if t in raw:
        a, b, c = raw[t]
    elif t in EN:
        a, b, c = "en_%s(s, b\"\")" % snake(t), "r.0", "r.1.clone()"
    else:
        raise Exception(t)
    if n and t == "f32":
        make = "s.floats(%s)" % n
    else:
        make = "(0..%s).map(|_| %s).collect()" % (cnt, a)
    l = ["let r%d: Vec<_> = %s;" % (i, make),
         "let e%d: Vec<V> = r%d.iter().map(|r| %s).collect();" % (i, i, c)]
    if n:
        arg = "<[_; %s]>::try_from(r%d.iter().map(|r| %s).collect::<Vec<_>>()).ok().unwrap()" % (n, i, b)
    else:
        arg = "r%d.iter().map(|r| %s)" % (i, b)
    return l, arg, "e%d" % i


def expected(v, exprs):
    """V expressions (list of `Vec<V>` pieces) for a value spec of the tables."""
    v = v.strip()
    m = re.match(r"^(?:name |str |int |bits |num |text )?\$(\d)$", v)
    if m:
        return ["vec![%s]" % exprs[int(m[1])]]
    m = re.match(r"^\*(?:name )?\$(\d)$", v)
    if m:
        return [exprs[int(m[1])]]
    if v.startswith("/"):
        return ["vec![V::Name(%s)]" % bs(v[1:])]
    if v == "0.0":
        return ["vec![V::Real(0.0)]"]
    m = re.match(r"^\[(.*)\]$", v)
    if m:
        parts = re.findall(r"\*?(?:name |int |num )?\$\d|/\w+|\?\?", m[1])
        parts = ["$%d" % k if p == "??" else p for k, p in enumerate(parts)]
        p = [x for q in parts for x in expected(q, exprs)]
        return ["vec![V::Arr([%s].concat())]" % ", ".join(p) if p else "vec![V::Arr(vec![])]"]
    raise Exception(v)


def sub(ret):
    """Expression for filling the writer `u` of this type: gives a V."""
    t = ret.strip()
    b = re.sub(r"<.*", "", t)
    m = re.match(r"TypedArray<'_, (.*)>$", t)
    if m:
        return "special::typed_array(u, s, d, |u, s, d| %s)" % item(m[1])
    m = re.match(r"TypedDict<'_, (.*)>$", t)
    if m:
        return "special::typed_dict(u, s, d, |u, k, s, d| %s)" % item(m[1], True)
    if b in ("Dict", "Obj"):
        return "special::sub_%s(u, s, d)" % b.lower()
    if b in ("AppearanceEntry", "TrackSizes", "ColorSpace", "Destination", "Attributes", "PropertyList", "Field", "Namespace"):
        return "special::sub_%s(u, s, d)" % snake(b)
    return "sub_%s(u, s, d)" % snake(b)


def item(t, is_dict=False):
    b = ty(t)
    prim = {"Ref": ("s.reference()", "Ref::new(x)", "V::Ref(x)"), "f32": ("s.f32()", "x", "V::Real(x)"),
            "Name": ("s.string()", "Name(&x)", "V::Name(x.clone())"), "Str": ("s.string()", "Str(&x)", "V::Str(x.clone())")}
    if b in prim:
        a, e, v = prim[b]
        if b in ("Name", "Str"):
            return "{ let x = s.string(); let l: &'static [u8] = Box::leak(x.clone().into_boxed_slice()); let _ = d; u.item(%s(l)); V::%s(x) }" % (b, b)
        return "{ let x = %s; %s; let _ = d; %s }" % (a, ("u.pair(Name(k), %s)" if is_dict else "u.item(%s)") % e, v)
    get = "u.insert(Name(k))" if is_dict else "u.push()"
    return "{ let u = %s; %s }" % (get, sub(t))


class _W:
    init = []


for _n, _k in (("NameTree", "Dict"), ("NumberTree", "Dict"), ("NameTreeEntries", "Array"), ("NumberTreeEntries", "Array")):
    _w = _W()
    _w.name, _w.kind = _n, _k
    WRITERS[_n] = _w


def main():
    o = ["// Generated by tools/genrs.py from the tables in /verif/tables.", "#![allow(unused_variables, dead_code, clippy::all)]", "",
         "use super::special::{self, date, text};", "use crate::tree::{Src, V};",
         "use pdf_writer::{actions::*, annotations::*, attributes::*, color::*, content::*, files::*, font::*, forms::*, functions::*, renditions::*, structure::*, transitions::*, types::*, writers::*};",
         "use pdf_writer::*;", "", "pub type Entries = Vec<(Vec<u8>, V)>;", ""]
    o = [x for x in o if not x.startswith("use pdf_writer::{actions")]
    o.insert(6, "use pdf_writer::types::*; use pdf_writer::writers::*;")
    for e in ENUMS:
        if e.name in ("ColorSpaceType", "ColorSpaceOperand", "FunctionType", "PatternType", "ShadingType", "AttributeOwner", "StructRoleType"):
            continue
        used = any(re.search(r"\b%s\b" % e.name, a) for s in SETTERS for a in s.args) or e.name in ("CjkClass", "StructRole", "LayoutBorderStyle", "FieldState", "Filter")
        if not used:
            continue
        g = "<'a>" if e.generic else ""
        o.append("pub const N_%s: u8 = %d;" % (snake(e.name).upper(), len(e.variants)))
        o.append("pub fn en_%s<'a>(s: &mut Src, b: &'a [u8]) -> (%s%s, V) {\n    match s.next() %% %d {" % (snake(e.name), e.name, g, len(e.variants)))
        for k, (a, b) in enumerate(e.variants):
            val = "V::Name(%s)" % bs(b) if e.method == "to_name" else "V::Str(%s)" % bs(b) if e.method == "to_str" else "V::Int(%s)" % b
            vv = "%s::%s" % (e.name, a)
            if b.startswith("$"):
                val, vv = "V::Name(b.to_vec())", vv + "(Name(b))"
            o.append("        %s => (%s, %s)," % ("_" if k == len(e.variants) - 1 else k, vv, val))
        o.append("    }\n}")
    for n, vs in FLAGS.items():
        if not any(a == n for s in SETTERS for a in s.args):
            continue
        o.append("pub const N_%s: u8 = %d;" % (snake(n).upper(), len(vs)))
        o.append("/// The first byte says how many flags are set one by one.\npub fn fl_%s(s: &mut Src) -> (%s, i32) {\n    let (mut f, mut e) = (%s::empty(), 0);\n    for _ in 0..s.next() %% 8 {\n        match s.next() %% %d {" % (snake(n), n, n, len(vs)))
        for k, (a, b) in enumerate(vs):
            o.append("            %s => { f |= %s::%s; e |= %si32; }" % ("_" if k == len(vs) - 1 else k, n, a, b))
        o.append("        }\n    }\n    (f, e)\n}")

    by = {}
    for s in SETTERS:
        if s.eff.startswith("op "):
            by.setdefault("Content", []).append(s)
        elif (s.ty not in SKIPW or s.ty == "Stream") and s.ty != "Content":
            by.setdefault(s.ty, []).append(s)
    roots = []
    enum_arms = {}
    for name, w in WRITERS.items():
        if name in SKIPW:
            continue
        ss = by.get(name, [])
        sp = SPECIAL.get(name, [])
        if name in STREAMS:
            ss = ss + by["Stream"]
        n = len(ss) + len(sp)
        gp = name in ("NameTree", "NumberTree", "NameTreeEntries", "NumberTreeEntries")
        full = name + ("<'_, Ref>" if gp else "<'_>")
        arr = w.kind == "Array"
        out = "Vec<V>" if arr else "Entries"
        fn = snake(name)
        o.append("pub const N_SET_%s: usize = %d;" % (fn.upper(), n))
        o.append("pub const NAMES_%s: &[&str] = &[%s];" % (fn.upper(), ", ".join('"%s"' % x for x in [s.name for s in ss] + sp)))
        o.append("fn arm_%s(w: &mut %s, k: usize, s: &mut Src, d: usize, out: &mut %s) {\n    match k {" % (fn, full, out))
        for k, s in enumerate(ss):
            lets, args, exprs = [], [], []
            for i, a in enumerate(s.args):
                if a in EN or a in FLAGS or ty(a) in EN or re.search(r"Item = (\w+)", a) and re.search(r"Item = (\w+)", a)[1] in EN:
                    nn = ty(a) if ty(a) in EN or a in FLAGS else re.search(r"Item = (\w+)", a)[1]
                    enum_arms.setdefault(name, []).append((k, nn, a in FLAGS, a.startswith("impl"), i))
                l, x, e = one(a, i)
                if re.match(r"^(\w+)=(?:int|num) \$%d" % i, s.eff) and a == "bool":
                    e = "V::Int(x%d as i32)" % i
                lets += l
                args.append(x)
                exprs.append(e)
            m = re.match(r"^(\w+)=>(.*)$", s.eff)
            call = "w.%s(%s)" % (s.name, ", ".join(args))
            if m:
                body = "let e = { let u = %s; %s }; out.push((%s, e));" % (call, sub(m[2].replace(", T>", ", Ref>")), bs(m[1]))
            elif s.eff.startswith("+ "):
                parts = re.findall(r"\(([^()]*)\)", s.eff)
                ps = [x for q in parts for x in expected(q, exprs)]
                body = "%s; out.extend([%s].concat());" % (call, ", ".join(ps))
            else:
                m = re.match(r"^(\w+)=(.*)$", s.eff)
                if "??" in s.eff:
                    exprs = [x.replace("V::Name", "V::Str") for x in exprs]
                e = expected(m[2], exprs)
                body = "%s; out.push((%s, %s.remove(0)));" % (call, bs(m[1]), e[0])
                if not arr and w.kind in ("Dict", "Stream", "TypedDict") and len(e) == 1 and e[0].startswith("vec![") and e[0].endswith("]"):
                    body = "%s; out.push((%s, %s));" % (call, bs(m[1]), e[0][5:-1])
                elif e[0].startswith("e"):
                    raise Exception(s.eff)
            o.append("        %d => { %s %s }" % (k, " ".join(lets), body))
        for k, m in enumerate(sp):
            o.append("        %d => special::%s_%s(w, s, d, out)," % (len(ss) + k, fn, m))
        o.append("        _ => {}\n    }\n}")
        o.append("""pub fn fill_%s(w: &mut %s, s: &mut Src, d: usize, out: &mut %s) {
    if d == 0 { return; }
    let n = s.next() %% 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_%s > 0 { arm_%s(w, k %% N_SET_%s, s, d - 1, out); }
    }
}""" % (fn, full, out, fn.upper(), fn, fn.upper()))
        init = "vec![%s]" % ", ".join("(%s, %s)" % (bs(k), const_v(v)) for k, v in w.init)
        o.append("pub fn init_%s() -> %s { %s }" % (fn, out, init if not arr else "vec![]"))
        o.append("""pub fn sub_%s(mut w: %s, s: &mut Src, d: usize) -> V {
    let mut out = init_%s();
    fill_%s(&mut w, s, d, &mut out);
    V::%s(out)
}""" % (fn, full, fn, fn, "Arr" if arr else "Dict"))
        g = "::<Ref>" if gp else ""
        if name in ("PropertyList", "Field", "Namespace"):
            pass
        elif name in STREAMS:
            run = "|c, data, s, d| { let mut out = init_%s(); let mut w = c.%s(Ref::new(7), data); fill_%s(&mut w, s, d, &mut out); drop(w); V::Dict(out) }" % (fn, STREAMS[name], fn)
            roots.append('Root { name: "%s", names: NAMES_%s, stream: true, run: %s },' % (name, fn.upper(), run))
        else:
            t = name + ("<'_, Ref>" if gp else "<'_>")
            run = "|c, _, s, d| sub_%s(c.indirect(Ref::new(7)).start::<%s>(), s, d)" % (fn, t)
            roots.append('Root { name: "%s", names: NAMES_%s, stream: false, run: %s },' % (name, fn.upper(), run))
    for n in ("AppearanceEntry", "TrackSizes", "ColorSpace", "Destination", "Attributes", "PropertyList", "Field", "Namespace"):
        fn = snake(n)
        run = "|c, _, s, d| special::sub_%s(c.indirect(Ref::new(7)).start::<%s<'_>>(), s, d)" % (fn, n)
        roots.append('Root { name: "%s", names: &[], stream: false, run: %s },' % (n, run))
    o.append("pub struct Root {\n    pub name: &'static str,\n    pub names: &'static [&'static str],\n    pub stream: bool,\n    pub run: fn(&mut Chunk, &[u8], &mut Src, usize) -> V,\n}")
    o.append("pub static ROOTS: &[Root] = &[")
    o += ["    " + r for r in roots]
    o.append("];")
    o.append("/// (writer, method, number of values, a set of flags, a list, how many arguments come before).\npub static ENUM_ARMS: &[(&str, usize, u8, bool, bool, usize)] = &[")
    for n, l in enum_arms.items():
        for k, e, fl, it, i in l:
            o.append('    ("%s", %d, N_%s, %s, %s, %d),' % (n, k, snake(e).upper(), str(fl).lower(), str(it).lower(), i))
    o.append("];")
    # Content operators.
    cs = by["Content"]
    sp = SPECIAL.get("Content", [])
    o.append("pub const N_OPS: usize = %d;" % (len(cs) + len(sp)))
    o.append("pub const OPS: &[&str] = &[%s];" % ", ".join('"%s"' % x for x in [s.name for s in cs] + sp))
    o.append("pub type Ops = Vec<(Vec<V>, Vec<u8>)>;")
    o.append("pub fn arm_content(w: &mut Content, k: usize, s: &mut Src, out: &mut Ops) {\n    match k {")
    for k, s in enumerate(cs):
        m = re.match(r"op (\S+) ?(.*)$", s.eff)
        op = m[1].replace('\\"', '"')
        parts = re.findall(r"\(([^()]*)\)", m[2])
        lets, args, exprs = [], [], []
        for i, a in enumerate(s.args):
            if ty(a) in EN:
                enum_arms.setdefault("Content", []).append((k, a, False, False, i))
            l, x, e = one(a, i)
            lets += l
            args.append(x)
            exprs.append(e)
        ps = [x for q in parts for x in expected(q, exprs)]
        o.append("        %d => { %s w.%s(%s); out.push((%s, %s)); }" % (
            k, " ".join(lets), s.name, ", ".join(args), "[%s].concat()" % ", ".join(ps) if ps else "vec![]", bs(op)))
    for k, m in enumerate(sp):
        o.append("        %d => special::content_%s(w, s, out)," % (len(cs) + k, m))
    o.append("        _ => {}\n    }\n}")
    o.append("pub static ENUM_OPS: &[(usize, u8, usize)] = &[%s];" % ", ".join("(%d, N_%s, %d)" % (k, snake(e).upper(), i) for k, e, _, _, i in enum_arms.get("Content", [])))
    open(os.path.join(HERE, "harness", "src", "props", "gen.rs"), "w").write("\n".join(o) + "\n")


def const_v(v):
    m = re.match(r'Name\(b"([^"]*)"\)$', v)
    if m:
        return "V::Name(%s)" % bs(m[1])
    if v.startswith("/"):
        return "V::Name(%s)" % bs(v[1:])
    m = re.match(r"(\w+)::(\w+)\.(to_name|to_int)\((.*)\)$", v)
    val = dict(EN[m[1]].variants)[m[2]]
    return "V::Name(%s)" % bs(val) if m[3] == "to_name" else "V::Int(%s)" % val


main()
