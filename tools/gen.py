#!/usr/bin/env python3
"""Generates contracts (proofs/gen/*.vt) from the reviewed tables in tables/.

Development aid: its output is committed, and no check runs it. The tables say
what PDF requires; nothing is read from /repo here.
"""
import json, os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "proofs", "gen")


def seq(s):
    if isinstance(s, str):
        s = s.encode()
    if not s:
        return "Seq::<u8>::empty()"
    return "seq![" + ", ".join("%du8" % b for b in s) + "]"


# ------------------------------------------------------------------- tables

class Enum:
    pass


def read_enums():
    es = []
    for l in open(os.path.join(HERE, "tables", "enums.txt")):
        l = l.strip()
        if not l or l.startswith("#"):
            continue
        head, rest = l.split(":", 1)
        f, name, method = head.split()
        e = Enum()
        e.file, e.method = f, method
        e.generic = name.endswith("<'a>")
        e.name = name.split("<")[0]
        e.variants = []
        for v in rest.split():
            if "=" in v:
                a, b = v.split("=", 1)
            else:
                a = b = v
            e.variants.append((a, b))
        es.append(e)
    return es


class Writer:
    pass


class Setter:
    pass


def split_args(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "<([":
            depth += 1
        if c in ">)]":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def read_setters():
    f = None
    ws, ss = {}, []
    for l in open(os.path.join(HERE, "tables", "setters.txt")):
        l = l.rstrip("\n")
        if not l.strip() or l.startswith("#"):
            continue
        if l.startswith("file "):
            f = l[5:].strip()
            continue
        if l.startswith("writer "):
            w = Writer()
            m = re.match(r"writer (\w+)(<[^>]*>)? (\w+):(\w+)\s*(.*)$", l)
            w.file, w.name, w.generics, w.field, w.kind = f, m[1], m[2] or "<'a>", m[3], m[4]
            w.init = [tuple(x.strip().split("=", 1)) for x in m[5].split(";") if x.strip()]
            ws[w.name] = w
            continue
        m = re.match(r"(\w+)\.(\w+)\((.*)\) : (.*)$", l)
        s = Setter()
        s.file, s.ty, s.name, s.args, s.eff = f, m[1], m[2], split_args(m[3]), m[4].strip()
        ss.append(s)
    return ws, ss


ENUMS = read_enums()
EN = {e.name: e for e in ENUMS}
WRITERS, SETTERS = read_setters()
AS_INT = {  # enums written through their discriminants
    "RenditionOperation": None, "TextPosition": None, "Quadding": None,
}

# --------------------------------------------------------------- enumerations

HEAD = """// Generated by tools/gen.py from tables/%s.
"""


def lean(a):
    """Literal facts for sequences."""
    return a


def gen_enums():
    o = [HEAD % "enums.txt"]
    d = [HEAD % "enums.txt"]
    for e in ENUMS:
        g = "<'a>" if e.generic else ""
        o.append("//@ type %s" % e.name)
        kind = e.method
        custom = [(a, b) for a, b in e.variants if b.startswith("$")]
        if kind == "to_name" or kind == "to_str":
            fn, ty = "sname", "Seq<u8>"
            arm = lambda a, b: ("    %s::%s(x) => x.0@," % (e.name, a)) if b.startswith("$") else "    %s::%s => %s," % (e.name, a, seq(b))
            ens = "r.0@ == self.sname()"
        else:
            fn, ty = "sint", "int"
            arm = lambda a, b: "    %s::%s => %sint," % (e.name, a, b)
            ens = "r as int == self.sint()"
        o.append("impl%s %s%s {\n    pub open spec fn %s(self) -> %s {\n        match self {" % (g, e.name, g, fn, ty))
        for a, b in e.variants:
            o.append("        " + arm(a, b))
        o.append("        }\n    }\n}")
        if e.name == "AttributeOwner":
            ens = "r.0@ == self.owner_name($0)"
            o.append("""impl AttributeOwner {
    /// PDF 2.0 (ISO 32000-2) names the versions differently.
    pub open spec fn owner_name(self, iso: bool) -> Seq<u8> {
        if iso && self is Css1 { %s } else if iso && self is Css2 { %s } else { self.sname() }
    }
}""" % (seq("CSS-1"), seq("CSS-2")))
        if kind != "cast":
          o.append("//@ fn %s %s::%s\n//@ ret r\n//@ opt lits\n//@ contract\n    ensures %s,\n//@ end" % (e.file, e.name, e.method, ens))
        # Distinct values are written differently.
        fixed = [(a, b) for a, b in e.variants if not b.startswith("$")]
        req = []
        d.append("pub proof fn distinct_%s%s(a: %s%s, b: %s%s)\n    requires a.%s() == b.%s(), %s\n    ensures a == b,\n{" % (
            e.name, g, e.name, g, e.name, g, fn, fn,
            " ".join("!(a is %s), !(b is %s)," % (c, c) for c, _ in custom)))
        if fn == "sname":
            if len(fixed) > 24:
                # By a decoder: the name determines the value.
                pass
            for i in range(len(fixed)):
                for j in range(i + 1, len(fixed)):
                    (a, x), (b, y) = fixed[i], fixed[j]
                    for p, q, u, v in ((a, b, x, y), (b, a, y, x)):
                        if len(u) != len(v):
                            continue
                        k = next(k for k in range(len(u)) if u[k] != v[k])
                        d.append("    if a is %s && b is %s { let s = %s; let t = %s; assert(s[%d] == %du8 && t[%d] == %du8); assert(a.sname() == s && b.sname() == t); }" % (
                            p, q, seq(u), seq(v), k, ord(u[k]), k, ord(v[k])))
            for a, x in fixed:
                d.append("    assert(a is %s ==> a.sname().len() == %d); assert(b is %s ==> b.sname().len() == %d);" % (a, len(x), a, len(x)))
        d.append("}")
    open(os.path.join(OUT, "distinct.vt"), "w").write("\n".join(d) + "\n")
    open(os.path.join(OUT, "enums.vt"), "w").write("\n".join(o) + "\n")


# ------------------------------------------------------------------- flags

def gen_flags():
    o = [HEAD % "flags.txt"]
    d = [HEAD % "flags.txt"]
    for l in open(os.path.join(HERE, "tables", "flags.txt")):
        l = l.strip()
        if not l or l.startswith("#"):
            continue
        name, rest = l.split(":", 1)
        o.append("//@ bitflags %s" % name)
        for v in rest.split():
            a, b = v.split("=")
            d.append("pub proof fn bits_%s_%s() ensures %s_%s == %du64 as int { assert(%s_%s as u64 == %du64) by (compute_only); }" % (
                name, a, name, a, int(b), name, a, int(b)))
    open(os.path.join(OUT, "masks.vt"), "w").write("\n".join(d) + "\n")
    open(os.path.join(OUT, "flags.vt"), "w").write("\n".join(o) + "\n")


# ------------------------------------------------------------------ writers

def base(w):
    """Path from a writer to its Dict/Array/Obj."""
    k = w.kind
    if k == "Dict" or k == "Array" or k == "Obj":
        return w.field
    if k == "Stream":
        return w.field + ".dict"
    if k == "TypedDict":
        return w.field + ".dict"
    return None


def init_toks(w):
    t = []
    for k, v in w.init:
        t.append("Tok::Name(%s)" % seq(k))
        t.append(const_tok(v))
    return t


def const_tok(v):
    m = re.match(r'Name\(b"([^"]*)"\)$', v)
    if m:
        return "Tok::Name(%s)" % seq(m[1])
    if v.startswith("/"):
        return "Tok::Name(%s)" % seq(v[1:])
    m = re.match(r"(\w+)::(\w+)\.to_name\((.*)\)$", v)
    if m:
        return "Tok::Name(%s::%s.%s)" % (m[1], m[2], "owner_name(%s)" % m[3] if m[3] else "sname()")
    m = re.match(r"(\w+)::(\w+)\.to_int\(\)$", v)
    if m:
        return "Tok::Reg(dec_int(%s::%s.sint()))" % (m[1], m[2])
    raise Exception(v)


def opened(w, r, before, pre, indirect="!{b}.indirect"):
    """Facts about a freshly started writer `r`, whose object was written to a
    buffer that held `before` after the tokens `pre`."""
    p = r + "." + base(w) if w else r
    kind = w.kind if w else None
    return p


def gen_writers():
    o = [HEAD % "setters.txt"]
    for w in WRITERS.values():
        if w.name in ("Array", "Dict", "Stream", "Operation", "ShowPositioned", "MarkContent", "PositionedItems"):
            continue
        if w.name == "DecodeParms" or True:
            o.append("//@ type %s" % w.name)
        b = base(w)
        n = len(w.init)
        if w.kind == "Stream":
            continue
        if w.name in ("Separation", "DeviceN"):
            continue
        g = w.generics
        if w.kind == "Obj":
            o.append("""//@ impl %s Writer for %s
    #[verifier::prophetic]
    open spec fn started(obj: Obj<'a>, r: Self) -> bool { r.obj == obj }
//@ method start
//@ end
//@ endimpl""" % (w.file, w.name))
            continue
        op = "Open" if w.kind == "Array" else "DOpen"
        lit = ""
        delegates = [v for _, v in w.init if "AttributeOwner" in v] or w.name == "Artifact"
        if delegates:
            o.append("""//@ fn %s %s::start_with_dict
//@ ret r
//@ opt toks $0.buf
//@ contract
    requires $0.wf(), $0.len + %d <= i32::MAX,
    ensures r.dict.put($0, %s, %d),
//@ end""" % (w.file, w.name, n, tokseq(init_toks(w)), n))
        o.append("""//@ impl %s Writer for %s
    #[verifier::prophetic]
    open spec fn started(obj: Obj<'a>, r: Self) -> bool {
        &&& r.%s.wf() && r.%s.len == %d
        &&& wrote((*obj.buf)@, (*r.%s.buf)@, %s)
        &&& *final(r.%s.buf) == *final(obj.buf)
        &&& r.%s.indirect == obj.indirect && r.%s.settings == obj.settings
    }
//@ method start
//@ opt toks $0.buf
//@ end
//@ endimpl
//@ rewriter %s""" % (w.file, w.name, b, b, n, b, tokseq(["Tok::" + op] + init_toks(w)), b, b, b, w.name))
    t = "\n".join(o) + "\n"
    t = re.sub(r"//@ rewriter (\w+)", r"impl<'a, 'any> Rewrite<'a> for \1<'any> { type Output = \1<'a>; }", t)
    open(os.path.join(OUT, "writers.vt"), "w").write(t)


# ---------------------------------------------------------------- constructors

STARTERS = """pages:Pages page:Page outline:Outline outline_item:OutlineItem destination:Destination
destinations:TypedDict file_spec:FileSpec embedded_file:EmbeddedFile struct_element:StructElement
namespace:Namespace metadata:Metadata image_xobject:ImageXObject form_xobject:FormXObject
ext_graphics:ExtGraphicsState type1_font:Type1Font type3_font:Type3Font type0_font:Type0Font
cid_font:CidFont font_descriptor:FontDescriptor cmap:Cmap color_space:ColorSpace
function_shading:FunctionShading stream_shading:StreamShading tiling_pattern:TilingPattern
shading_pattern:ShadingPattern icc_profile:IccProfile sampled_function:SampledFunction
exponential_function:ExponentialFunction stitching_function:StitchingFunction
post_script_function:PostScriptFunction name_tree:NameTree number_tree:NumberTree annotation:Annotation
form_field:Field signature_field_lock:SignatureFieldLock signature_seed_value:SignatureSeedValue"""


def gen_starters():
    o = [HEAD % "setters.txt"]

    def fn(file, name, ty, recv, extra):
        w = WRITERS.get(ty)
        kind = w.kind if w else "Dict"
        b = {"TypedDict": "dict", "NameTree": "dict", "NumberTree": "dict", "Destination": "array"}.get(ty) or base(w)
        init = init_toks(w) if w else []
        n = len(w.init) if w else 0
        stream = kind == "Stream"
        o.append("//@ fn %s %s\n//@ ret r\n//@ opt toks %s.buf" % (file, name, recv))
        if recv != "self":
            o.append("//@ rewrite? self.indirect =>> self.chunk.indirect")
        o.append("//@ contract\n    requires old(%s).wf(), $0.wf()," % recv.replace("self", "self", 1) if recv == "self" else
                 "//@ contract\n    requires old(self).chunk.wf(), $0.wf(),")
        if stream:
            o.append("        $1@.len() <= i32::MAX,")
            toks = "seq![Tok::DOpen] + len_toks($1@.len() as int) + %s" % tokseq(init)
            n += 1
        elif kind == "Obj":
            toks = "Seq::<Tok>::empty()"
        else:
            toks = tokseq(["Tok::Open" if ty == "Destination" or kind == "Array" else "Tok::DOpen"] + init)
        old = "*old(self)" if recv == "self" else "old(self).chunk"
        fin = "*final(self)" if recv == "self" else "final(self).chunk"
        o.append("    ensures\n        wrote((%s).buf@, (*r.%s.buf)@, head_toks($0) + (%s))," % (old, b, toks))
        o.append("        *final(r.%s.buf) == (%s).buf," % (b, fin))
        o.append("        grown(%s, %s, $0, (*r.%s.buf)@)," % (old, fin, b))
        if kind == "Obj":
            o.append("        r.obj.wf(), r.obj.indirect,")
        else:
            o.append("        r.%s.wf(), r.%s.len == %d, r.%s.indirect, r.%s.settings == (%s).settings," % (b, b, n, b, b, old))
        if stream:
            o.append("        r.%s.data == $1," % w.field)
        for e in extra:
            o.append("        " + e)
        o.append("//@ at start\n        broadcast use {extends_wrote, extends_chain};")
        o.append("//@ end")

    for x in STARTERS.split():
        m, ty = x.split(":")
        fn("chunk.rs", "Chunk::" + m, ty, "self", [])
    open(os.path.join(OUT, "starters.vt"), "w").write("\n".join(o) + "\n")
    o = [HEAD % "setters.txt"]
    for m, ty, f in (("catalog", "Catalog", "catalog_id"), ("document_info", "DocumentInfo", "info_id")):
        fn("lib.rs", "Pdf::" + m, ty, "self.chunk", [
            "final(self).trailer_data == (TrailerData { %s: Some($0), ..old(self).trailer_data })," % f])
    open(os.path.join(OUT, "docstarters.vt"), "w").write("\n".join(o) + "\n")


def tokseq(ts):
    if not ts:
        return "Seq::<Tok>::empty()"
    return "seq![" + ", ".join(ts) + "]"


# ------------------------------------------------------------------ setters

def strip_lt(t):
    return re.sub(r"<'\w+>", "", t).strip()


def is_iter(t):
    return t.startswith("impl IntoIterator") or t.startswith("[")


def value(v, args):
    """(tokens expression, [preconditions]) of a value."""
    v = v.strip()
    m = re.match(r"^\$(\d)$", v)
    if m:
        return "%s.toks()" % v, ["%s.pre()" % v]
    m = re.match(r"^name \$(\d)$", v)
    if m:
        a = "$" + m[1]
        return "seq![Tok::Name(%s.sname())]" % a, ["%s.sname().len() <= i32::MAX" % a]
    m = re.match(r"^str \$(\d)$", v)
    if m:
        return "seq![Tok::Str($%s.sname())]" % m[1], []
    m = re.match(r"^int \$(\d)$", v)
    if m:
        return "seq![Tok::Reg(dec_int($%s.sint()))]" % m[1], []
    m = re.match(r"^bits \$(\d)$", v)
    if m:
        return "seq![Tok::Reg(dec_int(($%s.b as i32) as int))]" % m[1], []
    m = re.match(r"^num \$(\d)$", v)
    if m:
        return "seq![Tok::Reg(dec_int($%s.sint()))]" % m[1], []
    m = re.match(r"^text \$(\d)$", v)
    if m:
        return "TextStr($%s).toks()" % m[1], ["TextStr($%s).pre()" % m[1]]
    if v.startswith("/"):
        return "seq![Tok::Name(%s)]" % seq(v[1:]), []
    m = re.match(r"^\*\$(\d)$", v)
    if m:
        a = "$" + m[1]
        return "all_toks(%s.items())" % a, ["all_pre(%s.items())" % a, "%s.items().len() < i32::MAX" % a]
    m = re.match(r"^\*name \$(\d)$", v)
    if m:
        a = "$" + m[1]
        ty = re.search(r"Item = (\w+)", args[int(m[1])])[1]
        return "names_toks_%s(%s.items())" % (ty, a), ["%s.items().len() < i32::MAX" % a]
    m = re.match(r"^\[(.*)\]$", v)
    if m:
        inner = m[1].strip()
        parts = re.findall(r"\*?(?:name |int |num )?\$\d|/\w+", inner)
        t, p = "seq![Tok::Open]", []
        for x in parts:
            a, b = value(x, args)
            t += " + " + a
            p += b
        return t + " + seq![Tok::Close]", p
    if v == "0.0":
        return "0.0f32.toks()", []
    return None, None


GEN_TY = {
    "Dict": ("", "DOpen"), "Obj": ("", None), "TypedArray": ("array", "Open"), "TypedDict": ("dict", "DOpen"),
    "NameTree": ("dict", "DOpen"), "NumberTree": ("dict", "DOpen"), "NameTreeEntries": ("arr", "Open"), "NumberTreeEntries": ("arr", "Open"),
}


def ret_facts(ret, oldbuf, finbuf, pre):
    """The writer `r` was started after the tokens `pre`."""
    t = ret.split("<")[0]
    if t in GEN_TY:
        f, op = GEN_TY[t]
        init, n = [], 0
    else:
        w = WRITERS[t]
        f = base(w)
        op = {"Array": "Open", "Obj": None}.get(w.kind, "DOpen")
        init, n = init_toks(w), len(w.init)
    p = "res." + f if f else "res"
    toks = list(pre)
    if op:
        toks.append("Tok::" + op)
    toks += init
    e = ["%s.wf()" % p, "!%s.indirect" % p,
         "wrote(%s, (*%s.buf)@, %s)" % (oldbuf, p, tokseq(toks)),
         "*final(%s.buf) == %s" % (p, finbuf)]
    if op:
        e.insert(1, "%s.len == %d" % (p, n))
    return e, init


def gen_setters(f, mod):
    o = [HEAD % "setters.txt", "//@ drop-methods array dict typed op"]
    used = set()
    for s in SETTERS:
        m = re.search(r"\*name \$(\d)", s.eff)
        if s.file == f and m:
            used.add(re.search(r"Item = (\w+)", s.args[int(m[1])])[1])
    for t in sorted(used):
        o.append("""/// These values by name.
pub open spec fn names_upto_%s(s: Seq<%s>, k: int) -> Seq<Tok>
    decreases k,
{
    if k <= 0 { seq![] } else { names_upto_%s(s, k - 1) + seq![Tok::Name(s[k - 1].sname())] }
}
pub open spec fn names_toks_%s(s: Seq<%s>) -> Seq<Tok> { names_upto_%s(s, s.len() as int) }
pub broadcast proof fn names_short_%s(x: %s)
    ensures (#[trigger] x.sname()).len() <= 64,
{}
pub proof fn names_upto_same_%s(s: Seq<%s>, n: Seq<Name<'_>>, k: int)
    requires 0 <= k <= s.len(), s.len() == n.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] n[i]).0@ == s[i].sname(),
    ensures toks_upto(n, k) == names_upto_%s(s, k),
    decreases k,
{
    if k > 0 { names_upto_same_%s(s, n, k - 1); }
}
pub broadcast proof fn names_same_%s(s: Seq<%s>, n: Seq<Name<'_>>)
    requires s.len() == n.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] n[i]).0@ == s[i].sname(),
    ensures #[trigger] all_toks(n) == #[trigger] names_toks_%s(s),
{
    names_upto_same_%s(s, n, s.len() as int);
}""" % ((t,) * 16))
    for s in SETTERS:
        if s.file != f:
            continue
        w = WRITERS.get(s.ty)
        if w is None or s.eff.startswith("op ") or "??" in s.eff:
            continue
        if w.kind == "TypedDict" or w.name in ("Destination", "Operation", "PositionedItems", "Stream"):
            continue
        b = base(w)
        path = "self." + b
        old = "old(self)." + b
        fin = "final(self)." + b
        m = re.match(r"^(\w+)=>(.*)$", s.eff)
        lines = ["//@ fn %s %s::%s" % (f, s.ty, s.name), "//@ ret res", "//@ opt toks %s.buf" % path, "//@ contract"]
        if m:
            e, init = ret_facts(m[2], "(*%s.buf)@" % old, "*%s.buf" % fin, ["Tok::Name(%s)" % seq(m[1])])
            lines.append("    requires %s.wf(), %s.len < i32::MAX," % (old, old))
            lines.append("    ensures")
            for x in e:
                lines.append("        %s," % x)
            lines.append("        %s.same(%s), %s.wf(), %s.len == %s.len + 1," % (fin, old, fin, fin, old))
            if w.kind == "Stream":
                lines.append("        final(self).%s.data == old(self).%s.data," % (w.field, w.field))
        else:
            m = re.match(r"^(\w+)=(.*)$", s.eff)
            if m:
                t, pre = value(m[2], s.args)
                if t is None:
                    print("skip", s.ty, s.name, s.eff)
                    continue
                toks = "seq![Tok::Name(%s)] + %s" % (seq(m[1]), t)
                n = "1"
            elif s.eff.startswith("+ "):
                parts = re.findall(r"\(([^()]*)\)", s.eff)
                t, pre, n = [], [], []
                for x in parts:
                    a, b_ = value(x, s.args)
                    t.append(a)
                    pre += b_
                    n.append("%s.items().len()" % x[1:] if x.startswith("*") else "1")
                toks = " + ".join(t)
                n = " + ".join(n)
            else:
                print("skip", s.ty, s.name, s.eff)
                continue
            req = ["%s.wf()" % old, "%s.len + %s <= i32::MAX" % (old, n)] + pre
            lines.append("    requires %s," % ", ".join(req))
            consumes = s.ty == "Destination" and s.name.startswith("fit")
            lines.append("    ensures")
            if consumes:
                continue
            lines.append("        (*res).%s.put(%s, %s, %s)," % (b, old, toks, "(%s) as int" % n if "+" in n or "items" in n else n))
            lines.append("        *final(res) == *final(self),")
            if w.kind == "Stream":
                lines.append("        res.%s.data == old(self).%s.data," % (w.field, w.field))
        if re.search(r"[=(]\s*\[|\*\$|^\+", s.eff):
            use = "all_toks_short"
            m = re.search(r"\*name \$(\d)", s.eff)
            if m:
                t = re.search(r"Item = (\w+)", s.args[int(m[1])])[1]
                use = "{all_toks_short, names_short_%s, names_same_%s}" % (t, t)
            lines += ["//@ at start", "        broadcast use %s;" % use]
        lines.append("//@ end")
        o += lines
    open(os.path.join(OUT, mod + ".vt"), "w").write("\n".join(o) + "\n")
    unit = """//@ include common.vt
// Property C19: what the methods of %s.rs write.
//@ include setbase.vt
//@ include-proved writers gen/writers.vt
//@ include gen/%s.vt
""" % (mod, mod)
    if mod == "structure":
        unit = unit.replace("//@ include gen/structure", "//@ include-proved writers treelib.vt\n//@ include-proved roles rolelib.vt\n//@ include gen/structure")
    if mod == "attributes":
        unit = unit.replace("//@ include gen/attributes", "//@ include sideslib.vt\n//@ include-proved sides sidesfn.vt\n//@ include gen/attributes")
    if mod == "forms":
        unit = unit.replace("//@ include gen/forms", "//@ include mdplib.vt\n//@ include gen/forms")
    if os.path.exists(os.path.join(HERE, "proofs", "spec_%s.vt" % mod)):
        unit += "//@ include spec_%s.vt\n" % mod
    unit += "\n} // verus!\nfn main() {}\n"
    open(os.path.join(HERE, "proofs", "set_%s.vt" % mod), "w").write(unit)


def gen_ops():
    """The operators of content streams."""
    o = [HEAD % "setters.txt", "//@ drop-methods array dict typed op"]
    for s in SETTERS:
        m = re.match(r"op (\S+) ?(.*)$", s.eff)
        if not m:
            continue
        op = m[1].replace('\\"', '"')
        parts = re.findall(r"\(([^()]*)\)", m[2])
        t, pre = [], []
        for x in parts:
            a, b = value(x, s.args)
            t.append(a)
            pre += b
        t.append("seq![Tok::Reg(%s)]" % seq(op))
        o += ["//@ fn %s %s::%s" % (s.file, s.ty, s.name), "//@ ret res", "//@ opt toks self.buf", "//@ opt strlits ascii", "//@ contract"]
        if pre:
            o.append("    requires %s," % ", ".join(pre))
        o += ["    ensures (*res).put(*old(self), %s), *final(res) == *final(self)," % " + ".join(t),
              "//@ at start", "        broadcast use all_toks_short;", "//@ end"]
    open(os.path.join(OUT, "ops.vt"), "w").write("\n".join(o) + "\n")


if __name__ == "__main__":
    gen_ops()
    os.makedirs(OUT, exist_ok=True)
    gen_enums()
    if os.path.exists(os.path.join(HERE, "tables", "flags.txt")):
        gen_flags()
    gen_writers()
    gen_starters()
    for f in sorted({s.file for s in SETTERS}):
        gen_setters(f, f[:-3])
