#!/usr/bin/env python3
"""Writes the types the monitors exercise: a fixed matrix of every feature of the derive macros and
random programs drawn from a seed. Usage: gen_zoo.py OUTDIR SEED RANDOM_GROUPS SHARDS [GROUPS TO LEAVE OUT]

Each group is a tree of types. For each type: the Rust definition with its derives, a conversion
to and from plain values, and a descriptor saying what the annotations ask for."""
import os
import random
import re
import struct
import sys

PRIMS = ["Bool", "I8", "U8", "I16", "U16", "I32", "U32", "I64", "U64", "F32", "F64", "Str"]
RUST = {"Bool": "bool", "Str": "String", **{p: p.lower() for p in PRIMS if p not in ("Bool", "Str")}}


def q(s):
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif ord(c) < 32 or ord(c) == 127:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return out + '"'


def oq(s):
    return "None" if s is None else f"Some({q(s)})"


def f32(x):
    return ("F32", struct.unpack("<I", struct.pack("<f", x))[0])


def f64(x):
    return ("F64", struct.unpack("<Q", struct.pack("<d", x))[0])


def val_rs(v):
    """descriptor expression of a value"""
    k = v[0]
    if k == "Bool":
        return f"Val::Bool({'true' if v[1] else 'false'})"
    if k == "Int":
        return f"Val::Int({v[1]})"
    if k in ("F32", "F64"):
        return f"Val::{k}({v[1]})"
    if k == "Str":
        return f"Val::Str({q(v[1])}.to_string())"
    if k == "None":
        return "Val::None"
    if k == "Some":
        return f"Val::Some(Box::new({val_rs(v[1])}))"
    if k == "Vec":
        return "Val::Vec(vec![" + ",".join(val_rs(x) for x in v[1]) + "])"
    if k == "Unit":
        return f"Val::Unit({v[1]})"
    if k == "Var":
        return f"Val::Var({v[1]}, Box::new({val_rs(v[2])}))"
    if k == "Struct":
        return "Val::Struct(vec![" + ",".join(val_rs(x) for x in v[1]) + "])"
    raise Exception(v)


class Group:
    def __init__(self, name, feats=()):
        self.name = name
        self.types = []
        self.feats = list(feats)
        self.root = 0
        self.raw = []

    def add(self, **t):
        t.setdefault("xml", None)
        t.setdefault("prefix", None)
        t.setdefault("default_ns", None)
        t.setdefault("namespaces", [])
        t.setdefault("flatten", False)
        t.setdefault("tag", None)
        t.setdefault("entry", True)
        if "name" not in t:
            t["name"] = f"{self.name}T{len(self.types)}"
        self.types.append(t)
        self.root = len(self.types) - 1
        return self.root

    def struct(self, fields, **t):
        return self.add(kind="struct", fields=fields, **t)

    def enum(self, variants, default=None, **t):
        if default is None:
            default = next((("Unit", i) for i, v in enumerate(variants) if v["payload"] is None), None)
        assert default is not None
        return self.add(kind="enum", variants=variants, default=default, **t)

    def wrap(self, prim, hex=False, own=False, **t):
        return self.add(kind="wrap", prim=prim, hex=hex, own=own, **t)

    # ---- emission ----
    def derives(self):
        return "YaSerialize" if "write" in self.feats else "YaSerialize, YaDeserialize"

    def ty_rs(self, ty):
        return RUST[ty[1]] if ty[0] == "p" else self.types[ty[1]].get("rust_ty", self.types[ty[1]]["name"])

    def full_ty(self, card, ty):
        t = self.ty_rs(ty)
        return {"One": t, "Opt": f"Option<{t}>", "Many": f"Vec<{t}>", "OptMany": f"Option<Vec<{t}>>", "ManyOpt": f"Vec<Option<{t}>>"}[card]

    def emit_type(self, t):
        out = []
        opts = []
        if t["xml"] is not None:
            opts.append(f"rename = {q(t['xml'])}")
        if t["namespaces"]:
            opts.append("namespaces = { " + ", ".join(f"{q(p)} = {q(u)}" for p, u in t["namespaces"]) + " }")
        if t["prefix"] is not None:
            opts.append(f"prefix = {q(t['prefix'])}")
        if t["default_ns"] is not None:
            opts.append(f"default_namespace = {q(t['default_ns'])}")
        if t["flatten"]:
            opts.append("flatten = true")
        if t["tag"] is not None:
            opts.append(f"tag = {q(t['tag'])}")
        attr = f"#[yaserde({', '.join(opts)})]\n" if opts else ""
        name = t["name"]
        plain = name.replace("r#", "")
        rust_ty = t.get("rust_ty", name)
        if t["kind"] == "struct":
            methods = []
            body = []
            for i, f in enumerate(t["fields"]):
                fo = []
                if f["rename"] is not None:
                    fo.append(f"rename = {q(f['rename'])}")
                if f["prefix"] is not None:
                    fo.append(f"prefix = {q(f['prefix'])}")
                if f["role"] == "Attr":
                    fo.append("attribute = true")
                if f["role"] == "Text":
                    fo.append("text = true")
                if f["role"] == "Cdata":
                    fo.append("cdata = true")
                if f["role"] == "Flat":
                    fo.append("flatten = true")
                full = self.full_ty(f["card"], f["ty"])
                if f["default"] is not None:
                    fn = f"default_{plain}_{i}"
                    fo.append(f"default = {q(fn)}")
                    out.append(f"#[allow(non_snake_case)]\nfn {fn}() -> {full} {{ <{full} as Zoo>::from_val(&{val_rs(f['default'])}) }}\n")
                if f["skip"]:
                    fo.append("skip_serializing = true")
                if f["skip_if"] is not None:
                    fn = f"skip_{i}"
                    fo.append(f"skip_serializing_if = {q(fn)}")
                    kind = f["skip_if"][0]
                    if kind in ("Is", "IsNot"):
                        op = "==" if kind == "Is" else "!="
                        expr = f"v.to_val() {op} {val_rs(f['skip_if'][1])}"
                    else:
                        expr = "true" if kind == "Always" else "false"
                    methods.append(f"  #[allow(unused_variables)]\n  fn {fn}(&self, v: &{full}) -> bool {{ {expr} }}\n")
                fa = f"  #[yaserde({', '.join(fo)})]\n" if fo else ""
                decl = f.get("rust_decl", full)
                body.append(f"{fa}  pub {f['rust']}: {decl},\n")
            gen = t.get("generics", "")
            wher = t.get("where", "")
            if t.get("define", True):
                out.append(f"#[derive(Debug, Clone, PartialEq, {self.derives()})]\n{attr}pub struct {name}{gen} {wher} {{\n{''.join(body)}}}\n")
            if methods:
                out.append(f"impl {name} {{\n{''.join(methods)}}}\n")
            to = ", ".join(f"self.{f['rust']}.to_val()" for f in t["fields"])
            frm = ", ".join(f"{f['rust']}: Zoo::from_val(&f[{i}])" for i, f in enumerate(t["fields"]))
            out.append(f"impl Zoo for {rust_ty} {{\n  fn to_val(&self) -> Val {{ Val::Struct(vec![{to}]) }}\n  #[allow(unused_variables)]\n  fn from_val(v: &Val) -> Self {{ let f = v.fields(); {name} {{ {frm} }} }}\n}}\n")
        elif t["kind"] == "enum":
            body = []
            for i, v in enumerate(t["variants"]):
                vo = []
                if v["rename"] is not None:
                    vo.append(f"rename = {q(v['rename'])}")
                if v["prefix"] is not None:
                    vo.append(f"prefix = {q(v['prefix'])}")
                if v.get("flatten"):
                    vo.append("flatten = true")
                va = f"  #[yaserde({', '.join(vo)})]\n" if vo else ""
                if v.get("fields"):
                    inner = []
                    for f in v["fields"]:
                        fo = [f"{k} = {q(f[k])}" for k in ("rename", "prefix") if f[k] is not None]
                        inner.append((f"#[yaserde({', '.join(fo)})] " if fo else "") + f"{f['rust']}: {self.full_ty(f['card'], f['ty'])}")
                    body.append(f"{va}  {v['rust']} {{ {', '.join(inner)} }},\n")
                elif v["payload"] is None:
                    body.append(f"{va}  {v['rust']},\n")
                else:
                    body.append(f"{va}  {v['rust']}({self.full_ty(*v['payload'])}),\n")
            if t.get("define", True):
              out.append(f"#[derive(Debug, Clone, PartialEq, {self.derives()})]\n{attr}pub enum {name} {{\n{''.join(body)}}}\n")
              out.append(f"impl Default for {name} {{ fn default() -> Self {{ <Self as Zoo>::from_val(&{val_rs(t['default'])}) }} }}\n")
            to, frm = [], []
            for i, v in enumerate(t["variants"]):
                if v.get("fields"):
                    names = ", ".join(f"{f['rust']}: x{k}" for k, f in enumerate(v["fields"]))
                    vals = ", ".join(f"x{k}.to_val()" for k, f in enumerate(v["fields"]))
                    made = ", ".join(f"{f['rust']}: Zoo::from_val(&x.fields()[{k}])" for k, f in enumerate(v["fields"]))
                    to.append(f"{name}::{v['rust']} {{ {names} }} => Val::Var({i}, Box::new(Val::Struct(vec![{vals}]))),")
                    frm.append(f"Val::Var({i}, x) => {name}::{v['rust']} {{ {made} }},")
                elif v["payload"] is None:
                    to.append(f"{name}::{v['rust']} => Val::Unit({i}),")
                    frm.append(f"Val::Unit({i}) => {name}::{v['rust']},")
                else:
                    to.append(f"{name}::{v['rust']}(x) => Val::Var({i}, Box::new(x.to_val())),")
                    frm.append(f"Val::Var({i}, x) => {name}::{v['rust']}(Zoo::from_val(x)),")
            out.append(f"impl Zoo for {rust_ty} {{\n  fn to_val(&self) -> Val {{ match self {{ {' '.join(to)} }} }}\n  fn from_val(v: &Val) -> Self {{ match v {{ {' '.join(frm)} _ => panic!(\"harness: bad enum value {{v:?}}\") }} }}\n}}\n")
        else:
            inner = RUST[t["prim"]]
            if t.get("custom"):
                out.append(CUSTOM.replace("NAME", name))
                return "".join(out)
            der = "HexBinaryYaSerde" if t["hex"] else "DefaultYaSerde" if t["own"] else "PrimitiveYaSerde"
            out.append(f"mod m_{plain.lower()} {{\n  #[allow(unused_imports)] use ::yaserde::*; use ::std::str::FromStr as _;\n  #[derive(Debug, Clone, PartialEq, Default, {der})]\n  pub struct {name}(pub {inner});\n")
            if t["hex"]:
                mask = t.get("mask")
                cond = "true" if mask is None else f"bits & !{mask} == 0"
                out.append(f"  impl {name} {{ pub fn from_bits(bits: {inner}) -> Option<Self> {{ if {cond} {{ Some({name}(bits)) }} else {{ None }} }} }}\n")
            if t["own"]:
                out.append(f"  impl std::fmt::Display for {name} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ write!(f, \"{{}}\", self.0) }} }}\n")
                out.append(f"  impl std::str::FromStr for {name} {{ type Err = String; fn from_str(s: &str) -> Result<Self, String> {{ s.parse().map({name}).map_err(|_| \"unparsable\".to_string()) }} }}\n")
            out.append(f"}}\npub use m_{plain.lower()}::{name};\n")
            out.append(f"impl Zoo for {name} {{ fn to_val(&self) -> Val {{ self.0.to_val() }} fn from_val(v: &Val) -> Self {{ {name}(Zoo::from_val(v)) }} }}\n")
        return "".join(out)

    def desc_ty(self, ty):
        return f"Ty::P(Prim::{ty[1]})" if ty[0] == "p" else f"Ty::R({ty[1]})"

    def desc_field(self, f):
        xmln = f["rename"] if f["rename"] is not None else f["rust"].replace("r#", "")
        si = "None"
        if f["skip_if"] is not None:
            si = f"Some(SkipIf::{f['skip_if'][0]}" + (f"({val_rs(f['skip_if'][1])})" if len(f["skip_if"]) > 1 else "") + ")"
        d = "None" if f["default"] is None else f"Some({val_rs(f['default'])})"
        return f"Field {{ rust: {q(f['rust'])}, xml: {q(xmln)}, prefix: {oq(f['prefix'])}, role: Role::{f['role']}, card: Card::{f['card']}, ty: {self.desc_ty(f['ty'])}, default: {d}, skip: {'true' if f['skip'] else 'false'}, skip_if: {si} }}"

    def emit_desc(self, t):
        xml = t["xml"] if t["xml"] is not None else t["name"].replace("r#", "")
        ns = ", ".join(f"({q(p)}, {q(u)})" for p, u in sorted(t["namespaces"]))
        if t["kind"] == "struct":
            fs = [self.desc_field(f) for f in t["fields"]]
            kind = "Kind::Struct(vec![\n      " + ",\n      ".join(fs) + "])"
        elif t["kind"] == "enum":
            vs = []
            for v in t["variants"]:
                xmln = v["rename"] if v["rename"] is not None else v["rust"].replace("r#", "")
                p = "None" if v["payload"] is None else f"Some((Card::{v['payload'][0]}, {self.desc_ty(v['payload'][1])}))"
                fields = "Some(vec![" + ", ".join(map(self.desc_field, v["fields"])) + "])" if v.get("fields") else "None"
                vs.append(f"Variant {{ rust: {q(v['rust'])}, xml: {q(xmln)}, prefix: {oq(v['prefix'])}, payload: {p}, fields: {fields} }}")
            kind = f"Kind::Enum {{ tag: {oq(t['tag'])}, default: {val_rs(t['default'])}, variants: vec![\n      " + ",\n      ".join(vs) + "] }"
        else:
            kind = f"Kind::Wrap {{ prim: Prim::{t['prim']}, hex: {'true' if t['hex'] else 'false'}, mask: {'None' if t.get('mask') is None else 'Some(%d)' % t['mask']} }}"
        return f"TypeDef {{ name: {q(t['name'])}, xml: {q(xml)}, prefix: {oq(t['prefix'])}, default_ns: {oq(t['default_ns'])}, namespaces: vec![{ns}], flatten: {'true' if t['flatten'] else 'false'}, kind: {kind} }}"

    def expand(self, ty, depth=0):
        """the fields of a struct with its plain flattened structs written out, or None"""
        out, any_ = [], False
        for f in self.types[ty]["fields"]:
            sub = self.types[f["ty"][1]] if f["ty"][0] == "r" else None
            if f["role"] == "Flat" and f["card"] == "One" and sub["kind"] == "struct" and not (f["skip"] or f["skip_if"] or f["default"]):
                out += self.expand(f["ty"][1], depth + 1)[0]
                any_ = True
            else:
                out.append(dict(f))
        return out, any_

    def namespaces_of(self, ty):
        ns = dict(self.types[ty]["namespaces"])
        for f in self.types[ty].get("fields", []):
            if f["role"] == "Flat" and f["ty"][0] == "r":
                ns.update(self.namespaces_of(f["ty"][1]))
        return ns

    def pair_up(self):
        self.pair = None
        root = self.types[self.root]
        if root["kind"] != "struct" or root.get("rust_ty"):
            return
        fields, any_ = self.expand(self.root)
        if not any_:
            return
        t = dict(root)
        t["xml"] = root["xml"] if root["xml"] is not None else root["name"]
        t["name"] = self.name + "Inlined"
        t["fields"] = fields
        t["namespaces"] = sorted(self.namespaces_of(self.root).items())
        self.types.append(t)
        self.pair = len(self.types) - 1

    def emit(self):
        self.pair_up()
        m = self.name.lower()
        out = [f"#[allow(dead_code, unused_imports, non_camel_case_types, clippy::all)]\npub mod {m} {{\nuse ymcore::*;\nuse ::yaserde::{{YaSerialize, YaDeserialize}};\n"]
        out += self.raw
        for t in self.types:
            out.append(self.emit_type(t))
        feats = ", ".join(q(f) for f in self.feats)
        out.append(f"pub fn group() -> Group {{ Group {{ name: {q(self.name)}, feats: &[{feats}], root: {self.root}, pair: {'None' if self.pair is None else f'Some({self.pair})'}, types: vec![\n    ")
        out.append(",\n    ".join(self.emit_desc(t) for t in self.types))
        def entries(ok):
            return ", ".join(f"({i}, {'write_' if 'write' in self.feats else ''}entry::<{t.get('rust_ty', t['name'])}>())" for i, t in enumerate(self.types) if ok(t))

        out.append(f"],\n  entries: vec![{entries(lambda t: t['entry'])}],\n  frags: vec![{entries(lambda t: t.get('frag'))}] }} }}\n}}\n")
        return "".join(out)


def fld(rust, ty, role="Elem", card="One", rename=None, prefix=None, default=None, skip=False, skip_if=None, **kw):
    if isinstance(ty, str):
        ty = ("p", ty)
    elif isinstance(ty, int):
        ty = ("r", ty)
    return dict(rust=rust, ty=ty, role=role, card=card, rename=rename, prefix=prefix, default=default, skip=skip, skip_if=skip_if, **kw)


def var(rust, payload=None, card="One", rename=None, prefix=None, **kw):
    if isinstance(payload, str):
        payload = (card, ("p", payload))
    elif isinstance(payload, int):
        payload = (card, ("r", payload))
    return dict(rust=rust, payload=payload, rename=rename, prefix=prefix, **kw)


def prim_default(p, rng=None):
    rng = rng or random.Random(p)
    if p == "Bool":
        return ("Bool", True)
    if p == "Str":
        return ("Str", rng.choice(["dflt", "a b", "<x>&", "größe"]))
    if p == "F32":
        return f32(rng.choice([1.5, -0.25, 100.0]))
    if p == "F64":
        return f64(rng.choice([1.5, -0.1, 1e300]))
    return ("Int", rng.choice([0, 1, 7, 100]))


# a hand-written implementation, the way the documentation of the traits suggests
CUSTOM = '''#[derive(Debug, Clone, PartialEq, Default)]
pub struct NAME(pub String);
impl YaSerialize for NAME {
  fn serialize<W: std::io::Write>(&self, writer: &mut ::yaserde::ser::Serializer<W>) -> Result<(), String> {
    use ::yaserde::__xml::writer::XmlEvent;
    let name = writer.get_start_event_name().unwrap_or_else(|| "NAME".to_string());
    if !writer.skip_start_end() {
      writer.write(XmlEvent::start_element(name.as_str())).map_err(|e| e.to_string())?;
    }
    writer.write(XmlEvent::characters(&format!("c:{}", self.0))).map_err(|e| e.to_string())?;
    if !writer.skip_start_end() {
      writer.write(XmlEvent::end_element()).map_err(|e| e.to_string())?;
    }
    Ok(())
  }
  fn serialize_attributes(
    &self,
    attributes: Vec<::yaserde::__xml::attribute::OwnedAttribute>,
    namespace: ::yaserde::__xml::namespace::Namespace,
  ) -> Result<(Vec<::yaserde::__xml::attribute::OwnedAttribute>, ::yaserde::__xml::namespace::Namespace), String> {
    Ok((attributes, namespace))
  }
}
impl YaDeserialize for NAME {
  fn deserialize<R: std::io::Read>(reader: &mut ::yaserde::de::Deserializer<R>) -> Result<Self, String> {
    use ::yaserde::__xml::reader::XmlEvent;
    match reader.next_event()? {
      XmlEvent::StartElement { .. } => {}
      other => return Err(format!("unexpected {other:?}")),
    }
    let mut text = String::new();
    loop {
      match reader.peek()?.to_owned() {
        XmlEvent::Characters(c) => {
          text.push_str(&c);
          reader.next_event()?;
        }
        XmlEvent::StartElement { .. } => {
          reader.next_event()?;
          reader.skip_element(|_| {})?;
        }
        _ => break,
      }
    }
    text.strip_prefix("c:").map(|t| NAME(t.to_string())).ok_or("no prefix".to_string())
  }
}
impl Zoo for NAME {
  fn to_val(&self) -> Val { Val::Str(format!("c:{}", self.0)) }
  fn from_val(v: &Val) -> Self { match v { Val::Str(s) => NAME(s.strip_prefix("c:").unwrap_or(s).to_string()), _ => panic!("harness: not a string") } }
}
'''


# ------------------------------------------------------------------ fixed matrix
def matrix():
    gs = []

    def new(name, *feats):
        g = Group(name, feats)
        gs.append(g)
        return g

    # every scalar in every position
    for p in PRIMS:
        g = new("Prim" + p, "prim")
        g.struct([
            fld("one", p), fld("opt", p, card="Opt"), fld("many", p, card="Many"),
            fld("at", p, role="Attr"), fld("oat", p, role="Attr", card="Opt"),
        ])
        g = new("PrimDef" + p, "prim", "default")
        g.struct([
            fld("one", p, default=prim_default(p)), fld("at", p, role="Attr", default=prim_default(p)),
            fld("req", p), fld("other", "Str", card="Opt"),
        ])
        g = new("PrimEnum" + p, "prim", "enum")
        e = g.enum([var("Nothing"), var("Scalar", p), var("List", p, card="Many"), var("Maybe", p, card="Opt")])
        g.struct([fld("e", e), fld("oe", e, card="Opt"), fld("ve", e, card="Many")])

    # names
    g = new("Names", "names")
    inner = g.struct([fld("r#ref", "Str", role="Attr"), fld("r#type", "I32"), fld("fn_", "I32", rename="fn")])
    g.struct([
        fld("dotted", "Str", rename="a.b.c"), fld("dashed", "Str", rename="x-y"), fld("under", "U8", rename="_u"),
        fld("uni", "Str", rename="größe"), fld("cjk", "Str", rename="名前", card="Many"), fld("digits", "I64", rename="n1.2-3"),
        fld("adash", "Str", role="Attr", rename="a-b"), fld("adot", "Str", role="Attr", rename="a.d"), fld("auni", "Str", role="Attr", rename="é", card="Opt"),
        fld("r#struct", inner), fld("r#match", "Bool", card="Opt"), fld("r#impl", "Str", role="Attr", card="Opt"),
    ], xml="root.name-1")

    # types and variants with raw identifiers
    g = new("RawNames", "names")
    w, n = g.wrap("Str", name="r#box"), g.wrap("U16", name="r#loop")
    inner = g.struct([fld("r#as", "I32", default=("Int", 3)), fld("r#in", n, role="Attr"), fld("text", "Str", role="Text")], name="r#type")
    e = g.enum([var("r#fn"), var("r#match", "U8"), var("r#struct", inner), var("r#let", n, card="Many"), var("r#impl", "Str", card="Opt")], name="r#enum")
    t = g.enum([var("r#fn"), var("r#match", "U8"), var("r#struct", inner)], name="r#trait", tag="kind")
    g.struct([fld("r#type", inner), fld("r#enum", e), fld("many", e, card="Many"), fld("r#trait", t, card="Opt"), fld("r#box", w, card="Many"), fld("r#loop", n, role="Attr", card="Opt"), fld("b", n)], name="r#mod")

    # fields called like the variables of the generated code
    g = new("Hygiene", "names")
    g.struct([fld(n, p, card=c) for n, p, c in [
        ("reader", "Str", "One"), ("depth", "I32", "One"), ("event", "Str", "Opt"), ("writer", "Str", "Many"),
        ("value", "U8", "One"), ("result", "Bool", "One"), ("visitor", "I8", "Opt"), ("buf", "Str", "One"),
        ("namespace", "Str", "One"), ("attributes", "Str", "One"), ("name", "Str", "One"), ("named_element", "Str", "Opt"),
        ("start_depth", "U64", "One"), ("unused_xml_elements", "Str", "Opt"), ("text_content", "Str", "Opt")]]
        + [fld("attr", "Str", role="Attr"), fld("skip", "Str", role="Attr", card="Opt")])

    # names of any length
    g = new("LongNames", "names")
    long = lambda c, n: c + "".join("abcdefghijklmnopqrstuvwxyz"[i * 7 % 26] for i in range(n - 1))
    leaf = g.struct([fld("x", "I32", rename=long("l", 65)), fld("k", "Str", role="Attr", rename=long("k", 129))], xml=long("T", 300))
    e = g.enum([var("A", rename=long("A", 70)), var("B", "I32", rename=long("B", 257)), var("C", leaf, card="Many", rename=long("C", 128)), var("D", "Str", rename="D")], xml=long("E", 66))
    t = g.enum([var("A", rename=long("A", 70)), var("B", "I32", rename=long("B", 100))], tag=long("t", 90), xml="t")
    f = g.struct([fld("q", "U8", rename=long("Q", 1024)), fld("r", "Str", role="Attr", rename=long("R", 64))])
    g.struct([fld("a", leaf, rename=long("a", 64)), fld("b", leaf, card="Many", rename=long("b", 255)), fld("c", leaf, card="Opt", rename=long("c", 63)), fld("d", "Str", rename=long("d", 256)), fld("e", e, card="Many", rename=long("e", 100)),
              fld("f", "F64", role="Attr", rename=long("f", 512)), fld("g", "Str", role="Cdata", rename=long("g", 80)), fld("h", "U8", card="Opt", rename=long("h", 128)), fld("i", "Bool", card="Many", rename=long("i", 127)), fld("j", t, rename="j"),
              fld("l", f, role="Flat"), fld("m", "I8", rename="m")], xml=long("r", 200))

    # an attribute and an element sharing a name; fields named like their struct, parent and grandparent
    g = new("SameName", "names")
    leaf = g.struct([fld("id", "I32", card="Opt"), fld("node", "Str", card="Many")], xml="leaf")
    mid = g.struct([fld("id_a", "Str", role="Attr", rename="id"), fld("id", "I32"), fld("mid", leaf, card="Opt"), fld("leaf", leaf, card="Many")], xml="mid")
    g.struct([fld("id_a", "U8", role="Attr", rename="id"), fld("id", "Str"), fld("node", mid), fld("leaf", leaf), fld("top", "Bool", card="Opt")], xml="top")

    g = new("SameScalar", "names")
    a = g.struct([fld("sub", "I32", card="Opt"), fld("tag", "Str", card="Opt")])
    b = g.struct([fld("sub", a, card="Opt"), fld("tag", "Str", card="Many")])
    g.struct([fld("sub", b), fld("tag", "Str")], xml="sub")

    # nesting, repetition, recursion
    g = new("Nest", "nested")
    d = g.struct([fld("v", "I64"), fld("s", "Str", card="Opt"), fld("k", "Str", role="Attr")])
    c = g.struct([fld("d", d), fld("od", d, card="Opt"), fld("vd", d, card="Many")])
    b = g.struct([fld("c", c), fld("vc", c, card="Many"), fld("n", "U16", role="Attr", card="Opt")])
    g.struct([fld("b", b), fld("ob", b, card="Opt"), fld("last", "Str")])

    g = new("Rec", "nested", "recursive")
    g.struct([fld("label", "Str"), fld("w", "F64", role="Attr"), fld("child", 0, card="Many"), fld("tail", "U8", card="Opt")])

    g = new("RecEnum", "nested", "recursive", "enum")
    g.enum([var("Leaf", "I32"), var("Empty"), var("Node", 1)])
    g.struct([fld("left", 0, card="Many"), fld("name", "Str")])

    g = new("Empty", "nested")
    e = g.struct([])
    g.struct([fld("e", e), fld("oe", e, card="Opt"), fld("ve", e, card="Many"), fld("x", "U8")])

    g = new("Wide", "nested")
    g.struct([fld(f"f{i}", PRIMS[i % 12], card=["One", "Opt", "Many"][i % 3]) for i in range(24)]
             + [fld(f"a{i}", PRIMS[(i * 5) % 12], role="Attr", card=["One", "Opt"][i % 2]) for i in range(16)])

    # text and CDATA
    g = new("Text", "text")
    t = g.struct([fld("lang", "Str", role="Attr"), fld("content", "Str", role="Text")])
    o = g.struct([fld("lang", "Str", role="Attr", card="Opt"), fld("content", "Str", role="Text", card="Opt")])
    only = g.struct([fld("content", "Str", role="Text")])
    g.struct([fld("t", t), fld("ot", t, card="Opt"), fld("vt", t, card="Many"), fld("o", o), fld("vo", o, card="Many"), fld("only", only), fld("vonly", only, card="Many")])

    g = new("TextMix", "text")
    i = g.struct([fld("b", "Str"), fld("body", "Str", role="Text"), fld("c", "I32", card="Opt")])
    g.struct([fld("head", i), fld("body", "Str", role="Text"), fld("n", "I32", role="Attr"), fld("x", "U8", card="Many")])

    g = new("Cdata", "cdata")
    c = g.struct([fld("code", "Str", role="Cdata"), fld("plain", "Str")])
    g.struct([fld("first", "Str", role="Cdata"), fld("c", c), fld("vc", c, card="Many"), fld("last", "Str", role="Cdata", rename="la-st")])

    # flatten
    g = new("Flat", "flatten")
    extra = g.struct([fld("week", "I32"), fld("century", "I32"), fld("kind", "Str", role="Attr")])
    oextra = g.struct([fld("lunar", "I32"), fld("note", "Str", card="Opt")])
    date = g.struct([fld("year", "I32"), fld("month", "U8"), fld("extra", extra, role="Flat"), fld("oextra", oextra, role="Flat", card="Opt"), fld("era", "Str", role="Attr")])
    g.struct([fld("date", date, role="Flat"), fld("time", "Str"), fld("zone", "Str", role="Attr", card="Opt"), fld("tags", "Str", card="Many")])

    g = new("FlatAttr", "flatten")
    font = g.struct([fld("size", "U32", role="Attr"), fld("bold", "Bool", role="Attr", card="Opt")])
    deco = g.struct([fld("color", "Str", role="Attr"), fld("font", font, role="Flat")])
    odeco = g.struct([fld("link", "Str", role="Attr")])
    g.struct([fld("deco", deco, role="Flat"), fld("odeco", odeco, role="Flat", card="Opt"), fld("display", "Str", role="Attr"), fld("child", font)])

    g = new("FlatNest", "flatten")
    item = g.struct([fld("p", "Str"), fld("q", "Str", role="Attr", card="Opt")])
    inner = g.struct([fld("item", item), fld("items", item, card="Many"), fld("oitem", item, card="Opt"), fld("s", "Str", card="Many")])
    g.struct([fld("before", item), fld("inner", inner, role="Flat"), fld("after", item, card="Opt"), fld("z", "Str")])

    g = new("FlatTwo", "flatten")
    a = g.struct([fld("a1", "Str"), fld("a2", "I32", card="Opt"), fld("aa", "Str", role="Attr")])
    b = g.struct([fld("b1", "Str"), fld("b2", "F64", card="Many"), fld("ba", "I8", role="Attr", card="Opt")])
    mid = g.struct([fld("m", "Str", card="Opt"), fld("b", b, role="Flat")])
    g.struct([fld("a", a, role="Flat"), fld("mid", mid, role="Flat"), fld("x", mid)])

    g = new("FlatEnum", "flatten", "enum")
    pay = g.struct([fld("v", "Str"), fld("w", "I32", card="Opt")])
    k = g.enum([var("Working", rename="working"), var("Holidays", "Str", card="Many", rename="holidays"), var("Count", "U32"), var("Pay", pay)])
    g.struct([fld("day", "U8"), fld("kind", k, role="Flat"), fld("at", "Str", role="Attr")])

    g = new("FlatDefault", "flatten", "default")
    f = g.struct([fld("x", "I32", default=("Int", 9)), fld("y", "Str", card="Opt"), fld("z", "Str", role="Attr", default=("Str", "zz"))])
    g.struct([fld("f", f, role="Flat"), fld("k", "Bool", default=("Bool", True)), fld("last", "Str")])

    g = new("FlatNs", "flatten", "ns")
    f = g.struct([fld("x", "I32", prefix="m"), fld("y", "Str", card="Many", prefix="m"), fld("at", "Str", role="Attr", prefix="m")], namespaces=[("m", "urn:flat:m")])
    g.struct([fld("own", "Str", prefix="r"), fld("f", f, role="Flat"), fld("last", "Str")], namespaces=[("r", "urn:flat:r"), ("m", "urn:flat:m")], prefix="r")

    # the enum knows nothing of the namespace of the fields holding it, or another one by other prefixes
    g = new("NsEnumFields", "enum", "ns")
    plain = g.enum([var("A"), var("B", "I32"), var("C", "Str", card="Many")])
    other = g.enum([var("A"), var("B", "I32", prefix="o"), var("D", plain, prefix="o")], namespaces=[("o", "urn:enum:o")], prefix="o")
    tagged = g.enum([var("A"), var("B")], tag="k")
    f = g.struct([fld("fe", plain, prefix="x"), fld("fo", other, card="Opt", prefix="x"), fld("fx", "U8")], namespaces=[("x", "urn:enum:m")])
    g.struct([fld("e", plain, prefix="m"), fld("es", plain, card="Many", prefix="m"), fld("o", other, prefix="m"), fld("own", other, prefix="q", card="Opt"), fld("t", tagged, prefix="m", card="Many"), fld("n", other), fld("f", f, role="Flat"), fld("tail", "Str", prefix="m")],
             namespaces=[("m", "urn:enum:m"), ("q", "urn:enum:o")], prefix="m")

    # variants whose content is an element of its own name
    g = new("FlatVar", "flatten", "enum")
    p1 = g.struct([fld("v", "Str"), fld("k", "I32", role="Attr")])
    p2 = g.struct([fld("rule", "Str"), fld("P1", "U8", card="Opt")], xml="rule")
    e = g.enum([var("Nil"), var("First", p1, rename="FlatVarT0", flatten=True), var("Two", p2, rename="rule", flatten=True), var("N", "I32"), var("Own", p1), var("Rules", p2, card="Many")])
    g.struct([fld("rule", e), fld("oe", e, card="Opt"), fld("ve", e, card="Many"), fld("tail", "Str")])

    # types that are flattened themselves
    g = new("FragEnum", "flatten", "enum", "frag")
    p1 = g.struct([fld("v", "Str"), fld("k", "I32", role="Attr")])
    p2 = g.struct([fld("w", "Str", card="Many"), fld("N", "U8", card="Opt")], xml="rule")
    e = g.enum([var("N", "I32"), var("L", "Str", card="Many", rename="l-l"), var("Two", p2, rename="rule", flatten=True), var("Own", p1), var("O", p1, card="Opt"), var("Owns", p2, card="Many"), var("B", "Bool")],
               default=("Var", 0, ("Int", 0)), flatten=True, entry=False, frag=True)
    g.struct([fld("first", "I32"), fld("e", e, role="Flat"), fld("last", "Str", card="Opt"), fld("s", p1), fld("at", "Str", role="Attr")])

    g = new("FragStruct", "flatten", "frag")
    sub = g.struct([fld("v", "I32"), fld("k", "Str", role="Attr")])
    en = g.enum([var("A"), var("B", "I32"), var("C", "Str", card="Many")])
    f = g.struct([fld("a", "Str"), fld("b", "U8", card="Opt"), fld("c", sub, card="Many"), fld("s", sub), fld("e", en), fld("cd", "Str", role="Cdata"), fld("d", "F64", card="Many")], flatten=True, entry=False, frag=True)
    h = g.struct([fld("x", f, role="Flat", card="Opt"), fld("y", "Str", card="Many")])
    g.struct([fld("first", "I32"), fld("x", f, role="Flat"), fld("last", "Str"), fld("h", h), fld("vh", h, card="Many")])

    # one of them named like what is in it
    g = new("FragSame", "flatten", "frag")
    sub = g.struct([fld("a", "I32", card="Opt"), fld("sub", "Str", card="Opt")])
    f = g.struct([fld("a", "Str"), fld("b", sub, card="Many"), fld("sub", sub)], xml="sub", flatten=True, entry=False, frag=False)
    e = g.enum([var("U", "I32", rename="u"), var("T", sub, rename="top")], xml="u", default=("Var", 0, ("Int", 0)), flatten=True, entry=False, frag=False)
    h = g.struct([fld("x", f, role="Flat"), fld("y", "Str")], xml="a")
    g.struct([fld("x", f, role="Flat"), fld("e", e, role="Flat"), fld("h", h, card="Many"), fld("g", h)], xml="b")

    # enums
    g = new("EnumUnit", "enum", "unit")
    e = g.enum([var("Red"), var("Green", rename="green"), var("Blue", rename="b.l-ue"), var("Uni", rename="größe")])
    g.struct([fld("e", e), fld("oe", e, card="Opt"), fld("ve", e, card="Many"), fld("at", e, role="Attr"), fld("oat", e, role="Attr", card="Opt")])

    g = new("EnumTag", "enum", "tag")
    e = g.enum([var("Foo", rename="foo"), var("Bar"), var("Baz", rename="b-z")], tag="type", xml="tagged")
    g.struct([fld("e", e), fld("oe", e, card="Opt"), fld("ve", e, card="Many"), fld("x", "I32")])

    g = new("EnumPay", "enum")
    p1 = g.struct([fld("a", "I32"), fld("b", "Str", card="Opt")])
    p2 = g.struct([fld("a", "Str"), fld("k", "Str", role="Attr"), fld("list", p1, card="Many")])
    e = g.enum([var("Nil"), var("One", p1), var("Two", p2, rename="two"), var("ManyP", p1, card="Many"), var("OptP", p2, card="Opt"),
                var("S", "Str"), var("L", "Str", card="Many"), var("F", "F64"), var("Yes", "Bool"), var("Os", "Str", card="Opt")])
    g.struct([fld("e", e), fld("oe", e, card="Opt"), fld("ve", e, card="Many"), fld("tail", "Str")])

    g = new("EnumIn", "enum")
    e1 = g.enum([var("X"), var("Y", "I32")])
    e2 = g.enum([var("Z"), var("In", e1), var("Ins", e1, card="Many"), var("MaybeIn", e1, card="Opt")])
    g.struct([fld("e", e2), fld("v", e2, card="Many")])

    g = new("EnumSame", "enum", "names")
    s = g.struct([fld("state", "Str")])
    e = g.enum([var("Idle"), var("State", "I32", rename="state"), var("Item", "Str", rename="item"), var("Own", "Str", rename="holder"), var("St", s)], xml="holder")
    u = g.enum([var("A", rename="mode"), var("B"), var("C", rename="modes")], xml="B")
    g.struct([fld("state", e), fld("item", e, card="Many"), fld("mode", u), fld("modes", u, card="Many"), fld("b", u, rename="B")])

    g = new("EnumLists", "enum")
    p = g.struct([fld("a", "I32")])
    e = g.enum([var("Non"), var("Nums", "I32", card="Many"), var("Strs", "Str", card="Many"), var("Ps", p, card="Many"), var("Flags", "Bool", card="Many", rename="flags"), var("Qs", p, card="Many", rename="q")])
    g.struct([fld("e", e), fld("ve", e, card="Many"), fld("oe", e, card="Opt")])

    g = new("EnumTags", "enum", "tag")
    e = g.enum([var("Foo", rename="foo"), var("Type", rename="type"), var("Kind")], tag="t", xml="Kind")
    f = g.enum([var("A"), var("B", rename="b.b"), var("C")], tag="kind-of")
    g.struct([fld("t", e), fld("type_", f, rename="type"), fld("ve", e, card="Many"), fld("vf", f, card="Many", rename="kind-of"), fld("of", f, card="Opt")])

    # tagged enums with content
    g = new("TagBody", "enum", "tag")
    p = g.struct([fld("v", "Str"), fld("kind", "I32", role="Attr"), fld("Num", "U8", card="Opt")])
    inner = g.enum([var("X"), var("Y", "I32"), var("In", p, card="Many", rename="in")], tag="kind", xml="inner")
    e = g.enum([var("Nil"), var("Num", "I32"), var("Text", "Str", rename="te-xt"), var("List", "Str", card="Many"), var("P", p), var("Ps", p, card="Many", rename="ps"),
                var("Maybe", "Bool", card="Opt"), var("MaybeP", p, card="Opt"), var("Inner", inner), var("Kind", inner, card="Many", rename="kind")], tag="kind")
    g.struct([fld("e", e), fld("oe", e, card="Opt"), fld("ve", e, card="Many"), fld("Num", e), fld("after", "Str"), fld("inner", inner, card="Many")])

    g = new("TagBodyNs", "enum", "tag", "ns")
    NS = [("t", "urn:t"), ("u", "urn:u")]
    p = g.struct([fld("v", "I32", prefix="u"), fld("w", "Str", prefix="t", card="Many")], namespaces=NS)
    e = g.enum([var("A", prefix="u"), var("N", "I32", prefix="t"), var("P", p, prefix="u"), var("L", "Str", card="Many"), var("Ps", p, prefix="t", card="Many")], tag="is", namespaces=NS, prefix="t")
    g.struct([fld("e", e, prefix="t"), fld("v", e, prefix="t", card="Many"), fld("last", "Str", prefix="u")], namespaces=NS, prefix="u")

    g = new("TagBodyNoUnit", "enum", "tag")
    q = g.struct([fld("a", "Str", card="Opt"), fld("N", "I32")])
    e = g.enum([var("N", "I32"), var("S", "Str"), var("Q", q)], tag="type", default=("Var", 0, ("Int", 0)), xml="N")
    g.struct([fld("e", e, rename="S"), fld("v", e, card="Many"), fld("a", "U8")])

    g = new("EnumNoUnit", "enum")
    g.enum([var("A", "I32"), var("B", "Str")], default=("Var", 0, ("Int", 0)))
    g.struct([fld("e", 0), fld("v", 0, card="Many")])

    # namespaces
    g = new("Ns", "ns")
    NS = [("p", "http://example.com/p"), ("q", "urn:q:1")]
    leaf = g.struct([fld("v", "I32", prefix="p"), fld("w", "Str", prefix="q", card="Opt"), fld("plain", "Str"), fld("at", "Str", role="Attr", prefix="q")], namespaces=NS)
    g.struct([
        fld("a", "Str", prefix="p"), fld("b", "Str", prefix="q", card="Opt"), fld("c", "Str", card="Many"), fld("d", "U8", prefix="p", card="Many"),
        fld("leaf", leaf, prefix="p"), fld("leaves", leaf, prefix="q", card="Many"), fld("bare", leaf, card="Opt"), fld("at", "I16", role="Attr", prefix="p"), fld("bt", "I16", role="Attr"),
    ], namespaces=NS, prefix="p", xml="root")

    # the same local name in two namespaces and in none
    g = new("NsSame", "ns")
    NS = [("x", "urn:x"), ("y", "urn:y")]
    item = g.struct([fld("xv", "Str", prefix="x", rename="v"), fld("yv", "Str", prefix="y", rename="v"), fld("v", "Str", card="Opt")], namespaces=NS)
    g.struct([fld("xv", "I32", prefix="x", rename="v"), fld("yv", "I32", prefix="y", rename="v"), fld("v", "I32"),
              fld("xi", item, prefix="x", rename="item"), fld("yi", item, prefix="y", rename="item", card="Many"), fld("zi", item, rename="item", card="Opt")], namespaces=NS, prefix="y")

    g = new("NsDefault", "ns", "defaultns")
    NS = [("d", "http://default.example/ns"), ("o", "urn:other")]
    leaf = g.struct([fld("v", "I32", prefix="d"), fld("w", "Str", prefix="o", card="Many"), fld("k", "Str", role="Attr")], namespaces=NS, default_ns="d", prefix="d")
    g.struct([fld("a", "Str", prefix="d"), fld("leaf", leaf, prefix="d"), fld("os", leaf, prefix="o", card="Many"), fld("n", "Bool", prefix="o"), fld("k", "Str", role="Attr", card="Opt")],
             namespaces=NS, default_ns="d", prefix="d", xml="doc")

    g = new("NsEnum", "ns", "enum")
    NS = [("e", "urn:enum"), ("f", "urn:f")]
    p = g.struct([fld("x", "I32", prefix="f")], namespaces=NS)
    e = g.enum([var("A", prefix="e"), var("N", "I32", prefix="e"), var("P", p, prefix="f"), var("L", "Str", card="Many")], namespaces=NS, prefix="e")
    g.struct([fld("e", e, prefix="e"), fld("v", e, prefix="e", card="Many"), fld("last", "Str", prefix="f")], namespaces=NS, prefix="f")

    g = new("NsUri", "ns")
    NS = [("a", "http://e.com/?a=b#c"), ("b", "urn:größe:%20")]
    g.struct([fld("x", "Str", prefix="a"), fld("y", "Str", prefix="b", card="Many")], namespaces=NS, prefix="b")

    # namespaces that are nearly the same
    g = new("NsNear", "ns")
    NS = [("a", "http://n.example/x"), ("b", "http://n.example/x/"), ("c", "http://n.example/x#"), ("d", "http://n.example/X"), ("e", "https://n.example/x")]
    leaf = g.struct([fld(f"v{p}", "I32", prefix=p, card=c, rename="v") for (p, _), c in zip(NS, ["One", "Opt", "Many", "Opt", "Many"])] + [fld("at", "Str", role="Attr", prefix="c")], namespaces=NS, prefix="c")
    g.struct([fld(f"s{p}", leaf, prefix=p, card=c, rename="s") for (p, _), c in zip(NS, ["Opt", "One", "One", "Many", "Opt"])] + [fld(f"t{p}", "Str", prefix=p, card=c, rename="t") for (p, _), c in zip(NS, ["Many", "Opt", "One", "Opt", "One"])],
             namespaces=NS, prefix="c", xml="near")

    # attributes of one local name in several namespaces
    g = new("NsAttrs", "ns")
    NS = [("a", "urn:a"), ("b", "urn:b"), ("c", "urn:c")]
    ids = lambda *cs: [fld(f"{p or 'no'}_id", t, role="Attr", prefix=p, card=c, rename="id") for p, t, c in cs]
    t1 = g.struct(ids(("a", "I32", "One"), ("b", "I32", "Opt")) + [fld("x", "I32")], namespaces=NS)
    t2 = g.struct(ids(("a", "Str", "Opt"), ("b", "Str", "Opt"), ("c", "Str", "Opt"), (None, "Str", "Opt")), namespaces=NS)
    t3 = g.struct(ids(("b", "Str", "Opt"), (None, "Bool", "One"), ("c", "F64", "Opt")) + [fld("id", "U8", card="Opt")], namespaces=NS, prefix="b")
    t4 = g.struct([fld("at", "Str", role="Attr", prefix="a"), fld("t1", t1, role="Flat"), fld("y", "Str")], namespaces=NS)
    t5 = g.struct([fld("own", "Str", role="Attr"), fld("t2", t2, role="Flat")], namespaces=NS)
    g.struct([fld("t1", t1), fld("t2", t2, card="Many"), fld("t3", t3, card="Opt", prefix="a"), fld("t4", t4), fld("t5", t5, card="Opt")] + ids(("c", "I32", "Opt"), (None, "I32", "Opt")), namespaces=NS)

    g = new("NsAttrsDef", "ns", "defaultns")
    NS = [("d", "urn:d"), ("o", "urn:o")]
    t1 = g.struct([fld("d_id", "I32", role="Attr", prefix="d", rename="id", card="Opt"), fld("o_id", "I32", role="Attr", prefix="o", rename="id", card="Opt"), fld("x", "Str", prefix="d", card="Opt")], namespaces=NS, default_ns="d", prefix="d")
    t2 = g.struct([fld("d_id", "Str", role="Attr", prefix="d", rename="id"), fld("o_id", "Str", role="Attr", prefix="o", rename="id", card="Opt"), fld("x", t1, prefix="o", card="Many")], namespaces=NS, default_ns="d", prefix="d")
    g.struct([fld("t1", t1, prefix="d"), fld("t2", t2, prefix="o", card="Many")], namespaces=NS, default_ns="d", prefix="d")

    # defaults and skipping
    g = new("Skip", "skip")
    sub = g.struct([fld("s", "I32")])
    en = g.enum([var("On"), var("Off")])
    g.struct([
        fld("gone", "Str", skip=True), fld("agone", "Str", role="Attr", skip=True), fld("oagone", "I32", role="Attr", card="Opt", skip=True),
        fld("ogone", "I32", card="Opt", skip=True), fld("vgone", "I32", card="Many", skip=True), fld("sgone", sub, skip=True), fld("vsgone", sub, card="Many", skip=True),
        fld("egone", en, card="Opt", skip=True), fld("kept", "Str"), fld("akept", "I32", role="Attr"), fld("skept", sub), fld("ekept", en),
    ])

    g = new("SkipIf", "skip")
    sub = g.struct([fld("s", "I32")])
    en = g.enum([var("On"), var("Off"), var("N", "I32")])
    g.struct([
        fld("a", "Str", skip_if=("Is", ("Str", "unset"))), fld("b", "I32", skip_if=("Is", ("Int", 0))), fld("c", "Bool", skip_if=("Is", ("Bool", False))),
        fld("d", "Str", card="Opt", skip_if=("Is", ("Some", ("Str", "unset")))), fld("e", "I32", card="Many", skip_if=("Is", ("Vec", []))),
        fld("f", sub, skip_if=("Is", ("Struct", [("Int", 0)]))), fld("g", sub, card="Opt", skip_if=("IsNot", ("Some", ("Struct", [("Int", 1)])))),
        fld("h", sub, card="Many", skip_if=("Is", ("Vec", [("Struct", [("Int", 0)])]))), fld("i", en, skip_if=("Is", ("Unit", 0))),
        fld("aa", "Str", role="Attr", skip_if=("Is", ("Str", "unset"))), fld("ab", "I32", role="Attr", skip_if=("IsNot", ("Int", 0))),
        fld("ac", "Bool", role="Attr", card="Opt", skip_if=("Is", ("Some", ("Bool", False)))), fld("ad", "Str", role="Attr", card="Opt", skip_if=("Always",)),
        fld("n", "F64", skip_if=("Never",)), fld("always", "Str", skip_if=("Always",)), fld("cd", "Str", role="Cdata", skip_if=("Is", ("Str", "unset"))),
    ])

    g = new("SkipText", "skip", "text")
    t = g.struct([fld("a", "I32", role="Attr", skip_if=("Is", ("Int", 0))), fld("t", "Str", role="Text", skip_if=("Is", ("Str", "unset")))])
    u = g.struct([fld("t", "Str", role="Text", skip=True), fld("x", "I32")])
    v = g.struct([fld("t", "Str", role="Text", card="Opt", skip_if=("Is", ("Some", ("Str", "unset")))), fld("x", "I32", card="Opt")])
    g.struct([fld("t", t), fld("u", u), fld("v", v, card="Many")])

    g = new("SkipFlat", "skip", "flatten")
    f = g.struct([fld("x", "I32"), fld("k", "Str", role="Attr")])
    h = g.struct([fld("y", "I32"), fld("l", "Str", role="Attr")])
    o = g.struct([fld("z", "I32"), fld("m", "Str", role="Attr")])
    g.struct([fld("f", f, role="Flat", skip=True), fld("h", h, role="Flat", skip_if=("Is", ("Struct", [("Int", 0), ("Str", "")]))), fld("o", o, role="Flat", card="Opt", skip_if=("Is", ("Some", ("Struct", [("Int", 0), ("Str", "")])))), fld("kept", "Str")])

    g = new("SkipFlatIf", "skip", "flatten")
    f = g.struct([fld("x", "I32"), fld("k", "Str", role="Attr")])
    h = g.struct([fld("l", "Str", role="Attr"), fld("m", "I32", role="Attr", card="Opt")])
    i = g.struct([fld("n", "Str", role="Attr"), fld("y", "I32", card="Many"), fld("h", h, role="Flat", card="Opt", skip_if=("Is", ("Some", ("Struct", [("Str", ""), ("None",)]))))])
    g.struct([fld("f", f, role="Flat", card="Opt", skip_if=("Never",)), fld("i", i, role="Flat", card="Opt", skip_if=("Is", ("None",))), fld("kept", "Str"), fld("at", "I32", role="Attr", skip_if=("Never",)), fld("vi", i, card="Many", skip_if=("Never",))])

    g = new("SkipDef", "skip", "default")
    sub = g.struct([fld("s", "I32")])
    g.struct([
        fld("a", "I32", default=("Int", 5), skip_if=("Is", ("Int", 6))), fld("b", "Str", default=("Str", "dd")), fld("c", "Bool", default=("Bool", False), skip=True),
        fld("d", sub, default=("Struct", [("Int", 3)])), fld("e", "F64", default=f64(0.5)), fld("f", "Str", role="Cdata", default=("Str", "cc")),
        fld("aa", "I32", role="Attr", default=("Int", 5), skip_if=("Is", ("Int", 6))), fld("ab", "Str", role="Attr", default=("Str", "")),
    ])

    # defaults of options, lists, texts and flattened structs
    g = new("DefaultAll", "default")
    sub = g.struct([fld("s", "I32"), fld("k", "Str", role="Attr", card="Opt")])
    en = g.enum([var("On"), var("Off"), var("N", "I32"), var("L", "Str", card="Many")])
    w = g.wrap("U16")
    some = lambda v: ("Some", v)
    g.struct([
        fld("a", "Str", card="Opt", default=some(("Str", "dd"))), fld("b", "I32", card="Opt", default=some(("Int", 7))), fld("c", "Bool", card="Opt", default=("None",)), fld("d", sub, card="Opt", default=some(("Struct", [("Int", 1), ("None",)]))),
        fld("e", en, default=("Var", 2, ("Int", 4))), fld("oe", en, card="Opt", default=some(("Unit", 1))), fld("w", w, default=("Int", 9)), fld("ow", w, card="Opt", default=some(("Int", 0))),
        fld("aa", "Str", role="Attr", card="Opt", default=some(("Str", "dd"))), fld("ab", "F64", role="Attr", card="Opt", default=some(f64(0.5))), fld("aw", w, role="Attr", default=("Int", 3)), fld("ae", "Bool", role="Attr", card="Opt", default=("None",)),
        fld("v", "I32", card="Many", default=("Vec", [("Int", 1), ("Int", 2)])), fld("vs", sub, card="Many", default=("Vec", [("Struct", [("Int", 0), some(("Str", "k"))])])), fld("ve", "Str", card="Many", default=("Vec", [])),
        fld("oi", "U8", card="Opt", default=some(("Int", 5)), skip_if=("Is", some(("Int", 6)))), fld("vi", "U8", card="Many", default=("Vec", [("Int", 5)]), skip_if=("Is", ("Vec", [("Int", 6)]))), fld("last", "Str"),
    ])

    g = new("DefaultText", "default", "text")
    t = g.struct([fld("t", "Str", role="Text", default=("Str", "dd")), fld("x", "I32", card="Opt"), fld("k", "I32", role="Attr", default=("Int", 1))])
    o = g.struct([fld("t", "Str", role="Text", card="Opt", default=("Some", ("Str", "d d"))), fld("x", "I32", card="Opt")])
    g.struct([fld("t", t), fld("vt", t, card="Many"), fld("o", o), fld("vo", o, card="Many")])

    g = new("DefaultFlat", "default", "flatten")
    f = g.struct([fld("x", "I32"), fld("y", "Str", card="Opt"), fld("z", "Str", role="Attr", card="Opt")])
    h = g.struct([fld("m", "I32", role="Attr"), fld("n", "Str", card="Many")])
    o = g.struct([fld("p", "F64"), fld("q", "I32", card="Many")])
    e = g.enum([var("A", "I32"), var("B", "Str", card="Many")], default=("Var", 0, ("Int", 0)), flatten=True, entry=False, frag=False)
    i = g.struct([fld("e", e, role="Flat"), fld("r", "Bool")])
    g.struct([
        fld("f", f, role="Flat", default=("Struct", [("Int", 3), ("Some", ("Str", "yy")), ("None",)])), fld("first", "Str"),
        fld("h", h, role="Flat", default=("Struct", [("Int", 3), ("Vec", [("Str", "a"), ("Str", "b")])])),
        fld("o", o, role="Flat", card="Opt", default=("Some", ("Struct", [f64(1.5), ("Vec", [])]))), fld("last", i), fld("k", "Str", role="Attr"),
    ])

    # wrappers
    for p in PRIMS:
        g = new("Wrap" + p, "wrap")
        w = g.wrap(p)
        e = g.enum([var("Non"), var("W", w), var("Ws", w, card="Many"), var("Wo", w, card="Opt")])
        fs = [fld("w", w), fld("ow", w, card="Opt"), fld("vw", w, card="Many"), fld("e", e), fld("ve", e, card="Many")]
        fs += [fld("at", w, role="Attr"), fld("oat", w, role="Attr", card="Opt")]
        g.struct(fs)
    for p in ["Str", "I32", "F64", "Bool"]:
        g = new("Own" + p, "wrap")
        w = g.wrap(p, own=True)
        g.struct([fld("w", w), fld("ow", w, card="Opt"), fld("vw", w, card="Many"), fld("at", w, role="Attr"), fld("oat", w, role="Attr", card="Opt")])
    for p in ["U8", "U16", "U32", "U64"]:
        g = new("Hex" + p, "wrap", "hex")
        w = g.wrap(p, hex=True)
        m = g.wrap(p, hex=True, mask=0x5A)
        g.struct([fld("w", w), fld("ow", w, card="Opt"), fld("vw", w, card="Many"), fld("at", w, role="Attr"), fld("m", m), fld("vm", m, card="Many"), fld("oat", m, role="Attr", card="Opt")])

    # a type with hand-written implementations
    g = new("Custom", "custom")
    c = g.wrap("Str", custom=True)
    e = g.enum([var("Nothing"), var("C", c), var("Cs", c, card="Many")])
    g.struct([fld("c", c), fld("oc", c, card="Opt"), fld("vc", c, card="Many"), fld("e", e), fld("ve", e, card="Many"), fld("last", "I32")])

    # lists in attributes (only read)
    g = new("AttrList", "attrlist")
    u = g.enum([var("A"), var("B", rename="b-b")])
    g.struct([fld("s", "Str", role="Attr", card="Many"), fld("i", "I32", role="Attr", card="Many"), fld("b", "Bool", role="Attr", card="Many"),
              fld("f", "F64", role="Attr", card="Many"), fld("u", u, role="Attr", card="Many"), fld("x", "U8", role="Attr"), fld("child", "U8", card="Many")])

    # deep flattening
    g = new("FlatDeep", "flatten")
    l = g.struct([fld("l3", "Str", card="Many"), fld("k3", "I32", role="Attr")])
    for i in (2, 1):
        item = g.struct([fld("v", "Str"), fld("l3", "I32", card="Opt")])
        l = g.struct([fld(f"l{i}", "I32", card="Opt"), fld(f"n{i}", item, card="Many"), fld(f"sub{i}", l, role="Flat"), fld(f"k{i}", "Str", role="Attr", card="Opt")])
    g.struct([fld("top", "Str"), fld("sub", l, role="Flat"), fld("l9", "Bool")])

    g = new("FlatOpt", "flatten")
    a = g.struct([fld("a1", "I32"), fld("a2", "Str", card="Many")])
    b = g.struct([fld("b1", "Str", role="Attr"), fld("b2", "I32", card="Opt")])
    c = g.struct([fld("c1", "U8"), fld("b", b, role="Flat", card="Opt")])
    g.struct([fld("a", a, role="Flat", card="Opt"), fld("c", c, role="Flat", card="Opt"), fld("x", "Str", card="Opt"), fld("y", c, card="Many")])

    # flattened structures that bring the namespaces of their elements, or of their attributes
    g = new("FlatOptNs", "flatten", "ns")
    inner = g.struct([fld("w", "I32", prefix="i")], namespaces=[("i", "urn:fo:i")])
    a = g.struct([fld("v", "Str", prefix="p"), fld("l", "U8", card="Many", prefix="p")], namespaces=[("p", "urn:fo:p")])
    b = g.struct([fld("k", "Str", role="Attr", prefix="q"), fld("m", "I32")], namespaces=[("q", "urn:fo:q")])
    c = g.struct([fld("n", "I32", prefix="s"), fld("i", inner, role="Flat")], namespaces=[("s", "urn:fo:s")], prefix="s")
    d = g.struct([fld("z", "Str", prefix="t"), fld("i", inner, role="Flat", card="Opt")], namespaces=[("t", "urn:fo:t")])
    en = g.enum([var("Non"), var("V", a, prefix="e"), var("W", d)], namespaces=[("e", "urn:fo:e")])
    h = g.struct([fld("a", a, role="Flat", card="Opt"), fld("own", "Str")])
    h2 = g.struct([fld("d", d, role="Flat"), fld("o", "Str", role="Attr")])
    g.struct([fld("a", a, role="Flat", card="Opt"), fld("b", b, role="Flat", card="Opt"), fld("c", c, role="Flat", card="Opt"), fld("h", h), fld("vh", h, card="Many"), fld("h2", h2, card="Opt"), fld("e", en), fld("last", "Str")])

    # types that are only written
    g = new("WriteNamed", "write", "enum")
    p = g.struct([fld("v", "Str"), fld("k", "I32", role="Attr")])
    e0 = g.enum([var("X"), var("Y", "I32")])
    e = g.enum([
        var("Nil"),
        var("Scalars", fields=[fld(f"f{i}", p_, rename=[None, None, "re-named", "größe"][i % 4]) for i, p_ in enumerate(PRIMS)]),
        var("Structs", fields=[fld("p", p), fld("ps", p, card="Many", rename="p-s"), fld("e", e0), fld("es", e0, card="Many")]),
        var("Options", fields=[fld("p", p, card="Opt"), fld("s", "Str", card="Opt"), fld("i", "I32", card="Opt", rename="int"), fld("f", "F64", card="Opt"), fld("e", e0, card="Opt"), fld("b", "Bool", card="Opt")]),
        var("Lists", fields=[fld("s", "Str", card="Many"), fld("i", "I32", card="Many", rename="int"), fld("f", "F32", card="Many"), fld("b", "Bool", card="Many")]),
        var("Mixed", "I32"), var("Tuple", p, rename="tu-ple"), var("Names", fields=[fld(n, t) for n, t in [("writer", "I32"), ("item", "Str"), ("string_value", "Bool"), ("r#type", p), ("name", "Str")]]),
    ])
    g.struct([fld("e", e), fld("oe", e, card="Opt"), fld("ve", e, card="Many"), fld("last", "Str")])

    g = new("WriteNamedNs", "write", "enum", "ns")
    NS = [("a", "urn:w:a"), ("b", "urn:w:b")]
    p = g.struct([fld("v", "Str", prefix="b"), fld("k", "I32", role="Attr", prefix="a")], namespaces=NS)
    e = g.enum([
        var("Nil"), var("N", fields=[fld("x", "I32", prefix="a"), fld("y", "Str", prefix="b"), fld("z", "Bool"), fld("p", p, prefix="b"), fld("ps", p, card="Many", prefix="a"), fld("o", "Str", card="Opt", prefix="a"), fld("l", "U8", card="Many", prefix="b")]),
        var("M", fields=[fld("o", p, card="Opt", prefix="a"), fld("N", "Str", rename="N")]),
    ], namespaces=NS, prefix="a", tag="is")
    g.struct([fld("e", e, prefix="a"), fld("v", e, prefix="b", card="Many")], namespaces=NS, prefix="b")

    # lists of flattened values
    g = new("WriteFlatMany", "write", "flatten")
    p = g.struct([fld("v", "Str"), fld("w", "I32", card="Opt")])
    e = g.enum([var("X", "I32"), var("Y", p, rename="y-y"), var("Z", "Str", card="Many")], default=("Var", 0, ("Int", 0)), flatten=True, entry=False)
    q = g.struct([fld("ps", p, role="Flat", card="Many"), fld("u", "Bool")])
    g.struct([fld("first", "Str"), fld("p", p, role="Flat", card="Many"), fld("e", e, role="Flat", card="Many"), fld("q", q, role="Flat"), fld("vq", q, card="Many"), fld("last", "Str")])

    g = new("WriteNested", "write")
    p = g.struct([fld("v", "Str"), fld("k", "I32", role="Attr")], xml="other-name")
    e = g.enum([var("X"), var("Y", "I32")])
    g.struct([fld(f"o{i}", p_, card="OptMany", rename=[None, "re-named"][i % 2] and f"r-{i}") for i, p_ in enumerate(PRIMS)]
             + [fld("mo", p, card="ManyOpt"), fld("me", e, card="ManyOpt", rename="m-e"), fld("last", "Str")])

    # generics
    g = new("Gen", "generic")
    leaf = g.struct([fld("x", "I32"), fld("k", "Str", role="Attr")])
    g.raw.append("""#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "boxed")]
pub struct GenBox<T: YaSerialize + YaDeserialize + Clone + PartialEq + std::fmt::Debug> {
  #[yaserde(attribute = true)]
  pub id: u32,
  pub body: T,
  pub many: Vec<T>,
  pub opt: Option<T>,
}
""")
    b1 = g.struct([fld("id", "U32", role="Attr"), fld("body", leaf), fld("many", leaf, card="Many"), fld("opt", leaf, card="Opt")], xml="boxed", name="GenBox", rust_ty=f"GenBox<{g.types[leaf]['name']}>", define=False)
    w = g.wrap("I32")
    b2 = g.struct([fld("id", "U32", role="Attr"), fld("body", w), fld("many", w, card="Many"), fld("opt", w, card="Opt")], xml="boxed", name="GenBox", rust_ty=f"GenBox<{g.types[w]['name']}>", define=False)
    b3 = g.struct([fld("id", "U32", role="Attr"), fld("body", b1), fld("many", b1, card="Many"), fld("opt", b1, card="Opt")], xml="boxed", name="GenBox", rust_ty=f"GenBox<GenBox<{g.types[leaf]['name']}>>", define=False)
    g.struct([fld("b", b1), fld("n", b2), fld("d", b3, card="Opt"), fld("v", b1, card="Many")])

    # parameters of all kinds
    g = new("GenMore", "generic", "enum")
    leaf = g.struct([fld("x", "I32"), fld("k", "Str", role="Attr")])
    un = g.enum([var("U"), var("W", "I32")])
    bound = "YaSerialize + YaDeserialize"
    g.raw.append(f"""#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct GenTwo<A, B, const N: usize> where A: {bound}, B: {bound} {{
  pub a: A,
  #[yaserde(rename = "b-s")]
  pub b: Vec<B>,
  pub c: Option<GenOf<A>>,
}}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "of")]
pub enum GenOf<T> where T: {bound} {{
  Nothing,
  #[yaserde(rename = "th-is")]
  This(T),
  Many(Vec<T>),
  Maybe(Option<T>),
}}
impl<T: {bound}> Default for GenOf<T> {{ fn default() -> Self {{ GenOf::Nothing }} }}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct GenFlat<T: {bound}> {{
  #[yaserde(flatten = true)]
  pub base: T,
  pub own: u8,
}}
""")
    ln, un_ = g.types[leaf]["name"], g.types[un]["name"]
    def of(t):
        n = g.types[t]["rust_ty"] if "rust_ty" in g.types[t] else g.types[t]["name"]
        return g.enum([var("Nothing"), var("This", t, rename="th-is"), var("Many", t, card="Many"), var("Maybe", t, card="Opt")], xml="of", name="GenOf", rust_ty=f"GenOf<{n}>", define=False)
    o1, o2 = of(leaf), of(un)
    t1 = g.struct([fld("a", leaf), fld("b", un, card="Many", rename="b-s"), fld("c", o1, card="Opt")], name="GenTwo", rust_ty=f"GenTwo<{ln}, {un_}, 3>", define=False)
    t2 = g.struct([fld("a", un), fld("b", t1, card="Many", rename="b-s"), fld("c", o2, card="Opt")], name="GenTwo", rust_ty=f"GenTwo<{un_}, GenTwo<{ln}, {un_}, 3>, 0>", define=False)
    fl = g.struct([fld("base", leaf, role="Flat"), fld("own", "U8")], name="GenFlat", rust_ty=f"GenFlat<{ln}>", define=False)
    g.struct([fld("t", t2), fld("o", o1, card="Many"), fld("f", fl), fld("vf", fl, card="Many"), fld("last", "Str")])

    # types named by paths, with other attributes and visibilities about
    g = new("Paths", "names")
    leaf = g.struct([fld("x", "I32"), fld("k", "Str", role="Attr")])
    un = g.enum([var("U"), var("V", rename="v-v")])
    w = g.wrap("U32")
    wn = g.types[w]["name"]
    g.raw.append("#[allow(unused_imports)] pub use self::PathsT0 as Renamed;\n")
    g.struct([
        fld("a", "Str", rust_decl="::std::string::String"), fld("b", "I32", card="Opt", rust_decl="::std::option::Option<::core::primitive::i32>"),
        fld("c", leaf, card="Many", rust_decl="std::vec::Vec<self::PathsT0>"), fld("d", leaf, rust_decl="super::paths::PathsT0"), fld("e", leaf, card="Opt", rust_decl="core::option::Option<super::paths::PathsT0>"),
        fld("f", "Bool", role="Attr", rust_decl="::core::primitive::bool"), fld("g", "Str", role="Attr", card="Opt", rust_decl="Option<std::string::String>"), fld("h", "F64", card="Many", rust_decl="Vec<std::primitive::f64>"),
        fld("i", un, role="Attr", rust_decl="self::PathsT1"), fld("j", un, role="Attr", card="Opt", rust_decl="Option<super::paths::PathsT1>"), fld("k", un, rust_decl="super::paths::PathsT1"), fld("l", leaf, rust_decl="Renamed"),
        fld("m", w, role="Attr", rust_decl=f"self::m_{wn.lower()}::{wn}"), fld("n", w, card="Many", rust_decl=f"Vec<self::m_{wn.lower()}::{wn}>"), fld("o", "Str", role="Cdata", rust_decl="std::string::String"),
    ])

    # types made by macros
    g = new("Macros", "names")
    g.raw.append("""macro_rules! made {
  ($name:ident, $xml:literal, $attr:ident: $a:ty, $elem:ident: $e:ty, $renamed:literal, $d:expr) => {
    /// A type
    #[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
    #[yaserde(rename = $xml)]
    pub struct $name {
      /// A field
      #[allow(dead_code)]
      #[yaserde(attribute = true)]
      pub $attr: $a,
      #[doc = "another"]
      pub $elem: $e,
      #[yaserde(rename = $renamed)]
      pub opt: Option<$e>,
      pub many: Vec<$e>,
    }
  };
}
made!(MacroA, "made-a", x: i32, y: String, "r-r", 1);
made!(MacroB, "made-b", at: String, MacroA: MacroA, "M-a", 2);
made!(MacroC, "made-c", at: bool, b: f64, "r-r", 3);
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct UnitLike;
""")
    def made(name, xml, attr, a, elem, e, renamed):
        return g.struct([fld(attr, a, role="Attr"), fld(elem, e), fld("opt", e, card="Opt", rename=renamed), fld("many", e, card="Many")], xml=xml, name=name, define=False)
    a = made("MacroA", "made-a", "x", "I32", "y", "Str", "r-r")
    b = made("MacroB", "made-b", "at", "Str", "MacroA", a, "M-a")
    c = made("MacroC", "made-c", "at", "Bool", "b", "F64", "r-r")
    u = g.struct([], name="UnitLike", define=False)
    g.struct([fld("a", a), fld("b", b, card="Many"), fld("c", c, card="Opt"), fld("u", u), fld("vu", u, card="Many"), fld("made_b", b, rename="made-b"), fld("z", "Str")])
    return gs


# ------------------------------------------------------------------ random programs
NAMES = """a b c id name value item data x y node size len kind label title list entry key text2 note host port
path user flag count total first second alpha beta gamma delta left right width height body head tail from_ to_ at_time
created_at updated is_ok has_more max_len min_len color shape unit price amount rate level depth event reader writer
attr attributes namespace result visitor version encoding lang content status code message""".split()
RENAMES = ["x-y", "a.b", "größe", "名前", "_p", "Upper", "camelCase", "A1", "n-1.2", "xmlish", "ref", "type", "fn", "Émile", "k_k", "self", "R2-D2", "item", "value", "data", "id"]


def norm(n):
    return re.sub(r"[^0-9A-Za-z\u0080-\uffff]", "", n).lower()


class RandomGroup:
    def __init__(self, seed, idx):
        self.rng = random.Random(f"{seed}/{idx}")
        self.g = Group(f"Rnd{idx}", ["random"])
        self.mode = self.rng.choice(["none", "none", "ns", "defns"])
        self.flatty = idx % 3 == 0
        self.wraps = {}
        n = self.rng.randint(1, 3)
        uris = self.rng.sample(["urn:r:1", "http://r.example/a", "urn:r:2", "http://r.example/b#f", "urn:größe"], n)
        self.ns = list(zip(self.rng.sample(["n", "m", "x1", "ns-a", "q"], n), uris))
        self.dflt = self.ns[0][0] if self.mode == "defns" else None

    def type_opts(self, prefix=None):
        if self.mode == "none":
            return {}
        return dict(namespaces=self.ns, default_ns=self.dflt, prefix=prefix)

    def own_prefixes(self, parts, opts):
        """other prefixes for the same namespaces, in this type alone"""
        if self.mode == "none" or self.rng.random() < 0.65:
            return
        for p, _ in self.ns:
            if self.rng.random() < 0.6:
                to = p + self.rng.choice(["2", "-b", "_c"])
                for x in parts + [opts]:
                    if x["prefix"] == p:
                        x["prefix"] = to
                if opts["default_ns"] == p:
                    opts["default_ns"] = to
                opts["namespaces"] = [(to if a == p else a, u) for a, u in opts["namespaces"]]

    def pick_prefix(self, force=None):
        r = self.rng
        if self.mode == "none":
            return None
        if self.mode == "defns":
            # everything unprefixed would land in the default namespace
            return r.choice([p for p, _ in self.ns] + [self.dflt])
        return r.choice([None] + [p for p, _ in self.ns])

    def names(self, used, role, prefix):
        r = self.rng
        for _ in range(1000):
            rust = r.choice(NAMES) if r.random() < 0.8 else "r#" + r.choice(["type", "match", "use", "loop", "where"])
            rename = r.choice(RENAMES) if r.random() < 0.3 else None
            xml = rename or rust.replace("r#", "")
            # attributes are matched by local name
            kx = (role == "Attr", norm(xml), None if role == "Attr" else prefix)
            if ("rust", rust) in used or kx in used:
                continue
            used.add(("rust", rust))
            used.add(kx)
            return rust, rename
        raise Exception("names")

    def enum(self, depth):
        r = self.rng
        prefix = None
        if self.mode == "ns":
            prefix = r.choice([None] + [p for p, _ in self.ns])
        if self.mode == "defns":
            prefix = self.dflt
        vs = []
        used = set()
        n = r.randint(1, 5)
        style = r.random()
        for i in range(n):
            rust = f"V{i}" + r.choice(["", "x", "Abc"])
            rename = r.choice(RENAMES) if r.random() < 0.4 else None
            if norm(rename or rust) in used:
                rename = None
            used.add(norm(rename or rust))
            vp = None
            if self.mode != "none" and r.random() < 0.5:
                vp = r.choice([p for p, _ in self.ns])
            if style < 0.3 or i == 0:
                vs.append(var(rust, rename=rename))
            elif r.random() < 0.6 or depth <= 0:
                vs.append(var(rust, r.choice(PRIMS), card=r.choice(["One", "Many", "One", "Opt"]), rename=rename, prefix=vp))
            else:
                vs.append(var(rust, self.struct(depth - 1, set(), flat=False), card=r.choice(["One", "Many", "Opt"]), rename=rename, prefix=vp))
        r.shuffle(vs)
        unit_only = all(v["payload"] is None for v in vs)
        tag = r.choice(["type", "kind", "t-g"]) if r.random() < (0.25 if unit_only else 0.12) else None
        # a unit variant is written as plain text: its prefix would be part of that text
        opts = self.type_opts(prefix)
        self.own_prefixes(vs, opts)
        return self.g.enum(vs, tag=tag, xml=r.choice([None, "enu", "e-1"]), **opts), unit_only and tag is None, prefix

    def struct(self, depth, used, flat):
        r = self.rng
        fs = []
        n = r.randint(1, 6) if depth > 0 else r.randint(1, 4)
        text = False
        for _ in range(n):
            x = r.random()
            if self.flatty and depth > 0 and r.random() < 0.3:
                x = 0.95
            if r.random() < 0.08:
                key = r.choice([("Str", False), ("I32", False), ("F64", False), ("U32", True), ("Bool", False)])
                if key not in self.wraps:
                    self.wraps[key] = self.g.wrap(key[0], hex=key[1])
                attr = r.random() < 0.4 and self.mode == "none"
                prefix = None if attr else self.pick_prefix()
                rust, rename = self.names(used, "Attr" if attr else "Elem", prefix)
                fs.append(fld(rust, self.wraps[key], role="Attr" if attr else "Elem", card=r.choice(["One", "Opt"] if attr else ["One", "Opt", "Many"]), rename=rename, prefix=prefix))
                continue
            if x < 0.25:
                prefix = self.pick_prefix() if self.mode == "ns" else None
                rust, rename = self.names(used, "Attr", prefix)
                # the name of another attribute, in another namespace
                if self.mode == "ns" and not flat and r.random() < 0.3:
                    own = [f for f in fs if f["role"] == "Attr"]
                    if own:
                        xml = (lambda f: f["rename"] or f["rust"].replace("r#", ""))(r.choice(own))
                        free = [p for p in [None] + [p for p, _ in self.ns] if not any(f["prefix"] == p and (f["rename"] or f["rust"].replace("r#", "")) == xml for f in own)]
                        if free:
                            rename, prefix = xml, r.choice(free)
                card = r.choice(["One", "Opt"])
                p = r.choice(PRIMS)
                d = prim_default(p, r) if card == "One" and r.random() < 0.25 else None
                fs.append(fld(rust, p, role="Attr", card=card, rename=rename, prefix=prefix, default=d))
            elif x < 0.6 or depth <= 0:
                prefix = self.pick_prefix()
                rust, rename = self.names(used, "Elem", prefix)
                card = r.choice(["One", "Opt", "Many"])
                p = r.choice(PRIMS)
                if p == "Str" and card == "One" and r.random() < 0.3:
                    fs.append(fld(rust, p, role="Cdata", rename=rename, prefix=prefix))
                    continue
                d = prim_default(p, r) if card == "One" and r.random() < 0.25 else None
                si = None
                if card == "Many" and r.random() < 0.2:
                    si = ("Is", ("Vec", []))
                if card == "Opt" and r.random() < 0.2:
                    si = ("Is", ("None",))
                fs.append(fld(rust, p, card=card, rename=rename, prefix=prefix, default=d, skip_if=si))
            elif x < 0.72:
                e, attr_ok, ep = self.enum(depth - 1)
                if r.random() < 0.5:
                    ep = self.pick_prefix()
                if attr_ok and r.random() < 0.3:
                    rust, rename = self.names(used, "Attr", None)
                    fs.append(fld(rust, e, role="Attr", card=r.choice(["One", "Opt"]), rename=rename))
                else:
                    rust, rename = self.names(used, "Elem", ep)
                    fs.append(fld(rust, e, card=r.choice(["One", "Opt", "Many"]), rename=rename, prefix=ep))
            elif x < 0.9:
                s = self.struct(depth - 1, set(), False)
                prefix = self.pick_prefix()
                rust, rename = self.names(used, "Elem", prefix)
                fs.append(fld(rust, s, card=r.choice(["One", "Opt", "Many"]), rename=rename, prefix=prefix))
            elif x < 0.97:
                s = self.struct(depth - 1, used, True)
                rust = f"flat_{len(self.g.types)}"
                # an optional flattened struct is only told apart from an absent one if it has a required part
                req = any(f["card"] == "One" and f["default"] is None and f["role"] in ("Elem", "Attr") for f in self.g.types[s]["fields"])
                fs.append(fld(rust, s, role="Flat", card=r.choice(["One", "Opt"]) if req else "One", skip_if=("Never",) if r.random() < 0.1 else None))
            elif not text and not flat:
                text = True
                rust, _ = self.names(used, "Text", None)
                fs.append(fld(rust, "Str", role="Text"))
        r.shuffle(fs)
        xml = None if flat or r.random() < 0.6 else r.choice(RENAMES)
        opts = self.type_opts(self.dflt if self.mode == "defns" else (self.pick_prefix() if self.mode == "ns" else None))
        if self.mode == "ns" and r.random() < 0.5:
            # no more than what its own names need
            need = {f["prefix"] for f in fs} | {opts["prefix"]}
            opts["namespaces"] = [(p, u) for p, u in self.ns if p in need]
        self.own_prefixes(fs, opts)
        return self.g.struct(fs, xml=xml, **opts)

    def build(self):
        self.struct(3, set(), False)
        feats = set()
        for t in self.g.types:
            feats.add(t["kind"])
        if self.mode != "none":
            self.g.feats.append("ns")
        return self.g


def main():
    outdir, seed, nrandom, shards = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    os.makedirs(outdir, exist_ok=True)
    broken = set(sys.argv[5:])
    groups = matrix() + [RandomGroup(seed, i).build() for i in range(nrandom)]
    assert len({g.name.lower() for g in groups}) == len(groups)
    groups = [g for g in groups if g.name.lower() not in broken]
    buckets = [[] for _ in range(shards)]
    weight = [0] * shards
    for g in sorted(groups, key=lambda g: -sum(len(t.get("fields", t.get("variants", [1]))) + 4 for t in g.types)):
        i = weight.index(min(weight))
        buckets[i].append(g)
        weight[i] += sum(len(t.get("fields", t.get("variants", [1]))) + 4 for t in g.types)
    order = {g.name: i for i, g in enumerate(groups)}
    for i, b in enumerate(buckets):
        b.sort(key=lambda g: order[g.name])
        src = "".join(g.emit() for g in b)
        src += "pub fn groups() -> Vec<ymcore::Group> { vec![" + ", ".join(f"{g.name.lower()}::group()" for g in b) + "] }\n"
        src += "pub fn each() -> Vec<fn() -> ymcore::Group> { vec![" + ", ".join(f"{g.name.lower()}::group" for g in b) + "] }\n"
        path = os.path.join(outdir, f"zoo{i}.rs")
        old = open(path, encoding="utf-8").read() if os.path.exists(path) else None
        if old != src:
            with open(path, "w", encoding="utf-8") as fh:
                fh.write(src)


main()
