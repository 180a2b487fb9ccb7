//! Reference semantics: what the annotations ask for, stated independently of yaserde.
//! `ser` gives the XML a value stands for, `de` the value an XML document stands for.

use crate::xmlp::{trim, El, Nd, QName};
use ymcore::*;

pub struct Model<'a> {
  pub types: &'a [TypeDef],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
  /// must be reported as an error
  Err(String),
  /// the annotations do not say
  Unspec(&'static str),
}

#[derive(Clone, Default)]
pub struct Env {
  pub prefixes: Vec<(String, String)>,
  pub default: String,
}

impl Env {
  fn with(&self, m: &Model, ty: usize) -> Env {
    let mut e = self.clone();
    m.declare(ty, &mut e);
    e
  }
  fn lookup(&self, p: &str) -> String {
    self
      .prefixes
      .iter()
      .rev()
      .find(|(q, _)| q == p)
      .map(|(_, u)| u.clone())
      .unwrap_or_else(|| format!("UNBOUND:{p}"))
  }
}

pub fn ns_of<'a>(t: &'a TypeDef, prefix: Option<&str>) -> &'a str {
  t.namespaces
    .iter()
    .find(|(p, _)| Some(*p) == prefix)
    .map(|(_, u)| *u)
    .unwrap_or("")
}

/// A unit variant is written as text, along with its prefix
pub fn unit_text(t: &TypeDef, v: &Variant) -> String {
  match v.prefix {
    Some(p) if t.default_ns != Some(p) => format!("{p}:{}", v.xml),
    _ => v.xml.to_string(),
  }
}

pub fn skipped(f: &Field, v: &Val) -> bool {
  if f.skip {
    return true;
  }
  if let Some(d) = &f.default {
    if float_eq(d, v) {
      return true;
    }
  }
  match &f.skip_if {
    None | Some(SkipIf::Never) => false,
    Some(SkipIf::Always) => true,
    Some(SkipIf::Is(w)) => v == w,
    Some(SkipIf::IsNot(w)) => v != w,
  }
}

/// Rust's `==`: NaN differs from itself, the zeroes are equal
pub fn float_eq(a: &Val, b: &Val) -> bool {
  match (a, b) {
    (Val::F32(x), Val::F32(y)) => f32::from_bits(*x) == f32::from_bits(*y),
    (Val::F64(x), Val::F64(y)) => f64::from_bits(*x) == f64::from_bits(*y),
    (Val::Some(x), Val::Some(y)) => float_eq(x, y),
    (Val::Var(i, x), Val::Var(j, y)) => i == j && float_eq(x, y),
    (Val::Vec(x), Val::Vec(y)) | (Val::Struct(x), Val::Struct(y)) => {
      x.len() == y.len() && x.iter().zip(y).all(|(a, b)| float_eq(a, b))
    }
    _ => a == b,
  }
}

pub fn show(p: Prim, hex: bool, v: &Val) -> String {
  match v {
    Val::Bool(b) => if *b { "true" } else { "false" }.to_string(),
    Val::Int(i) if hex => format!("{i:02X}"),
    Val::Int(i) => i.to_string(),
    Val::F32(b) => f32::from_bits(*b).to_string(),
    Val::F64(b) => f64::from_bits(*b).to_string(),
    Val::Str(s) => s.clone(),
    _ => panic!("harness: not a {p:?}: {v:?}"),
  }
}

/// The value a lexical form stands for; `None` if it is not in the type's lexical space.
pub fn scan(p: Prim, hex: bool, s: &str, num_bool: bool) -> Option<Val> {
  match p {
    Prim::Str => Some(Val::s(s)),
    Prim::Bool => match s {
      "true" => Some(Val::Bool(true)),
      "false" => Some(Val::Bool(false)),
      "1" if num_bool => Some(Val::Bool(true)),
      "0" if num_bool => Some(Val::Bool(false)),
      _ => None,
    },
    Prim::F32 => s.parse::<f32>().ok().map(|f| Val::F32(f.to_bits())),
    Prim::F64 => s.parse::<f64>().ok().map(|f| Val::F64(f.to_bits())),
    _ => {
      let (lo, hi) = p.int_range().unwrap();
      let (neg, digits) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
      };
      let radix = if hex { 16 } else { 10 };
      if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
        return None;
      }
      // Rust's unsigned integers do not have negative forms, not even -0
      if neg && (lo == 0 || hex) {
        return None;
      }
      let mut n: i128 = 0;
      for c in digits.chars() {
        n = n * radix as i128 + c.to_digit(radix).unwrap() as i128;
        if n > 1 << 70 {
          return None;
        }
      }
      if neg {
        n = -n;
      }
      (lo <= n && n <= hi).then_some(Val::Int(n))
    }
  }
}

impl<'a> Model<'a> {
  pub fn new(g: &'a Group) -> Model<'a> {
    Model { types: &g.types }
  }

  /// The namespaces the element of a type declares
  pub fn env(&self, ty: usize) -> Env {
    Env::default().with(self, ty)
  }

  fn declare(&self, ty: usize, e: &mut Env) {
    let t = &self.types[ty];
    for (p, u) in &t.namespaces {
      if t.default_ns == Some(*p) {
        e.default = u.to_string();
      } else {
        e.prefixes.push((p.to_string(), u.to_string()));
      }
    }
    if let Kind::Struct(fs) = &t.kind {
      for f in fs {
        if f.role == Role::Flat {
          if let Ty::R(r) = f.ty {
            self.declare(r, e);
          }
        }
      }
    }
  }

  fn elem_name(&self, t: &TypeDef, prefix: Option<&str>, xml: &str, e: &Env) -> QName {
    match prefix {
      Some(p) if t.default_ns != Some(p) => QName::new(&e.lookup(p), xml),
      _ => QName::new(&e.default, xml),
    }
  }

  fn attr_name(&self, t: &TypeDef, prefix: Option<&str>, xml: &str, e: &Env) -> QName {
    match prefix {
      Some(p) if t.default_ns != Some(p) => QName::new(&e.lookup(p), xml),
      _ => QName::new("", xml),
    }
  }

  /// The document a value stands for.
  pub fn ser(&self, ty: usize, v: &Val) -> El {
    let t = &self.types[ty];
    let e = Env::default().with(self, ty);
    let mut el = El::new("", "");
    el.name = self.elem_name(t, t.prefix, t.xml, &e);
    self.body(ty, v, &e, &mut el);
    el
  }

  /// An element of the given name and type (the name resolves in the parent's terms).
  fn child(&self, parent: &TypeDef, prefix: Option<&str>, xml: &str, ty: &Ty, hex: bool, v: &Val, env: &Env) -> El {
    match ty {
      Ty::P(p) => {
        let mut el = El::new("", "");
        el.name = self.elem_name(parent, prefix, xml, env);
        el.kids.push(Nd::Text(show(*p, hex, v)));
        el
      }
      Ty::R(r) => {
        let e = env.with(self, *r);
        let mut el = El::new("", "");
        el.name = self.elem_name(parent, prefix, xml, &e);
        self.body(*r, v, &e, &mut el);
        el
      }
    }
  }

  fn items<'v>(card: Card, v: &'v Val) -> Vec<&'v Val> {
    match (card, v) {
      (Card::One, v) => vec![v],
      (Card::Opt, Val::None) => vec![],
      (Card::Opt, Val::Some(v)) => vec![v],
      (Card::Many, Val::Vec(v)) => v.iter().collect(),
      (Card::OptMany, Val::None) => vec![],
      (Card::OptMany, Val::Some(v)) => Self::items(Card::Many, v),
      (Card::ManyOpt, Val::Vec(v)) => v.iter().flat_map(|v| Self::items(Card::Opt, v)).collect(),
      _ => panic!("harness: {card:?} {v:?}"),
    }
  }

  /// Attributes and content of a value of type `ty`, in the element `el`.
  pub fn body(&self, ty: usize, v: &Val, env: &Env, el: &mut El) {
    let t = &self.types[ty];
    match &t.kind {
      Kind::Wrap { prim, hex, .. } => el.kids.push(Nd::Text(show(*prim, *hex, v))),
      Kind::Enum { tag, variants, .. } => {
        let (i, payload) = match v {
          Val::Unit(i) => (*i, None),
          Val::Var(i, p) => (*i, Some(p)),
          _ => panic!("harness: not an enum value {v:?}"),
        };
        let var = &variants[i];
        if let Some(tag) = tag {
          el.attrs.push((QName::new("", tag), var.xml.to_string()));
        }
        match (payload, &var.payload) {
          (Some(p), None) => {
            let fs = var.fields.as_ref().expect("harness: payload");
            for (f, v) in fs.iter().zip(p.fields()) {
              for item in Self::items(f.card, v) {
                el.kids.push(Nd::El(self.child(t, f.prefix, f.xml, &f.ty, false, item, env)));
              }
            }
          }
          (None, None) => {
            if tag.is_none() {
              el.kids.push(Nd::Text(unit_text(t, var)));
            }
          }
          (Some(p), Some((card, ty))) => {
            for item in Self::items(*card, p) {
              el.kids.push(Nd::El(self.child(t, var.prefix, var.xml, ty, false, item, env)));
            }
          }
          _ => panic!("harness: payload"),
        }
      }
      Kind::Struct(fs) => {
        for (f, v) in fs.iter().zip(v.fields()) {
          if skipped(f, v) {
            continue;
          }
          for item in Self::items(f.card, v) {
            match f.role {
              Role::Attr => {
                let text = match &f.ty {
                  Ty::P(p) => show(*p, false, item),
                  Ty::R(r) => {
                    let mut tmp = El::new("", "");
                    self.body(*r, item, env, &mut tmp);
                    tmp.text()
                  }
                };
                if f.card == Card::Many {
                  continue; // lists in attributes are only read
                }
                el.attrs.push((self.attr_name(t, f.prefix, f.xml, env), text));
              }
              Role::Text => el.kids.push(Nd::Text(show(Prim::Str, false, item))),
              Role::Elem | Role::Cdata => {
                el.kids.push(Nd::El(self.child(t, f.prefix, f.xml, &f.ty, false, item, env)))
              }
              Role::Flat => {
                if let Ty::R(r) = f.ty {
                  self.body(r, item, env, el);
                }
              }
            }
          }
        }
      }
    }
  }

  pub fn root_ns_ok(&self, ty: usize, el: &El) -> bool {
    let t = &self.types[ty];
    el.name.ns.is_empty() || (t.prefix.is_some() && ns_of(t, t.prefix) == el.name.ns)
  }

  /// The value a document stands for.
  pub fn de(&self, ty: usize, el: &El) -> Result<Val, Bad> {
    if matches!(self.types[ty].kind, Kind::Struct(_) | Kind::Enum { .. }) && !self.root_ns_ok(ty, el) {
      return Err(Bad::Err("root namespace".into()));
    }
    self.de_at(ty, el)
  }

  fn attr_struct(&self, r: usize, text: &str) -> Result<Val, Bad> {
    if text.contains(['<', '&']) || text.contains("]]>") || trim(text) != text {
      return Err(Bad::Unspec("markup in an attribute of a structured type"));
    }
    let mut el = El::new("", "");
    el.kids.push(Nd::Text(text.to_string()));
    self.de_at(r, &el)
  }

  /// The text of a wrapped scalar, elements in it passed over.
  fn wrapped_text(&self, el: &El) -> Option<String> {
    let texts: Vec<&str> = el.kids.iter().filter_map(|k| match k { Nd::Text(t) if !trim(t).is_empty() => Some(trim(t)), _ => None }).collect();
    match texts[..] {
      _ if !el.has_elems() => self.leaf(el),
      [] => Some(String::new()),
      [one] => Some(one.to_string()),
      _ => None,
    }
  }

  fn leaf<'e>(&self, el: &'e El) -> Option<String> {
    if el.has_elems() {
      None
    } else {
      Some(trim(&el.text()).to_string())
    }
  }

  fn de_at(&self, ty: usize, el: &El) -> Result<Val, Bad> {
    let t = &self.types[ty];
    match &t.kind {
      Kind::Wrap { prim, hex, mask } => match self.wrapped_text(el) {
        None => Err(Bad::Unspec("elements in the text of a wrapped primitive")),
        Some(s) => match scan(*prim, *hex, &s, false) {
          Some(Val::Int(i)) if mask.is_some_and(|m| i & !m != 0) => Err(Bad::Err(format!("bits out of {mask:?}"))),
          Some(v) if !t.custom_rejects(&s) => Ok(v),
          _ => Err(Bad::Err(format!("unparsable {s:?}"))),
        },
      },
      Kind::Enum { tag, variants, default } => self.de_enum(t, *tag, variants, default, el),
      Kind::Struct(fs) => self.de_struct(t, fs, el),
    }
  }

  fn de_enum(&self, t: &TypeDef, tag: Option<&str>, variants: &[Variant], default: &Val, el: &El) -> Result<Val, Bad> {
    if let Some(tag) = tag {
      let found: Vec<_> = el.attrs.iter().filter(|a| a.0.local == tag).collect();
      let named = match found.len() {
        0 => return Err(Bad::Err("no tag".into())),
        1 => variants.iter().position(|v| v.xml == found[0].1),
        _ => return Err(Bad::Unspec("two tags")),
      };
      // a variant with content is inside the element, along with its name
      let inside: Vec<usize> = el.elems().filter_map(|e| variants.iter().position(|v| v.xml == e.name.local)).collect();
      match named {
        Some(i) if variants[i].payload.is_none() => return Ok(Val::Unit(i)),
        Some(_) if inside.is_empty() => return Err(Bad::Unspec("no content under the tag")),
        Some(i) if inside.iter().any(|j| *j != i) => return Err(Bad::Unspec("the content of another variant")),
        Some(_) => {}
        None if !inside.is_empty() => return Err(Bad::Unspec("content under an unknown tag")),
        None => return Ok(default.clone()),
      }
    }
    let known: Vec<(usize, &El)> = el
      .elems()
      .filter_map(|e| variants.iter().position(|v| v.xml == e.name.local).map(|i| (i, e)))
      .collect();
    let chunks = el.chunks();
    if known.is_empty() {
      if chunks.is_empty() {
        return Ok(default.clone());
      }
      if chunks.len() > 1 {
        return Err(Bad::Unspec("text in pieces"));
      }
      return match variants
        .iter()
        .position(|v| v.xml == chunks[0] || (v.payload.is_none() && unit_text(t, v) == chunks[0]))
      {
        Some(i) if variants[i].payload.is_none() => Ok(Val::Unit(i)),
        Some(_) => Err(Bad::Unspec("text named like a variant with content")),
        None => Ok(default.clone()),
      };
    }
    if !chunks.is_empty() && tag.is_none() {
      return Err(Bad::Unspec("text next to variants"));
    }
    let i = known[0].0;
    if known.iter().any(|k| k.0 != i) {
      // lists of different variants cannot be one value
      let good = known.iter().all(|(i, e)| match &variants[*i].payload {
        Some((Card::Many, Ty::R(r))) => self.de_at(*r, e).is_ok(),
        Some((Card::Many, Ty::P(p))) => self.leaf(e).and_then(|s| scan(*p, false, &s, false)).is_some(),
        _ => false,
      });
      return Err(if good { Bad::Err("lists of different variants".into()) } else { Bad::Unspec("different variants") });
    }
    let Some((card, pty)) = &variants[i].payload else {
      return Err(Bad::Unspec("unit variant as an element"));
    };
    if *card != Card::Many && known.len() > 1 {
      return Err(Bad::Unspec("repeated variant"));
    }
    let mut vals = vec![];
    for (_, e) in known {
      vals.push(match pty {
        Ty::R(r) => self.de_at(*r, e)?,
        Ty::P(p) => match self.leaf(e).and_then(|s| scan(*p, false, &s, false)) {
          Some(v) => v,
          None => return Err(Bad::Unspec("unparsable variant content")),
        },
      });
    }
    let payload = match card {
      Card::One => vals.pop().unwrap(),
      Card::Opt => Val::Some(Box::new(vals.pop().unwrap())),
      Card::Many => Val::Vec(vals),
      _ => return Err(Bad::Unspec("not read")),
    };
    Ok(Val::Var(i, Box::new(payload)))
  }

  fn de_struct(&self, t: &TypeDef, fs: &[Field], el: &El) -> Result<Val, Bad> {
    let mut got: Vec<Vec<Val>> = vec![vec![]; fs.len()];
    let mut unspec = None;
    for (i, f) in fs.iter().enumerate() {
      if f.role != Role::Attr {
        continue;
      }
      // an attribute of the field's namespace, or else any one of its local name
      let mut found: Vec<_> = el.attrs.iter().filter(|a| a.0.local == f.xml).collect();
      if found.iter().any(|a| a.0.ns == ns_of(t, f.prefix)) {
        found.retain(|a| a.0.ns == ns_of(t, f.prefix));
      } else {
        // without those that are other fields'
        let others: Vec<&str> = fs.iter().enumerate().filter(|(j, o)| *j != i && o.role == Role::Attr && o.xml == f.xml).flat_map(|(_, o)| {
          let bare = o.prefix.is_none() || t.default_ns == o.prefix;
          [Some(ns_of(t, o.prefix)), bare.then_some("")]
        }).flatten().collect();
        found.retain(|a| !others.contains(&a.0.ns.as_str()));
      }
      if found.len() > 1 {
        unspec = Some("two attributes with one local name");
      }
      for a in found {
        let parts: Vec<&str> = if f.card == Card::Many {
          a.1.split_whitespace().collect()
        } else {
          vec![a.1.as_str()]
        };
        for s in parts {
          got[i].push(match &f.ty {
            Ty::P(p) => scan(*p, false, s, true).ok_or(Bad::Err(format!("attribute {s:?}")))?,
            Ty::R(r) => self.attr_struct(*r, s)?,
          });
        }
      }
    }
    // what flattened fields read from: the same element, whose name is not theirs to judge
    let mut rest = El {
      name: QName::new("", &el.name.local),
      attrs: el.attrs.clone(),
      kids: vec![],
    };
    for k in &el.kids {
      let Nd::El(e) = k else {
        rest.kids.push(k.clone());
        continue;
      };
      let hit = fs.iter().position(|f| {
        matches!(f.role, Role::Elem | Role::Cdata) && f.xml == e.name.local && ns_of(t, f.prefix) == e.name.ns
      });
      let Some(i) = hit else {
        rest.kids.push(k.clone());
        continue;
      };
      match &fs[i].ty {
        Ty::P(p) => {
          if let Some(v) = self.leaf(e).and_then(|s| scan(*p, false, &s, true)) {
            got[i].push(v);
          }
        }
        Ty::R(r) => got[i].push(self.de_at(*r, e)?),
      }
    }
    let chunks = el.chunks();
    let mut out = vec![];
    for (i, f) in fs.iter().enumerate() {
      if f.role == Role::Text {
        if chunks.len() > 1 {
          unspec = Some("text in pieces");
        }
        let text = chunks.first().cloned();
        out.push(match (f.card, text) {
          (Card::Opt, None) => f.default.clone().unwrap_or(Val::None),
          (Card::Opt, Some(s)) => Val::Some(Box::new(Val::Str(s))),
          (_, Some(s)) => Val::Str(s),
          (_, None) => f.default.clone().unwrap_or(Val::s("")),
        });
        continue;
      }
      if f.role == Role::Flat {
        let Ty::R(r) = f.ty else { panic!("harness: flat") };
        let flat = self.de_at(r, &rest);
        out.push(match (f.card, flat) {
          (_, Err(Bad::Unspec(u))) => return Err(Bad::Unspec(u)),
          (Card::One, Ok(v)) => v,
          (Card::Opt, Ok(v)) => Val::Some(Box::new(v)),
          (_, Err(bad)) => match (&f.default, f.card) {
            (Some(d), _) => d.clone(),
            (None, Card::Opt) => Val::None,
            _ => return Err(bad),
          },
          _ => panic!("harness: flattened list"),
        });
        continue;
      }
      let vals = std::mem::take(&mut got[i]);
      if vals.len() > 1 && f.card != Card::Many {
        unspec = Some("repeated scalar");
      }
      out.push(match f.card {
        Card::Many if vals.is_empty() => f.default.clone().unwrap_or(Val::Vec(vec![])),
        Card::Many => Val::Vec(vals),
        Card::OptMany | Card::ManyOpt => return Err(Bad::Unspec("not read")),
        Card::Opt => match vals.into_iter().last() {
          Some(v) => Val::Some(Box::new(v)),
          None => f.default.clone().unwrap_or(Val::None),
        },
        Card::One => match (vals.into_iter().last(), &f.default) {
          (Some(v), _) => v,
          (None, Some(d)) => d.clone(),
          (None, None) => return Err(Bad::Err(format!("{} is required", f.rust))),
        },
      });
    }
    match unspec {
      Some(u) => Err(Bad::Unspec(u)),
      None => Ok(Val::Struct(out)),
    }
  }
}
