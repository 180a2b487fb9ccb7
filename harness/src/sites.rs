//! Walking a document alongside the types its elements stand for.

use crate::refm::{ns_of, Model};
use crate::rng::Rng;
use crate::xmlp::{El, Nd, QName};
use std::collections::BTreeSet;
use ymcore::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Site {
  /// the element of a struct or enum (type index)
  Type(usize),
  /// the element of a scalar
  Leaf(Prim),
  /// the element of a wrapped scalar
  Wrapped(Prim),
}

/// What a type reads from the element it is given.
#[derive(Default, Clone, Debug)]
pub struct Reads {
  pub attrs: BTreeSet<String>,
  /// names of several attributes, in different namespaces
  pub shared: BTreeSet<String>,
  /// (namespace, local name); no namespace: matched by local name alone
  pub elems: BTreeSet<(Option<String>, String)>,
  pub text: bool,
  pub is_enum: bool,
}

pub fn reads(m: &Model, ty: usize) -> Reads {
  let mut r = Reads::default();
  fill(m, ty, &mut r);
  r
}

fn fill(m: &Model, ty: usize, r: &mut Reads) {
  let t = &m.types[ty];
  match &t.kind {
    Kind::Wrap { .. } => r.text = true,
    Kind::Enum { tag, variants, .. } => {
      r.is_enum = true;
      if let Some(tag) = tag {
        r.attrs.insert(tag.to_string());
      } else {
        r.text = true;
      }
      for v in variants {
        r.elems.insert((None, v.xml.to_string()));
      }
    }
    Kind::Struct(fs) => {
      for f in fs {
        match f.role {
          Role::Attr => {
            if !r.attrs.insert(f.xml.to_string()) {
              r.shared.insert(f.xml.to_string());
            }
          }
          Role::Text => r.text = true,
          Role::Elem | Role::Cdata => {
            r.elems.insert((Some(ns_of(t, f.prefix).to_string()), f.xml.to_string()));
          }
          Role::Flat => {
            if let Ty::R(x) = f.ty {
              fill(m, x, r);
            }
          }
        }
      }
    }
  }
}

impl Reads {
  pub fn knows(&self, q: &QName) -> bool {
    self.elems.iter().any(|(ns, l)| *l == q.local && ns.as_ref().is_none_or(|n| *n == q.ns))
  }
  pub fn knows_local(&self, l: &str) -> bool {
    self.elems.iter().any(|e| e.1 == l)
  }
}

/// The type of a child element of an element of type `ty`.
pub fn child_type(m: &Model, ty: usize, e: &El) -> Option<Ty> {
  let t = &m.types[ty];
  match &t.kind {
    Kind::Wrap { .. } => None,
    Kind::Enum { variants, .. } => variants
      .iter()
      .find(|v| v.xml == e.name.local)
      .and_then(|v| v.payload.as_ref().map(|p| p.1.clone())),
    Kind::Struct(fs) => {
      for f in fs {
        if matches!(f.role, Role::Elem | Role::Cdata) && f.xml == e.name.local && ns_of(t, f.prefix) == e.name.ns {
          return Some(f.ty.clone());
        }
      }
      for f in fs {
        if let (Role::Flat, Ty::R(r)) = (f.role, &f.ty) {
          if let Some(t) = child_type(m, *r, e) {
            return Some(t);
          }
        }
      }
      None
    }
  }
}

/// Calls `f` for every element that some type reads, innermost last.
pub fn walk(m: &Model, ty: usize, el: &mut El, f: &mut dyn FnMut(Site, &mut El)) {
  match &m.types[ty].kind {
    Kind::Wrap { prim, .. } => {
      f(Site::Wrapped(*prim), el);
      return;
    }
    _ => f(Site::Type(ty), el),
  }
  for k in el.kids.iter_mut() {
    if let Nd::El(e) = k {
      match child_type(m, ty, e) {
        Some(Ty::R(r)) => walk(m, r, e, f),
        Some(Ty::P(p)) => f(Site::Leaf(p), e),
        None => {}
      }
    }
  }
}

/// Gives the lists in attributes, which are only read, items; returns how many there are.
pub fn list_attributes(m: &Model, ty: usize, el: &mut El, r: &mut Rng) -> u64 {
  let mut lists = 0;
  walk(m, ty, el, &mut |s, e| {
    let Site::Type(t) = s else { return };
    let Kind::Struct(fs) = &m.types[t].kind else { return };
    for f in fs {
      if f.role == Role::Attr && f.card == Card::Many {
        let n = if r.chance(20) { r.below(60) } else { r.below(5) };
        let sep = *r.pick(&[" ", "  ", " \n", "\n", "\t"]);
        let mixed = r.chance(30);
        let mut text = String::new();
        for i in 0..n {
          if i > 0 {
            text.push_str(if mixed { r.pick(&[" ", "  ", "\n", "\t"]) } else { sep });
          }
          text.push_str(&match &f.ty {
            Ty::P(Prim::Str) | Ty::R(_) => format!("w{}", r.below(100)),
            Ty::P(p) => crate::refm::show(*p, false, &crate::gen::prim(*p, r, crate::gen::Pos::Attr, &crate::gen::ORDINARY)),
          });
        }
        e.attrs.retain(|a| a.0.local != f.xml);
        let text = if r.chance(20) { format!(" {text} ") } else { text };
        e.attrs.push((QName::new(ns_of(&m.types[t], f.prefix), f.xml), text));
        lists += 1;
      }
    }
  });
  lists
}

/// Local names used anywhere in a group.
pub fn names(g: &Group) -> Vec<String> {
  let mut s = BTreeSet::new();
  for t in &g.types {
    s.insert(t.xml.to_string());
    match &t.kind {
      Kind::Struct(fs) => {
        for f in fs {
          s.insert(f.xml.to_string());
        }
      }
      Kind::Enum { variants, tag, .. } => {
        for v in variants {
          s.insert(v.xml.to_string());
        }
        if let Some(t) = tag {
          s.insert(t.to_string());
        }
      }
      _ => {}
    }
  }
  s.into_iter().collect()
}

pub fn uris(g: &Group) -> Vec<String> {
  let mut s = BTreeSet::new();
  for t in &g.types {
    for (_, u) in &t.namespaces {
      s.insert(u.to_string());
    }
  }
  s.into_iter().collect()
}

/// Names that are nearly one of the pool: longer at either end, shorter, in another case.
pub fn near_names(pool: &[String]) -> Vec<String> {
  let mut out = vec![];
  for n in pool {
    out.push(format!("sub{n}"));
    out.push(format!("x-{n}"));
    out.push(format!("{n}s"));
    out.push(format!("{n}.2"));
    out.push(format!("{n}-"));
    out.push(format!("_{n}"));
    let mut short = n.clone();
    short.pop();
    let tail: String = n.chars().skip(1).collect();
    for x in [short, tail, n.to_uppercase(), n.to_lowercase()] {
      if x.chars().next().is_some_and(|c| c.is_alphabetic() || c == '_') {
        out.push(x);
      }
    }
  }
  out.retain(|n| !pool.contains(n));
  out.sort();
  out.dedup();
  out
}

/// A namespace name that is nearly `u`.
pub fn near_uri(u: &str, r: &mut Rng) -> String {
  if u.is_empty() {
    return "urn:foreign".into();
  }
  match r.below(8) {
    0 => format!("{u}/"),
    1 => format!("{u}#"),
    2 => format!("{u}x"),
    3 => {
      let mut s = u.to_string();
      s.pop();
      if s.is_empty() { "urn:x".into() } else { s }
    }
    4 => u.to_uppercase(),
    5 => u.trim_end_matches(['/', '#']).to_string() + "?",
    6 => u.replacen("http://", "https://", 1) + if u.starts_with("http://") { "" } else { ":" },
    _ => format!("x{u}"),
  }
}

const WORDS: &[&str] = &["1", "true", "x", "text", "-5", "1.5", "A", "red", "", "two words", "<b>&amp;", "ä"];

/// Any element: names from the pool (mostly), nested up to `depth`.
pub fn random_el(r: &mut Rng, pool: &[String], uris: &[String], depth: usize) -> El {
  let ns = if !uris.is_empty() && r.chance(50) { r.pick(uris).clone() } else { String::new() };
  let local = if r.chance(85) && !pool.is_empty() { r.pick(pool).clone() } else { format!("zz{}", r.below(5)) };
  let mut e = El::new(&ns, &local);
  for _ in 0..r.below(3) {
    let l = if r.chance(70) && !pool.is_empty() { r.pick(pool).clone() } else { format!("zy{}", r.below(5)) };
    let q = QName::new("", &l);
    if !e.attrs.iter().any(|a| a.0 == q) {
      e.attrs.push((q, r.pick(WORDS).to_string()));
    }
  }
  if depth > 0 {
    let n = r.below(4);
    for _ in 0..n {
      if r.chance(25) {
        e.kids.push(Nd::Text(r.pick(WORDS).to_string()));
      } else {
        e.kids.push(Nd::El(random_el(r, pool, uris, depth - 1)));
      }
    }
  }
  if e.kids.is_empty() && r.chance(60) {
    e.kids.push(Nd::Text(r.pick(WORDS).to_string()));
  }
  e
}
