//! Inputs on which a property is known not to hold (see known_findings.txt). Each probe says what
//! holding looks like and what was recorded; anything else is a violation.

use super::*;
use crate::monitor::Worker;
use yaserde::{YaDeserialize, YaSerialize};

#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
struct Simple {
  a: String,
}

#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
struct Content {
  #[yaserde(text = true)]
  t: String,
}

mod wrapped {
  use yaserde::*;
  #[derive(Debug, Clone, PartialEq, Default, PrimitiveYaSerde)]
  pub struct Wrapped(pub String);
}
use wrapped::Wrapped;

#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
struct HasWrapped {
  #[yaserde(attribute = true)]
  at: Wrapped,
}

#[derive(Debug, Clone, PartialEq, Default, YaSerialize, YaDeserialize)]
enum Named {
  #[default]
  Nil,
  Point {
    x: i32,
  },
}

#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
struct Inner {
  z: i32,
}

#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
struct Flattened {
  a: i32,
  #[yaserde(flatten = true)]
  inner: Inner,
}

pub fn named_variant(w: &mut Worker) {
  let v = Named::Point { x: 1 };
  if let Some(Ok(doc)) = w.total("to_string(&Named)", b"", || yaserde::ser::to_string(&v)) {
    if let Some(r) = w.total("from_str::<Named>", doc.as_bytes(), || yaserde::de::from_str::<Named>(&doc)) {
      w.probe("struct-like-variant-not-read", r == Ok(v.clone()), r == Ok(Named::Nil), format!("{doc} read as {r:?}"));
    }
  }
}

pub fn nested_fragment(w: &mut Worker) {
  let v = Flattened { a: 1, inner: Inner { z: 2 } };
  let doc = "<a>1</a><z>2</z>";
  if let Some(r) = w.total("from_str::<Flattened>", doc.as_bytes(), || yaserde::de::from_str::<Flattened>(doc)) {
    w.probe("fragment-of-nested-flattened", r == Ok(v), r.is_err(), format!("{doc} read as {r:?}"));
  }
}

pub fn presentation(w: &mut Worker) {
  let doc = "<Simple><a>ab<?c d?>cd</a></Simple>";
  if let Some(r) = w.total("from_str::<Simple>", doc.as_bytes(), || yaserde::de::from_str::<Simple>(doc)) {
    let held = r == Ok(Simple { a: "abcd".into() });
    w.probe("pi-in-element-text", held, r.is_err(), format!("{doc} read as {r:?}"));
  }
  let doc = "<Content>ab<?c d?>cd</Content>";
  if let Some(r) = w.total("from_str::<Content>", doc.as_bytes(), || yaserde::de::from_str::<Content>(doc)) {
    let held = r == Ok(Content { t: "abcd".into() });
    w.probe("pi-in-text-content", held, r == Ok(Content { t: "cd".into() }), format!("{doc} read as {r:?}"));
  }
}

pub fn wrapped_attribute(w: &mut Worker) {
  for s in ["a&b", "a<b", "&amp;"] {
    let v = HasWrapped { at: Wrapped(s.into()) };
    if let Some(r) = w.total("to_string(&HasWrapped)", s.as_bytes(), || yaserde::ser::to_string(&v)) {
      let want = crate::print::esc_attr(s);
      let got = r.as_ref().ok().and_then(|t| crate::xmlp::parse(t).ok()).map(|d| d.root.attrs[0].1.clone());
      let held = got.as_deref() == Some(s);
      let recorded = got == Some(want.replace("&quot;", "\"").replace("&apos;", "'"));
      w.probe("wrapped-string-attribute-escaped-twice", held, recorded, format!("attribute {s:?} written as {r:?}"));
    }
    let doc = format!("<HasWrapped at=\"{}\" />", crate::print::esc_attr(s));
    if let Some(r) = w.total("from_str::<HasWrapped>", doc.as_bytes(), || yaserde::de::from_str::<HasWrapped>(&doc)) {
      let held = r == Ok(v.clone());
      let recorded = r.is_err() || (s == "&amp;" && r == Ok(HasWrapped { at: Wrapped("&".into()) }));
      w.probe("wrapped-string-attribute-parsed-twice", held, recorded, format!("{doc} read as {r:?}"));
    }
  }
}

#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(default_namespace = "d", namespaces = { "d" = "urn:probe:d" })]
struct Implicit {
  item: String,
}

#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "p", namespaces = { "p" = "urn:probe:inner" })]
struct Rebinds {
  #[yaserde(prefix = "p")]
  x: u8,
}

#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "p", namespaces = { "p" = "urn:probe:outer" })]
struct HoldsRebinds {
  #[yaserde(prefix = "p")]
  inner: Rebinds,
}

#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "d", default_namespace = "d", namespaces = { "d" = "urn:probe:d" })]
struct Takes {
  #[yaserde(prefix = "d")]
  x: u8,
}

#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
struct HoldsTakes {
  inner: Takes,
}

/// Written and read by the same type, or written right and not read
fn comes_back<T: YaSerialize + YaDeserialize + PartialEq + std::fmt::Debug>(w: &mut Worker, key: &str, v: T, error: &str) {
  let Some(Ok(doc)) = w.total("to_string of a probe", key.as_bytes(), || yaserde::ser::to_string(&v)) else { return };
  if let Some(r) = w.total("from_str of a probe", doc.as_bytes(), || yaserde::de::from_str::<T>(&doc)) {
    let recorded = r.as_ref().err().is_some_and(|e| e.contains(error));
    w.probe(key, r.as_ref() == Ok(&v), recorded, format!("{doc} read as {r:?}"));
  }
}

pub fn implicit_default_namespace(w: &mut Worker) {
  comes_back(w, "default-namespace-without-prefix", Implicit { item: "x".into() }, "bad namespace");
}

/// The element of a field is in the namespace of the field, whatever its content declares
pub fn rebound_names(w: &mut Worker) {
  fn inner_ns(doc: &str) -> Option<String> {
    crate::xmlp::parse(doc).ok().and_then(|d| d.root.elems().next().map(|e| e.name.ns.clone()))
  }
  let v = HoldsRebinds { inner: Rebinds { x: 1 } };
  if let Some(Ok(doc)) = w.total("to_string(&HoldsRebinds)", b"", || yaserde::ser::to_string(&v)) {
    let ns = inner_ns(&doc);
    w.probe("content-rebinds-the-prefix-of-its-element", ns.as_deref() == Some("urn:probe:outer"), ns.as_deref() == Some("urn:probe:inner"), format!("inner is in {ns:?}: {doc}"));
  }
  let v = HoldsTakes { inner: Takes { x: 1 } };
  if let Some(Ok(doc)) = w.total("to_string(&HoldsTakes)", b"", || yaserde::ser::to_string(&v)) {
    let ns = inner_ns(&doc);
    w.probe("default-namespace-of-content-takes-its-element", ns.as_deref() == Some(""), ns.as_deref() == Some("urn:probe:d"), format!("inner is in {ns:?}: {doc}"));
  }
}
