//! Scalars: lexical forms and exact values, in every position.

use super::reading::{judge, jobs_over};
use super::*;
use crate::gen::{self, Gen, Pos, ORDINARY};
use crate::monitor::{fp, job, Worker};
use crate::print::{self, PLAIN};
use crate::refm::{show, Model};
use crate::rng::Rng;
use crate::sites::{walk, Site};
use crate::xmlp::{is_char, Nd};

const INTS: &[char] = &['0', '1', '2', '5', '8', '9', '-', '+', '.', 'e', 'x', '_', ' ', 'F'];
const FLOATS: &[char] = &['0', '1', '5', '9', '-', '+', '.', 'e', 'E', 'n', 'i', 'f', ' ', '_'];
const BOOLS: &[char] = &['0', '1', 't', 'T', 'r', 'u', 'e', 'f', 'a', 'l', 's', ' ', '-', 'F'];
const HEXES: &[char] = &['0', '1', '7', '9', 'a', 'A', 'F', 'f', 'G', 'x', '-', '+', ' ', '_'];

fn alphabet(p: Prim, hex: bool) -> &'static [char] {
  match p {
    Prim::Bool => BOOLS,
    Prim::F32 | Prim::F64 => FLOATS,
    _ if hex => HEXES,
    _ => INTS,
  }
}

/// The n-th short string over an alphabet, shortest first
fn nth(a: &[char], mut n: usize) -> String {
  let mut len = 0;
  let mut count = 1;
  while n >= count {
    n -= count;
    count *= a.len();
    len += 1;
  }
  let mut s = String::new();
  for _ in 0..len {
    s.push(a[n % a.len()]);
    n /= a.len();
  }
  s
}

const ODD: &[&str] = &[
  "", "+", "-", "--1", "+-1", "- 1", "1 2", "0x10", "1_000", "1,5", "１", "٣", "²", "½", "1e3", "1.0", "0.", ".", "..", "1.5.2", "e", "1e", "e1", "1e+", "-0", "+0", "00", "000001", "-00",
  "true", "false", "TRUE", "True", "tru", "truee", "yes", "no", "on", "T", "0", "1", "2", "01", "10", "-1", "NaN", "nan", "NAN", "-nan", "+NaN", "inf", "-inf", "+inf", "INF", "-INF", "Infinity", "infinity",
  "1e400", "-1e400", "1e-400", "1e38", "1e39", "3.4028236e38", "1.7976931348623159e308", "2.2250738585072011e-308", "4.9e-324", "2e-324", "0.1", "1f", "1d", "0x1p3", "1e5 ", " 1", "\u{a0}1", "1\u{a0}", "\u{feff}1", "1\u{200b}",
  "\u{85}1", "1\u{2003}", "none", "null", "a", "A", "FF", "ff", "0xFF", "FFF", "FFFF", "10000", "100000000", "FFFFFFFFFFFFFFFF", "10000000000000000", "7F", "5A", "A5", "128", "-128", "127", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536",
  "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
  "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999999999999", "true1", "tr ue", "16777217", "9007199254740993", "123456789.123456789",
];

/// A number next to the middle of two floating point numbers, or the middle itself, in all its digits
fn between(bits: u32, r: &mut Rng) -> String {
  let m = (1u128 << (bits - 1)) | (r.next() as u128 & ((1 << (bits - 1)) - 1));
  let down = r.range(1, 30) as u32;
  let digits = ((2 * m + 1) * 5u128.pow(down)).to_string();
  let digits = format!("{digits:0>width$}", width = down as usize + 1);
  let (whole, part) = digits.split_at(digits.len() - down as usize);
  let mut s = format!("{whole}.{part}");
  let more = r.range(1, 40);
  match r.below(3) {
    0 => {
      // the last digit is a 5
      s.pop();
      s.push('4');
      s.extend(std::iter::repeat('9').take(more));
    }
    1 => {
      s.extend(std::iter::repeat('0').take(more));
      s.push('1');
    }
    _ => {}
  }
  if r.chance(25) {
    s.push_str(*r.pick(&["e0", "e-7", "E9", "e+3", "e-20"]));
  }
  s
}

fn lexical(p: Prim, hex: bool, r: &mut Rng) -> String {
  if r.chance(20) {
    match p {
      Prim::F32 => return between(24, r),
      Prim::F64 => return between(53, r),
      _ => {}
    }
  }
  let base = match r.below(8) {
    0 => return r.pick(ODD).to_string(),
    1 => return nth(alphabet(p, hex), r.below(40_000)),
    2 => {
      let mut s = String::new();
      for _ in 0..r.range(1, 24) {
        s.push(*r.pick(alphabet(p, hex)));
      }
      return s;
    }
    3 if p.int_range().is_some() => {
      // around the bounds
      let (lo, hi) = p.int_range().unwrap();
      let n = *r.pick(&[lo, hi, 0]) + r.range(0, 6) as i128 - 3;
      if hex {
        format!("{n:X}")
      } else {
        n.to_string()
      }
    }
    _ => crate::refm::show(p, hex, &gen::prim(p, r, Pos::Attr, &ORDINARY)),
  };
  let mut s = base;
  match r.below(16) {
    0 => s.insert(0, '+'),
    1 => s.insert(0, '-'),
    2 => s.insert_str(s.len() - s.trim_start_matches('-').len(), "000"),
    3 => s.push('0'),
    4 => s.push(*r.pick(&[' ', '\n', 'x', '.', '_', 'é', '\u{a0}'])),
    5 => s.insert(0, *r.pick(&[' ', '\n', 'x', '.', '\u{a0}', '\u{200b}'])),
    6 => s.push_str(".0"),
    7 => s.push_str("e0"),
    8 => s = s.to_uppercase(),
    9 => s = s.to_lowercase(),
    10 => {
      let cs: Vec<char> = s.chars().collect();
      if !cs.is_empty() {
        let at = r.below(cs.len());
        s = cs.iter().enumerate().filter(|(i, _)| *i != at).map(|(_, c)| c).collect();
      }
    }
    11 => {
      // digits of another script
      s = s.chars().map(|c| c.to_digit(10).and_then(|d| char::from_u32(0x660 + d)).unwrap_or(c)).collect();
    }
    _ => {}
  }
  s
}

/// Writes `text` into one scalar element or attribute of the document; false if it has none.
fn plant(m: &Model, ty: usize, el: &mut El, r: &mut Rng, text: &mut dyn FnMut(Prim, bool, &mut Rng) -> String, which: Option<usize>) -> bool {
  let mut n = 0;
  let scalar_attr = |t: usize, local: &str| -> Option<(Prim, bool)> {
    let Kind::Struct(fs) = &m.types[t].kind else { return None };
    fs.iter().find(|f| f.role == Role::Attr && f.xml == local && f.card != Card::Many).and_then(|f| match &f.ty {
      Ty::P(p) => Some((*p, false)),
      Ty::R(t) => match m.types[*t].kind {
        Kind::Wrap { prim, hex, .. } => Some((prim, hex)),
        _ => None,
      },
    })
  };
  let mut count = |s: Site, e: &mut El| match s {
    Site::Leaf(_) | Site::Wrapped(_) => n += 1,
    Site::Type(t) => n += e.attrs.iter().filter(|a| scalar_attr(t, &a.0.local).is_some()).count(),
  };
  walk(m, ty, &mut el.clone(), &mut count);
  if n == 0 {
    return false;
  }
  let chosen = which.map(|w| w % n).unwrap_or_else(|| r.below(n));
  let mut at = 0;
  let hexes = m.types.iter().any(|t| matches!(t.kind, Kind::Wrap { hex: true, .. }));
  walk(m, ty, el, &mut |s, e| match s {
    Site::Leaf(p) | Site::Wrapped(p) => {
      if at == chosen {
        e.kids = vec![Nd::Text(text(p, hexes && p.int_range().is_some(), r))];
      }
      at += 1;
    }
    Site::Type(t) => {
      for a in e.attrs.iter_mut() {
        if let Some((p, hex)) = scalar_attr(t, &a.0.local) {
          if at == chosen {
            a.1 = text(p, hex, r);
          }
          at += 1;
        }
      }
    }
  });
  true
}

fn xml_text(s: String) -> String {
  s.chars().filter(|c| is_char(*c) && *c != '\r').collect()
}

fn lexical_case(w: &mut Worker, g: &Group, m: &Model, ty: usize, mut text: impl FnMut(Prim, bool, &mut Rng) -> String, which: Option<usize>) {
  let mut o = ORDINARY;
  o.hostile = 0;
  o.special = 0;
  let v = Gen::new(g, o).value(ty, &mut w.rng);
  let mut el = m.ser(ty, &v);
  let mut last = String::new();
  {
    let rng = &mut w.rng;
    let mut f = |p: Prim, hex: bool, r: &mut Rng| {
      let s = xml_text(text(p, hex, r));
      last = s.clone();
      s
    };
    if !plant(m, ty, &mut el, rng, &mut f, which) {
      return;
    }
  }
  let doc = print::print(&el, &mut w.rng, PLAIN);
  if judge(w, g, m, ty, &el, &doc, "lexical form") {
    w.eval(true, fp(&[g.types[ty].name.as_bytes(), doc.as_bytes()]));
    w.sample(|| format!("{last:?} in {doc}"));
  }
}

/// One value in all positions: what is written is its form, what is read is the value.
fn exact(w: &mut Worker, g: &Group, m: &Model, v: &Val) {
  let ty = g.root;
  let Some(text) = w.ser_ok(g, ty, v, None) else { return };
  w.eval(true, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
  match crate::xmlp::parse(&text) {
    Ok(d) if d.root.canon(true) == m.ser(ty, v).canon(true) => {}
    other => w.violation(
      format!("written scalar {}", g.name),
      format!("scalars written differently\nvalue: {v:?}\nwant: {}\ngot: {text} {}", show_el(&m.ser(ty, v)), other.err().unwrap_or_default()),
    ),
  }
  let Some(back) = w.de(g, ty, &text) else { return };
  let want = gen::survives(&g.types, ty, v).0;
  if let Ok(want) = want {
    if back.as_ref() != Ok(&want) {
      w.violation(format!("scalar value {}", g.name), format!("scalars come back differently\nvalue: {want:?}\ngot:   {}\nas: {text}", show_r(&back)));
    }
  }
}

/// A value of the root type with the scalar `s` in every place that takes one
fn everywhere(g: &Group, r: &mut Rng, s: &Val) -> Val {
  let v = Gen::new(g, ORDINARY).value(g.root, r);
  fn put(v: &Val, s: &Val) -> Val {
    match (v, s) {
      (Val::Struct(x), _) => Val::Struct(x.iter().map(|v| put(v, s)).collect()),
      (Val::Vec(x), _) => Val::Vec(x.iter().map(|v| put(v, s)).collect()),
      (Val::Some(x), _) => Val::Some(Box::new(put(x, s))),
      (Val::Var(i, x), _) => Val::Var(*i, Box::new(put(x, s))),
      (Val::Int(_), Val::Int(_)) | (Val::F32(_), Val::F32(_)) | (Val::F64(_), Val::F64(_)) | (Val::Bool(_), Val::Bool(_)) => s.clone(),
      _ => v.clone(),
    }
  }
  put(&v, s)
}

fn prim_of(g: &Group) -> Option<(Prim, bool, Option<i128>)> {
  for t in &g.types {
    if let Kind::Wrap { prim, hex, mask } = t.kind {
      return Some((prim, hex, mask));
    }
  }
  if let Kind::Struct(fs) = &g.types[g.root].kind {
    for f in fs {
      if let Ty::P(p) = f.ty {
        return Some((p, false, None));
      }
    }
  }
  g.types.iter().find_map(|t| match &t.kind {
    Kind::Enum { variants, .. } => variants.iter().find_map(|v| match &v.payload {
      Some((_, Ty::P(p))) => Some((*p, false, None)),
      _ => None,
    }),
    _ => None,
  })
}

fn scalar_jobs(ctx: &Arc<Ctx>, only: impl Fn(&Group) -> bool + Copy) -> Vec<Job> {
  let mut jobs = jobs_over(
    ctx,
    |w, g, m, _| {
      let ty = if w.rng.chance(80) { g.root } else { w.rng.pick(&g.entries).0 };
      lexical_case(w, g, m, ty, lexical, None);
    },
    2500,
    only,
  );
  for i in 0..ctx.groups.len() {
    if !only(&ctx.groups[i]) || prim_of(&ctx.groups[i]).is_none() || ctx.groups[i].feats.contains(&"random") {
      continue;
    }
    // every short text
    jobs.push(job(format!("{}/short", ctx.groups[i].name), move |w: &mut Worker| {
      let ctx = w.ctx.clone();
      let g = &ctx.groups[i];
      let m = Model::new(g);
      if w.round > 0 {
        return;
      }
      let top = if ctx.thorough { 41_371 } else { 2_955 };
      for n in 0..top {
        if w.out_of_time() {
          return;
        }
        let which = w.rng.below(1 << 20);
        lexical_case(w, g, &m, g.root, |p, hex, _| nth(alphabet(p, hex), n), Some(which));
      }
      for s in ODD {
        for which in 0..8 {
          lexical_case(w, g, &m, g.root, |_, _, _| s.to_string(), Some(which));
        }
      }
    }));
    // every value of the small types, many of the others
    jobs.push(job(format!("{}/values", ctx.groups[i].name), move |w: &mut Worker| {
      let ctx = w.ctx.clone();
      let g = &ctx.groups[i];
      let m = Model::new(g);
      let (p, hex, mask) = prim_of(g).unwrap();
      let bits = match p {
        Prim::I8 | Prim::U8 => 8,
        Prim::I16 | Prim::U16 => 16,
        _ => 0,
      };
      let several_masks = g.types.iter().filter(|t| matches!(t.kind, Kind::Wrap { .. })).count() > 1;
      if bits > 0 && !several_masks && w.round == 0 {
        let (lo, hi) = p.int_range().unwrap();
        let step = if bits == 16 && !ctx.thorough { 7 } else { 1 };
        let mut k = lo;
        while k <= hi {
          if w.out_of_time() {
            return;
          }
          if mask.is_none_or(|m| k & !m == 0) {
            let v = everywhere(g, &mut w.rng, &Val::Int(k));
            exact(w, g, &m, &v);
          }
          k += step;
        }
        w.count("values of 8 and 16 bit types enumerated", ((hi - lo + 1) / step) as u64);
      }
      let _ = hex;
      for k in 0..w.iters(3000) {
        if w.out_of_time() {
          return;
        }
        let mut v = Gen::new(g, ORDINARY).value(g.root, &mut w.rng);
        if k % 2 == 0 && mask.is_none() && !several_masks {
          let s = gen::prim(p, &mut w.rng, Pos::Elem, &ORDINARY);
          if p != Prim::Str {
            v = everywhere(g, &mut w.rng, &s);
          }
        }
        exact(w, g, &m, &v);
      }
    }));
  }
  jobs
}

/// The implementations for Rust's own types, as a hand-written implementation uses them.
fn bare<T: yaserde::YaSerialize + std::str::FromStr + PartialEq + std::fmt::Debug>(w: &mut Worker, kind: &str, v: &T, plain: &str, same: impl Fn(&T, &T) -> bool) {
  use std::borrow::Cow;
  use yaserde::__xml::attribute::OwnedAttribute;
  use yaserde::__xml::name::{Name, OwnedName};
  use yaserde::__xml::namespace::Namespace;
  use yaserde::__xml::writer::XmlEvent;
  let n = w.rng.below(3);
  let mine: Vec<OwnedAttribute> = (0..n).map(|i| OwnedAttribute::new(OwnedName::local(format!("a{i}")), format!("v{i}"))).collect();
  let mut ns = Namespace::empty();
  ns.put("p", "urn:p");
  let skip = w.rng.chance(50);
  let name = w.rng.chance(50).then(|| "given".to_string());
  let what = format!("{kind}::serialize");
  w.eval(true, fp(&[kind.as_bytes(), plain.as_bytes(), &[n as u8, skip as u8, name.is_some() as u8]]));
  w.count("scalars written by their own implementations", 1);
  let r = w.total(&what, plain.as_bytes(), || -> Result<(String, bool, bool), String> {
    let mut s = yaserde::ser::Serializer::new_for_inner(Vec::<u8>::new());
    let (attributes, namespace) = v.serialize_attributes(mine.clone(), ns.clone())?;
    let kept = attributes == mine && namespace == ns;
    s.write(XmlEvent::StartElement { name: Name::local("e"), attributes: Cow::Owned(attributes.iter().map(|a| a.borrow()).collect()), namespace: Cow::Owned(namespace) }).map_err(|e| e.to_string())?;
    s.set_skip_start_end(skip);
    s.set_start_event_name(name.clone());
    v.serialize(&mut s)?;
    let state = s.skip_start_end() == skip && s.get_start_event_name() == name;
    s.write(XmlEvent::end_element()).map_err(|e| e.to_string())?;
    Ok((String::from_utf8(s.into_inner()).map_err(|e| e.to_string())?, kept, state))
  });
  let Some(r) = r else { return };
  let bad = match &r {
    Err(e) => Some(e.clone()),
    Ok((text, kept, state)) => match crate::xmlp::parse(text) {
      Err(e) => Some(format!("{e}: {text}")),
      Ok(d) => {
        let got = d.root.text();
        let back = got.parse::<T>().ok();
        if got != plain || d.root.has_elems() || d.root.attrs.len() != n {
          Some(format!("written as {text}"))
        } else if !back.is_some_and(|b| same(&b, v)) {
          Some(format!("does not come back from {text}"))
        } else if !kept || !state {
          Some(format!("attributes and namespaces of the caller kept: {kept}, state of the writer kept: {state}"))
        } else {
          None
        }
      }
    },
  };
  if let Some(bad) = bad {
    w.violation(format!("bare {kind}"), format!("{kind} {v:?}, plainly {plain:?}: {bad}"));
  }
}

fn bare_scalars(w: &mut Worker) {
  macro_rules! ints {
    ($($t:ident)*) => {$({
      let bits = w.rng.next();
      let v = match w.rng.below(4) {
        0 => *w.rng.pick(&[$t::MIN, $t::MAX, 0, 1, $t::MIN + 1, $t::MAX - 1]),
        1 => w.rng.below(100) as $t,
        _ => (bits >> w.rng.below(64)) as $t,
      };
      // digits by hand
      let mut digits = vec![];
      let mut left = (v as i128).unsigned_abs();
      loop {
        digits.push(b'0' + (left % 10) as u8);
        left /= 10;
        if left == 0 { break }
      }
      if (v as i128) < 0 { digits.push(b'-'); }
      digits.reverse();
      let plain = String::from_utf8(digits).unwrap();
      bare(w, stringify!($t), &v, &plain, |a, b| a == b);
    })*}
  }
  for _ in 0..w.iters(600) {
    if w.out_of_time() {
      return;
    }
    ints!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize);
    let b = w.rng.chance(50);
    bare(w, "bool", &b, if b { "true" } else { "false" }, |a, b| a == b);
    let c = loop {
      let n = match w.rng.below(3) { 0 => 128, 1 => 0x800, _ => 0x110000 };
      let c = match w.rng.chance(20) {
        true => Some(*w.rng.pick(&['<', '>', '&', '"', '\'', ']', 'x', 'é', '\u{10ffff}', '\u{fffd}', '\u{feff}'])),
        false => char::from_u32(w.rng.below(n) as u32),
      };
      if let Some(c) = c.filter(|c| is_char(*c) && *c != '\r') {
        break c;
      }
    };
    bare(w, "char", &c, &c.to_string(), |a, b| a == b);
    if let Val::F64(bits) = gen::prim(Prim::F64, &mut w.rng, Pos::Elem, &ORDINARY) {
      let v = f64::from_bits(bits);
      let plain = show(Prim::F64, false, &Val::F64(bits));
      bare(w, "f64", &v, &plain, |a, b| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan());
    }
    if let Val::F32(bits) = gen::prim(Prim::F32, &mut w.rng, Pos::Elem, &ORDINARY) {
      let v = f32::from_bits(bits);
      let plain = show(Prim::F32, false, &Val::F32(bits));
      bare(w, "f32", &v, &plain, |a, b| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan());
    }
  }
}

/// What a visitor does not implement, it refuses, whatever the text is.
fn visitors(w: &mut Worker) {
  use yaserde::Visitor;
  struct Only(usize);
  impl<'de> Visitor<'de> for Only {
    type Value = (usize, String);
  }
  struct Bools;
  impl<'de> Visitor<'de> for Bools {
    type Value = (usize, String);
    fn visit_bool(self, v: &str) -> Result<Self::Value, String> {
      Ok((0, v.to_string()))
    }
  }
  fn all<'de, V: Visitor<'de, Value = (usize, String)>>(mut make: impl FnMut() -> V, s: &str) -> Vec<(&'static str, Result<(usize, String), String>)> {
    vec![
      ("bool", make().visit_bool(s)), ("i8", make().visit_i8(s)), ("u8", make().visit_u8(s)), ("i16", make().visit_i16(s)), ("u16", make().visit_u16(s)),
      ("i32", make().visit_i32(s)), ("u32", make().visit_u32(s)), ("i64", make().visit_i64(s)), ("u64", make().visit_u64(s)),
      ("f32", make().visit_f32(s)), ("f64", make().visit_f64(s)), ("str", make().visit_str(s)),
    ]
  }
  for _ in 0..w.iters(300) {
    let s = match w.rng.chance(50) {
      true => gen::string(&mut w.rng, Pos::Attr, &ORDINARY),
      false => w.rng.pick(ODD).to_string(),
    };
    let Some((a, b)) = w.total("Visitor", s.as_bytes(), || (all(|| Only(0), &s), all(|| Bools, &s))) else { return };
    w.eval(true, fp(&[b"visitor", s.as_bytes()]));
    w.count("visitor methods called", 24);
    for (i, (kind, r)) in a.iter().chain(&b).enumerate() {
      let held = match r {
        Ok((_, t)) => i == 12 && *t == s,
        Err(_) => i != 12,
      };
      if !held {
        w.violation(format!("visitor {kind}"), format!("visit_{kind} of a visitor {} answers {r:?} to {s:?}", if i < 12 { "that implements nothing" } else { "of booleans" }));
      }
    }
  }
}

pub fn c06(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let mut jobs = scalar_jobs(ctx, |g| g.feats.contains(&"prim"));
  jobs.push(job("bare", bare_scalars));
  jobs.push(job("visitors", visitors));
  (
    Report {
      rule: "A case is one text in one scalar position (element, optional, list item, attribute, optional attribute, with and without default, enum content) of one of the 12 scalar types, or one value in all positions. Texts: every string up to three (thorough: four) characters over a 14-letter alphabet per type, a list of odd forms, mutated valid forms, forms around the bounds. The result must be the model's: the exact value, or the absence or error the position calls for. All values of 8 bit types, all (quick: every seventh) of 16 bit ones, boundary and random bit patterns of the others must be written in their plain form and come back bit for bit. Rust's own scalars (characters and machine words as well) are also written by their own implementations into an element of a caller's, whose attributes and settings they must leave alone, and visitors are asked for what they do not implement. Distinct by (type, text).",
      level: "exploration",
      assumptions: &["The lexical space of numbers is the one of Rust's FromStr, booleans are true, false, 1 and 0; text in elements is trimmed of XML white space, attributes are not.", "Unreadable enum content is unspecified."],
    },
    jobs,
  )
}

pub fn c16(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let mut jobs = scalar_jobs(ctx, |g| g.feats.contains(&"wrap") || g.feats.contains(&"custom"));
  jobs.push(job("probes", |w: &mut Worker| super::probes::wrapped_attribute(w)));
  (
    Report {
      rule: "A case is one text in one position (element, optional, list item, attribute, optional attribute, enum content) of a type deriving PrimitiveYaSerde, HexBinaryYaSerde or DefaultYaSerde, or implementing the traits by hand, or one value in all positions, next to the siblings of that position. Texts and values as for the scalars. Reading must give the exact value, or an error if the wrapped type rejects the text; writing must give the plain form (hexBinary: upper case, at least two digits). Distinct by (type, text).",
      level: "exploration",
      assumptions: &["Wrapped booleans are true and false only (Rust's FromStr).", "Markup characters and surrounding white space in attributes of wrapped types are not judged (known finding)."],
    },
    jobs,
  )
}
