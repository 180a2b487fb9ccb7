//! Values of the described types: ordinary, boundary and hostile ones.

use crate::refm::float_eq;
use crate::rng::Rng;
use crate::xmlp::is_char;
use std::cell::{Cell, RefCell};
use ymcore::*;

thread_local! {
  /// names of the types at hand, for strings that look like them
  static NAMES: RefCell<Vec<&'static str>> = const { RefCell::new(vec![]) };
}

/// Sizes at which buffers and counters tend to change
const SIZES: &[usize] = &[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025];
const BIG_SIZES: &[usize] = &[2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537];

/// Values without anything optional, and with everything
#[derive(Clone, Copy, PartialEq)]
enum Shape {
  Any,
  Bare,
  Full,
}

#[derive(Clone, Copy)]
pub struct Opts {
  /// strings in elements keep their surrounding whitespace (not meant to come back)
  pub raw: bool,
  /// percentage of fields that get their default or skipped value
  pub special: usize,
  /// percentage of strings that are hostile
  pub hostile: usize,
  pub items: usize,
  pub depth: usize,
}

pub const ORDINARY: Opts = Opts { raw: false, special: 15, hostile: 40, items: 3, depth: 4 };

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pos {
  Attr,
  Elem,
  Text,
  /// a wrapped string in an attribute
  AttrWrap,
}

const BITS: &[&str] = &[
  "<", ">", "&", "\"", "'", "]]>", "<![CDATA[", "-->", "<!--", "&amp;", "&lt;", "&#60;", "&#x0;", "&unknown;", "<?pi?>", "</", "/>",
  "<a>", "</a>", "a=\"b\"", "xmlns=\"\"", "]]", "]", "--", " ", "\n", "\t", "  ", "x", "word", "1", "true", "ä", "名", "🦀", "\u{301}",
  "\u{a0}", "\u{85}", "\u{2028}", "\u{3000}", "\u{feff}", "\u{200b}", "\u{fffd}", "\u{10ffff}", "\u{7f}", "\u{9f}", "\u{e000}", "%", "\\", "\\n", "\0",
  "{}", "{0}", ";", "#", "=",
];

const PLAIN: &[&str] = &["a", "value", "two words", "0", "42", "true", "x_y", "Größe", "Ünïcödé", "name", "id", "e:A", "null", "None", "2024-01-02T03:04:05Z", "a,b;c", "nil", "NaN", "inf", "-0", "+1", "0x1F", "007", "1e5", "1.0", "TRUE", "xml", "xmlns", "?", "-", ".", "/", "http://e.com/?a=b&c", "http://e.com/", "a:b", ":", "{urn:x}y"];

pub fn string(r: &mut Rng, pos: Pos, o: &Opts) -> String {
  let mut s = String::new();
  if r.chance(o.hostile) {
    let n = match r.below(10) {
      0 => 0,
      1..=7 => r.range(1, 6),
      8 => r.range(6, 30),
      _ => r.range(1, 3),
    };
    for _ in 0..n {
      if r.chance(12) {
        let c = loop {
          let c = match r.below(4) {
            0 => char::from_u32(r.below(0x80) as u32),
            1 => char::from_u32(r.below(0x800) as u32),
            2 => char::from_u32(r.below(0x10000) as u32),
            _ => char::from_u32(r.below(0x110000) as u32),
          };
          if let Some(c) = c {
            break c;
          }
        };
        s.push(c);
      } else {
        s.push_str(r.pick(BITS));
      }
    }
    if r.chance(2) {
      let unit = r.pick(BITS).repeat(1);
      for _ in 0..r.range(200, 1500) {
        s.push_str(&unit);
      }
    }
  } else if r.chance(10) {
    // empty
  } else if r.chance(3) {
    let n = if r.chance(8) { *r.pick(BIG_SIZES) } else { *r.pick(SIZES) };
    let unit = *r.pick(&["x", "é", "ab ", "a&", "名", "0"]);
    while s.chars().count() + unit.chars().count() < n {
      for _ in 0..(n - s.chars().count()) / unit.chars().count() {
        s.push_str(unit);
      }
    }
    while s.chars().count() < n {
      s.push('y');
    }
  } else if r.chance(12) {
    NAMES.with(|names| {
      let names = names.borrow();
      if !names.is_empty() {
        s.push_str(r.pick(&names));
      }
    });
  } else {
    s.push_str(r.pick(PLAIN));
    if r.chance(50) {
      s.push_str(&r.below(1000).to_string());
    }
  }
  // what XML 1.0 cannot carry is out of scope, and a carriage return is not kept by XML readers
  s.retain(|c| is_char(c) && c != '\r');
  match pos {
    Pos::Attr => {
      s.retain(|c| c != '\t');
      s
    }
    Pos::Elem | Pos::Text => {
      if o.raw {
        s
      } else {
        crate::xmlp::trim(&s).to_string()
      }
    }
    Pos::AttrWrap => {
      s.retain(|c| !"<&>\t\n".contains(c));
      crate::xmlp::trim(&s).to_string()
    }
  }
}

pub fn prim(p: Prim, r: &mut Rng, pos: Pos, o: &Opts) -> Val {
  match p {
    Prim::Bool => Val::Bool(r.chance(50)),
    Prim::Str => Val::Str(string(r, pos, o)),
    Prim::F32 => Val::F32(match r.below(8) {
      0 => *r.pick(&[0f32, -0.0, 1.0, -1.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 16777216.0, 16777217.0, 1e-45, 1e10, 0.1]),
      1 => *r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN]),
      2 => r.below(100_000) as f32,
      3 => (r.below(2_000_000) as f32 - 1_000_000.0) / 1000.0,
      4 => format!("{}{}e{}", r.pick(&["", "-"]), r.below(1000), r.below(60) as i32 - 30).parse().unwrap(),
      _ => {
        let f = f32::from_bits(r.next() as u32);
        if f.is_nan() {
          1.5
        } else {
          f
        }
      }
    }
    .to_bits()),
    Prim::F64 => Val::F64(match r.below(8) {
      0 => *r.pick(&[0f64, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 9007199254740993.0, 5e-324, 1e22, 1e23, 0.1, 0.3]),
      1 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
      2 => r.below(100_000) as f64,
      3 => (r.below(2_000_000) as f64 - 1_000_000.0) / 1000.0,
      4 => format!("{}{}e{}", r.pick(&["", "-"]), r.below(100000), r.below(60) as i32 - 30).parse().unwrap(),
      _ => {
        let f = f64::from_bits(r.next());
        if f.is_nan() {
          1.5
        } else {
          f
        }
      }
    }
    .to_bits()),
    _ => {
      let (lo, hi) = p.int_range().unwrap();
      Val::Int(match r.below(8) {
        6 => {
          let p = if r.chance(50) { 10i128.pow(r.below(20) as u32) } else { 1i128 << r.below(65) };
          let p = p + r.below(3) as i128 - 1;
          (if r.chance(50) { p } else { -p }).clamp(lo, hi)
        }
        0 => lo,
        1 => hi,
        2 => (*r.pick(&[0i128, 1, -1, 7, 100, lo + 1, hi - 1])).clamp(lo, hi),
        3 => (r.below(256) as i128).clamp(lo, hi),
        _ => {
          let span = (hi - lo + 1) as u128;
          lo + (((r.next() as u128) << 64 | r.next() as u128) % span) as i128
        }
      })
    }
  }
}

pub struct Gen<'a> {
  pub types: &'a [TypeDef],
  pub o: Opts,
  shape: Cell<Shape>,
  /// A value has at most one big list
  big: Cell<bool>,
}

impl<'a> Gen<'a> {
  pub fn new(g: &'a Group, o: Opts) -> Gen<'a> {
    let mut names = vec![];
    for t in &g.types {
      names.extend([t.name, t.xml]);
      names.extend(t.namespaces.iter().flat_map(|(p, u)| [*p, *u]));
      match &t.kind {
        Kind::Struct(fs) => names.extend(fs.iter().map(|f| f.xml)),
        Kind::Enum { tag, variants, .. } => {
          names.extend(tag.iter());
          names.extend(variants.iter().map(|v| v.xml));
        }
        _ => {}
      }
    }
    NAMES.with(|n| *n.borrow_mut() = names);
    Gen { types: &g.types, o, shape: Cell::new(Shape::Any), big: Cell::new(false) }
  }

  pub fn value(&self, ty: usize, r: &mut Rng) -> Val {
    self.big.set(false);
    self.shape.set(match r.below(20) {
      0 => Shape::Bare,
      1 => Shape::Full,
      _ => Shape::Any,
    });
    let v = self.of(ty, r, self.o.depth, Pos::Elem);
    self.shape.set(Shape::Any);
    v
  }

  fn item(&self, ty: &Ty, r: &mut Rng, depth: usize, pos: Pos) -> Val {
    match ty {
      Ty::P(p) => prim(*p, r, pos, &self.o),
      Ty::R(t) => self.of(*t, r, depth, if pos == Pos::Attr { Pos::AttrWrap } else { pos }),
    }
  }

  pub fn of(&self, ty: usize, r: &mut Rng, depth: usize, pos: Pos) -> Val {
    let t = &self.types[ty];
    match &t.kind {
      Kind::Wrap { prim: p, mask, .. } => match (prim(*p, r, pos, &self.o), mask) {
        (Val::Int(i), Some(m)) => Val::Int(i & m),
        (Val::Str(s), _) if t.is_custom() => Val::Str(format!("c:{s}")),
        (v, _) => v,
      },
      Kind::Enum { variants, default, .. } => {
        if depth == 0 {
          return default.clone();
        }
        let i = r.below(variants.len());
        match &variants[i].payload {
          None => match &variants[i].fields {
            Some(fs) => Val::Var(i, Box::new(Val::Struct(fs.iter().map(|f| self.field(f, r, depth - 1)).collect()))),
            None => Val::Unit(i),
          },
          Some((card, pty)) => {
            let d = depth - 1;
            let v = match card {
              Card::One => self.item(pty, r, d, Pos::Elem),
              Card::Opt => Val::Some(Box::new(self.item(pty, r, d, Pos::Elem))),
              Card::Many => {
                let n = match self.shape.get() {
                  Shape::Bare => 1,
                  _ => self.count(pty, r).max(1),
                };
                Val::Vec(self.list(n, r, |r| self.item(pty, r, d, Pos::Elem)))
              }
              _ => panic!("harness: {card:?} in a variant"),
            };
            Val::Var(i, Box::new(v))
          }
        }
      }
      Kind::Struct(fs) => Val::Struct(fs.iter().map(|f| self.field(f, r, depth)).collect()),
    }
  }

  /// How many items a list gets
  fn count(&self, ty: &Ty, r: &mut Rng) -> usize {
    let flat = match ty {
      Ty::P(_) => true,
      Ty::R(t) => match &self.types[*t].kind {
        Kind::Struct(fs) => fs.iter().all(|f| matches!(f.ty, Ty::P(_))) && fs.len() < 5,
        Kind::Enum { variants, .. } => variants.iter().all(|v| v.payload.is_none() && v.fields.is_none()),
        Kind::Wrap { .. } => true,
      },
    };
    if flat && self.o.items > 1 && !self.big.get() && r.below(150) == 0 {
      self.big.set(true);
      let top = if r.chance(5) { SIZES.len() } else { 15 };
      return *r.pick(&SIZES[..top]);
    }
    r.below(self.o.items + 1)
  }

  /// Lists hold equal items at times
  fn list(&self, n: usize, r: &mut Rng, mut item: impl FnMut(&mut Rng) -> Val) -> Vec<Val> {
    let mut items: Vec<Val> = vec![];
    while items.len() < n {
      let v = if !items.is_empty() && r.chance(if n > 10 { 60 } else { 12 }) { r.pick(&items).clone() } else { item(r) };
      // a long list of long strings is nothing but slow
      if n <= 100 || r.chance(1) || format!("{v:?}").len() < 2000 {
        items.push(v);
      }
    }
    items
  }

  pub fn field(&self, f: &Field, r: &mut Rng, depth: usize) -> Val {
    if r.chance(self.o.special) {
      if let Some(v) = special(f, r) {
        return v;
      }
    }
    let d = depth.saturating_sub(1);
    let pos = match f.role {
      Role::Attr => Pos::Attr,
      Role::Text => Pos::Text,
      _ => Pos::Elem,
    };
    let recursive = matches!(f.ty, Ty::R(_)) && depth == 0;
    match f.card {
      Card::One => self.item(&f.ty, r, d, pos),
      Card::Opt => {
        let absent = match self.shape.get() {
          Shape::Bare => true,
          Shape::Full => false,
          Shape::Any => r.chance(30),
        };
        if recursive || absent {
          return Val::None;
        }
        let v = self.item(&f.ty, r, d, pos);
        if f.role == Role::Text && v == Val::s("") {
          return Val::Some(Box::new(Val::s("t")));
        }
        Val::Some(Box::new(v))
      }
      Card::Many => {
        let n = match self.shape.get() {
          _ if recursive => 0,
          Shape::Bare => 0,
          Shape::Full => self.count(&f.ty, r).max(1),
          Shape::Any => self.count(&f.ty, r),
        };
        Val::Vec(self.list(n, r, |r| self.item(&f.ty, r, d, pos)))
      }
      Card::OptMany => {
        if r.chance(20) {
          return Val::None;
        }
        let many = Field { card: Card::Many, ..f.clone() };
        Val::Some(Box::new(self.field(&many, r, depth)))
      }
      Card::ManyOpt => {
        let opt = Field { card: Card::Opt, ..f.clone() };
        let n = if recursive { 0 } else { r.below(self.o.items + 1) };
        Val::Vec((0..n).map(|_| self.field(&opt, r, depth)).collect())
      }
    }
  }
}

/// The values the annotations of a field name
pub fn special(f: &Field, r: &mut Rng) -> Option<Val> {
  let mut c = vec![];
  if let Some(d) = &f.default {
    c.push(d.clone());
  }
  match &f.skip_if {
    Some(SkipIf::Is(v)) | Some(SkipIf::IsNot(v)) => c.push(v.clone()),
    _ => {}
  }
  if c.is_empty() {
    None
  } else {
    Some(r.pick(&c).clone())
  }
}

/// What is left of a value once skipped fields are gone: `Err` if it cannot be read back,
/// and whether anything was skipped.
/// Present or not, the document is the same
fn writes_nothing(f: &Field, v: &Val) -> bool {
  match (f.card, v) {
    (Card::Opt, Val::None) => true,
    (Card::Opt, Val::Some(s)) => f.role == Role::Text && **s == Val::s(""),
    (Card::Many, Val::Vec(items)) => items.is_empty(),
    (Card::One, Val::Str(s)) => f.role == Role::Text && s.is_empty(),
    _ => false,
  }
}

pub fn survives(types: &[TypeDef], ty: usize, v: &Val) -> (Result<Val, ()>, bool) {
  let t = &types[ty];
  match &t.kind {
    Kind::Wrap { .. } => (Ok(v.clone()), false),
    Kind::Enum { variants, .. } => match v {
      Val::Var(i, p) => {
        let (card, pty) = variants[*i].payload.as_ref().unwrap();
        let (r, s) = each(types, *card, pty, p);
        (r.map(|p| Val::Var(*i, Box::new(p))), s)
      }
      _ => (Ok(v.clone()), false),
    },
    Kind::Struct(fs) => {
      let mut out = Ok(vec![]);
      let mut any = false;
      for (f, v) in fs.iter().zip(v.fields()) {
        // lists in attributes are not written
        let unwritten = f.role == Role::Attr && f.card == Card::Many;
        let r = if unwritten {
          any |= *v != Val::Vec(vec![]);
          Ok(Val::Vec(vec![]))
        } else if crate::refm::skipped(f, v) {
          any = true;
          match (&f.default, f.card, f.role) {
            (Some(d), _, _) if float_eq(d, v) => Ok(v.clone()),
            (Some(d), _, _) => Ok(d.clone()),
            (_, Card::Opt, _) => Ok(Val::None),
            (_, Card::Many, _) => Ok(Val::Vec(vec![])),
            (_, Card::One, Role::Text) => Ok(Val::s("")),
            _ => Err(()),
          }
        } else if let (Some(d), true) = (&f.default, writes_nothing(f, v)) {
          any = true;
          Ok(d.clone())
        } else {
          let (r, s) = each(types, f.card, &f.ty, v);
          any |= s;
          r
        };
        match (r, &mut out) {
          (Ok(v), Ok(o)) => o.push(v),
          _ => out = Err(()),
        }
      }
      (out.map(Val::Struct), any)
    }
  }
}

fn each(types: &[TypeDef], card: Card, ty: &Ty, v: &Val) -> (Result<Val, ()>, bool) {
  let Ty::R(t) = ty else { return (Ok(v.clone()), false) };
  match (card, v) {
    (Card::One, v) => survives(types, *t, v),
    (Card::Opt, Val::Some(x)) => {
      let (r, s) = survives(types, *t, x);
      (r.map(|v| Val::Some(Box::new(v))), s)
    }
    (Card::Many, Val::Vec(xs)) => {
      let mut out = Ok(vec![]);
      let mut any = false;
      for x in xs {
        let (r, s) = survives(types, *t, x);
        any |= s;
        match (r, &mut out) {
          (Ok(v), Ok(o)) => o.push(v),
          _ => out = Err(()),
        }
      }
      (out.map(Val::Vec), any)
    }
    _ => (Ok(v.clone()), false),
  }
}

/// Every string in the value, replaced by `f`, except those the annotations name.
pub fn map_strings(types: &[TypeDef], ty: &Ty, v: &Val, f: &mut dyn FnMut(&str) -> String) -> Val {
  match v {
    Val::Str(s) => Val::Str(f(s)),
    Val::Some(x) => Val::Some(Box::new(map_strings(types, ty, x, f))),
    Val::Vec(xs) => Val::Vec(xs.iter().map(|x| map_strings(types, ty, x, f)).collect()),
    Val::Var(i, x) => {
      let Ty::R(t) = ty else { unreachable!() };
      let Kind::Enum { variants, .. } = &types[*t].kind else { unreachable!() };
      Val::Var(
        *i,
        Box::new(match &variants[*i].fields {
          Some(fs) => Val::Struct(fs.iter().zip(x.fields()).map(|(fd, x)| map_strings(types, &fd.ty, x, f)).collect()),
          None => map_strings(types, &variants[*i].payload.as_ref().unwrap().1, x, f),
        }),
      )
    }
    Val::Struct(xs) => {
      let Ty::R(t) = ty else { unreachable!() };
      let Kind::Struct(fs) = &types[*t].kind else { unreachable!() };
      Val::Struct(
        fs.iter()
          .zip(xs)
          .map(|(fd, x)| {
            let named = fd.default.is_some() || fd.skip || fd.skip_if.is_some();
            if named {
              x.clone()
            } else {
              map_strings(types, &fd.ty, x, f)
            }
          })
          .collect(),
      )
    }
    other => other.clone(),
  }
}

/// Size measure of a value
pub fn weight(v: &Val) -> usize {
  match v {
    Val::Some(x) | Val::Var(_, x) => 1 + weight(x),
    Val::Vec(xs) | Val::Struct(xs) => 1 + xs.iter().map(weight).sum::<usize>(),
    Val::Str(s) => 1 + s.len() / 16,
    _ => 1,
  }
}
