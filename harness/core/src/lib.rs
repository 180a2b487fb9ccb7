//! Shared vocabulary of the monitors: plain values, type descriptors and type-erased entry points.
//! Nothing here knows how yaserde maps values to XML.

use std::io::{Read, Write};
use yaserde::{YaDeserialize, YaSerialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Prim {
  Bool,
  I8,
  U8,
  I16,
  U16,
  I32,
  U32,
  I64,
  U64,
  F32,
  F64,
  Str,
}

impl Prim {
  pub const ALL: [Prim; 12] = [
    Prim::Bool,
    Prim::I8,
    Prim::U8,
    Prim::I16,
    Prim::U16,
    Prim::I32,
    Prim::U32,
    Prim::I64,
    Prim::U64,
    Prim::F32,
    Prim::F64,
    Prim::Str,
  ];
  pub fn int_range(self) -> Option<(i128, i128)> {
    Some(match self {
      Prim::I8 => (i8::MIN as i128, i8::MAX as i128),
      Prim::U8 => (0, u8::MAX as i128),
      Prim::I16 => (i16::MIN as i128, i16::MAX as i128),
      Prim::U16 => (0, u16::MAX as i128),
      Prim::I32 => (i32::MIN as i128, i32::MAX as i128),
      Prim::U32 => (0, u32::MAX as i128),
      Prim::I64 => (i64::MIN as i128, i64::MAX as i128),
      Prim::U64 => (0, u64::MAX as i128),
      _ => return None,
    })
  }
}

/// A plain value. Floats are kept as bits, so that equality means "the same number" exactly.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Val {
  Bool(bool),
  Int(i128),
  F32(u32),
  F64(u64),
  Str(String),
  None,
  Some(Box<Val>),
  Vec(Vec<Val>),
  Struct(Vec<Val>),
  Unit(usize),
  Var(usize, Box<Val>),
}

impl Val {
  pub fn s(s: &str) -> Val {
    Val::Str(s.to_string())
  }
  pub fn fields(&self) -> &[Val] {
    match self {
      Val::Struct(f) => f,
      _ => panic!("harness: not a struct value: {self:?}"),
    }
  }
}

pub trait Zoo: Sized {
  fn to_val(&self) -> Val;
  fn from_val(v: &Val) -> Self;
}

macro_rules! int_zoo {
  ($($t:ty),*) => {$(
    impl Zoo for $t {
      fn to_val(&self) -> Val { Val::Int(*self as i128) }
      fn from_val(v: &Val) -> Self {
        match v { Val::Int(i) => <$t>::try_from(*i).expect("harness: int range"), _ => panic!("harness: not an int: {v:?}") }
      }
    }
  )*};
}
int_zoo!(i8, u8, i16, u16, i32, u32, i64, u64);

impl Zoo for bool {
  fn to_val(&self) -> Val {
    Val::Bool(*self)
  }
  fn from_val(v: &Val) -> Self {
    matches!(v, Val::Bool(true))
  }
}
impl Zoo for f32 {
  fn to_val(&self) -> Val {
    Val::F32(self.to_bits())
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::F32(b) => f32::from_bits(*b),
      _ => panic!("harness: not a f32"),
    }
  }
}
impl Zoo for f64 {
  fn to_val(&self) -> Val {
    Val::F64(self.to_bits())
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::F64(b) => f64::from_bits(*b),
      _ => panic!("harness: not a f64"),
    }
  }
}
impl Zoo for String {
  fn to_val(&self) -> Val {
    Val::Str(self.clone())
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Str(s) => s.clone(),
      _ => panic!("harness: not a string: {v:?}"),
    }
  }
}
impl<T: Zoo> Zoo for Option<T> {
  fn to_val(&self) -> Val {
    match self {
      None => Val::None,
      Some(v) => Val::Some(Box::new(v.to_val())),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::None => None,
      Val::Some(v) => Some(T::from_val(v)),
      _ => panic!("harness: not an option: {v:?}"),
    }
  }
}
impl<T: Zoo> Zoo for Vec<T> {
  fn to_val(&self) -> Val {
    Val::Vec(self.iter().map(|v| v.to_val()).collect())
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Vec(v) => v.iter().map(|v| T::from_val(v)).collect(),
      _ => panic!("harness: not a vec: {v:?}"),
    }
  }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
  P(Prim),
  R(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Card {
  One,
  Opt,
  Many,
  /// an optional list
  OptMany,
  /// a list of optional values
  ManyOpt,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
  Attr,
  Elem,
  Text,
  Cdata,
  Flat,
}

#[derive(Clone, PartialEq, Debug)]
pub enum SkipIf {
  Is(Val),
  IsNot(Val),
  Always,
  Never,
}

#[derive(Clone, Debug)]
pub struct Field {
  pub rust: &'static str,
  pub xml: &'static str,
  pub prefix: Option<&'static str>,
  pub role: Role,
  pub card: Card,
  pub ty: Ty,
  pub default: Option<Val>,
  pub skip: bool,
  pub skip_if: Option<SkipIf>,
}

#[derive(Clone, Debug)]
pub struct Variant {
  pub rust: &'static str,
  pub xml: &'static str,
  pub prefix: Option<&'static str>,
  pub payload: Option<(Card, Ty)>,
  /// of a variant with named fields, whose content is a struct value
  pub fields: Option<Vec<Field>>,
}

#[derive(Clone, Debug)]
pub enum Kind {
  Struct(Vec<Field>),
  Enum {
    tag: Option<&'static str>,
    variants: Vec<Variant>,
    default: Val,
  },
  Wrap {
    prim: Prim,
    hex: bool,
    /// bits the type accepts
    mask: Option<i128>,
  },
}

#[derive(Clone, Debug)]
pub struct TypeDef {
  pub name: &'static str,
  pub xml: &'static str,
  pub prefix: Option<&'static str>,
  pub default_ns: Option<&'static str>,
  pub namespaces: Vec<(&'static str, &'static str)>,
  pub flatten: bool,
  pub kind: Kind,
}

impl TypeDef {
  /// The hand-written type of the zoo only takes text that starts with `c:`
  pub fn custom_rejects(&self, s: &str) -> bool {
    self.is_custom() && !s.starts_with("c:")
  }
  pub fn is_custom(&self) -> bool {
    self.name == "CustomT0"
  }
}

#[derive(Clone, Copy)]
pub struct Config {
  pub indent: bool,
  pub decl: bool,
  pub indent_string: Option<&'static str>,
}

impl Config {
  pub const DEFAULT: Config = Config {
    indent: false,
    decl: true,
    indent_string: None,
  };
  pub fn to_yaserde(self) -> yaserde::ser::Config {
    yaserde::ser::Config {
      perform_indent: self.indent,
      write_document_declaration: self.decl,
      indent_string: self.indent_string.map(|s| s.to_string()),
    }
  }
}

/// The public API of yaserde for one concrete type, with the type erased.
#[derive(Clone, Copy)]
pub struct Entry {
  pub de_str: fn(&str) -> Result<Val, String>,
  pub de_read: fn(&mut dyn Read) -> Result<Val, String>,
  /// Reads consecutive values of this type, each one an element child of the document's root
  pub de_children: fn(&str) -> Result<Vec<(Val, usize)>, String>,
  pub ser_string: fn(&Val) -> Result<String, String>,
  pub ser_config: fn(&Val, Config) -> Result<String, String>,
  pub ser_writer: fn(&Val, &mut dyn Write, Config) -> Result<(), String>,
  pub ser_content: fn(&Val) -> Result<String, String>,
  pub ser_content_writer: fn(&Val, &mut dyn Write) -> Result<(), String>,
  /// Writes several values of this type through one Serializer, inside an element named `list`
  pub ser_many: fn(&[Val]) -> Result<String, String>,
  /// Writes a value the way a hand-written implementation holding it can: the element is the caller's
  pub ser_inside: fn(&Val, &Caller) -> Result<String, String>,
  /// Writes several values into one element of the caller's, asked to leave out their own once
  pub ser_texts: fn(&[Val]) -> Result<String, String>,
  /// Writes through a Serializer around a writer of the caller's
  pub ser_emitter: fn(&Val, EmitterConfig) -> Result<String, String>,
  /// Rust's own equality of the two typed values
  pub eq: fn(&Val, &Val) -> bool,
}

/// What the caller of an implementation brings along
#[derive(Clone, Debug)]
pub struct Caller {
  pub name: String,
  /// attributes of the caller's element
  pub attrs: Vec<(String, String)>,
  /// attributes with one of the namespaces
  pub prefixed: Vec<(usize, String, String)>,
  /// namespaces of the caller's element
  pub namespaces: Vec<(String, String)>,
}

pub type EmitterConfig = yaserde::__xml::EmitterConfig;

/// For types that only derive serialization
pub fn write_entry<T: Zoo + YaSerialize + PartialEq>() -> Entry {
  Entry {
    de_str: |_| Err("monitor: only written".into()),
    de_read: |_| Err("monitor: only written".into()),
    de_children: |_| Err("monitor: only written".into()),
    ser_string: |v| yaserde::ser::to_string(&T::from_val(v)),
    ser_config: |v, c| yaserde::ser::to_string_with_config(&T::from_val(v), &c.to_yaserde()),
    ser_writer: |v, w, c| {
      yaserde::ser::serialize_with_writer(&T::from_val(v), w, &c.to_yaserde()).map(|_| ())
    },
    ser_content: |v| yaserde::ser::to_string_content(&T::from_val(v)),
    ser_content_writer: |v, w| {
      yaserde::ser::serialize_with_writer_content(&T::from_val(v), w).map(|_| ())
    },
    ser_many: |vs| {
      use yaserde::__xml::writer::XmlEvent;
      let mut s = yaserde::ser::Serializer::new_from_writer(
        Vec::<u8>::new(),
        &yaserde::ser::Config::default(),
      );
      s.write(XmlEvent::start_element("list"))
        .map_err(|e| e.to_string())?;
      for v in vs {
        s.set_start_event_name(Some("item".to_string()));
        s.set_skip_start_end(false);
        T::from_val(v).serialize(&mut s)?;
      }
      s.write(XmlEvent::end_element()).map_err(|e| e.to_string())?;
      String::from_utf8(s.into_inner()).map_err(|e| e.to_string())
    },
    ser_inside: |v, c| {
      use std::borrow::Cow;
      use yaserde::__xml::attribute::OwnedAttribute;
      use yaserde::__xml::name::{Name, OwnedName};
      use yaserde::__xml::namespace::Namespace;
      use yaserde::__xml::writer::XmlEvent;
      let t = T::from_val(v);
      let mut s = yaserde::ser::Serializer::new_from_writer(
        Vec::<u8>::new(),
        &yaserde::ser::Config::default(),
      );
      let mut mine: Vec<_> = c
        .attrs
        .iter()
        .map(|(n, v)| OwnedAttribute::new(OwnedName::local(n.as_str()), v.as_str()))
        .collect();
      for (i, n, v) in &c.prefixed {
        let (p, u) = &c.namespaces[*i];
        mine.push(OwnedAttribute::new(
          OwnedName::qualified(n.as_str(), u.as_str(), Some(p.as_str())),
          v.as_str(),
        ));
      }
      let mut namespace = Namespace::empty();
      for (p, u) in &c.namespaces {
        namespace.put(p.as_str(), u.as_str());
      }
      let (attributes, namespace) = t.serialize_attributes(mine, namespace)?;
      s.write(XmlEvent::StartElement {
        name: Name::local(&c.name),
        attributes: Cow::Owned(attributes.iter().map(|a| a.borrow()).collect()),
        namespace: Cow::Owned(namespace),
      })
      .map_err(|e| e.to_string())?;
      s.set_start_event_name(None);
      s.set_skip_start_end(true);
      t.serialize(&mut s)?;
      s.write(XmlEvent::end_element()).map_err(|e| e.to_string())?;
      String::from_utf8(s.into_inner()).map_err(|e| e.to_string())
    },
    ser_texts: |vs| {
      use yaserde::__xml::writer::XmlEvent;
      let mut s = yaserde::ser::Serializer::new_for_inner(Vec::<u8>::new());
      s.write(XmlEvent::start_element("callers-own"))
        .map_err(|e| e.to_string())?;
      s.set_skip_start_end(true);
      for v in vs {
        T::from_val(v).serialize(&mut s)?;
        s.write(XmlEvent::characters("|"))
          .map_err(|e| e.to_string())?;
      }
      s.write(XmlEvent::end_element()).map_err(|e| e.to_string())?;
      String::from_utf8(s.into_inner()).map_err(|e| e.to_string())
    },
    ser_emitter: |v, c| {
      let mut s = yaserde::ser::Serializer::new(yaserde::__xml::EventWriter::new_with_config(
        Vec::<u8>::new(),
        c,
      ));
      T::from_val(v).serialize(&mut s)?;
      String::from_utf8(s.into_inner()).map_err(|e| e.to_string())
    },
    eq: |a, b| T::from_val(a) == T::from_val(b),
  }
}

pub fn entry<T: Zoo + YaSerialize + YaDeserialize + PartialEq>() -> Entry {
  Entry {
    de_str: |s| yaserde::de::from_str::<T>(s).map(|v| v.to_val()),
    de_read: |r| yaserde::de::from_reader::<_, T>(r).map(|v| v.to_val()),
    de_children: |s| {
      let mut reader = yaserde::de::Deserializer::new_from_reader(s.as_bytes());
      let mut out = vec![];
      reader.next_event()?; // the root
      loop {
        match reader.peek()? {
          yaserde::__xml::reader::XmlEvent::StartElement { .. } => {
            let v = T::deserialize(&mut reader)?;
            // a deserialized value leaves its end element to its caller
            match reader.next_event()? {
              yaserde::__xml::reader::XmlEvent::EndElement { .. } => {}
              other => return Err(format!("monitor: position after the value: {other:?}")),
            }
            out.push((v.to_val(), reader.depth()));
          }
          yaserde::__xml::reader::XmlEvent::EndElement { .. } => return Ok(out),
          yaserde::__xml::reader::XmlEvent::EndDocument => {
            return Err("monitor: ran past the end of the list".into())
          }
          _ => {
            reader.next_event()?;
          }
        }
      }
    },
    ..write_entry::<T>()
  }
}

#[derive(Clone)]
pub struct Group {
  pub name: &'static str,
  pub feats: &'static [&'static str],
  pub types: Vec<TypeDef>,
  pub root: usize,
  /// The root type with its flattened structs written out
  pub pair: Option<usize>,
  /// Entry points by type index
  pub entries: Vec<(usize, Entry)>,
  /// Types flattened as a whole, whose documents are fragments
  pub frags: Vec<(usize, Entry)>,
}
