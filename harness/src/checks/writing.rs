//! What is written: well-formed whatever the strings, without the fields that are skipped, and the same
//! through every entry point.

use super::reading::{jobs_over, jobs_over_writers, pick_type};
use super::*;
use crate::gen::{self, Gen, Opts, ORDINARY};
use crate::monitor::{entry_of, fp, job, Out, Worker};
use crate::refm::Model;
use crate::xmlp::{self, is_ws};

fn any_config(w: &mut Worker) -> Config {
  if w.rng.chance(40) {
    Config::DEFAULT
  } else {
    *w.rng.pick(CONFIGS)
  }
}

/// The content of an element of type `ty`, read where the namespaces of the type are declared.
fn parse_inside(m: &Model, ty: usize, content: &str) -> Result<El, String> {
  let env = m.env(ty);
  let mut s = String::from("<w");
  let mut seen = vec![];
  for (p, u) in env.prefixes.iter().rev() {
    if !seen.contains(&p) {
      seen.push(p);
      s.push_str(&format!(" xmlns:{p}=\"{}\"", crate::print::esc_attr(u)));
    }
  }
  if !env.default.is_empty() {
    s.push_str(&format!(" xmlns=\"{}\"", crate::print::esc_attr(&env.default)));
  }
  xmlp::parse(&format!("{s}>{content}</w>")).map(|d| d.root).map_err(|e| e.to_string())
}

/// No string can break out of the place it is written to.
pub fn c03(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let written = |w: &mut Worker, g: &Group, m: &Model, k: usize| {
    let ty = pick_type(w, g, k);
    let o = Opts {
      raw: true,
      special: 5,
      hostile: *w.rng.pick(&[50, 100, 100]),
      ..ORDINARY
    };
    let v = Gen::new(g, o).value(ty, &mut w.rng);
    let (mut strings, mut markup) = (0u64, 0u64);
    let twin = gen::map_strings(&g.types, &Ty::R(ty), &v, &mut |s| {
      strings += 1;
      markup += s.contains(['<', '>', '&', '"', '\'', ']']) as u64;
      // custom types have a shape to keep
      if s.starts_with("c:") { "c:s" } else { "s" }.to_string()
    });
    let content = k % 4 == 1;
    let config = any_config(w);
    let mut write = |v: &Val| {
      if content {
        let e = entry_of(g, ty);
        let shown = format!("{v:?}");
        match w.total(&format!("to_string_content(&{})", g.types[ty].name), shown.as_bytes(), || (e.ser_content)(v))? {
          Ok(s) => Some(s),
          Err(e) => {
            w.violation(format!("ser error {}", g.name), format!("serializing the content of a {} failed: {e}\nvalue: {v:?}", g.types[ty].name));
            None
          }
        }
      } else {
        w.ser_ok(g, ty, v, Some(config))
      }
    };
    let (Some(text), Some(plain)) = (write(&v), write(&twin)) else { return };
    w.eval(markup > 0, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
    w.count("strings written", strings);
    w.count("strings with markup characters", markup);
    w.sample(|| format!("{}: {text}", g.types[ty].name));
    let parse = |s: &str| {
      if content {
        parse_inside(m, ty, s)
      } else {
        xmlp::parse(s).map(|d| d.root).map_err(|e| e.to_string())
      }
    };
    match (parse(&text), parse(&plain)) {
      (Err(e), _) => w.violation(format!("ill-formed {}", g.name), format!("a {} is written as ill-formed XML: {e}\nvalue: {v:?}\ntext: {text}", g.types[ty].name)),
      (_, Err(e)) => w.violation(format!("ill-formed {}", g.name), format!("a {} is written as ill-formed XML: {e}\nvalue: {twin:?}\ntext: {plain}", g.types[ty].name)),
      (Ok(a), Ok(b)) => {
        if a.skeleton() != b.skeleton() {
          w.violation(
            format!("injection {}", g.name),
            format!("strings change the elements and attributes of a {}\nvalue: {v:?}\ntext: {text}\nwith plain strings: {plain}", g.types[ty].name),
          );
        }
      }
    }
  };
  let mut jobs = jobs_over(ctx, written, 300, |_| true);
  jobs.extend(jobs_over_writers(ctx, written, 1000));
  (
    Report {
      rule: "A case is a value full of markup, entity, CDATA, comment and namespace look-alikes, written with any configuration or as content, next to the same value with harmless strings: both must be well-formed (strict reader) and have the same elements and attributes. Non-trivial: a string holds a markup character. Distinct by (type, text).",
      level: "exploration",
      assumptions: &["Strings hold characters XML 1.0 can carry: the XML writer yaserde uses does not reject others."],
    },
    jobs,
  )
}

fn has_conditions(g: &Group) -> bool {
  g.types.iter().any(|t| match &t.kind {
    Kind::Struct(fs) => fs.iter().any(|f| f.skip || f.skip_if.is_some() || f.default.is_some()),
    _ => false,
  })
}

/// A value that is nearly the one an annotation names.
fn nearly(g: &Group, ty: usize, v: &Val, w: &mut Worker) -> Val {
  let Kind::Struct(fs) = &g.types[ty].kind else { return v.clone() };
  let mut out = v.fields().to_vec();
  for (f, x) in fs.iter().zip(out.iter_mut()) {
    if f.default.is_none() && f.skip_if.is_none() || !w.rng.chance(30) {
      continue;
    }
    let Some(s) = gen::special(f, &mut w.rng) else { continue };
    let range = match &f.ty {
      Ty::P(p) => p.int_range(),
      _ => None,
    };
    *x = tweak(s, range, w);
  }
  Val::Struct(out)
}

fn tweak(v: Val, range: Option<(i128, i128)>, w: &mut Worker) -> Val {
  match v {
    Val::Bool(b) => Val::Bool(!b),
    Val::Int(i) => {
      // next to it, its negative, and those of the same lower bits or digits
      let mut near = vec![i - 1, i + 1, -i, i + 256, i - 256, i + 65_536, i + (1 << 32), i * 10];
      match range {
        Some((lo, hi)) => near.retain(|n| (lo..=hi).contains(n)),
        None => near.truncate(if i >= 100 { 1 } else { 0 }),
      }
      Val::Int(if near.is_empty() { i + 1 } else { *w.rng.pick(&near) })
    }
    Val::F32(b) => Val::F32(b ^ 1),
    Val::F64(b) => Val::F64(b ^ 1),
    Val::Str(s) => match w.rng.below(3) {
      0 => Val::Str(format!("{s}x")),
      1 => Val::Str(s.to_uppercase()),
      // element content does not give back white space around it
      _ => Val::Str(s.chars().skip(1).collect::<String>().trim().to_string()),
    },
    Val::Some(x) => Val::Some(Box::new(tweak(*x, range, w))),
    Val::Vec(mut xs) => {
      // nearly the same items
      let i = w.rng.below(xs.len().max(1));
      match w.rng.below(6) {
        _ if xs.is_empty() => {}
        0 => xs.reverse(),
        1 => xs.rotate_left(1),
        2 => {
          xs.remove(i);
        }
        3 => xs.push(xs[i].clone()),
        4 => {
          let other = xs[w.rng.below(xs.len())].clone();
          xs[i] = other;
        }
        _ => xs[i] = tweak(xs[i].clone(), range, w),
      }
      Val::Vec(xs)
    }
    Val::Struct(mut xs) => {
      if let Some(x) = xs.first_mut() {
        *x = tweak(x.clone(), None, w);
      }
      Val::Struct(xs)
    }
    v => v,
  }
}

/// Fields are left out exactly when their annotations say so, and come back as their defaults.
pub fn c08(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let mut jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let ty = pick_type(w, g, k);
      let o = Opts { special: *w.rng.pick(&[15, 50, 90]), ..ORDINARY };
      let mut v = Gen::new(g, o).value(ty, &mut w.rng);
      if k % 3 == 0 {
        v = nearly(g, ty, &v, w);
      }
      let (left, skipped) = gen::survives(&g.types, ty, &v);
      let config = any_config(w);
      let Some(text) = w.ser_ok(g, ty, &v, Some(config)) else { return };
      w.eval(skipped, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
      w.sample(|| format!("{}: {text}", g.types[ty].name));
      w.count(if skipped { "values with skipped fields" } else { "values with all fields written" }, 1);
      let want = m.ser(ty, &v).canon(config.indent);
      match xmlp::parse(&text) {
        Err(e) => w.violation(format!("ill-formed {}", g.name), format!("{e}\nvalue: {v:?}\ntext: {text}")),
        Ok(d) => {
          let got = d.root.canon(config.indent);
          if got != want {
            w.violation(
              format!("skipped fields {}", g.name),
              format!("a {} is not written with exactly the fields its annotations leave\nvalue: {v:?}\ntext: {text}\nwant: {}\ngot:  {}", g.types[ty].name, show_el(&want), show_el(&got)),
            );
          }
        }
      }
      let Some(back) = w.de(g, ty, &text) else { return };
      match (&left, &back) {
        (Ok(a), Ok(b)) if a == b => w.count("read back with defaults in place", 1),
        (Err(()), Err(_)) => w.count("not readable for lack of a required field", 1),
        _ => w.violation(
          format!("defaults {}", g.name),
          format!("a {} comes back with other defaults than its annotations say\nvalue: {v:?}\nexpected: {left:?}\ngot: {}\nas: {text}", g.types[ty].name, show_r(&back)),
        ),
      }
    },
    400,
    has_conditions,
  );
  jobs.extend(jobs_over_writers(
    ctx,
    |w: &mut Worker, g: &Group, m: &Model, k: usize| {
      if has_conditions(g) {
        let o = Opts { special: *w.rng.pick(&[15, 50, 90]), ..ORDINARY };
        super::flat::written(w, g, m, k, o, false, "fields")
      }
    },
    400,
  ));
  (
    Report {
      rule: "A case is a value of a type with default, skip_serializing or skip_serializing_if fields (attributes, elements, text, CDATA, lists, options, flattened structs), each holding the named value, nearly the named value or another one; the fields written must be exactly those the annotations leave, and reading must give the defaults for the others (or fail if a required one is gone). Non-trivial: a field was skipped. Distinct by (type, text).",
      level: "exploration",
      assumptions: &["A value equal to its field's default is left out; this is what the code base does and documents by test."],
    },
    jobs,
  )
}

const DECL: &str = "<?xml version=\"1.0\" encoding=\"utf-8\"?>";

/// Text of elements without element children must not be touched by indentation.
fn leaf_texts(e: &El, out: &mut Vec<String>) {
  if !e.has_elems() {
    out.push(e.text());
  }
  for c in e.elems() {
    leaf_texts(c, out);
  }
}

/// Text and bytes are read the same, be they a document or not.
fn agree(w: &mut Worker, g: &Group, ty: usize, doc: &str) {
  let before = *w.rng.pick(&["", " ", "\n", "\t\r\n ", "\u{feff}", " \u{feff}", "\u{a0}", "\u{2028}", "\0", "<!-- c -->", "<?pi?>", " <!DOCTYPE a>", "x", "&#32;", "<a/>", "\u{85}"]);
  let after = *w.rng.pick(&["", "", " ", "\n", "\u{a0}", "\0", "<!-- c -->", "<?pi?>", "x", "<a/>", "\u{feff}"]);
  let body = match w.rng.below(4) {
    0 => doc.to_string(),
    1 => doc.strip_prefix(DECL).unwrap_or(doc).to_string(),
    2 => {
      let ends: Vec<usize> = doc.char_indices().map(|c| c.0).chain([doc.len()]).collect();
      doc[..*w.rng.pick(&ends)].to_string()
    }
    _ => doc.replacen('>', w.rng.pick(&[" >", ">\u{a0}", "> ", ">\r\n", ">&nbsp;", ">\0"]), 1),
  };
  let text = format!("{before}{body}{after}");
  let (Some(a), Some(b)) = (w.de(g, ty, &text), w.de_bytes(g, ty, text.as_bytes())) else { return };
  w.count("documents and near-documents read as text and as bytes", 1);
  if a.is_ok() != b.is_ok() || (a.is_ok() && a != b) {
    w.violation(
      format!("text and bytes {}", g.name),
      format!("from_str and from_reader differ on a {}\ndocument: {text:?}\nfrom_str:    {}\nfrom_reader: {}", g.types[ty].name, show_r(&a), show_r(&b)),
    );
  }
}

/// Every entry point writes and reads the same.
pub fn c19(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let ty = pick_type(w, g, k);
      let o = Opts { raw: w.rng.chance(30), ..ORDINARY };
      let v = Gen::new(g, o).value(ty, &mut w.rng);
      let e = entry_of(g, ty);
      let name = g.types[ty].name;
      let shown = format!("{v:?}");
      let Some(all) = w.total("the serializing entry points", shown.as_bytes(), || -> Result<_, String> {
        let base = (e.ser_string)(&v)?;
        let mut written = vec![];
        let mut texts = vec![];
        for c in CONFIGS {
          texts.push((e.ser_config)(&v, *c)?);
          let mut buf = vec![];
          (e.ser_writer)(&v, &mut buf, *c)?;
          written.push(buf);
        }
        let content = (e.ser_content)(&v)?;
        let mut buf = vec![];
        (e.ser_content_writer)(&v, &mut buf)?;
        Ok((base, texts, written, content, buf))
      }) else {
        return;
      };
      let (base, texts, written, content, content_bytes) = match all {
        Ok(a) => a,
        Err(e) => {
          w.violation(format!("ser error {}", g.name), format!("serializing a {name} failed: {e}\nvalue: {v:?}"));
          return;
        }
      };
      w.eval(gen::weight(&v) >= 3, fp(&[name.as_bytes(), base.as_bytes()]));
      w.sample(|| format!("{name}: {base} / content: {content}"));
      let mut fail = |w: &mut Worker, what: &str, a: &str, b: &str| w.violation(format!("{what} {}", g.name), format!("{what}: a {name} is written in two ways\nvalue: {v:?}\none:   {a}\nother: {b}"));
      if base != texts[0] {
        fail(w, "to_string and to_string_with_config(default)", &base, &texts[0]);
      }
      for (t, b) in texts.iter().zip(&written) {
        if t.as_bytes() != &b[..] {
          fail(w, "to_string_with_config and serialize_with_writer", t, &String::from_utf8_lossy(b));
        }
      }
      if content.as_bytes() != &content_bytes[..] {
        fail(w, "to_string_content and serialize_with_writer_content", &content, &String::from_utf8_lossy(&content_bytes));
      }
      // the declaration is all the declaration setting adds
      let bare = &texts[1];
      if base != format!("{DECL}{bare}") {
        fail(w, "document declaration", &base, bare);
      }
      if bare.starts_with("<?xml") {
        fail(w, "document declaration (off)", bare, "");
      }
      // indentation only adds white space
      let plain = xmlp::parse(&base).map(|d| d.root);
      if let Ok(plain) = &plain {
        for (c, t) in CONFIGS.iter().zip(&texts) {
          let squeeze = |s: &str| s.chars().filter(|c| !is_ws(*c)).collect::<String>();
          let d = match xmlp::parse(t) {
            Ok(d) => d,
            Err(e) => {
              fail(w, &format!("ill-formed with another configuration ({e})"), &base, t);
              continue;
            }
          };
          if d.has_decl != c.decl {
            fail(w, "document declaration setting", &base, t);
          }
          let body = |s: &str| squeeze(s.strip_prefix(DECL).unwrap_or(s));
          if d.root.canon(true) != plain.canon(true) || body(t) != body(&base) {
            fail(w, "indentation", &base, t);
          }
          let (mut a, mut b) = (vec![], vec![]);
          leaf_texts(plain, &mut a);
          leaf_texts(&d.root, &mut b);
          if a != b {
            fail(w, "indentation of text", &base, t);
          }
          if c.indent {
            // behind text, even if empty, nothing is indented
            let mixed = m.types.iter().any(|t| matches!(&t.kind, Kind::Struct(fs) if fs.iter().any(|f| f.role == Role::Text)));
            let multi = plain.elems().any(|e| e.has_elems()) && !mixed;
            let want = c.indent_string.unwrap_or("  ");
            if multi && !t.contains(&format!("\n{want}<")) {
              fail(w, "indentation string", &base, t);
            }
          }
        }
        // the content is what is between the root's tags
        match parse_inside(m, ty, &content) {
          Ok(c) if c.canon(false).kids == plain.canon(false).kids => {}
          Ok(_) => fail(w, "content", &base, &content),
          Err(e) => fail(w, &format!("content ({e})"), &base, &content),
        }
        if m.types.iter().all(|t| t.namespaces.is_empty()) {
          let tag = g.types[ty].xml;
          let held = if content.is_empty() {
            bare.ends_with("/>") || bare.ends_with(&format!("></{tag}>"))
          } else {
            bare.ends_with(&format!(">{content}</{tag}>"))
          };
          if !held {
            fail(w, "content inside of the document", bare, &content);
          }
        }
      }
      // every configuration and every reading entry point give the same value
      let Some(first) = w.de(g, ty, &base) else { return };
      if first.is_err() && gen::survives(&g.types, ty, &v).0.is_ok() {
        w.violation(format!("reading {}", g.name), format!("a written {name} cannot be read: {}\n{base}", show_r(&first)));
        return;
      }
      let doc = w.rng.pick(&texts).clone();
      let mut ways: Vec<(&str, Option<Result<Val, String>>)> = vec![];
      ways.push(("from_str", w.de(g, ty, &doc)));
      ways.push(("from_reader", w.de_bytes(g, ty, doc.as_bytes())));
      let piece = w.rng.range(1, 9);
      let mut chopped = Chopped { data: doc.as_bytes().to_vec(), at: 0, piece };
      let r = w.call("from_reader in pieces", doc.as_bytes(), crate::monitor::default_budget(doc.len()), || (e.de_read)(&mut chopped));
      if let Out::Done(r) = r {
        ways.push(("from_reader in pieces", Some(r)));
      }
      agree(w, g, ty, &base);
      for (n, r) in ways {
        let Some(r) = r else { continue };
        w.count("readings compared", 1);
        if r.is_ok() != first.is_ok() || (r.is_ok() && r != first) {
          w.violation(format!("reading {}", g.name), format!("{n} reads a {name} differently\n{}: {base}\n{}: {doc}", show_r(&first), show_r(&r)));
        }
      }
    },
    80,
    |_| true,
  );
  (
    Report {
      rule: "A case is one value written through to_string, to_string_with_config, serialize_with_writer (six configurations each), to_string_content and serialize_with_writer_content, and read back through from_str and from_reader (whole and in pieces), as are documents with something before or behind them and broken ones: the texts must be equal where the settings are, differ by exactly the declaration or by white space between elements otherwise, and all readings must agree. Non-trivial: the value weighs at least 3 nodes. Distinct by (type, text).",
      level: "exploration",
      assumptions: &[],
    },
    jobs,
  )
}

pub struct Chopped {
  pub data: Vec<u8>,
  pub at: usize,
  pub piece: usize,
}

impl std::io::Read for Chopped {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    let n = self.piece.min(buf.len()).min(self.data.len() - self.at);
    buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
    self.at += n;
    Ok(n)
  }
}

/// The element of a value may be its caller's.
pub fn c23(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let mut jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let ty = match g.frags.len() {
        0 => pick_type(w, g, k / 3),
        _ if k % 2 == 0 => pick_type(w, g, k / 3),
        _ => w.rng.pick(&g.frags).0,
      };
      let t = &g.types[ty];
      let e = entry_of(g, ty);
      let o = Opts { raw: w.rng.chance(30), ..ORDINARY };
      let v = Gen::new(g, o).value(ty, &mut w.rng);
      let shown = format!("{v:?}");
      if k % 3 == 2 && !t.flatten {
        // a writer of the caller's, with other settings of its own
        let indent = w.rng.chance(30);
        let mut c = EmitterConfig::new()
          .perform_indent(indent)
          .write_document_declaration(w.rng.chance(50))
          .normalize_empty_elements(w.rng.chance(50))
          .cdata_to_characters(w.rng.chance(50));
        c.pad_self_closing = w.rng.chance(50);
        if w.rng.chance(50) {
          c = c.line_separator("\r\n").indent_string("\t");
        }
        let setting = format!("{c:?}");
        let Some(r) = w.total("serialize, a writer of the caller's", shown.as_bytes(), || (e.ser_emitter)(&v, c)) else { return };
        let Ok(text) = r else {
          w.violation(format!("ser error {}", g.name), format!("serializing a {} failed: {r:?}\nsettings: {setting}\nvalue: {shown}", t.name));
          return;
        };
        w.eval(gen::weight(&v) >= 3, fp(&[t.name.as_bytes(), text.as_bytes(), setting.as_bytes()]));
        w.count("values written to a writer of the caller's", 1);
        let want = m.ser(ty, &v).canon(indent);
        match xmlp::parse(&text) {
          Ok(d) if d.root.canon(indent) == want => {}
          Ok(d) => w.violation(
            format!("other writer {}", g.name),
            format!("a {} is written otherwise to a writer with settings of its own\nvalue: {shown}\nsettings: {setting}\ntext: {text}\nwant: {}\ngot:  {}", t.name, show_el(&want), show_el(&d.root.canon(indent))),
          ),
          Err(x) => w.violation(format!("other writer, ill-formed {}", g.name), format!("{x}\nvalue: {shown}\nsettings: {setting}\ntext: {text}")),
        }
        return;
      }
      if k % 3 == 1 && k % 2 == 1 && wrapped(w, g, m) {
        return;
      }
      let mut c = Caller { name: "callers-own".into(), attrs: vec![], prefixed: vec![], namespaces: vec![] };
      for i in 0..w.rng.below(3) {
        c.attrs.push((format!("callers-{i}"), gen::string(&mut w.rng, gen::Pos::Attr, &o)));
      }
      for i in 0..w.rng.below(3) {
        c.namespaces.push((format!("callers{i}"), format!("urn:callers:{i}")));
      }
      let env = m.env(ty);
      let mut want = El::new(&env.default, &c.name);
      m.body(ty, &v, &env, &mut want);
      // attributes that only have their local name in common with the type's
      let its: Vec<_> = want.attrs.iter().map(|a| a.0.clone()).collect();
      for q in &its {
        let value = gen::string(&mut w.rng, gen::Pos::Attr, &o);
        if !c.namespaces.is_empty() && w.rng.chance(40) {
          let i = w.rng.below(c.namespaces.len());
          if !c.prefixed.iter().any(|a| (a.0, &a.1) == (i, &q.local)) {
            c.prefixed.push((i, q.local.clone(), value));
          }
        } else if !q.ns.is_empty() && w.rng.chance(40) && !its.iter().any(|i| i.ns.is_empty() && i.local == q.local) && !c.attrs.iter().any(|a| a.0 == q.local) {
          c.attrs.push((q.local.clone(), value));
        }
      }
      let Some(r) = w.total("serialize_attributes and serialize", shown.as_bytes(), || (e.ser_inside)(&v, &c)) else { return };
      let Ok(text) = r else {
        w.violation(format!("ser error {}", g.name), format!("writing a {} in an element of the caller's failed: {r:?}\nvalue: {shown}", t.name));
        return;
      };
      w.eval(gen::weight(&v) >= 3, fp(&[t.name.as_bytes(), text.as_bytes()]));
      w.sample(|| format!("{}: {text}", t.name));
      w.count("values written in an element of the caller's", 1);
      w.count("attributes of the caller's with the local name of one of the type's", (c.prefixed.len() + c.attrs.iter().filter(|a| !a.0.starts_with("callers-")).count()) as u64);
      for (i, n, x) in &c.prefixed {
        want.attrs.push((xmlp::QName::new(&c.namespaces[*i].1, n), x.clone()));
      }
      for (n, x) in &c.attrs {
        want.attrs.push((xmlp::QName::new("", n), x.clone()));
      }
      let want = want.canon(false);
      match xmlp::parse(&text) {
        Err(x) => w.violation(format!("caller's element, ill-formed {}", g.name), format!("{x}\nvalue: {shown}\ntext: {text}")),
        Ok(d) => {
          let got = d.root.canon(false);
          if got != want {
            w.violation(
              format!("caller's element {}", g.name),
              format!("the attributes and content of a {} written in an element of the caller's differ from what its annotations ask for\nvalue: {shown}\ncaller: {c:?}\ntext: {text}\nwant: {}\ngot:  {}", t.name, show_el(&want), show_el(&got)),
            );
          }
          for (p, u) in &c.namespaces {
            if !text.contains(&format!("xmlns:{p}=\"{u}\"")) {
              w.violation(format!("caller's namespaces {}", g.name), format!("the namespace {p} of the caller is gone\ntext: {text}"));
            }
          }
        }
      }
    },
    450,
    |_| true,
  );
  jobs.push(job("state", |w: &mut Worker| {
    for _ in 0..w.iters(3000) {
      serializer_state(w);
    }
  }));
  (
    Report {
      rule: "A case is a value of a derived or wrapped type written by a caller that uses the traits itself: the caller opens an element of its own with the attributes and namespaces serialize_attributes adds to its own, and has the content written with skip_start_end; or it gives a Serializer around an event writer with settings of its own. The element tree must be the one the annotations ask for, with all the caller brought along. Further cases set and get the state of a Serializer. Non-trivial: the value weighs at least 3 nodes. Distinct by (type, text).",
      level: "exploration",
      assumptions: &["The caller's attributes and prefixes are not those of the type.", "Settings that turn off escaping are not explored."],
    },
    jobs,
  )
}

/// Wrapped scalars in one element of the caller's, which asks for bare values once
fn wrapped(w: &mut Worker, g: &Group, m: &Model) -> bool {
  let wraps: Vec<usize> = g.entries.iter().map(|e| e.0).filter(|t| matches!(g.types[*t].kind, Kind::Wrap { .. })).filter(|_| !g.feats.contains(&"custom")).collect();
  if wraps.is_empty() {
    return false;
  }
  let ty = *w.rng.pick(&wraps);
  let t = &g.types[ty];
  let vs: Vec<Val> = (0..w.rng.range(1, 4)).map(|_| Gen::new(g, ORDINARY).value(ty, &mut w.rng)).collect();
  let shown = format!("{vs:?}");
  let Some(r) = w.total("serialize, wrapped scalars", shown.as_bytes(), || (entry_of(g, ty).ser_texts)(&vs)) else { return true };
  w.eval(vs.len() > 1, fp(&[t.name.as_bytes(), b"texts", shown.as_bytes()]));
  w.count("wrapped scalars written side by side", vs.len() as u64);
  let mut want = El::new("", "callers-own");
  for v in &vs {
    m.body(ty, v, &m.env(ty), &mut want);
    want.kids.push(xmlp::Nd::Text("|".into()));
  }
  let got = match &r {
    Ok(s) => xmlp::parse(s).map(|d| d.root.canon(false)).map_err(|e| format!("{e}: {s}")),
    Err(e) => Err(e.clone()),
  };
  if got.as_ref() != Ok(&want.canon(false)) {
    w.violation(format!("wrapped scalars side by side {}", g.name), format!("values of {} written one after the other in an element of the caller's\nvalues: {shown}\ngot:  {}\nwant: {}", t.name, r.unwrap_or_else(|e| e), show_el(&want)));
  }
  true
}

/// What is set is what is got, and what is written arrives.
fn serializer_state(w: &mut Worker) {
  use yaserde::__xml::writer::XmlEvent;
  use yaserde::__xml::{EmitterConfig, EventWriter};
  use yaserde::ser::Serializer;
  let n = 1 + w.rng.below(12);
  let mut script = vec![];
  let mut open = 0;
  for _ in 0..n {
    let s = gen::string(&mut w.rng, gen::Pos::Attr, &ORDINARY);
    let op = w.rng.below(7);
    open += (op == 0) as usize;
    script.push((op, s));
  }
  let indent = w.rng.chance(30);
  let shown = format!("{script:?}");
  let which = w.rng.below(3);
  let Some(bad) = w.total("Serializer", shown.as_bytes(), || -> Option<String> {
    let config = yaserde::ser::Config { perform_indent: indent, ..Default::default() };
    let plain = EmitterConfig::new().cdata_to_characters(false);
    let plain = match which {
      0 => plain.perform_indent(indent),
      1 => EmitterConfig::new().write_document_declaration(false),
      _ => plain,
    };
    let mut s = match which {
      0 => Serializer::new_from_writer(vec![], &config),
      1 => Serializer::new_for_inner(vec![]),
      _ => Serializer::new(EventWriter::new_with_config(vec![], plain.clone())),
    };
    let mut x = EventWriter::new_with_config(vec![], plain);
    if s.skip_start_end() || s.get_start_event_name().is_some() {
      return Some("a new Serializer has state".into());
    }
    let (mut skip, mut name): (bool, Option<String>) = (false, None);
    s.write(XmlEvent::start_element("root")).unwrap();
    x.write(XmlEvent::start_element("root")).unwrap();
    for (op, text) in &script {
      let (a, b) = match op {
        0 => (s.write(XmlEvent::start_element("e").attr("a", text)), x.write(XmlEvent::start_element("e").attr("a", text))),
        1 => (s.write(XmlEvent::characters(text)), x.write(XmlEvent::characters(text))),
        2 => (s.write(XmlEvent::end_element()), x.write(XmlEvent::end_element())),
        3 => (s.write(XmlEvent::cdata(text)), x.write(XmlEvent::cdata(text))),
        4 => {
          skip = text.len() % 2 == 0;
          s.set_skip_start_end(skip);
          (Ok(()), Ok(()))
        }
        5 => {
          name = (!text.is_empty()).then(|| text.clone());
          s.set_start_event_name(name.clone());
          (Ok(()), Ok(()))
        }
        _ => (s.write(XmlEvent::comment("c")), x.write(XmlEvent::comment("c"))),
      };
      if a.is_ok() != b.is_ok() {
        return Some(format!("{op}: {a:?}, by itself {b:?}"));
      }
      if s.skip_start_end() != skip || s.get_start_event_name() != name {
        return Some(format!("after {op}: skip_start_end {}, set to {skip}; name {:?}, set to {name:?}", s.skip_start_end(), s.get_start_event_name()));
      }
    }
    let (a, b) = (s.into_inner(), x.into_inner());
    (a != b).then(|| format!("written {:?}, by itself {:?}", String::from_utf8_lossy(&a), String::from_utf8_lossy(&b)))
  }) else {
    return;
  };
  w.eval(open > 0, fp(&[b"state", shown.as_bytes()]));
  w.count("scripts given to a Serializer", 1);
  if let Some(bad) = bad {
    w.violation("serializer", format!("a Serializer does not keep its state or hand on its events\nscript: {shown}\n{bad}"));
  }
}
