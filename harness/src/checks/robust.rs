//! Hostile input, broken input, failing readers and writers, growing input.

use super::reading::{document, jobs_over, pick_type, style};
use super::*;
use crate::alloc::{cpu, measure};
use crate::gen::{Gen, Opts, ORDINARY};
use crate::monitor::{default_budget, entry_of, fp, job, Out, Worker};
use crate::print::{self, PLAIN};
use crate::refm::{ns_of, Model};
use crate::rng::Rng;
use crate::sites::{self, walk, Site};
use crate::xmlp::{self, Nd};
use std::io::{Error, ErrorKind, Read, Write};
use yaserde::__xml::reader::{EventReader, ParserConfig, XmlEvent};

const SOUP: &[&str] = &[
  "<", ">", "/>", "</", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\"?>", "<?pi ?>", "&amp;", "&#0;", "&#x110000;", "&#xD800;", "&#99999999999999999999;", "&x;", "&;", "&", "=", "\"", "'", " ", "\n",
  "xmlns=\"\"", "xmlns:p=\"urn:p\"", "xmlns:p=\"\"", "xmlns=\"urn:a\"", "xmlns:xml=\"x\"", "xmlns:xmlns=\"x\"", "p:", ":", "::", "a=\"1\"", "a=\"1\" a=\"2\"", "<!DOCTYPE a>", "<!DOCTYPE a [<!ENTITY x \"yyyyyyyyyy\"><!ENTITY y \"&x;&x;&x;&x;\">]>", "<!DOCTYPE", "<!ENTITY",
  "1", "-1", "true", "99999999999999999999", "nan", "\u{0}", "\u{feff}", "\u{fffe}", "é", "名", "🦀", "\u{85}", "\u{2028}", "]]", "<?xml version=\"1.0\" encoding=\"utf-16\"?>", "<?xml version=\"1.1\"?>", "<?xml version=\"2.0\"?>", "<?xml version=\"1.0\" encoding=\"nosuch\"?>", "xml:lang=\"de\"", "xsi:nil=\"true\"",
];

fn soup(r: &mut Rng, names: &[String]) -> String {
  let mut s = String::new();
  let mut open: Vec<String> = vec![];
  for _ in 0..r.range(1, 60) {
    match r.below(10) {
      0..=2 => {
        let n = r.pick(names).clone();
        s.push_str(&format!("<{n}>"));
        open.push(n);
      }
      3 => s.push_str(&format!("<{} {}=\"{}\"/>", r.pick(names), r.pick(names), r.below(300))),
      4 | 5 => {
        if let Some(n) = open.pop() {
          s.push_str(&format!("</{n}>"));
        }
      }
      6 => s.push_str(r.pick(names)),
      _ => s.push_str(r.pick(SOUP)),
    }
  }
  if r.chance(60) {
    while let Some(n) = open.pop() {
      s.push_str(&format!("</{n}>"));
    }
  }
  s
}

/// Breaks a document a little, or a lot.
pub fn mutate(doc: &str, other: &str, r: &mut Rng, names: &[String]) -> Vec<u8> {
  let mut b = doc.as_bytes().to_vec();
  for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 8]) {
    if b.is_empty() {
      break;
    }
    let at = r.below(b.len());
    match r.below(13) {
      0 => b[at] = r.next() as u8,
      1 => b[at] ^= 1 << r.below(8),
      2 => {
        b.remove(at);
      }
      3 => b.insert(at, *r.pick(b"<>/&'\"= \0\xff!?[]-:aA1")),
      4 => {
        let end = (at + r.below(40)).min(b.len());
        b.drain(at..end);
      }
      5 => {
        let end = (at + r.below(60)).min(b.len());
        let part = b[at..end].to_vec();
        let to = r.below(b.len() + 1);
        b.splice(to..to, part);
      }
      6 => b.truncate(at),
      7 => {
        let part = r.pick(SOUP).as_bytes().to_vec();
        b.splice(at..at, part);
      }
      8 => {
        // at a tag
        let tags: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b'<').collect();
        if !tags.is_empty() {
          let to = *r.pick(&tags);
          let n = r.pick(names);
          let part = match r.below(6) {
            0 => format!("<{n}>"),
            1 => format!("</{n}>"),
            2 => format!("<{n}/>"),
            3 => r.pick(SOUP).to_string(),
            4 => "text".into(),
            _ => format!("<{n}><{n}>1</{n}></{n}>"),
          };
          b.splice(to..to, part.into_bytes());
        }
      }
      9 => {
        // remove a tag
        let tags: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b'<').collect();
        if !tags.is_empty() {
          let from = *r.pick(&tags);
          let end = b[from..].iter().position(|c| *c == b'>').map_or(b.len(), |i| from + i + 1);
          b.drain(from..end);
        }
      }
      10 => {
        // rename
        let n = r.pick(names).clone();
        let old = r.pick(names).clone();
        if let Ok(s) = String::from_utf8(b.clone()) {
          b = s.replacen(&old, &n, 1 + r.below(2)).into_bytes();
        }
      }
      11 => {
        let o = other.as_bytes();
        if !o.is_empty() {
          let from = r.below(o.len());
          let end = (from + r.below(200)).min(o.len());
          b.splice(at..at, o[from..end].to_vec());
        }
      }
      _ => {
        // an element of the document becomes empty, or its text something else
        let gts: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b'>').collect();
        if !gts.is_empty() {
          let from = *r.pick(&gts) + 1;
          let end = b[from..].iter().position(|c| *c == b'<').map_or(b.len(), |i| from + i);
          b.splice(from..end, r.pick(&["", " ", "x", "-1", "1e999", "\u{a0}", "&#9;"]).bytes());
        }
      }
    }
  }
  b
}

/// No input makes reading panic, loop or exhaust its resources; no value makes writing panic.
/// Writes a value with characters XML cannot hold.
fn illegal(w: &mut Worker, g: &Group, ty: usize) -> Option<String> {
  let o = Opts { raw: true, hostile: 100, ..ORDINARY };
  let v = Gen::new(g, o).value(ty, &mut w.rng);
  let rng = &mut w.rng;
  let v = crate::gen::map_strings(&g.types, &Ty::R(ty), &v, &mut |s| {
    let mut s: String = s.to_string();
    for _ in 0..rng.below(4) {
      s.push(*rng.pick(&['\0', '\u{1}', '\u{b}', '\u{1f}', '\u{fffe}', '\u{ffff}', '\r', '\u{7f}', '\u{10ffff}', ']', '>']));
    }
    s
  });
  let c = *w.rng.pick(CONFIGS);
  let r = w.ser(g, ty, &v, Some(c))?;
  w.count("values with illegal characters written", 1);
  Some(r.unwrap_or_default())
}

pub fn c12(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let mut jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let ty = match g.frags.len() {
        0 => pick_type(w, g, k / 3),
        _ if k % 2 == 0 => pick_type(w, g, k / 3),
        _ => w.rng.pick(&g.frags).0,
      };
      let names = sites::names(g);
      let ctx = w.ctx.clone();
      let (what, input): (&str, Vec<u8>) = match k % 12 {
        0 => {
          let n = w.rng.below(120);
          ("random bytes", (0..n).map(|_| w.rng.next() as u8).collect())
        }
        1 | 2 => ("markup soup", soup(&mut w.rng, &names).into_bytes()),
        3 => {
          // a document of another type, under this type's root
          let og = w.rng.pick(&ctx.groups).clone();
          let om = Model::new(&og);
          let oty = w.rng.pick(&og.entries).0;
          let (_, mut el) = document(w, &og, &om, oty, ORDINARY);
          if w.rng.chance(70) {
            el.name.local = g.types[ty].xml.to_string();
            el.name.ns = ns_of(&g.types[ty], g.types[ty].prefix).to_string();
          }
          ("document of another type", print::plain(&el).into_bytes())
        }
        4 => {
          // everything by name, nothing by shape
          let mut el = sites::random_el(&mut w.rng, &names, &sites::uris(g), 4);
          if w.rng.chance(80) {
            el.name.local = g.types[ty].xml.to_string();
          }
          ("random elements of known names", print::plain(&el).into_bytes())
        }
        5 => {
          // any strings, even those XML cannot hold
          let Some(r) = illegal(w, g, ty) else { return };
          ("value with illegal characters", r.into_bytes())
        }
        _ => {
          let (_, el) = document(w, g, m, ty, ORDINARY);
          let s = style(&mut w.rng);
          let doc = print::print(&el, &mut w.rng, s);
          let (_, el2) = document(w, g, m, ty, ORDINARY);
          let other = print::plain(&el2);
          ("mutated document", mutate(&doc, &other, &mut w.rng, &names))
        }
      };
      w.eval(input.len() > 4, fp(&[g.types[ty].name.as_bytes(), &input]));
      w.sample(|| format!("{}: {}", g.types[ty].name, String::from_utf8_lossy(&input)));
      let Some(r) = w.de_bytes(g, ty, &input) else { return };
      w.count(&format!("{what}: {}", if r.is_ok() { "accepted" } else { "rejected" }), 1);
      if let Ok(v) = r {
        // what was accepted can be written
        let _ = w.ser(g, ty, &v, None);
      }
    },
    900,
    |_| true,
  );
  jobs.extend(super::reading::jobs_over_writers(
    ctx,
    |w: &mut Worker, g: &Group, _: &Model, k: usize| {
      let ty = pick_type(w, g, k);
      let Some(text) = illegal(w, g, ty) else { return };
      w.eval(text.len() > 4, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
    },
    300,
  ));
  for i in 0..ctx.groups.len() {
    if i % 12 != 0 && !ctx.groups[i].feats.contains(&"recursive") {
      continue;
    }
    jobs.push(job(format!("depth {}", ctx.groups[i].name), move |w: &mut Worker| {
      let ctx = w.ctx.clone();
      let g = &ctx.groups[i];
      deep(w, g);
    }));
  }
  (
    Report {
      rule: "A case is one input given to one derived type: random bytes, markup soup made of the type's names, documents of other types, mutated documents (flips, cuts, splices, renamed and removed tags), elements nested tens of thousands deep where nothing is known, or values with characters XML cannot hold given to the writer. Reading must return within a number of steps linear in the input, without panicking; the process must survive. Non-trivial: more than four bytes. Distinct by (type, input).",
      level: "exploration",
      assumptions: &["The depth to which a recursive type recurses is bounded by the stack; known elements are nested 150 deep at most.", "The steps are events and peeks counted in the reader; loops that take none are caught by a watchdog on CPU time."],
    },
    jobs,
  )
}

/// Unknown content nested very deep, read on an ordinary stack.
fn deep(w: &mut Worker, g: &Group) {
  let m = Model::new(g);
  let n = match w.rng.below(8) {
    0 => 70_000,
    _ if w.ctx.thorough => 200_000,
    _ => 20_000,
  };
  let (_, el) = document(w, g, &m, g.root, ORDINARY);
  let doc = print::plain(&el);
  let Some(end) = doc.rfind("</") else { return };
  let names = sites::names(g);
  let reads = sites::reads(&m, g.root);
  let mut uname = String::from("unknown");
  while reads.knows_local(&uname) {
    uname.push('x');
  }
  let inner = w.rng.pick(&names).clone();
  for (open, close) in [(format!("<{uname}>"), format!("</{uname}>")), (format!("<{inner}>"), format!("</{inner}>"))] {
    let body = format!("<{uname}>{}{}</{uname}>", open.repeat(n), close.repeat(n));
    let text = format!("{}{body}{}", &doc[..end], &doc[end..]);
    let cut = format!("{}<{uname}>{}", &doc[..end], open.repeat(n));
    for (what, text) in [("deeply nested unknown content", text), ("deeply nested unknown content, cut off", cut)] {
      let e = entry_of(g, g.root);
      let want = (e.de_str)(&doc);
      let t = text.clone();
      // on a stack of ordinary size: an overflow ends the process, which is noticed
      let shown = format!("{} bytes: {}…", text.len(), text.chars().take(300).collect::<String>());
      let budget = default_budget(text.len());
      let r = w.call(what, shown.as_bytes(), budget, move || {
        std::thread::Builder::new()
          .stack_size(1 << 20)
          .spawn(move || {
            crate::monitor::guard(budget, || (e.de_str)(&t))
          })
          .unwrap()
          .join()
      });
      w.eval(true, fp(&[g.name.as_bytes(), text.as_bytes()]));
      w.max("depth of unknown content", n as u64);
      match r {
        Out::Done(Ok(Out::Done(r))) => {
          let held = if what.ends_with("cut off") { r.is_err() } else { r == want || (r.is_err() && want.is_err()) };
          if !held {
            w.violation(format!("deep {}", g.name), format!("{what} read as {}, without as {}\n{shown}", show_r(&r), show_r(&want)));
          }
        }
        Out::Done(Ok(Out::Panic(p))) => w.violation(format!("deep {}", g.name), format!("{what} panics: {p}\n{shown}")),
        Out::Done(Ok(Out::Hang(p))) => w.violation(format!("deep {}", g.name), format!("{what}: {p}\n{shown}")),
        _ => w.harness_error("deep thread"),
      }
    }
  }
  // a recursive type at a depth a program can be expected to handle
  if g.feats.contains(&"recursive") && g.name == "Rec" {
    let d = 150;
    let t = g.types[g.root].xml;
    let open = |n: &str| format!("<{n} w=\"1\"><label>x</label>");
    let text = format!("{}{}{}</{t}>", open(t), open("child").repeat(d), "</child>".repeat(d));
    if let Some(r) = w.de(g, g.root, &text) {
      w.eval(true, fp(&[text.as_bytes()]));
      match r {
        Ok(v) => {
          if let Some(s) = w.ser_ok(g, g.root, &v, None) {
            if xmlp::parse(&s).is_err() {
              w.violation("deep recursion", format!("written ill-formed: {s}"));
            }
          }
        }
        Err(e) => w.violation("deep recursion", format!("a {t} nested {d} deep is not read: {e}")),
      }
    }
  }
}

/// What the XML parser alone makes of the input: whether it fails before the root element is complete.
fn parser_fails(input: &[u8]) -> bool {
  let config = ParserConfig::new()
    .trim_whitespace(true)
    .whitespace_to_characters(true)
    .cdata_to_characters(true)
    .ignore_comments(true)
    .coalesce_characters(true);
  let mut r = EventReader::new_with_config(input, config);
  let mut depth = 0;
  loop {
    match r.next() {
      Err(_) => return true,
      Ok(XmlEvent::StartElement { .. }) => depth += 1,
      Ok(XmlEvent::EndElement { .. }) => {
        depth -= 1;
        if depth == 0 {
          return false;
        }
      }
      Ok(XmlEvent::EndDocument) => return true,
      _ => {}
    }
  }
}

/// Incomplete and ill-formed documents are errors.
pub fn c13(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let mut jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let ty = pick_type(w, g, k);
      let mut o = ORDINARY;
      o.items = 2;
      o.depth = 3;
      let (_, mut el) = document(w, g, m, ty, o);
      super::flat::disturb(w, g, m, ty, &mut el);
      let s = style(&mut w.rng);
      let text = print::print(&el, &mut w.rng, s);
      if k % 4 == 0 {
        // every prefix
        let Ok(d) = xmlp::parse(&text) else {
          w.harness_error(format!("printer: {text}"));
          return;
        };
        let end = d.root_end;
        let step = match end {
          0..200 => 1,
          200..5000 => if w.ctx.thorough { 1 } else { end / 150 },
          5000..20_000 => end / 150,
          _ => end / 15,
        };
        let mut at = w.rng.below(step.max(1));
        while at < end {
          let part = &text.as_bytes()[..at];
          if let Some(Ok(v)) = w.de_bytes(g, ty, part) {
            w.violation(
              format!("truncated {}", g.name),
              format!("a document cut off after {at} of {end} bytes is read as {v:?}\ncut:  {}\nfull: {text}", String::from_utf8_lossy(part)),
            );
          }
          w.eval(at > 0, fp(&[g.types[ty].name.as_bytes(), part]));
          w.count("prefixes", 1);
          at += step;
        }
        return;
      }
      let names = sites::names(g);
      let bytes = if k % 4 == 1 {
        break_it(&text, &mut w.rng)
      } else {
        mutate(&text, &text, &mut w.rng, &names)
      };
      if !parser_fails(&bytes) {
        w.count("mutations that stay readable XML", 1);
        return;
      }
      w.eval(true, fp(&[g.types[ty].name.as_bytes(), &bytes]));
      w.count("ill-formed documents", 1);
      w.sample(|| format!("{}: {}", g.types[ty].name, String::from_utf8_lossy(&bytes)));
      if let Some(Ok(v)) = w.de_bytes(g, ty, &bytes) {
        w.violation(
          format!("ill-formed {}", g.name),
          format!("an ill-formed document is read as {v:?}\ndocument: {}", String::from_utf8_lossy(&bytes)),
        );
      }
    },
    200,
    |_| true,
  );
  jobs.extend(super::flat::fragments(ctx, super::flat::Fragments::Cut));
  (
    Report {
      rule: "A case is a document of a derived type (in any presentation, with unknown or missing content), cut off before the end of its root element - at every byte of every fourth document - or broken by mutation such that the XML parser alone fails before the end of the root; reading must be an error. Non-trivial: not empty. Distinct by (type, bytes).",
      level: "fault_enumeration",
      assumptions: &["What follows the root element is not examined by yaserde.", "Which documents are ill-formed is decided by the XML parser yaserde uses, run on its own."],
    },
    jobs,
  )
}

/// One certain defect of form, at a random place inside of the root.
fn break_it(text: &str, r: &mut Rng) -> Vec<u8> {
  let mut s = text.to_string();
  let tags: Vec<usize> = s.match_indices("</").map(|m| m.0).collect();
  let all: Vec<usize> = s.match_indices('<').map(|m| m.0).filter(|i| !s[*i..].starts_with("<!") && !s[*i..].starts_with("<?")).collect();
  if tags.is_empty() {
    return b"<a".to_vec();
  }
  let t = *r.pick(&tags);
  let any = *r.pick(&all);
  match r.below(8) {
    0 => s.insert_str(t + 2, "z"),          // end tag of another name
    1 => s.insert_str(t, "<unclosed>"),     // never closed
    2 => s.insert_str(t, "&nosuch;"),       // undefined entity
    3 => s.insert_str(t, "&#0;"),           // illegal character
    4 => s.insert_str(t, "</stray>"),       // never opened
    5 => s.insert_str(any, "<p:q xmlns:r=\"urn:r\"/>"), // undeclared prefix, unless p is declared
    6 => s.insert_str(any, "<q a=\"1\" a=\"2\"/>"), // one attribute twice
    _ => s.insert_str(t, "<q a=1/>"),       // unquoted
  }
  s.into_bytes()
}

struct Faulty {
  data: Vec<u8>,
  at: usize,
  piece: usize,
  fail_at: usize,
  kind: ErrorKind,
  interrupts: usize,
  calls: usize,
  failed: bool,
  once: bool,
}

impl Read for Faulty {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    self.calls += 1;
    if self.interrupts > 0 && self.calls % self.interrupts == 0 {
      return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
    }
    if self.at >= self.fail_at && !(self.once && self.failed) {
      self.failed = true;
      return Err(Error::new(self.kind, "monitor: reader failed"));
    }
    let stop = if self.at < self.fail_at { self.fail_at.min(self.data.len()) } else { self.data.len() };
    let n = self.piece.min(buf.len()).min(stop - self.at);
    buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
    self.at += n;
    Ok(n)
  }
}

const KINDS: &[ErrorKind] = &[
  ErrorKind::Other,
  ErrorKind::UnexpectedEof,
  ErrorKind::ConnectionReset,
  ErrorKind::ConnectionAborted,
  ErrorKind::InvalidData,
  ErrorKind::InvalidInput,
  ErrorKind::WouldBlock,
  ErrorKind::TimedOut,
  ErrorKind::BrokenPipe,
  ErrorKind::NotFound,
  ErrorKind::PermissionDenied,
  ErrorKind::WriteZero,
  ErrorKind::OutOfMemory,
  ErrorKind::AlreadyExists,
];

struct Sink {
  out: Vec<u8>,
  piece: usize,
  fail_at: usize,
  /// Ok(0) instead of an error
  zero: bool,
  once: bool,
  failed: bool,
  interrupts: usize,
  calls: usize,
  kind: ErrorKind,
}

impl Write for Sink {
  fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
    self.calls += 1;
    if buf.is_empty() {
      return Ok(0);
    }
    if self.interrupts > 0 && self.calls % self.interrupts == 0 {
      return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
    }
    if self.out.len() >= self.fail_at && !(self.once && self.failed) {
      self.failed = true;
      if self.zero {
        return Ok(0);
      }
      return Err(Error::new(self.kind, "monitor: writer failed"));
    }
    let mut n = self.piece.min(buf.len());
    if self.out.len() < self.fail_at {
      n = n.min(self.fail_at - self.out.len());
    }
    self.out.extend_from_slice(&buf[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}

/// Failing and slow readers and writers.
pub fn c14(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let ty = pick_type(w, g, k / 2);
      let e = entry_of(g, ty);
      let mut o = ORDINARY;
      o.items = 2;
      o.depth = 3;
      let (v, el) = document(w, g, m, ty, o);
      let name = g.types[ty].name;
      if k % 2 == 0 {
        let s = style(&mut w.rng);
        let text = print::print(&el, &mut w.rng, s);
        let Ok(d) = xmlp::parse(&text) else { return };
        let end = d.root_end;
        let Some(whole) = w.de(g, ty, &text) else { return };
        for piece in [1, 2, 3, w.rng.range(4, 40)] {
          let interrupts = if w.rng.chance(50) { w.rng.range(2, 6) } else { 0 };
          let mut r = Faulty { data: text.as_bytes().to_vec(), at: 0, piece, fail_at: usize::MAX, kind: ErrorKind::Other, interrupts, calls: 0, failed: false, once: false };
          let Some(got) = w.total("from_reader in pieces", text.as_bytes(), || (e.de_read)(&mut r)) else { continue };
          w.eval(true, fp(&[name.as_bytes(), text.as_bytes(), &[piece as u8, interrupts as u8]]));
          w.count("readings in pieces", 1);
          if got.is_ok() != whole.is_ok() || (got.is_ok() && got != whole) {
            w.violation(
              format!("pieces {}", g.name),
              format!("reading {piece} bytes at a time (interrupted every {interrupts}) gives {}, at once {}\n{text}", show_r(&got), show_r(&whole)),
            );
          }
        }
        let step = if w.ctx.thorough { 1 } else { (end / 40).max(1) };
        let mut at = w.rng.below(step);
        while at < text.len() {
          let kind = *w.rng.pick(KINDS);
          let once = w.rng.chance(30);
          let mut r = Faulty { data: text.as_bytes().to_vec(), at: 0, piece: w.rng.range(1, 64), fail_at: at, kind, interrupts: 0, calls: 0, failed: false, once };
          let Some(got) = w.total("from_reader, failing", text.as_bytes(), || (e.de_read)(&mut r)) else { break };
          w.eval(true, fp(&[name.as_bytes(), text.as_bytes(), &at.to_le_bytes()]));
          w.count("read errors injected", r.failed as u64);
          let held = match &got {
            Ok(_) if r.failed && at < end => false,
            Ok(_) => got == whole,
            Err(_) => r.failed || whole.is_err(),
          };
          if !held {
            w.violation(
              format!("read error {}", g.name),
              format!("the reader fails with {kind:?} after {at} of {end} bytes, and {name} is read as {}\n{text}", show_r(&got)),
            );
          }
          at += step;
        }
        return;
      }
      let shown = format!("{v:?}");
      let content = w.rng.chance(25);
      let config = *w.rng.pick(CONFIGS);
      let write = |v: &Val, s: &mut Sink| if content { (e.ser_content_writer)(v, s) } else { (e.ser_writer)(v, s, config) };
      let sink = |piece, fail_at| Sink { out: vec![], piece, fail_at, zero: false, once: false, failed: false, interrupts: 0, calls: 0, kind: ErrorKind::Other };
      let mut full = sink(usize::MAX, usize::MAX);
      match w.total("serialize_with_writer", shown.as_bytes(), || write(&v, &mut full)) {
        Some(Ok(())) => {}
        Some(Err(e)) => {
          w.violation(format!("ser error {}", g.name), format!("{e}\n{shown}"));
          return;
        }
        None => return,
      }
      let full = full.out;
      for piece in [1, w.rng.range(2, 10)] {
        let mut s = sink(piece, usize::MAX);
        s.interrupts = if w.rng.chance(50) { w.rng.range(2, 6) } else { 0 };
        let Some(r) = w.total("serialize_with_writer in pieces", shown.as_bytes(), || write(&v, &mut s)) else { continue };
        w.eval(true, fp(&[name.as_bytes(), &full, &[piece as u8, s.interrupts as u8]]));
        w.count("writings in pieces", 1);
        if r.is_err() || s.out != full {
          w.violation(
            format!("short writes {}", g.name),
            format!("a writer that takes {piece} bytes at a time (interrupted every {}) gets {}: {r:?}\nvalue: {shown}\nwhole: {}", s.interrupts, String::from_utf8_lossy(&s.out), String::from_utf8_lossy(&full)),
          );
        }
      }
      let step = if w.ctx.thorough { 1 } else { (full.len() / 60).max(1) };
      let mut at = w.rng.below(step);
      while at < full.len() {
        let mut s = sink(w.rng.range(1, 64), at);
        s.zero = w.rng.chance(25);
        s.once = w.rng.chance(40);
        s.kind = *w.rng.pick(KINDS);
        let Some(r) = w.total("serialize_with_writer, failing", shown.as_bytes(), || write(&v, &mut s)) else { break };
        w.eval(true, fp(&[name.as_bytes(), &full, &at.to_le_bytes(), b"w"]));
        w.count("write errors injected", s.failed as u64);
        if r.is_ok() || !full.starts_with(&s.out[..at.min(s.out.len())]) {
          w.violation(
            format!("write error {}", g.name),
            format!("the writer fails after {at} of {} bytes (once: {}), and serializing says {r:?}\nvalue: {shown}\nwritten: {}\nwhole:   {}", full.len(), s.once, String::from_utf8_lossy(&s.out), String::from_utf8_lossy(&full)),
          );
        }
        at += step;
      }
    },
    100,
    |_| true,
  );
  (
    Report {
      rule: "A case is one document read from a reader that delivers a few bytes at a time, is interrupted, or fails (fourteen kinds of error, once or for good) at a chosen byte; or one value written to a writer that takes a few bytes at a time, is interrupted, takes nothing, or fails once or for good at a chosen byte. The points of failure are spread over every document (every byte in the thorough tier). Slow and interrupted streams must change nothing; a failure before the end must be an error. Distinct by (type, text, point of failure).",
      level: "fault_enumeration",
      assumptions: &["A reader that fails behind the root element may or may not be noticed."],
    },
    jobs,
  )
}

#[derive(Clone, Copy, Debug, Default)]
struct Cost {
  len: u64,
  steps: u64,
  bytes: u64,
  calls: u64,
  peak: u64,
  nanos: u64,
}

/// Resources grow with the input, and no faster.
pub fn c18(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let ty = g.root;
      let (v, el) = document(w, g, m, ty, ORDINARY);
      let kinds = [
        "list items", "unknown elements", "unknown depth", "long text", "unknown attributes", "unknown mixed text", "comments", "attribute list items", "long attributes", "known depth",
        "unknown text", "namespaces",
      ];
      let kind = kinds[k % kinds.len()];
      let mut costs: Vec<(Cost, Cost)> = vec![];
      let seed = w.rng.next();
      let base = if kind == "known depth" { 8 } else { 64usize };
      let e = entry_of(g, ty);
      // one document of `n`, read and written back
      let run = |w: &mut Worker, n: usize| -> Option<(Cost, Cost)> {
        let mut rng = Rng::new(&format!("{seed}"));
        let text = grow(g, m, ty, &el, kind, n, &mut rng)?;
        let budget = default_budget(text.len());
        let out = w.call(&format!("from_str, {kind} x {n}"), text.as_bytes(), budget, || {
          let start = cpu();
          let (r, u) = measure(|| (e.de_str)(&text));
          let nanos = cpu() - start;
          let c = yaserde::verif::counters();
          (r, u, c.peeks + c.events, c.max_idle_peeks, nanos)
        });
        let (r, u, steps, idle, nanos) = match out {
          Out::Done(x) => x,
          Out::Panic(p) => {
            w.violation(format!("panic {}", g.name), format!("{p}\n{kind}\n{text}"));
            return None;
          }
          Out::Hang(p) => {
            w.violation(format!("steps {}", g.name), format!("{p}\n{kind} x {n}\n{}", text.chars().take(3000).collect::<String>()));
            return None;
          }
        };
        w.max("peeks between two events", idle);
        let mut back = Cost::default();
        if let Ok(x) = &r {
          if ["list items", "long text", "known depth", "long attributes"].contains(&kind) {
            let out = w.call("to_string", text.as_bytes(), 0, || {
              let start = cpu();
              let (r, u) = measure(|| (e.ser_string)(x));
              (r.map(|s| s.len()).unwrap_or(0), u, yaserde::verif::counters().writes, cpu() - start)
            });
            if let Out::Done((len, u, writes, nanos)) = out {
              // fields may be left out of the output, but belong to the value: it is as large as the document
              back = Cost { len: if len == 0 { 0 } else { len.max(text.len()) as u64 }, steps: writes, bytes: u.total, calls: u.calls, peak: u.peak as u64, nanos };
            }
          }
        }
        w.count(if r.is_ok() { "grown documents accepted" } else { "grown documents rejected" }, 1);
        Some((Cost { len: text.len() as u64, steps, bytes: u.total, calls: u.calls, peak: u.peak as u64, nanos }, back))
      };
      for n in [base, 8 * base, 64 * base] {
        let Some(cost) = run(w, n) else { return };
        costs.push(cost);
      }
      let _ = v;
      w.eval(true, fp(&[g.name.as_bytes(), kind.as_bytes(), &seed.to_le_bytes()]));
      w.count(&format!("families: {kind}"), 1);
      w.sample(|| format!("{} {kind}: {costs:?}", g.name));
      let judge = |w: &mut Worker, what: &str, f: &dyn Fn(&Cost) -> u64, cs: &[Cost]| {
        // cost of a further byte: constant, up to what growing buffers by doubling costs. Quadratic growth
        // multiplies it by eight
        let more = |i: usize| (f(&cs[i + 1]) as f64 - f(&cs[i]) as f64) / (cs[i + 1].len as f64 - cs[i].len as f64).max(1.0);
        let (first, second) = (more(0), more(1));
        let limit = 4.0;
        let percent = if first > 0.01 { (100.0 * second / first) as u64 } else { 100 };
        w.max(&format!("growth of {what} per further byte in percent, 100 being none"), percent);
        let average = f(&cs[1]) as f64 / cs[1].len as f64;
        if second > limit * first.max(average / 4.0) + 0.2 {
          w.violation(
            format!("{what} {}", g.name),
            format!("{what} grow faster than the input for {} with more {kind}: {}, {}, {} for {}, {}, {} bytes", g.name, f(&cs[0]), f(&cs[1]), f(&cs[2]), cs[0].len, cs[1].len, cs[2].len),
          );
        }
      };
      let reads: Vec<Cost> = costs.iter().map(|c| c.0).collect();
      let writes: Vec<Cost> = costs.iter().map(|c| c.1).collect();
      // Time is noisy: what looks too slow is measured again, on larger documents too, and the fastest of several
      // runs counts. The reader of xml-rs itself takes longer the deeper it is.
      if !kind.ends_with("depth") {
        let slow = |first: Cost, second: Cost, third: Cost| {
          let per = |a: Cost, b: Cost| (b.nanos as f64 - a.nanos as f64) / (b.len as f64 - a.len as f64).max(1.0);
          (per(second, third) / per(first, second).max(second.nanos as f64 / second.len.max(1) as f64 / 4.0).max(0.01) * 100.0) as u64
        };
        for (what, pick) in [("reading", (|c| c.0) as fn(&(Cost, Cost)) -> Cost), ("writing", |c| c.1)] {
          if costs.iter().any(|c| pick(c).len == 0) {
            continue;
          }
          let at_once = slow(pick(&costs[0]), pick(&costs[1]), pick(&costs[2]));
          w.count("times compared", 1);
          if at_once < 350 {
            continue;
          }
          w.count("times measured again", 1);
          let mut best = vec![Cost { nanos: u64::MAX, ..Cost::default() }; 4];
          for _ in 0..4 {
            for (i, n) in [base, 8 * base, 64 * base, 512 * base].into_iter().enumerate() {
              let Some(c) = run(w, n) else { return };
              if pick(&c).nanos < best[i].nanos {
                best[i] = pick(&c);
              }
            }
            if slow(best[0], best[1], best[2]) < 400 || slow(best[1], best[2], best[3]) < 400 {
              break;
            }
          }
          let (a, b) = (slow(best[0], best[1], best[2]), slow(best[1], best[2], best[3]));
          w.max(&format!("growth of the time of {what} per further byte in percent, measured again, 100 being none"), a.min(b));
          if a >= 400 && b >= 400 {
            w.violation(
              format!("time of {what} {}", g.name),
              format!("the time of {what} grows faster than the input for {} with more {kind}: {} us for {} bytes", g.name, best.iter().map(|c| (c.nanos / 1000).to_string()).collect::<Vec<_>>().join(", "), best.iter().map(|c| c.len.to_string()).collect::<Vec<_>>().join(", ")),
            );
          }
        }
      }
      judge(w, "reading steps", &|c| c.steps, &reads);
      judge(w, "bytes allocated by reading", &|c| c.bytes, &reads);
      judge(w, "allocations of reading", &|c| c.calls, &reads);
      // the peak of a small document may be anywhere: compare what is held per byte
      let held = |c: &Cost| c.peak as f64 / c.len.max(1) as f64;
      w.max("bytes held per byte of a document of thousands of items", held(&reads[2]) as u64);
      if held(&reads[2]) > 5.0 * held(&reads[0]).max(held(&reads[1])).max(16.0) {
        w.violation(
          format!("bytes held by reading {}", g.name),
          format!("the memory held while reading grows faster than the input for {} with more {kind}: {reads:?}", g.name),
        );
      }
      if writes.iter().all(|c| c.len > 0) {
        judge(w, "writer events", &|c| c.steps, &writes);
        judge(w, "bytes allocated by writing", &|c| c.bytes, &writes);
        judge(w, "allocations of writing", &|c| c.calls, &writes);
      }
    },
    24,
    |_| true,
  );
  (
    Report {
      rule: "A case is a family of three documents of one type, with 64, 512 and 4096 of something: list items in elements and in attributes, unknown elements (next to known ones, at any place), depth of unknown and of known content, length of text known and unknown and of attributes, unknown attributes and namespaces, text between elements, comments. The reader's steps, the allocated bytes, the allocations and the peak of memory held for a further byte must stay within a factor of four (eight being quadratic, 2.5 what buffers that double cost); the same for writing the value back. So must the time the thread runs; where it seems not to, the fastest of four runs counts, and documents with 32768 are compared as well. Distinct by (type, dimension, random choices).",
      level: "exploration",
      assumptions: &["Steps are events and peeks counted by the hooks; memory is counted by the allocator. Other work is seen by the time it takes.", "The nesting of known elements is fixed."],
    },
    jobs,
  )
}

/// The list of its own type in a struct
fn own_list<'a>(m: &'a Model, t: usize) -> Option<&'a str> {
  let Kind::Struct(fs) = &m.types[t].kind else { return None };
  if fs.iter().any(|f| f.role == Role::Flat) {
    return None;
  }
  fs.iter().find(|f| f.role == Role::Elem && f.card == Card::Many && matches!(f.ty, Ty::R(x) if x == t)).map(|f| f.xml)
}

/// The document with `n` more of something; the random choices must not depend on `n`.
fn grow(g: &Group, m: &Model, ty: usize, el: &El, kind: &str, n: usize, r: &mut Rng) -> Option<String> {
  let mut el = el.clone();
  // which of the elements grows
  let mut count = 0;
  let wants = |s: &Site, e: &El| match (kind, s) {
    ("long text", Site::Leaf(Prim::Str) | Site::Wrapped(Prim::Str)) => true,
    ("long text", Site::Type(t)) => matches!(&m.types[*t].kind, Kind::Struct(fs) if fs.iter().any(|f| f.role == Role::Text)),
    ("list items", Site::Type(t)) => match &m.types[*t].kind {
      Kind::Struct(fs) => fs.iter().any(|f| f.card == Card::Many && matches!(f.role, Role::Elem) && e.elems().any(|x| x.name.local == f.xml)),
      Kind::Enum { variants, .. } => variants.iter().any(|v| matches!(v.payload, Some((Card::Many, _))) && e.elems().any(|x| x.name.local == v.xml)),
      _ => false,
    },
    ("unknown attributes" | "namespaces", _) => true,
    ("attribute list items", Site::Type(t)) => match &m.types[*t].kind {
      Kind::Struct(fs) => fs.iter().any(|f| f.role == Role::Attr && f.card == Card::Many),
      _ => false,
    },
    ("long attributes", Site::Type(t)) => match &m.types[*t].kind {
      Kind::Struct(fs) => fs.iter().any(|f| f.role == Role::Attr && f.ty == Ty::P(Prim::Str) && e.attrs.iter().any(|a| a.0.local == f.xml)),
      _ => false,
    },
    ("known depth", Site::Type(t)) => own_list(m, *t).is_some_and(|xml| e.elems().any(|x| x.name.local == xml)),
    ("attribute list items" | "long attributes" | "known depth", _) => false,
    (_, Site::Type(t)) => matches!(m.types[*t].kind, Kind::Struct(_)) && e.kids.iter().all(|k| matches!(k, Nd::El(_))),
    _ => false,
  };
  walk(m, ty, &mut el, &mut |s, e| count += wants(&s, e) as usize);
  if count == 0 {
    return None;
  }
  let chosen = r.below(count);
  let mut at = 0;
  let names = sites::names(g);
  let (p1, p2) = (r.next() as usize, r.chance(50));
  let mut rr = r.clone();
  walk(m, ty, &mut el, &mut |s, e| {
    if !wants(&s, e) {
      return;
    }
    at += 1;
    if at != chosen + 1 {
      return;
    }
    let rd = match s {
      Site::Type(t) => sites::reads(m, t),
      _ => Default::default(),
    };
    match kind {
      "list items" => {
        let Site::Type(t) = s else { return };
        let lists: Vec<&str> = match &m.types[t].kind {
          Kind::Struct(fs) => fs.iter().filter(|f| f.card == Card::Many && f.role == Role::Elem).map(|f| f.xml).collect(),
          Kind::Enum { variants, .. } => variants.iter().map(|v| v.xml).collect(),
          _ => vec![],
        };
        let items: Vec<El> = e.elems().filter(|x| lists.contains(&x.name.local.as_str())).cloned().collect();
        let item = &items[p1 % items.len()];
        for _ in 0..n {
          e.kids.push(Nd::El(item.clone()));
        }
      }
      "long text" => {
        let text = ["text ", "<&>\" ", "größe🦀 ", "word"][p1 % 4].repeat(n * 4);
        e.kids.retain(|k| matches!(k, Nd::El(_)));
        e.kids.push(Nd::Text(text.trim().to_string()));
      }
      "attribute list items" => {
        let Site::Type(t) = s else { return };
        let Kind::Struct(fs) = &m.types[t].kind else { return };
        let lists: Vec<&ymcore::Field> = fs.iter().filter(|f| f.role == Role::Attr && f.card == Card::Many).collect();
        let f = lists[p1 % lists.len()];
        e.attrs.retain(|a| a.0.local != f.xml);
        let item = match &f.ty {
          Ty::P(Prim::Bool) => "true",
          Ty::R(t) => match &m.types[*t].kind {
            Kind::Enum { variants, .. } => variants[0].xml,
            _ => "1",
          },
          _ => "7",
        };
        e.attrs.push((xmlp::QName::new(&ns_of(&m.types[t], f.prefix), f.xml), vec![item; n].join(" ")));
      }
      "long attributes" => {
        let Site::Type(t) = s else { return };
        let Kind::Struct(fs) = &m.types[t].kind else { return };
        let own: Vec<usize> = (0..e.attrs.len()).filter(|i| fs.iter().any(|f| f.role == Role::Attr && f.ty == Ty::P(Prim::Str) && e.attrs[*i].0.local == f.xml)).collect();
        e.attrs[own[p1 % own.len()]].1 = ["text ", "<&>\" ", "größe🦀 ", "word"][p1 % 4].repeat(n * 4);
      }
      "known depth" => {
        let Site::Type(t) = s else { return };
        let xml = own_list(m, t).unwrap();
        let name = e.elems().find(|x| x.name.local == xml).unwrap().name.clone();
        let mut leaf = e.clone();
        leaf.name = name;
        leaf.kids.retain(|k| !matches!(k, Nd::El(x) if x.name.local == xml));
        let mut deep = leaf.clone();
        for _ in 0..n {
          let mut outer = leaf.clone();
          outer.kids.push(Nd::El(deep));
          deep = outer;
        }
        e.kids.push(Nd::El(deep));
      }
      "unknown text" => {
        let mut u = El::new("", "unread");
        while rd.knows_local(&u.name.local) {
          u.name.local.push('u');
        }
        u.kids.push(Nd::Text("some text ".repeat(n)));
        e.kids.push(Nd::El(u));
      }
      "namespaces" => {
        for i in 0..n {
          e.attrs.push((xmlp::QName::new(&format!("urn:unknown:{i}"), &format!("unk{i}")), "v".into()));
        }
      }
      "unknown attributes" => {
        for i in 0..n {
          e.attrs.push((xmlp::QName::new("", &format!("unk{i}")), "v".into()));
        }
      }
      "unknown elements" => {
        let mut u = sites::random_el(&mut rr, &names, &[], 1);
        while rd.knows_local(&u.name.local) {
          u.name.local.push('u');
        }
        let many: Vec<Nd> = (0..n).map(|_| Nd::El(u.clone())).collect();
        let to = if p2 { 0 } else { p1 % (e.kids.len() + 1) };
        e.kids.splice(to..to, many);
      }
      "unknown depth" => {
        let mut name = names[p1 % names.len()].clone();
        while rd.knows_local(&name) {
          name.push('u');
        }
        let mut u = El::new("", &name);
        for i in 0..n {
          let mut outer = El::new("", if i + 1 == n || p2 { &name } else { "nest" });
          outer.kids.push(Nd::El(u));
          u = outer;
        }
        e.kids.push(Nd::El(u));
      }
      "unknown mixed text" => {
        let mut name = "sep".to_string();
        while rd.knows_local(&name) {
          name.push('u');
        }
        // a marker the printer turns into text next to elements
        let mut u = El::new("", &name);
        for _ in 0..n {
          u.kids.push(Nd::Text("some text".into()));
          u.kids.push(Nd::El(El::new("", "b")));
        }
        e.kids.push(Nd::El(u));
      }
      _ => {
        let mut u = El::new("", "commented");
        while rd.knows_local(&u.name.local) {
          u.name.local.push('u');
        }
        e.kids.push(Nd::El(u));
      }
    }
  });
  let mut text = print::print(&el, r, PLAIN);
  if kind == "comments" {
    if let Some(i) = text.find("commented") {
      let lt = text[..i].rfind('<')?;
      text.insert_str(lt, &"<!-- comment --> <?pi?>".repeat(n));
    }
  }
  Some(text)
}

