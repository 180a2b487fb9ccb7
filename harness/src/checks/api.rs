//! The reader and writer that implementations of the traits are given, and the freedom of calls from each other.

use super::reading::{document, jobs_over, pick_type, style};
use super::robust::mutate;
use super::*;
use crate::gen::{Gen, Opts, ORDINARY};
use crate::monitor::{default_budget, entry_of, fp, guard, Out, Worker};
use crate::print;
use crate::refm::Model;
use crate::rng::Rng;
use crate::sites;
use crate::xmlp::{self, Nd, QName};
use std::io::Read;
use std::sync::atomic::{AtomicU64, Ordering};
use yaserde::__xml::name::OwnedName;
use yaserde::__xml::reader::XmlEvent;
use yaserde::de::Deserializer;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
  Start(QName, Vec<(QName, String)>),
  End(QName),
  Chars(String),
  EndDoc,
}

/// The events of an element, as the strict reader sees it.
fn events(e: &El, out: &mut Vec<Ev>) {
  let mut attrs = e.attrs.clone();
  attrs.sort();
  out.push(Ev::Start(e.name.clone(), attrs));
  let mut text = String::new();
  let flush = |text: &mut String, out: &mut Vec<Ev>| {
    let t = xmlp::trim(text);
    if !t.is_empty() {
      out.push(Ev::Chars(t.to_string()));
    }
    text.clear();
  };
  for k in &e.kids {
    match k {
      Nd::Text(t) => text.push_str(t),
      Nd::El(c) => {
        flush(&mut text, out);
        events(c, out);
      }
    }
  }
  flush(&mut text, out);
  out.push(Ev::End(e.name.clone()));
}

fn q(n: &OwnedName) -> QName {
  QName::new(n.namespace.as_deref().unwrap_or(""), &n.local_name)
}

fn seen(e: &XmlEvent) -> Option<Ev> {
  Some(match e {
    XmlEvent::StartElement { name, attributes, .. } => {
      let mut attrs: Vec<(QName, String)> = attributes.iter().map(|a| (q(&a.name), a.value.clone())).collect();
      attrs.sort();
      Ev::Start(q(name), attrs)
    }
    XmlEvent::EndElement { name } => Ev::End(q(name)),
    XmlEvent::Characters(s) => Ev::Chars(s.clone()),
    XmlEvent::EndDocument => Ev::EndDoc,
    _ => return None,
  })
}

/// Where the reader must be.
struct Sim {
  evs: Vec<Ev>,
  pos: usize,
  depth: usize,
  trace: Vec<String>,
  ops: u64,
}

impl Sim {
  fn head(&self) -> Ev {
    self.evs.get(self.pos).cloned().unwrap_or(Ev::EndDoc)
  }
  fn step(&mut self) -> Ev {
    let e = self.head();
    match e {
      Ev::Start(..) => self.depth += 1,
      Ev::End(_) => self.depth -= 1,
      _ => {}
    }
    if self.pos < self.evs.len() {
      self.pos += 1;
    }
    e
  }
  /// Up to and with the end of the element at `depth`
  fn leave(&mut self, depth: usize) -> Vec<Ev> {
    let mut out = vec![];
    while self.depth >= depth {
      if self.head() == Ev::EndDoc {
        break;
      }
      out.push(self.step());
    }
    out
  }
}

type Verdict = Result<(), String>;

fn expect(what: &str, want: &Ev, got: &Result<Option<Ev>, String>) -> Verdict {
  match got {
    Ok(Some(g)) if g == want => Ok(()),
    _ => Err(format!("{what} gives {got:?} where the document has {want:?}")),
  }
}

/// One operation on the reader, and what it must do.
fn operate<R: Read>(d: &mut Deserializer<R>, s: &mut Sim, r: &mut Rng, nest: usize) -> Verdict {
  s.ops += 1;
  match r.below(12) {
    0..=2 => {
      for _ in 0..r.range(1, 3) {
        s.trace.push("peek".into());
        let got = d.peek().map(seen);
        expect("peek", &s.head(), &got)?;
      }
    }
    3..=7 => {
      s.trace.push("next_event".into());
      let got = d.next_event().map(|e| seen(&e));
      let want = s.step();
      expect("next_event", &want, &got)?;
    }
    8 if s.depth > 0 || r.chance(3) => {
      s.trace.push("skip_element".into());
      let mut passed = vec![];
      let got = d.skip_element(|e| passed.push(seen(e)));
      let depth = s.depth;
      let want = s.leave(depth);
      let ends = depth == 0 || !matches!(want.last(), Some(Ev::End(_))) || s.depth != depth - 1;
      if got.is_ok() == ends {
        return Err(format!("skip_element at depth {depth} says {got:?}"));
      }
      let want: Vec<Option<Ev>> = want.into_iter().map(Some).collect();
      if passed != want {
        return Err(format!("skip_element passes over {passed:?} instead of {want:?}"));
      }
    }
    9 | 10 if nest < 4 => {
      let head = s.head();
      s.trace.push("read_inner_value {".into());
      let Ev::Start(own, _) = head else {
        let want = s.step();
        let mut called = false;
        let got = d.read_inner_value::<u32, _>(|_| {
          called = true;
          Ok(1)
        });
        s.trace.push("}".into());
        if got.is_ok() || called {
          return Err(format!("read_inner_value at {want:?} is {got:?}"));
        }
        return after(d, s);
      };
      s.step();
      let depth = s.depth;
      let mode = r.below(4);
      let mut verdict = Ok(());
      let mut calls = 0;
      let mut right = false;
      let got = d.read_inner_value::<u32, _>(|d| {
        calls += 1;
        let n = if mode == 0 { 1000 } else { r.below(12) };
        for _ in 0..n {
          if s.depth < depth || (s.depth == depth && matches!(s.head(), Ev::End(_))) {
            break;
          }
          verdict = within(d, s, r, nest + 1, depth);
          if verdict.is_err() {
            return Err("monitor".into());
          }
        }
        if mode == 1 {
          s.trace.push("fail".into());
          return Err("monitor: not a value".into());
        }
        if s.depth > depth && matches!(s.head(), Ev::End(ref n) if *n == own) {
          // inside of an element of the same name: go on to something that differs
          s.trace.push("fail".into());
          return Err("monitor: not a value".into());
        }
        right = s.depth == depth && matches!(s.head(), Ev::End(_));
        s.trace.push("value".into());
        Ok(7)
      });
      s.trace.push("}".into());
      verdict?;
      s.leave(depth);
      if calls != 1 {
        return Err(format!("read_inner_value called its function {calls} times"));
      }
      match (right, &got) {
        (true, Ok(7)) | (false, Err(_)) => {}
        _ => return Err(format!("read_inner_value gives {got:?}, its function stopped {}", if right { "at the end element with a value" } else { "elsewhere or with an error" })),
      }
      if mode == 1 && got != Err("monitor: not a value".into()) {
        return Err(format!("read_inner_value gives {got:?} for an error of its function"));
      }
    }
    _ => {
      // expect_end_element
      let head = s.head();
      let name = match d.peek() {
        Ok(XmlEvent::EndElement { name }) => name.clone(),
        _ => OwnedName { local_name: "x".into(), namespace: None, prefix: None },
      };
      let (right, name) = match r.below(3) {
        0 => (false, OwnedName { local_name: format!("{}x", name.local_name), ..name }),
        1 => (false, OwnedName { namespace: Some("urn:monitor:other".into()), ..name }),
        _ => (matches!(head, Ev::End(_)), name),
      };
      if !matches!(head, Ev::End(_)) && r.chance(80) {
        return Ok(());
      }
      s.trace.push(format!("expect_end_element {}", name.local_name));
      let got = d.expect_end_element(&name);
      s.step();
      if got.is_ok() != right {
        return Err(format!("expect_end_element of {name:?} at {head:?} is {got:?}"));
      }
    }
  }
  after(d, s)
}

/// An operation that stays within the element at `depth`.
fn within<R: Read>(d: &mut Deserializer<R>, s: &mut Sim, r: &mut Rng, nest: usize, depth: usize) -> Verdict {
  loop {
    let mut ahead = r.clone();
    let k = ahead.below(12);
    // skipping at the element's own depth, or expecting its end, leaves it
    if s.depth == depth && k == 8 {
      r.next();
      continue;
    }
    return operate(d, s, r, nest);
  }
}

fn after<R: Read>(d: &mut Deserializer<R>, s: &mut Sim) -> Verdict {
  if d.depth() != s.depth {
    return Err(format!("depth is {} where {} elements are open", d.depth(), s.depth));
  }
  Ok(())
}

/// The reader given to implementations keeps its contract.
pub fn c15(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let el = if k % 3 == 0 {
        sites::random_el(&mut w.rng, &sites::names(g), &sites::uris(g), 5)
      } else {
        let ty = pick_type(w, g, k);
        let (_, mut el) = document(w, g, m, ty, ORDINARY);
        super::flat::disturb(w, g, m, ty, &mut el);
        el
      };
      let st = style(&mut w.rng);
      let text = print::print(&el, &mut w.rng, st);
      let Ok(doc) = xmlp::parse(&text) else {
        w.harness_error(format!("printer: {text}"));
        return;
      };
      let mut evs = vec![];
      events(&doc.root, &mut evs);
      evs.push(Ev::EndDoc);
      for _ in 0..3 {
        let mut s = Sim { evs: evs.clone(), pos: 0, depth: 0, trace: vec![], ops: 0 };
        let mut rng = Rng::new(&format!("{}", w.rng.next()));
        let piece = if rng.chance(50) { 1 << 20 } else { rng.range(1, 5) };
        let n = evs.len() * 3 + 5;
        let s2 = &mut s;
        let t2 = &text;
        let out = w.call("Deserializer", text.as_bytes(), 0, move || {
          let mut d = Deserializer::new_from_reader(super::writing::Chopped { data: t2.as_bytes().to_vec(), at: 0, piece });
          for _ in 0..n {
            operate(&mut d, s2, &mut rng, 0)?;
            if s2.pos + 1 >= s2.evs.len() && rng.chance(30) {
              break;
            }
          }
          Ok::<(), String>(())
        });
        w.count("reader operations", s.ops);
        w.eval(s.trace.len() > 2, fp(&[text.as_bytes(), s.trace.join(" ").as_bytes()]));
        w.sample(|| format!("{text}\n{}", s.trace.join(" ")));
        let why = match out {
          Out::Done(Ok(())) => continue,
          Out::Done(Err(e)) => e,
          Out::Panic(p) => format!("panic: {p}"),
          Out::Hang(p) => p,
        };
        let what = why.split_whitespace().next().unwrap_or("").to_string();
        w.violation(format!("reader {what}"), format!("{why}\noperations: {}\ndocument: {text}", s.trace.join(" ")));
      }
    },
    60,
    |_| true,
  );
  (
    Report {
      rule: "A case is one document and one random sequence of operations on the reader implementations of the traits are given (peek, next, depth, skip, inner values with functions that succeed, fail or stop early at any place, expected end elements), nested up to four deep, on whole and on chopped streams; every result and the depth after every operation must be those of a list of events computed by the strict reader. Non-trivial: more than two operations. Distinct by (text, operations).",
      level: "exploration",
      assumptions: &["Functions given to read_inner_value do not read beyond their element.", "Processing instructions inside of text split it (known finding of C04) and are not generated."],
    },
    jobs,
  )
}

static LINES: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);

/// Formats everything it is given, and forgets it.
struct Sink;

impl log::Log for Sink {
  fn enabled(&self, _: &log::Metadata) -> bool {
    true
  }
  fn log(&self, r: &log::Record) {
    let s = format!("{} {}", r.target(), r.args());
    LINES.fetch_add(1, Ordering::Relaxed);
    BYTES.fetch_add(s.len() as u64, Ordering::Relaxed);
  }
  fn flush(&self) {}
}

static SINK: Sink = Sink;

#[derive(Clone)]
enum Op {
  De(Vec<u8>),
  Ser(Val, Option<Config>),
  Content(Val),
  /// a writer that fails
  Fail(Val, usize),
  /// a reader that ends early
  Cut(Vec<u8>, usize),
}

#[derive(Clone)]
struct Call {
  entry: Entry,
  name: String,
  op: Op,
}

struct Full(usize);

impl std::io::Write for Full {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    if self.0 == 0 {
      return Err(std::io::Error::other("monitor: full"));
    }
    let n = b.len().min(self.0);
    self.0 -= n;
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}

fn perform(c: &Call) -> String {
  let len = match &c.op {
    Op::De(b) | Op::Cut(b, _) => b.len(),
    _ => 100_000,
  };
  let text = |r: Result<String, String>| {
    if let Ok(s) = &r {
      if std::str::from_utf8(s.as_bytes()).is_err() {
        return "a String that is not UTF-8".to_string();
      }
    }
    format!("{r:?}")
  };
  let out = guard(default_budget(len), || match &c.op {
    Op::De(b) => show_r(&(c.entry.de_read)(&mut &b[..])),
    Op::Cut(b, n) => show_r(&(c.entry.de_read)(&mut &b[..*n])),
    Op::Ser(v, None) => text((c.entry.ser_string)(v)),
    Op::Ser(v, Some(k)) => text((c.entry.ser_config)(v, *k)),
    Op::Content(v) => text((c.entry.ser_content)(v)),
    Op::Fail(v, n) => format!("{:?}", (c.entry.ser_writer)(v, &mut Full(*n), Config::DEFAULT)),
  });
  match out {
    Out::Done(s) => s,
    Out::Panic(p) => format!("panic: {p}"),
    Out::Hang(p) => format!("hang: {}", p.split(':').next().unwrap_or("")),
  }
}

/// The call performed first and only in a new process.
fn alone(ctx: &Ctx, group: &str, round: usize, k: usize, i: usize) -> Option<String> {
  let out = std::process::Command::new(std::env::current_exe().ok()?)
    .args(["C17", "--seed", &ctx.seed.to_string(), "--tier", &ctx.tier, "--job", group, "--round", &round.to_string()])
    .env("YAMON_CHILD", "1")
    .env("YAMON_ALONE", format!("{group}:{k}:{i}"))
    .output()
    .ok()?;
  let text = String::from_utf8(out.stdout).ok()?;
  let at = text.rfind(ALONE)?;
  text[at + ALONE.len()..].strip_suffix('\n').map(str::to_string)
}

const ALONE: &str = "\u{1}alone: ";

/// Calls do not influence each other.
pub fn c17(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let _ = log::set_logger(&SINK);
  log::set_max_level(log::LevelFilter::Off);
  let jobs = jobs_over(
    ctx,
    move |w, g, _, k| {
      let ctx = w.ctx.clone();
      let only = std::env::var("YAMON_ALONE").ok();
      if only.as_ref().is_some_and(|a| !a.starts_with(&format!("{}:{k}:", g.name))) {
        return;
      }
      // what is called is a function of these
      let round = w.round;
      w.rng = crate::rng::Rng::new(&format!("{}/C17/{}/{round}/{k}", ctx.seed, g.name));
      let mut groups = vec![g.clone()];
      for _ in 0..w.rng.below(3) {
        groups.push(w.rng.pick(&ctx.groups).clone());
      }
      let mut calls: Vec<Call> = vec![];
      for g in &groups {
        let m = Model::new(g);
        let names = sites::names(g);
        for i in 0..8 {
          let ty = pick_type(w, g, i);
          let o = Opts { items: 2, depth: 3, ..ORDINARY };
          let (v, el) = document(w, g, &m, ty, o);
          let st = style(&mut w.rng);
          let text = print::print(&el, &mut w.rng, st);
          let op = match i {
            0 | 1 => Op::De(text.into_bytes()),
            2 => Op::De(mutate(&text, &text, &mut w.rng, &names)),
            3 => {
              let n = w.rng.below(text.len());
              Op::Cut(text.into_bytes(), n)
            }
            4 => Op::Ser(v, None),
            5 => Op::Ser(v, Some(*w.rng.pick(CONFIGS))),
            6 => Op::Content(v),
            _ => Op::Fail(v, w.rng.below(200)),
          };
          calls.push(Call { entry: entry_of(g, ty), name: g.types[ty].name.to_string(), op });
        }
      }
      if let Some(i) = only.and_then(|a| a.rsplit(':').next().and_then(|i| i.parse::<usize>().ok())) {
        let got = perform(&calls[i]);
        use std::io::Write as _;
        let mut o = std::io::stdout().lock();
        let _ = o.write_all(format!("{ALONE}{got}\n").as_bytes());
        let _ = o.flush();
        std::process::exit(0);
      }
      let (first, _) = {
        let mut out = vec![];
        for c in &calls {
          out.push(match w.call(&format!("call on {}", c.name), b"", 0, || perform(c)) {
            Out::Done(s) => s,
            _ => "?".into(),
          });
        }
        (out, ())
      };
      let compare = |w: &mut Worker, how: &str, i: usize, got: &str| {
        let c = &calls[i];
        w.eval(true, fp(&[how.as_bytes(), c.name.as_bytes(), first[i].as_bytes(), &(i as u64).to_le_bytes(), &(k as u64).to_le_bytes()]));
        w.count(&format!("calls repeated {how}"), 1);
        if got != first[i] {
          let op = match &c.op {
            Op::De(b) => format!("reading {}", String::from_utf8_lossy(b)),
            Op::Cut(b, n) => format!("reading {}", String::from_utf8_lossy(&b[..*n])),
            Op::Ser(v, _) | Op::Content(v) | Op::Fail(v, _) => format!("writing {v:?}"),
          };
          w.violation(format!("repeated {how}"), format!("{} {how}: {op}\nfirst: {}\nthen:  {got}", c.name, first[i]));
        }
      };
      // by a process that did nothing else
      let n = if k < 4 { 4 } else { 0 };
      for _ in 0..n {
        let i = w.rng.below(calls.len());
        match alone(&ctx, g.name, round, k, i) {
          Some(got) => compare(w, "in a process of its own", i, &got),
          None => w.count("processes without a result", 1),
        }
      }
      // in another order
      let mut order: Vec<usize> = (0..calls.len()).chain(0..calls.len()).collect();
      w.rng.shuffle(&mut order);
      for i in &order {
        let got = perform(&calls[*i]);
        compare(w, "in another order", *i, &got);
      }
      // on several threads at once
      let n = 3;
      let mut orders = vec![];
      for _ in 0..n {
        let mut o: Vec<usize> = (0..calls.len()).collect();
        w.rng.shuffle(&mut o);
        orders.push(o);
      }
      let barrier = Arc::new(std::sync::Barrier::new(n));
      let results: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
        let mut hs = vec![];
        for o in orders {
          let barrier = barrier.clone();
          let calls = &calls;
          hs.push(s.spawn(move || {
            barrier.wait();
            o.into_iter().map(|i| (i, perform(&calls[i]))).collect::<Vec<_>>()
          }));
        }
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
      });
      for r in results {
        if r.is_empty() {
          w.harness_error("thread");
        }
        for (i, got) in r {
          compare(w, "on several threads", i, &got);
        }
      }
      // observed by a logger
      if k % 2 == 0 {
        log::set_max_level(log::LevelFilter::Trace);
        for (i, c) in calls.iter().enumerate() {
          let got = perform(c);
          compare(w, "under a logger", i, &got);
        }
        log::set_max_level(log::LevelFilter::Off);
        let n = LINES.swap(0, Ordering::Relaxed);
        w.count("lines logged", n);
      }
    },
    8,
    |_| true,
  );
  (
    Report {
      rule: "A case is one call (reading a good, broken or cut document; writing to a string, as content, with settings, or to a writer that fails) repeated in a process of its own, in another order among dozens of others on the same and other types, on three threads at once, or with a logger formatting everything; its result must be the one it had the first time, to the letter (error messages included). Distinct by (call, way of repeating).",
      level: "exploration",
      assumptions: &["Threads are scheduled by the operating system."],
    },
    jobs,
  )
}

/// The workload run under the address sanitizer: nothing is compared, everything is touched.
pub fn c22(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let names = sites::names(g);
      let mut calls: Vec<Call> = vec![];
      for i in 0..4 {
        let ty = pick_type(w, g, k + i);
        let (v, mut el) = document(w, g, m, ty, ORDINARY);
        sites::list_attributes(m, ty, &mut el, &mut w.rng);
        let st = style(&mut w.rng);
        let text = print::print(&el, &mut w.rng, st);
        let entry = entry_of(g, ty);
        let name = g.types[ty].name.to_string();
        let cut = w.rng.below(text.len());
        let bad = mutate(&text, &text, &mut w.rng, &names);
        let at = w.rng.below(400);
        let config = *w.rng.pick(CONFIGS);
        for op in [Op::De(text.clone().into_bytes()), Op::De(bad), Op::Cut(text.into_bytes(), cut), Op::Ser(v.clone(), None), Op::Ser(v.clone(), Some(config)), Op::Content(v.clone()), Op::Fail(v, at)] {
          calls.push(Call { entry, name: name.clone(), op });
        }
      }
      let results: Vec<usize> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..2).map(|_| s.spawn(|| calls.iter().map(|c| perform(c).len()).sum())).collect();
        hs.into_iter().map(|h| h.join().unwrap_or(0)).collect()
      });
      w.count("bytes of results touched under the address sanitizer", results.iter().sum::<usize>() as u64);
      for c in &calls {
        let input = match &c.op {
          Op::De(b) | Op::Cut(b, _) => String::from_utf8_lossy(b).into_owned(),
          Op::Ser(v, _) | Op::Content(v) | Op::Fail(v, _) => format!("{v:?}"),
        };
        let what = format!("call on {}", c.name);
        if let Out::Done(s) = w.call(&what, input.as_bytes(), 0, || perform(c)) {
          w.eval(s.len() > 10, fp(&[c.name.as_bytes(), s.as_bytes()]));
          w.sample(|| format!("{}: {s}", c.name));
          if s == "a String that is not UTF-8" {
            w.violation("utf8", format!("{} written as {s}\n{input}", c.name));
          }
        }
      }
    },
    12,
    |_| true,
  );
  (
    Report {
      rule: "A case is one call (reading a good, broken or cut document; writing to a string, as content, with settings, or to a writer that fails) on one of the derived types, made on three threads in a build with the address sanitizer and debug assertions; further cases, on a part of the types, are run by the undefined-behaviour interpreter Miri on three threads, with the log on in every third process. No report may appear. Non-trivial: the result is longer than ten bytes. Distinct by (type, result).",
      level: "exploration",
      assumptions: &["Miri runs a fixed matrix of features and a few random types on documents of some hundred bytes.", "Leaks are not reported."],
    },
    jobs,
  )
}

/// Several values in one document, through the traits.
pub fn c21(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let ty = if k % 2 == 0 { g.root } else { w.rng.pick(&g.entries).0 };
      if g.types[ty].flatten {
        return;
      }
      let e = entry_of(g, ty);
      let name = g.types[ty].name;
      let mut o = ORDINARY;
      o.items = 2;
      o.depth = 3;
      let n = *w.rng.pick(&[0, 1, 2, 3, 3, 8]);
      if k % 3 == 2 {
        // writing
        let vs: Vec<Val> = (0..n).map(|_| Gen::new(g, o).value(ty, &mut w.rng)).collect();
        let shown = format!("{vs:?}");
        let Some(r) = w.total("serialize, several values", shown.as_bytes(), || (e.ser_many)(&vs)) else { return };
        w.eval(n > 0, fp(&[name.as_bytes(), shown.as_bytes()]));
        w.count("values written through one serializer", n as u64);
        let mut want = El::new("", "list");
        for v in &vs {
          let env = m.env(ty);
          let mut item = El::new(&env.default, "item");
          m.body(ty, v, &env, &mut item);
          want.kids.push(Nd::El(item));
        }
        let got = match &r {
          Ok(s) => xmlp::parse(s).map(|d| d.root.canon(false)).map_err(|e| format!("{e}: {s}")),
          Err(e) => Err(e.clone()),
        };
        if got.as_ref() != Ok(&want.canon(false)) {
          w.violation(
            format!("several values written {}", g.name),
            format!("values of {name} written one after the other as `item`\nvalues: {shown}\ngot:  {}\nwant: {}", r.unwrap_or_else(|e| e), show_el(&want)),
          );
        }
        return;
      }
      let mut list = El::new("", "list");
      let mut want = vec![];
      let mut bad = None;
      for _ in 0..n {
        let (_, mut el) = document(w, g, m, ty, o);
        if w.rng.chance(60) {
          super::flat::disturb(w, g, m, ty, &mut el);
        }
        // what reading it alone gives
        let Some(r) = w.de(g, ty, &print::plain(&el)) else { return };
        if w.rng.chance(15) {
          list.kids.push(Nd::Text("some text".into()));
        }
        list.kids.push(Nd::El(el));
        match r {
          Ok(v) => want.push((v, 1)),
          Err(e) => {
            bad = Some(e);
            break;
          }
        }
      }
      let st = style(&mut w.rng);
      let text = print::print(&list, &mut w.rng, st);
      let Some(got) = w.total("deserialize, several values", text.as_bytes(), || (e.de_children)(&text)) else { return };
      w.eval(n > 0, fp(&[name.as_bytes(), text.as_bytes()]));
      w.count("values read through one deserializer", want.len() as u64);
      w.sample(|| format!("{name}: {text}"));
      let held = match (&bad, &got) {
        (Some(_), Err(e)) => !e.starts_with("monitor"),
        (None, Ok(vs)) => *vs == want,
        _ => false,
      };
      if !held {
        w.violation(
          format!("several values read {}", g.name),
          format!("values of {name} read one after the other, each expected to end at its end element\ndocument: {text}\ngot: {got:?}\nalone: {want:?} {bad:?}"),
        );
      }
    },
    60,
    |_| true,
  );
  (
    Report {
      rule: "A case is a document whose root has up to eight elements of one derived type (ordinary, with unknown content, with missing fields, with text between them), read one after the other by the type's trait implementation as hand-written implementations do: each must give the value it gives alone and leave the reader before its own end element, at the depth it was found; or up to eight values written one after the other through one serializer under a name of the caller's. Non-trivial: at least one value. Distinct by (type, text).",
      level: "exploration",
      assumptions: &["Types that are themselves marked as flattened read the rest of the document and are left out.", "Behind a value that cannot be read nothing is expected."],
    },
    jobs,
  )
}
