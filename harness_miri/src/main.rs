//! A workload for the undefined-behaviour interpreter: every kind of derived type, read and written on several threads.
#![allow(dead_code)]
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/print.rs"]
mod print;
#[path = "../../harness/src/refm.rs"]
mod refm;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/sites.rs"]
mod sites;
#[path = "../../harness/src/xmlp.rs"]
mod xmlp;

mod zoo {
  include!(concat!(env!("YAMON_ZOO_DIR"), "/zoo0.rs"));
}

use rng::Rng;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;
use ymcore::*;

struct Chopped<'a>(&'a [u8], usize);

impl Read for Chopped<'_> {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    let n = self.1.min(buf.len()).min(self.0.len());
    buf[..n].copy_from_slice(&self.0[..n]);
    self.0 = &self.0[n..];
    Ok(n)
  }
}

struct Full(usize);

impl Write for Full {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    if self.0 == 0 {
      return Err(std::io::Error::other("full"));
    }
    let n = b.len().min(self.0);
    self.0 -= n;
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}

struct Sink;

impl log::Log for Sink {
  fn enabled(&self, _: &log::Metadata) -> bool {
    true
  }
  fn log(&self, r: &log::Record) {
    std::hint::black_box(format!("{}", r.args()));
  }
  fn flush(&self) {}
}

static READS: AtomicU64 = AtomicU64::new(0);
static WRITES: AtomicU64 = AtomicU64::new(0);
static REJECTED: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);

/// Touches every byte of a result, so that the interpreter sees what it is made of
fn touch(r: Result<String, String>) -> Option<String> {
  let (Ok(s) | Err(s)) = &r;
  std::str::from_utf8(s.as_bytes()).expect("UNDEFINED: a String that is not UTF-8");
  BYTES.fetch_add(s.len() as u64, Ordering::Relaxed);
  r.ok()
}

fn read(e: &Entry, b: &[u8], piece: usize) {
  READS.fetch_add(1, Ordering::Relaxed);
  match (e.de_read)(&mut Chopped(b, piece)) {
    Ok(v) => {
      touch(Ok(format!("{v:?}")));
    }
    Err(m) => {
      REJECTED.fetch_add(1, Ordering::Relaxed);
      touch(Err(m));
    }
  }
}

fn exercise(g: &Group, r: &mut Rng) {
  let ty = if r.chance(60) { g.root } else { r.pick(&g.entries).0 };
  let e = g.entries.iter().find(|e| e.0 == ty).unwrap().1;
  let o = gen::Opts { items: 2, depth: 2, ..gen::ORDINARY };
  let v = gen::Gen::new(g, o).value(ty, r);
  WRITES.fetch_add(2, Ordering::Relaxed);
  let Some(text) = touch((e.ser_string)(&v)) else { return };
  match r.below(4) {
    0 => {
      touch((e.ser_config)(&v, Config { indent: true, decl: false, indent_string: Some("\t") }));
    }
    1 => {
      touch((e.ser_content)(&v));
    }
    2 => {
      let n = r.below(text.len() + 1);
      let _ = (e.ser_writer)(&v, &mut Full(n), Config::DEFAULT);
    }
    _ => {
      let mut out = vec![];
      let _ = (e.ser_content_writer)(&v, &mut out);
      std::hint::black_box(out);
    }
  }
  let piece = *r.pick(&[1 << 20, 7]);
  read(&e, text.as_bytes(), piece);
  // the same document in another presentation
  let m = refm::Model::new(g);
  let style = if r.chance(60) { print::WILD } else { print::PLAIN };
  let mut el = m.ser(ty, &v);
  sites::list_attributes(&m, ty, &mut el, r);
  let mut b = print::print(&el, r, style).into_bytes();
  match r.below(4) {
    0 => read(&e, &b, 1 << 20),
    1 => {
      b.truncate(r.below(b.len()));
      read(&e, &b, 1 << 20);
    }
    2 => {
      let at = r.below(b.len());
      b[at] = *r.pick(b"<>&\"' x0\xff\xc3");
      read(&e, &b, 1 << 20);
    }
    _ => {
      let gt: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b'>').collect();
      let at = *r.pick(&gt) + 1;
      b.splice(at..at, r.pick(&["<u><u a=\"1\"/>x</u>", "text", "</x>", "<x>"]).bytes());
      read(&e, &b, 1 << 20);
    }
  }
}

fn main() {
  let args: Vec<String> = std::env::args().skip(1).collect();
  let num = |i: usize| args.get(i).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
  let (seed, slice, slices, rounds, secs) = (num(0), num(1), num(2).max(1), num(3), num(4));
  static SINK: Sink = Sink;
  let _ = log::set_logger(&SINK);
  if slice % 3 == 0 {
    log::set_max_level(log::LevelFilter::Trace);
  }
  let groups = zoo::each();
  let started = Instant::now();
  let next = AtomicUsize::new(0);
  let done = AtomicU64::new(0);
  std::thread::scope(|s| {
    for t in 0..3 {
      let (groups, next, done) = (&groups, &next, &done);
      s.spawn(move || {
        let mut r = Rng::new(&format!("{seed}/{slice}/{t}"));
        loop {
          let n = next.fetch_add(1, Ordering::Relaxed);
          // the threads work on the same type at about the same time
          let at = (n / 3) * slices + slice;
          if at >= groups.len() * rounds || (started.elapsed().as_secs() as usize) > secs {
            return;
          }
          exercise(&groups[at % groups.len()](), &mut r);
          done.fetch_add(1, Ordering::Relaxed);
        }
      });
    }
  });
  println!(
    "OBSERVED groups={} cases={} reads={} writes={} rejected={} bytes={}",
    groups.len(),
    done.load(Ordering::Relaxed),
    READS.load(Ordering::Relaxed),
    WRITES.load(Ordering::Relaxed),
    REJECTED.load(Ordering::Relaxed),
    BYTES.load(Ordering::Relaxed)
  );
}
