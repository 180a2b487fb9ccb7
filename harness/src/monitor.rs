//! Running the code under observation: guards, verdicts, evidence.

use crate::rng::{hash, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use ymcore::*;

pub struct Known {
  pub prop: String,
  pub key: String,
  pub text: String,
}

pub struct Violation {
  pub sig: String,
  pub job: String,
  pub detail: String,
}

#[derive(Default)]
pub struct Shared {
  pub evals: u64,
  pub distinct: HashSet<u64>,
  pub counters: BTreeMap<String, u64>,
  pub samples: Vec<String>,
  pub violations: Vec<Violation>,
  pub total_violations: u64,
  pub known_hits: BTreeMap<String, String>,
  pub harness_errors: Vec<String>,
  pub windows: HashSet<u64>,
}

/// What a worker thread is doing, for the watchdog.
#[derive(Default)]
pub struct Slot {
  /// Serial number of the guarded call, 0 when outside
  pub serial: AtomicU64,
  pub clock: AtomicU64,
  pub case: Mutex<(String, String)>,
}

pub struct Ctx {
  pub prop: String,
  pub tier: String,
  pub seed: u64,
  pub thorough: bool,
  pub groups: Vec<Group>,
  /// groups of types that only derive serialization
  pub writers: Vec<Group>,
  pub known: Vec<Known>,
  pub started: Instant,
  pub budget: Duration,
  pub shared: Mutex<Shared>,
  pub slots: Vec<Slot>,
  pub next: AtomicUsize,
  pub truncated: AtomicUsize,
  pub journal: Option<String>,
  /// Only this round (for replays)
  pub only_round: Option<usize>,
}

/// Cases per type group and property, so that every property gets its share of a quick run.
fn weight_of(prop: &str) -> usize {
  match prop {
    "C01" | "C02" => 10,
    "C03" | "C15" | "C21" => 8,
    "C07" => 6,
    "C05" | "C08" | "C09" | "C10" | "C11" | "C17" | "C19" | "C20" | "C04" => 4,
    "C14" => 2,
    _ => 1,
  }
}

pub type Run = Box<dyn Fn(&mut Worker) + Send + Sync>;

pub struct Job {
  pub name: String,
  pub run: Run,
}

pub fn job(name: impl Into<String>, run: impl Fn(&mut Worker) + Send + Sync + 'static) -> Job {
  Job {
    name: name.into(),
    run: Box::new(run),
  }
}

pub struct Worker {
  pub ctx: Arc<Ctx>,
  pub rng: Rng,
  pub job: String,
  /// The thorough tier runs all jobs again and again with other random choices
  pub round: usize,
  slot: usize,
  evals: u64,
  distinct: HashSet<u64>,
  counters: BTreeMap<String, u64>,
  samples: Vec<String>,
}

pub enum Out<T> {
  Done(T),
  Panic(String),
  Hang(String),
}

thread_local! {
  static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
  static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
  let default = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |info| {
    let msg = info
      .payload()
      .downcast_ref::<&str>()
      .map(|s| s.to_string())
      .or_else(|| info.payload().downcast_ref::<String>().cloned())
      .unwrap_or_else(|| "?".into());
    let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {at}")));
    if !GUARDED.with(|g| g.get()) {
      default(info);
    }
  }));
}

/// Runs `f`, turning panics and exhausted step budgets into values.
pub fn guard<T>(budget: u64, f: impl FnOnce() -> T) -> Out<T> {
  yaserde::verif::start(budget);
  GUARDED.with(|g| g.set(true));
  PANIC.with(|p| *p.borrow_mut() = None);
  let r = catch_unwind(AssertUnwindSafe(f));
  GUARDED.with(|g| g.set(false));
  match r {
    Ok(v) => Out::Done(v),
    Err(_) => {
      let msg = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
      if msg.starts_with("yaserde_verif: step budget") {
        Out::Hang(msg)
      } else {
        Out::Panic(msg)
      }
    }
  }
}

pub fn default_budget(len: usize) -> u64 {
  400 * len as u64 + 50_000
}

extern "C" {
  fn pthread_self() -> usize;
  fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
  fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
}

fn my_clock() -> i32 {
  let mut c = 0;
  unsafe {
    pthread_getcpuclockid(pthread_self(), &mut c);
  }
  c
}

fn clock_ms(c: i32) -> u64 {
  let mut t = [0i64; 2];
  unsafe {
    clock_gettime(c, &mut t);
  }
  (t[0] * 1000 + t[1] / 1_000_000) as u64
}

impl Worker {
  fn new(ctx: Arc<Ctx>, slot: usize) -> Worker {
    Worker {
      ctx,
      rng: Rng::new(""),
      job: String::new(),
      round: 0,
      slot,
      evals: 0,
      distinct: HashSet::new(),
      counters: BTreeMap::new(),
      samples: vec![],
    }
  }

  /// Iterations of one round
  pub fn iters(&self, n: usize) -> usize {
    n * weight_of(&self.ctx.prop)
  }

  pub fn out_of_time(&self) -> bool {
    let over = self.ctx.started.elapsed() > self.ctx.budget;
    if over {
      self.ctx.truncated.store(1, Ordering::Relaxed);
    }
    over
  }

  /// One case was run and judged.
  pub fn eval(&mut self, nontrivial: bool, fingerprint: u64) {
    self.evals += 1;
    if nontrivial {
      self.distinct.insert(fingerprint);
    }
  }

  pub fn count(&mut self, key: &str, n: u64) {
    match self.counters.get_mut(key) {
      Some(c) => *c += n,
      None => {
        self.counters.insert(key.to_string(), n);
      }
    }
  }

  pub fn max(&mut self, key: &str, n: u64) {
    let key = format!("max {key}");
    let c = self.counters.entry(key).or_insert(0);
    *c = (*c).max(n);
  }

  pub fn sample(&mut self, s: impl FnOnce() -> String) {
    if self.samples.len() < 2 && self.evals % 37 == 1 {
      let s = s();
      self.samples.push(if s.len() > 1500 {
        format!("{} …", s.chars().take(700).collect::<String>())
      } else {
        s
      });
    }
  }

  pub fn violation(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
    let sig = sig.into();
    let mut s = self.ctx.shared.lock().unwrap();
    s.total_violations += 1;
    if s.violations.len() < 40 && s.violations.iter().filter(|v| v.sig == sig).count() < 2 {
      s.violations.push(Violation {
        sig,
        job: self.job.clone(),
        detail: detail.into(),
      });
    }
  }

  /// A recorded finding: `held` if the property holds on the probe, `as_recorded` if it fails exactly
  /// the way the known-findings file says.
  pub fn probe(&mut self, key: &str, held: bool, as_recorded: bool, detail: String) {
    self.evals += 1;
    if held {
      return;
    }
    let known = self
      .ctx
      .known
      .iter()
      .find(|k| k.prop == self.ctx.prop && k.key == key)
      .map(|k| k.text.clone());
    match known {
      Some(text) if as_recorded => {
        self.ctx.shared.lock().unwrap().known_hits.insert(key.to_string(), text);
      }
      _ => self.violation(format!("probe {key}"), detail),
    }
  }

  pub fn harness_error(&self, e: impl Into<String>) {
    let mut s = self.ctx.shared.lock().unwrap();
    if s.harness_errors.len() < 20 {
      s.harness_errors.push(format!("{}: {}", self.job, e.into()));
    }
  }

  /// A call into the code under observation. `what` and `input` go to the journal and the watchdog.
  pub fn call<T>(&mut self, what: &str, input: &[u8], budget: u64, f: impl FnOnce() -> T) -> Out<T> {
    let ctx = self.ctx.clone();
    let slot = &ctx.slots[self.slot];
    {
      let mut c = slot.case.lock().unwrap();
      c.0.clear();
      c.0.push_str(&self.job);
      c.0.push_str(": ");
      c.0.push_str(what);
      c.1.clear();
      c.1.push_str(&String::from_utf8_lossy(&input[..input.len().min(if ctx.journal.is_some() { 20_000_000 } else { 200_000 })]));
    }
    if let Some(dir) = &ctx.journal {
      let c = slot.case.lock().unwrap();
      let _ = std::fs::write(format!("{dir}/{}", self.slot), format!("{}\n{}", c.0, c.1));
    }
    slot.serial.fetch_add(1, Ordering::SeqCst);
    crate::alloc::limit(true);
    let r = guard(budget, f);
    crate::alloc::limit(false);
    slot.serial.fetch_add(1, Ordering::SeqCst);
    if let Some(dir) = &ctx.journal {
      let _ = std::fs::remove_file(format!("{dir}/{}", self.slot));
    }
    if let Out::Panic(m) = &r {
      if m.starts_with("harness:") {
        self.harness_error(m.clone());
      }
    }
    let c = yaserde::verif::counters();
    self.count("reader events observed", c.events);
    self.count("reader peeks observed", c.peeks);
    self.count("writer events observed", c.writes);
    self.max("element depth", c.max_depth as u64);
    self.max("peeks between two events", c.max_idle_peeks);
    r
  }

  /// As `call`, but a panic or an unbounded number of steps is a violation.
  pub fn total<T>(&mut self, what: &str, input: &[u8], f: impl FnOnce() -> T) -> Option<T> {
    match self.call(what, input, default_budget(input.len()), f) {
      Out::Done(v) => Some(v),
      Out::Panic(m) => {
        let at = m.rsplit(" @ ").next().unwrap_or("").to_string();
        self.violation(format!("panic {at}"), format!("{what} panicked: {m}\ninput:\n{}", String::from_utf8_lossy(input)));
        None
      }
      Out::Hang(m) => {
        self.violation(format!("hang {what}"), format!("{what} does not terminate: {m}\ninput:\n{}", String::from_utf8_lossy(input)));
        None
      }
    }
  }

  pub fn de(&mut self, g: &Group, ty: usize, doc: &str) -> Option<Result<Val, String>> {
    let e = entry_of(g, ty);
    let what = format!("from_str::<{}>", g.types[ty].name);
    self.total(&what, doc.as_bytes(), || (e.de_str)(doc))
  }

  pub fn de_bytes(&mut self, g: &Group, ty: usize, doc: &[u8]) -> Option<Result<Val, String>> {
    let e = entry_of(g, ty);
    let what = format!("from_reader::<{}>", g.types[ty].name);
    self.total(&what, doc, || (e.de_read)(&mut &doc[..]))
  }

  pub fn ser(&mut self, g: &Group, ty: usize, v: &Val, c: Option<Config>) -> Option<Result<String, String>> {
    let e = entry_of(g, ty);
    let what = format!("to_string(&{})", g.types[ty].name);
    let shown = format!("{v:?}");
    self.total(&what, shown.as_bytes(), || match c {
      None => (e.ser_string)(v),
      Some(c) => (e.ser_config)(v, c),
    })
  }

  /// Serialization that has no reason to fail.
  pub fn ser_ok(&mut self, g: &Group, ty: usize, v: &Val, c: Option<Config>) -> Option<String> {
    match self.ser(g, ty, v, c)? {
      Ok(s) => Some(s),
      Err(m) => {
        self.violation(format!("ser error {}", g.name), format!("serializing a {} failed: {m}\nvalue: {v:?}", g.types[ty].name));
        None
      }
    }
  }

  fn flush(&mut self) {
    let mut s = self.ctx.shared.lock().unwrap();
    s.evals += self.evals;
    s.distinct.extend(self.distinct.drain());
    for (k, v) in std::mem::take(&mut self.counters) {
      let e = s.counters.entry(k.clone()).or_insert(0);
      if k.starts_with("max ") {
        *e = (*e).max(v);
      } else {
        *e += v;
      }
    }
    for x in self.samples.drain(..) {
      if s.samples.len() < 8 {
        s.samples.push(x);
      }
    }
    self.evals = 0;
  }
}

pub fn entry_of(g: &Group, ty: usize) -> Entry {
  g.entries.iter().chain(&g.frags).find(|e| e.0 == ty).expect("harness: no entry").1
}

pub fn fp(parts: &[&[u8]]) -> u64 {
  let mut h = 0u64;
  for p in parts {
    h = h.rotate_left(17) ^ hash(p);
  }
  h
}

const MAX_ROUNDS: usize = 60;
const HANG_MS: u64 = 40_000;

/// Runs all jobs; returns when done. The watchdog ends the process if a call does not come back.
pub fn run(ctx: &Arc<Ctx>, jobs: Vec<Job>, filter: Option<&str>) {
  let jobs: Vec<Job> = jobs.into_iter().filter(|j| filter.is_none_or(|f| j.name == f)).collect();
  let jobs = Arc::new(jobs);
  let done = Arc::new(AtomicUsize::new(0));
  let n = ctx.slots.len();
  let mut handles = vec![];
  for slot in 0..n {
    let ctx = ctx.clone();
    let jobs = jobs.clone();
    let done = done.clone();
    handles.push(
      std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
          ctx.slots[slot].clock.store(my_clock() as u32 as u64, Ordering::SeqCst);
          let mut w = Worker::new(ctx.clone(), slot);
          loop {
            let n = ctx.next.fetch_add(1, Ordering::SeqCst);
            let (round, i) = (ctx.only_round.unwrap_or(0) + n / jobs.len().max(1), n % jobs.len().max(1));
            let last = if ctx.thorough && ctx.only_round.is_none() { MAX_ROUNDS } else { 1 };
            if jobs.is_empty() || n >= jobs.len() * last || (round > 0 && w.out_of_time()) {
              break;
            }
            w.rng = Rng::new(&format!("{}/{}/{}/{round}", ctx.seed, ctx.prop, jobs[i].name));
            w.round = round;
            w.job = if round > 0 { format!("{}' --round '{round}", jobs[i].name) } else { jobs[i].name.clone() };
            let r = catch_unwind(AssertUnwindSafe(|| (jobs[i].run)(&mut w)));
            if r.is_err() {
              let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
              w.harness_error(format!("job panicked: {m}"));
            }
            w.max("rounds over all types", round as u64 + 1);
            w.flush();
          }
          w.count("distinct windows of six reader events (per thread, summed)", yaserde::verif::distinct_windows() as u64);
          w.flush();
          done.fetch_add(1, Ordering::SeqCst);
        })
        .expect("harness: thread"),
    );
  }
  let mut seen: Vec<(u64, u64)> = vec![(0, 0); n];
  while done.load(Ordering::SeqCst) < n {
    std::thread::sleep(Duration::from_millis(50));
    for (i, slot) in ctx.slots.iter().enumerate() {
      let serial = slot.serial.load(Ordering::SeqCst);
      if serial % 2 == 0 || handles[i].is_finished() {
        continue;
      }
      let now = clock_ms(slot.clock.load(Ordering::SeqCst) as u32 as i32);
      if seen[i].0 != serial {
        seen[i] = (serial, now);
      } else if now.saturating_sub(seen[i].1) > HANG_MS {
        let (what, input) = slot.case.lock().unwrap().clone();
        let mut s = ctx.shared.lock().unwrap();
        s.total_violations += 1;
        s.violations.push(Violation {
          sig: "hang (cpu)".into(),
          job: what.split(':').next().unwrap_or("").to_string(),
          detail: format!("{what} used {HANG_MS} ms of CPU time without returning\ninput:\n{input}"),
        });
        return;
      }
    }
  }
  for h in handles {
    let _ = h.join();
  }
}

pub fn json(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 || c == '\u{2028}' || c == '\u{2029}' || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

pub struct Report {
  pub rule: &'static str,
  pub level: &'static str,
  pub assumptions: &'static [&'static str],
}

/// Writes the evidence, prints the verdict, returns the exit code.
pub fn finish(ctx: &Ctx, r: &Report, dir: &str) -> i32 {
  let s = ctx.shared.lock().unwrap();
  let counters: Vec<String> = s.counters.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
  let samples: Vec<String> = s.samples.iter().map(|x| json(x)).collect();
  let groups: usize = ctx.groups.len();
  let types: usize = ctx.groups.iter().map(|g| g.types.len()).sum();
  let body = format!(
    "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"type_groups\": {groups},\n    \"derived_types\": {types},\n    \"truncated_by_time\": {},\n    \"known_findings_seen\": {},\n    \"observed\": {{{}}}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
    json(&ctx.prop),
    json(&ctx.tier),
    ctx.seed,
    json(r.level),
    s.evals,
    s.distinct.len(),
    json(r.rule),
    samples.join(", "),
    ctx.truncated.load(Ordering::SeqCst) > 0,
    s.known_hits.len(),
    counters.join(", "),
    r.assumptions.iter().map(|a| json(a)).collect::<Vec<_>>().join(", "),
    ctx.started.elapsed().as_secs_f64(),
    s.total_violations,
  );
  let _ = std::fs::create_dir_all(dir);
  std::fs::write(format!("{dir}/{}.json", ctx.prop), body).expect("harness: evidence");
  for t in s.known_hits.values() {
    println!("KNOWN-FINDING: property={} {t}", ctx.prop);
  }
  println!(
    "{}: {} cases, {} distinct, {} violations, {:.1}s",
    ctx.prop,
    s.evals,
    s.distinct.len(),
    s.total_violations,
    ctx.started.elapsed().as_secs_f64()
  );
  for e in &s.harness_errors {
    println!("HARNESS-ERROR {e}");
  }
  if !s.violations.is_empty() {
    let rdir = format!("{dir}/replay");
    let _ = std::fs::create_dir_all(&rdir);
    for (i, v) in s.violations.iter().enumerate() {
      let path = format!("{rdir}/{}-{}.txt", ctx.prop, i);
      let text = format!(
        "property {}\nsignature: {}\nreplay: VERIF_SEED={} /verif/check.sh {} {} --job '{}'\n\n{}\n",
        ctx.prop, v.sig, ctx.seed, ctx.prop, ctx.tier, v.job, v.detail
      );
      let _ = std::fs::write(&path, text);
      if i < 5 {
        println!("  [{}] {}", v.sig, v.detail.lines().next().unwrap_or("").chars().take(300).collect::<String>());
        println!("VIOLATION property={} replay={path}", ctx.prop);
      }
    }
    return 1;
  }
  if !s.harness_errors.is_empty() {
    return 3;
  }
  if s.evals == 0 || s.distinct.len() < 2 {
    println!("INCONCLUSIVE: nothing was observed");
    return 3;
  }
  0
}
