mod alloc;
mod checks;
mod gen;
mod monitor;
mod print;
mod refm;
mod rng;
mod sites;
mod xmlp;

use monitor::*;
use std::sync::atomic::AtomicUsize;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use ymcore::Group;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn groups() -> Vec<Group> {
  let mut v = vec![];
  v.extend(zoo0::groups());
  v.extend(zoo1::groups());
  v.extend(zoo2::groups());
  v.extend(zoo3::groups());
  v.extend(zoo4::groups());
  v.extend(zoo5::groups());
  v.sort_by_key(|g| g.name);
  v
}

fn known(path: &str) -> Vec<Known> {
  let mut v = vec![];
  for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
    let Some(rest) = line.strip_prefix("known: property=") else { continue };
    let mut it = rest.splitn(3, ' ');
    let prop = it.next().unwrap_or("").to_string();
    let key = it.next().unwrap_or("").trim_start_matches("key=").to_string();
    v.push(Known {
      prop,
      key: key.clone(),
      text: format!("[{key}] {}", it.next().unwrap_or("")),
    });
  }
  v
}

fn arg(args: &[String], name: &str) -> Option<String> {
  args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn child(args: &[String]) -> i32 {
  let prop = args[0].clone();
  let tier = arg(args, "--tier").unwrap_or("quick".into());
  let seed = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
  let verif = arg(args, "--verif").unwrap_or("/verif".into());
  let filter = arg(args, "--job");
  let secs = arg(args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 500 } else { 90 });
  let journal = arg(args, "--journal");
  install_panic_hook();
  let mut groups = groups();
  if let Some(p) = arg(args, "--group") {
    groups.retain(|g| g.name == p);
  }
  let (writers, groups) = groups.into_iter().partition(|g| g.feats.contains(&"write"));
  let threads = if journal.is_some() { 2 } else { 8 };
  let ctx = Arc::new(Ctx {
    prop,
    thorough: tier == "thorough",
    tier,
    seed,
    groups,
    writers,
    known: known(&format!("{verif}/known_findings.txt")),
    started: Instant::now(),
    budget: Duration::from_secs(secs),
    shared: Mutex::default(),
    slots: (0..threads).map(|_| Slot::default()).collect(),
    next: AtomicUsize::new(0),
    truncated: AtomicUsize::new(0),
    journal,
    only_round: arg(args, "--round").and_then(|s| s.parse().ok()),
  });
  let Some((report, jobs)) = checks::build(&ctx) else {
    println!("no such property: {}", ctx.prop);
    return 3;
  };
  monitor::run(&ctx, jobs, filter.as_deref());
  monitor::finish(&ctx, &report, &format!("{verif}/evidence"))
}

fn main() {
  let args: Vec<String> = std::env::args().skip(1).collect();
  if args.is_empty() {
    println!("{} groups", groups().len());
    return;
  }
  if args[0] == "--try" {
    // reads a document as one of the types of the zoo
    for g in groups() {
      if let Some(ty) = g.types.iter().position(|t| t.name == args[1]) {
        println!("{:?}", (monitor::entry_of(&g, ty).de_str)(&args[2]));
      }
    }
    return;
  }
  if std::env::var_os("YAMON_CHILD").is_some() {
    let code = child(&args);
    // threads that do not come back are left behind
    std::process::exit(code);
  }
  use std::os::unix::process::ExitStatusExt;
  let exe = std::env::current_exe().expect("harness: exe");
  let spawn = |extra: &[String]| {
    std::process::Command::new(&exe).args(&args).args(extra).env("YAMON_CHILD", "1").status().expect("harness: spawn")
  };
  let status = spawn(&[]);
  if let Some(code) = status.code() {
    std::process::exit(code);
  }
  let sig = status.signal().unwrap_or(0);
  println!("the monitored process was ended by signal {sig}");
  // SIGILL, SIGABRT, SIGBUS, SIGSEGV: the code under observation crashed (stack or heap exhausted, abort)
  if ![4, 6, 7, 11].contains(&sig) {
    std::process::exit(3);
  }
  let verif = arg(&args, "--verif").unwrap_or("/verif".into());
  let dir = format!("{verif}/evidence/replay/journal-{}", args[0]);
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).expect("harness: journal");
  let again = spawn(&["--journal".into(), dir.clone(), "--budget".into(), "400".into()]);
  let mut cases = vec![];
  for f in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
    cases.push(std::fs::read_to_string(f.path()).unwrap_or_default());
  }
  if again.signal().is_none() || cases.is_empty() {
    println!("INCONCLUSIVE: the crash did not happen again");
    std::process::exit(3);
  }
  let path = format!("{verif}/evidence/replay/{}-crash.txt", args[0]);
  let _ = std::fs::write(
    &path,
    format!("property {}\nthe process crashed with signal {sig} while running one of:\n{}\n", args[0], cases.join("\n----\n")),
  );
  println!("VIOLATION property={} replay={path}", args[0]);
  std::process::exit(1);
}
