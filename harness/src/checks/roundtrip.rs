use super::*;
use crate::gen::{self, Gen, ORDINARY};
use crate::monitor::{fp, job, Worker};
use crate::refm::Model;
use crate::xmlp;

fn gi(ctx: &Arc<Ctx>) -> Vec<usize> {
  (0..ctx.groups.len()).collect()
}

/// Value in, value out.
pub fn c01(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let mut jobs = gi(ctx)
    .into_iter()
    .map(|i| {
      job(ctx.groups[i].name, move |w: &mut Worker| {
        let ctx = w.ctx.clone();
        let g = &ctx.groups[i];
        let n = w.iters(120);
        for k in 0..n {
          if w.out_of_time() {
            return;
          }
          // mostly the root type, which nests the others
          let ty = if k % 4 == 3 { w.rng.pick(&g.entries).0 } else { g.root };
          let mut o = ORDINARY;
          o.items = *w.rng.pick(&[1, 3, 3, 6]);
          let v = Gen::new(g, o).value(ty, &mut w.rng);
          one(w, g, ty, &v);
        }
      })
    })
    .collect::<Vec<_>>();
  jobs.extend(super::flat::fragments(ctx, super::flat::Fragments::RoundTrip));
  jobs.push(job("known findings", super::probes::named_variant));
  jobs.push(job("known findings, namespaces", super::probes::implicit_default_namespace));
  (
    Report {
      rule: "A case is one value of one derived type, serialized with one of six configurations and read back; values are drawn from ordinary, boundary and hostile pools over a fixed matrix of annotations and randomly generated type trees. Non-trivial: the type has content and the value weighs at least 3 nodes. Distinct by (type, serialized text).",
      level: "exploration",
      assumptions: &["Strings hold characters XML 1.0 can carry, without carriage returns; strings in element content carry no surrounding XML white space (the reader trims it by design).", "Options and lists inside enum variants are not empty (the format cannot express them)."],
    },
    jobs,
  )
}

fn one(w: &mut Worker, g: &Group, ty: usize, v: &Val) {
  let (expect, skipped) = gen::survives(&g.types, ty, v);
  if !skipped && expect.as_ref() != Ok(v) {
    w.harness_error("survives");
  }
  let ci = if w.rng.chance(50) { 0 } else { w.rng.below(CONFIGS.len()) };
  let config = if w.rng.chance(40) { None } else { Some(CONFIGS[ci]) };
  let Some(text) = w.ser_ok(g, ty, v, config) else { return };
  let Some(back) = w.de(g, ty, &text) else { return };
  w.eval(gen::weight(v) >= 3, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
  w.sample(|| format!("{}: {text}", g.types[ty].name));
  w.count(if skipped { "values with skipped fields" } else { "values with all fields written" }, 1);
  match (&expect, &back) {
    (Ok(e), Ok(b)) if e == b => {
      let eq = (crate::monitor::entry_of(g, ty).eq)(e, b);
      let has_nan = format!("{e:?}").contains("F32(2143289344)") || format!("{e:?}").contains("F64(9221120237041090560)");
      if !eq && !has_nan {
        w.harness_error("plain values agree, typed ones do not");
      }
    }
    (Err(()), _) => {} // a required field was skipped: C08 judges
    _ => w.violation(
      format!("round trip {}", g.name),
      format!("a {} does not come back\nvalue:    {v:?}\nexpected: {expect:?}\ngot:      {}\nas: {text}", g.types[ty].name, show_r(&back)),
    ),
  }
}

/// The document says what the annotations ask for, judged by an independent XML reader.
pub fn c02(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let written = |w: &mut Worker, g: &Group, m: &Model, k: usize| {
    let ty = super::reading::pick_type(w, g, k);
    let mut o = ORDINARY;
    o.raw = w.rng.chance(50);
    let v = Gen::new(g, o).value(ty, &mut w.rng);
    let config = if w.rng.chance(40) { None } else { Some(*w.rng.pick(CONFIGS)) };
    let loose = config.is_some_and(|c| c.indent);
    let Some(text) = w.ser_ok(g, ty, &v, config) else { return };
    w.eval(gen::weight(&v) >= 3, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
    w.sample(|| format!("{}: {text}", g.types[ty].name));
    let want = m.ser(ty, &v).canon(loose);
    match xmlp::parse(&text) {
      Err(e) => w.violation(format!("ill-formed {}", g.name), format!("not a well-formed document: {e}\nvalue: {v:?}\ntext: {text}")),
      Ok(d) => {
        let got = d.root.canon(loose);
        w.count("elements compared", got.count() as u64);
        if got != want {
          w.violation(
            format!("infoset {}", g.name),
            format!("the document of a {} differs from what its annotations ask for\nvalue: {v:?}\ntext: {text}\nwant: {}\ngot:  {}", g.types[ty].name, show_el(&want), show_el(&got)),
          );
        }
        if d.has_decl != config.is_none_or(|c| c.decl) {
          w.violation("declaration", format!("XML declaration: {}, configured otherwise\ntext: {text}", d.has_decl));
        }
      }
    }
  };
  let mut jobs = super::reading::jobs_over(ctx, written, 120, |_| true);
  jobs.extend(super::reading::jobs_over_writers(ctx, written, 400));
  jobs.extend(super::flat::fragments(ctx, super::flat::Fragments::Written));
  (
    Report {
      rule: "A case is one value of one derived type serialized and read by a strict namespace-aware reader that shares no code with yaserde's; the element tree (expanded names, attributes, text, order) must be the one a reference model derives from the annotations. Non-trivial: the value weighs at least 3 nodes. Distinct by (type, text).",
      level: "exploration",
      assumptions: &["With indentation, white space around text is not compared."],
    },
    jobs,
  )
}
