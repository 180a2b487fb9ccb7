//! Flattened fields: as if their content was written out in place.

use super::reading::{interleave, jobs_over, judge, pollute, style};
use super::*;
use crate::gen::{self, Gen, Opts, ORDINARY};
use crate::monitor::{fp, job, Worker};
use crate::print;
use crate::refm::{Bad, Model};
use crate::sites::{self, walk, Site};
use crate::xmlp::{self, Nd};

/// A value of a type as a value of the type with its flattened structs written out.
fn inline(types: &[TypeDef], ty: usize, v: &Val, out: &mut Vec<Val>) {
  let Kind::Struct(fs) = &types[ty].kind else { unreachable!("harness: not a struct") };
  for (f, x) in fs.iter().zip(v.fields()) {
    if let (Role::Flat, Card::One, Ty::R(r), false, None, None) = (f.role, f.card, &f.ty, f.skip, &f.skip_if, &f.default) {
      if matches!(types[*r].kind, Kind::Struct(_)) {
        inline(types, *r, x, out);
        continue;
      }
    }
    out.push(x.clone());
  }
}

fn inlined(g: &Group, v: &Val) -> Val {
  let mut out = vec![];
  inline(&g.types, g.root, v, &mut out);
  Val::Struct(out)
}

/// Unknown content, missing fields, another order.
pub fn disturb(w: &mut Worker, g: &Group, m: &Model, ty: usize, el: &mut El) -> &'static str {
  let kind = w.rng.below(6);
  let original = el.clone();
  let rng = &mut w.rng;
  if kind == 0 {
    return "as written";
  }
  if kind == 1 || kind == 4 || kind == 5 {
    let pool = sites::names(g);
    let mut uris = sites::uris(g);
    uris.push("urn:foreign".into());
    let rate = *rng.pick(&[10, 40]);
    walk(m, ty, el, &mut |site, e| {
      pollute(m, site, e, rng, &pool, &uris, rate, &original);
    });
  }
  if kind == 2 || kind == 4 {
    let rate = *rng.pick(&[5, 20, 60]);
    walk(m, ty, el, &mut |s, e| {
      if matches!(s, Site::Type(_)) {
        e.attrs.retain(|_| !rng.chance(rate));
        e.kids.retain(|_| !rng.chance(rate));
      }
    });
  }
  if kind == 3 || kind == 5 {
    walk(m, ty, el, &mut |s, e| {
      if matches!(s, Site::Type(_)) && !e.kids.iter().any(|k| matches!(k, Nd::Text(_))) {
        interleave(&mut e.kids, rng);
      }
    });
  }
  ["as written", "with unknown content", "with fields missing", "in another order", "with unknown content and fields missing", "with unknown content in another order"][kind]
}

/// What the jobs on fragments look at
#[derive(Clone, Copy, PartialEq)]
pub enum Fragments {
  RoundTrip,
  Written,
  Read,
  Cut,
}

/// Types flattened as a whole: their documents have no root of their own.
pub fn fragments(ctx: &Arc<Ctx>, what: Fragments) -> Vec<Job> {
  let mut jobs = vec![];
  for (i, g) in ctx.groups.iter().enumerate() {
    if !g.frags.is_empty() {
      jobs.push(job(format!("{} fragments", g.name), move |w: &mut Worker| {
        let ctx = w.ctx.clone();
        let g = &ctx.groups[i];
        let m = Model::new(g);
        for _ in 0..w.iters(300) {
          if w.out_of_time() {
            return;
          }
          let ty = w.rng.pick(&g.frags).0;
          fragment(w, g, &m, ty, what);
        }
      }));
    }
  }
  jobs
}

fn fragment(w: &mut Worker, g: &Group, m: &Model, ty: usize, what: Fragments) {
  let t = &g.types[ty];
  let mut v = Gen::new(g, ORDINARY).value(ty, &mut w.rng);
  if what == Fragments::Cut {
    // such that every `<` and `>` is markup
    v = gen::map_strings(&g.types, &Ty::R(ty), &v, &mut |s| s.replace(['<', '>', '&'], "x"));
  }
  let wrapped = m.ser(ty, &v);
  if what == Fragments::Read {
    // in an element of the type's name, as in the one of a struct
    let mut el = wrapped;
    disturb(w, g, m, ty, &mut el);
    let s = style(&mut w.rng);
    let text = print::print(&el, &mut w.rng, s);
    if judge(w, g, m, ty, &el, &text, "flattened type") {
      w.count("documents of flattened types", 1);
      w.eval(true, fp(&[t.name.as_bytes(), text.as_bytes()]));
    }
    return;
  }
  let Some(text) = w.ser_ok(g, ty, &v, None) else { return };
  w.eval(true, fp(&[t.name.as_bytes(), text.as_bytes()]));
  w.sample(|| format!("{}: {text}", t.name));
  let body = text.trim_start_matches(|c| c != '>').trim_start_matches('>');
  match what {
    Fragments::Written => {
      let got = xmlp::parse(&format!("<{n}>{body}</{n}>", n = t.xml)).map(|d| d.root.canon(false));
      w.count("fragments compared", 1);
      if got.as_ref() != Ok(&wrapped.canon(false)) {
        w.violation(
          format!("fragment written {}", g.name),
          format!("the fragment of a {} differs from what its annotations ask for\nvalue: {v:?}\ngot:  {text}\nwant: {}", t.name, show_el(&wrapped)),
        );
      }
    }
    Fragments::RoundTrip => {
      let inside = format!("<{n}>{body}</{n}>", n = t.xml);
      for (doc, how) in [(&text, "as written"), (&inside, "in an element of its name")] {
        let Some(back) = w.de(g, ty, doc) else { return };
        w.count(&format!("fragments read back {how}"), 1);
        if back != Ok(v.clone()) {
          w.violation(
            format!("fragment {} {how}", g.name),
            format!("a {} does not come back from its fragment, {how}\nvalue: {v:?}\ngot:   {}\nas: {doc}", t.name, show_r(&back)),
          );
        }
      }
    }
    _ => {
      // inside of an element, or of its tags
      let depth_at = |at: usize| -> i32 {
        let part = &text[..at];
        let open = part.rfind('<').filter(|i| !part[*i..].contains('>'));
        let closed = &part[..open.unwrap_or(part.len())];
        let ends = closed.matches("</").count() as i32;
        let empty = closed.matches("/>").count() as i32;
        let starts = closed.matches('<').count() as i32 - ends - closed.matches("<!").count() as i32 - closed.matches("<?").count() as i32;
        let d = starts - ends - empty;
        if open.is_some() { d.max(1) } else { d }
      };
      let head = text.len() - body.len();
      let step = (text.len() / 800).max(1);
      for at in (head..text.len()).filter(|i| text.is_char_boundary(*i)) {
        if step > 1 && w.rng.below(step * if text.len() > 20_000 { 20 } else { 1 }) != 0 {
          continue;
        }
        if depth_at(at) <= 0 {
          continue;
        }
        w.count("fragments cut inside of an element", 1);
        let part = &text[..at];
        if let Some(Ok(got)) = w.de(g, ty, part) {
          w.violation(format!("truncated fragment {}", g.name), format!("a fragment cut off at byte {at} is read as {got:?}\ncut:  {part}\nfull: {text}"));
        }
      }
    }
  }
}

/// What is written holds what the model says: all of it, or its elements and attributes by name
pub fn written(w: &mut Worker, g: &Group, m: &Model, k: usize, o: Opts, names_only: bool, what: &str) {
  let ty = super::reading::pick_type(w, g, k);
  let v = Gen::new(g, o).value(ty, &mut w.rng);
  let config = if w.rng.chance(60) { None } else { Some(*w.rng.pick(CONFIGS)) };
  let loose = config.is_some_and(|c| c.indent);
  let Some(text) = w.ser_ok(g, ty, &v, config) else { return };
  w.eval(true, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
  w.count("documents written as the model says", 1);
  let want = m.ser(ty, &v);
  match xmlp::parse(&text) {
    Err(e) => w.violation(format!("ill-formed {}", g.name), format!("not a well-formed document: {e}\nvalue: {v:?}\ntext: {text}")),
    Ok(d) if names_only && d.root.skeleton() == want.skeleton() => {}
    Ok(d) if !names_only && d.root.canon(loose) == want.canon(loose) => {}
    Ok(_) => w.violation(
      format!("written {}", g.name),
      format!("a {} is not written with its {what} as its annotations ask for\nvalue: {v:?}\ntext: {text}\nwant: {}", g.types[ty].name, show_el(&want)),
    ),
  }
}

pub fn c09(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let has_flat = |g: &Group| {
    g.types.iter().any(|t| match &t.kind {
      Kind::Struct(fs) => fs.iter().any(|f| f.role == Role::Flat),
      _ => false,
    })
  };
  let mut jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let v = Gen::new(g, ORDINARY).value(g.root, &mut w.rng);
      // what the model says of the type with flattened fields
      if k % 3 == 0 {
        let mut el = m.ser(g.root, &v);
        let what = disturb(w, g, m, g.root, &mut el);
        let s = style(&mut w.rng);
        let text = print::print(&el, &mut w.rng, s);
        if judge(w, g, m, g.root, &el, &text, "flattened fields") {
          w.count(&format!("judged by the model, {what}"), 1);
          w.eval(true, fp(&[g.name.as_bytes(), text.as_bytes()]));
        }
        return;
      }
      if k % 3 == 1 {
        written(w, g, m, k / 3, ORDINARY, false, "flattened fields");
      }
      let Some(pair) = g.pair else { return };
      let flat = inlined(g, &v);
      if k % 3 == 1 {
        let (Some(a), Some(b)) = (w.ser_ok(g, g.root, &v, None), w.ser_ok(g, pair, &flat, None)) else { return };
        w.eval(true, fp(&[g.name.as_bytes(), a.as_bytes()]));
        w.sample(|| format!("{}: {a}", g.types[g.root].name));
        match (xmlp::parse(&a), xmlp::parse(&b)) {
          (Ok(x), Ok(y)) if x.root.canon(false) == y.root.canon(false) => w.count("documents written alike", 1),
          (Err(e), _) | (_, Err(e)) => w.violation(format!("ill-formed {}", g.name), format!("{e}\n{a}\n{b}")),
          _ => w.violation(
            format!("written {}", g.name),
            format!("a {} is not written as if its flattened fields were written out\nvalue: {v:?}\nflattened:   {a}\nwritten out: {b}", g.types[g.root].name),
          ),
        }
        return;
      }
      let mut el = m.ser(g.root, &v);
      let what = disturb(w, g, m, g.root, &mut el);
      // repeated scalars and the like are nobody's to judge
      if matches!(m.de(pair, &el), Err(Bad::Unspec(_))) {
        return;
      }
      let s = style(&mut w.rng);
      let text = print::print(&el, &mut w.rng, s);
      let (Some(a), Some(b)) = (w.de(g, g.root, &text), w.de(g, pair, &text)) else { return };
      w.count(&format!("compared with the fields written out, {what}"), 1);
      w.eval(true, fp(&[g.name.as_bytes(), text.as_bytes()]));
      w.sample(|| format!("{}: {text}", g.types[g.root].name));
      let same = match (&a, &b) {
        (Ok(x), Ok(y)) => inlined(g, x) == *y,
        (Err(_), Err(_)) => true,
        _ => false,
      };
      if !same {
        w.violation(
          format!("read {}", g.name),
          format!("a {} is not read as if its flattened fields were written out\nflattened:   {}\nwritten out: {}\ndocument: {text}", g.types[g.root].name, show_r(&a), show_r(&b)),
        );
      }
    },
    400,
    has_flat,
  );
  jobs.extend(fragments(ctx, Fragments::Read));
  jobs.extend(fragments(ctx, Fragments::Written));
  jobs.extend(super::reading::jobs_over_writers(
    ctx,
    |w: &mut Worker, g: &Group, m: &Model, k: usize| {
      if g.feats.contains(&"flatten") {
        written(w, g, m, k, ORDINARY, false, "flattened fields")
      }
    },
    300,
  ));
  jobs.push(job("known findings", super::probes::nested_fragment));
  (
    Report {
      rule: "A case is a value or document of a type with flattened fields, compared with the same type whose flattened structs are written out in place (both derived, both run): equal documents for equal values, equal values (or errors) for equal documents, ordinary, reordered, with unknown content and with fields missing; optional flattened fields, flattened enums and types flattened as a whole are judged by the model, in what is read and what is written. Distinct by (group, text).",
      level: "exploration",
      assumptions: &["Where a flattened struct and the struct holding it both claim a name is not explored."],
    },
    jobs,
  )
}
