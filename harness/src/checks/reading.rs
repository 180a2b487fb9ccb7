//! Documents in, values out, judged by the reference model.

use super::*;
use crate::gen::{Gen, Opts, ORDINARY};
use crate::monitor::{fp, job, Worker};
use crate::print::{self, encodings, Style, PLAIN, WILD};
use crate::refm::{ns_of, unit_text, Bad, Model};
use crate::rng::Rng;
use crate::sites::{self, child_type, reads, walk, Site};
use crate::xmlp::{self, Nd, QName};

/// A value and the document it stands for.
pub fn document(w: &mut Worker, g: &Group, m: &Model, ty: usize, o: Opts) -> (Val, El) {
  let v = Gen::new(g, o).value(ty, &mut w.rng);
  let el = m.ser(ty, &v);
  (v, el)
}

pub fn pick_type(w: &mut Worker, g: &Group, k: usize) -> usize {
  if k % 4 == 3 {
    w.rng.pick(&g.entries).0
  } else {
    g.root
  }
}

/// Reads `text`, which is one way to write `el`, and compares with the model. False if it judged nothing.
pub fn judge(w: &mut Worker, g: &Group, m: &Model, ty: usize, el: &El, text: &str, what: &str) -> bool {
  let want = m.de(ty, el);
  if let Err(Bad::Unspec(u)) = &want {
    w.count(&format!("not judged: {u}"), 1);
    return false;
  }
  let Some(got) = w.de(g, ty, text) else { return true };
  compare(w, g, ty, &want, &got, text, what);
  true
}

pub fn compare(w: &mut Worker, g: &Group, ty: usize, want: &Result<Val, Bad>, got: &Result<Val, String>, text: &str, what: &str) {
  match (want, got) {
    (Ok(a), Ok(b)) if a == b => w.count("documents accepted as the model says", 1),
    (Err(_), Err(_)) => w.count("documents rejected as the model says", 1),
    _ => w.violation(
      format!("{what} {}", g.name),
      format!("{what}: {} read differently from what its annotations say\nexpected: {want:?}\ngot:      {}\ndocument: {text}", g.types[ty].name, show_r(got)),
    ),
  }
}

pub fn style(r: &mut Rng) -> Style {
  if r.chance(40) {
    PLAIN
  } else {
    WILD
  }
}

pub fn jobs_over(ctx: &Arc<Ctx>, f: impl Fn(&mut Worker, &Group, &Model, usize) + Send + Sync + 'static + Clone, n: usize, only: impl Fn(&Group) -> bool) -> Vec<Job> {
  (0..ctx.groups.len())
    .filter(|i| only(&ctx.groups[*i]))
    .map(|i| {
      let f = f.clone();
      job(ctx.groups[i].name, move |w: &mut Worker| {
        let ctx = w.ctx.clone();
        let g = &ctx.groups[i];
        let m = Model::new(g);
        for k in 0..w.iters(n) {
          if w.out_of_time() {
            return;
          }
          f(w, g, &m, k);
        }
      })
    })
    .collect()
}

/// The groups that are only written
pub fn jobs_over_writers(ctx: &Arc<Ctx>, f: impl Fn(&mut Worker, &Group, &Model, usize) + Send + Sync + 'static + Clone, n: usize) -> Vec<Job> {
  (0..ctx.writers.len())
    .map(|i| {
      let f = f.clone();
      job(format!("{} (only written)", ctx.writers[i].name), move |w: &mut Worker| {
        let ctx = w.ctx.clone();
        let g = &ctx.writers[i];
        let m = Model::new(g);
        for k in 0..w.iters(n) {
          if w.out_of_time() {
            return;
          }
          f(w, g, &m, k);
        }
      })
    })
    .collect()
}

/// The same document written differently.
pub fn c04(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let mut jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let ty = pick_type(w, g, k);
      let (_, el) = document(w, g, m, ty, ORDINARY);
      let want = m.de(ty, &el);
      if matches!(want, Err(Bad::Unspec(_))) {
        w.count("not judged", 1);
        return;
      }
      let ways = 4;
      for i in 0..ways {
        let text = if i == 0 {
          print::plain(&el)
        } else {
          let mut s = WILD;
          // one dimension at a time, then all
          match w.rng.below(10) {
            0 => s = Style { prefixes: 80, ..PLAIN },
            1 => s = Style { refs: 60, quotes: 50, ..PLAIN },
            2 => s = Style { cdata: 60, ..PLAIN },
            3 => s = Style { comments: 60, ..PLAIN },
            4 => s = Style { ws: 80, ..PLAIN },
            5 => s = Style { shuffle: 100, prolog: 100, pis: 50, ..PLAIN },
            _ => {}
          }
          print::print(&el, &mut w.rng, s)
        };
        // the printer is checked by the strict reader
        match crate::xmlp::parse(&text) {
          Ok(d) if d.root.canon(true) == el.canon(true) => {}
          Ok(d) => w.harness_error(format!("printer: {text}\nwant {:?}\ngot {:?}", el.canon(true), d.root.canon(true))),
          Err(e) => w.harness_error(format!("printer: {e}: {text}")),
        }
        let got = if i == 3 {
          let (enc, bytes) = encodings(&text, &mut w.rng);
          w.count(&format!("encoding {enc}"), 1);
          w.de_bytes(g, ty, &bytes)
        } else {
          w.de(g, ty, &text)
        };
        let Some(got) = got else { continue };
        w.eval(el.count() + el.attrs.len() >= 2, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
        w.sample(|| format!("{}: {text}", g.types[ty].name));
        compare(w, g, ty, &want, &got, &text, if i == 0 { "plain presentation" } else { "presentation" });
      }
    },
    60,
    |_| true,
  );
  jobs.push(job("probes", |w: &mut Worker| super::probes::presentation(w)));
  (
    Report {
      rule: "A case is one document for one derived type in one presentation: prefixes and default namespaces (redeclared, shadowed, unused), quoting, character references, CDATA, comments, processing instructions between elements, white space, self-closing tags, attribute order, prolog, byte order marks, UTF-16 and Latin-1. All presentations must give the value the model gives. Non-trivial: at least two elements or attributes. Distinct by (type, text).",
      level: "exploration",
      assumptions: &["Comments touching white space inside of text, and processing instructions inside of text, are not generated (known finding)."],
    },
    jobs,
  )
}

/// Unknown attributes and elements are ignored.
pub fn c05(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let ty = pick_type(w, g, k);
      let (_, el) = document(w, g, m, ty, ORDINARY);
      let want = m.de(ty, &el);
      if matches!(want, Err(Bad::Unspec(_))) {
        return;
      }
      let pool = sites::names(g);
      let mut uris = sites::uris(g);
      uris.push("urn:foreign".into());
      let rate = *w.rng.pick(&[10, 40, 90]);
      let mut noisy = el.clone();
      let mut added = 0;
      let original = el.clone();
      let rng = &mut w.rng;
      walk(m, ty, &mut noisy, &mut |site, e| added += pollute(m, site, e, rng, &pool, &uris, rate, &original));
      if added == 0 {
        return;
      }
      if m.de(ty, &noisy) != want {
        if !matches!(m.de(ty, &noisy), Err(Bad::Unspec(_))) {
          w.harness_error(format!("noise changes the model's mind\n{}\n{}", show_el(&el), show_el(&noisy)));
        }
        w.count("not judged", 1);
        return;
      }
      let s = style(&mut w.rng);
      let text = print::print(&noisy, &mut w.rng, s);
      let Some(got) = w.de(g, ty, &text) else { return };
      w.count("unknown attributes and elements injected", added);
      w.eval(true, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
      w.sample(|| format!("{}: {text}", g.types[ty].name));
      compare(w, g, ty, &want, &got, &text, "unknown content");
    },
    150,
    |_| true,
  );
  (
    Report {
      rule: "A case is a document with unknown attributes and unknown elements injected anywhere below the root, the elements holding arbitrary subtrees made of the very names, values and copies of the known ones; the value read must be the one of the document without them. Non-trivial: something was injected. Distinct by (type, text).",
      level: "exploration",
      assumptions: &["Nothing is injected inside the elements of plain scalars (except attributes) nor inside a run of text.", "Attributes match by local name when none of the field's namespace is there."],
    },
    jobs,
  )
}

/// A name that is nearly one of the pool.
fn near(pool: &[String], r: &mut Rng) -> String {
  let one = [r.pick(pool).clone()];
  let mut all = sites::near_names(&one);
  all.retain(|n| !pool.contains(n));
  if all.is_empty() { "unknown".into() } else { r.pick(&all).clone() }
}

/// Adds content no type reads from this element.
pub fn pollute(m: &Model, site: Site, e: &mut El, r: &mut Rng, pool: &[String], uris: &[String], rate: usize, whole: &El) -> u64 {
  let mut n = 0;
  let rd = match site {
    Site::Type(t) => reads(m, t),
    Site::Leaf(_) | Site::Wrapped(_) => Default::default(),
  };
  for _ in 0..2 {
    if r.chance(rate) {
      let local = if r.chance(60) {
        r.pick(pool).clone()
      } else if r.chance(50) {
        near(pool, r)
      } else {
        r.pick(&["unknown", "xx", "data-x", "ID", "lang", "href"]).to_string()
      };
      let ns = if r.chance(30) { r.pick(uris).clone() } else { String::new() };
      let q = QName::new(&ns, &local);
      if (rd.attrs.contains(&local) && !e.attrs.iter().any(|a| a.0.local == local && a.0.ns.is_empty() && !ns.is_empty())) || e.attrs.iter().any(|a| a.0 == q) {
        continue;
      }
      if rd.attrs.contains(&local) && (rd.is_enum || rd.shared.contains(&local)) {
        continue; // tags are matched by local name
      }
      let at = r.below(e.attrs.len() + 1);
      e.attrs.insert(at, (q, r.pick(&["1", "x", "", "true", "<b/>", "urn:foreign"]).to_string()));
      n += 1;
    }
  }
  // nothing is known in a wrapped scalar either, and all of it is passed over
  let (Site::Type(_) | Site::Wrapped(_)) = site else { return n };
  for _ in 0..3 {
    if !r.chance(rate) {
      continue;
    }
    let mut u = if r.chance(15) {
      // a copy of a part of the document, under a name that is not known here
      let mut c = whole.clone();
      for _ in 0..r.below(4) {
        let kids: Vec<El> = c.elems().cloned().collect();
        if kids.is_empty() {
          break;
        }
        c = r.pick(&kids).clone();
      }
      // many large copies make documents without end
      if c.count() > 300 {
        c.kids.truncate(3);
        if c.count() > 300 {
          c.kids.clear();
        }
      }
      c
    } else {
      sites::random_el(r, pool, uris, 3)
    };
    if r.chance(25) {
      u.name.ns = r.pick(uris).clone();
    }
    if r.chance(20) {
      u.name.local = near(pool, r);
    }
    let mut tries = 0;
    while rd.knows(&u.name) || (rd.is_enum && rd.knows_local(&u.name.local)) {
      tries += 1;
      u.name = QName::new(if tries % 2 == 0 { "" } else { "urn:foreign" }, &if tries > 4 { format!("unk{tries}") } else { r.pick(pool).clone() });
    }
    if r.chance(10) && e.count() < 300 {
      // the enclosing element's own name again, inside of the unknown one
      u.kids.push(Nd::El(El { name: e.name.clone(), attrs: e.attrs.clone(), kids: e.kids.clone() }));
    }
    let at = r.below(e.kids.len() + 1);
    // not inside a run of text
    let in_text = at > 0 && at < e.kids.len() && matches!(e.kids[at - 1], Nd::Text(_)) && matches!(e.kids[at], Nd::Text(_));
    if !in_text {
      e.kids.insert(at, Nd::El(u));
      n += 1;
    }
  }
  n
}

/// Absent and unreadable fields.
pub fn c07(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let ty = pick_type(w, g, k);
      let (_, mut el) = document(w, g, m, ty, ORDINARY);
      let mut dropped = 0u64;
      let rate = *w.rng.pick(&[5, 15, 40, 100]);
      let spoil = w.rng.chance(25);
      let single = w.rng.chance(50);
      {
        let rng = &mut w.rng;
        // one field of one element only, or many
        let mut total = 0;
        walk(m, ty, &mut el.clone(), &mut |s, e| {
          if matches!(s, Site::Type(_)) {
            total += e.attrs.len() + e.elems().count()
          }
        });
        let chosen = rng.below(total.max(1));
        let mut at = 0;
        walk(m, ty, &mut el, &mut |s, e| {
          let Site::Type(t) = s else { return };
          let is_struct = matches!(m.types[t].kind, Kind::Struct(_));
          let mut hit = |rng: &mut Rng| {
            at += 1;
            is_struct && if single { at == chosen + 1 } else { rng.chance(rate) }
          };
          let attrs = std::mem::take(&mut e.attrs);
          for a in attrs {
            if hit(rng) {
              dropped += 1;
            } else {
              e.attrs.push(a);
            }
          }
          let kids = std::mem::take(&mut e.kids);
          for mut c in kids {
            if let Nd::El(x) = &mut c {
              if hit(rng) {
                dropped += 1;
                match child_type(m, t, x) {
                  // content the scalar cannot have, instead of no element at all
                  Some(Ty::P(p)) if spoil && p != Prim::Str => x.kids = vec![Nd::Text("not a value".into())],
                  _ => continue,
                }
              }
            }
            e.kids.push(c);
          }
        });
      }
      let s = style(&mut w.rng);
      let text = print::print(&el, &mut w.rng, s);
      if judge(w, g, m, ty, &el, &text, "absent fields") {
        w.count("fields removed or spoilt", dropped);
        w.eval(dropped > 0, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
        w.sample(|| format!("{}: {text}", g.types[ty].name));
      }
    },
    200,
    |_| true,
  );
  (
    Report {
      rule: "A case is a document from which attributes and elements of known fields were removed at any depth (one, some or all of them) or whose scalar content was made unreadable; the result must be the model's: an error iff a required field has no value, None, empty lists and declared defaults otherwise. Non-trivial: something was removed. Distinct by (type, text).",
      level: "exploration",
      assumptions: &["An element whose scalar content cannot be read counts as absent; an attribute that cannot be read is an error."],
    },
    jobs,
  )
}

/// Elements are matched by namespace, not by prefix.
pub fn c10(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let mut jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let ty = pick_type(w, g, k);
      let (_, el) = document(w, g, m, ty, ORDINARY);
      if k % 3 == 0 {
        // what is written declares what it uses, and the names resolve to the declared namespaces
        super::flat::written(w, g, m, k / 3, ORDINARY, true, "names");
        return;
      }
      let mut el = el;
      let uris = sites::uris(g);
      let mut changed = 0u64;
      let mut names = vec![];
      {
        let rng = &mut w.rng;
        let other = |rng: &mut Rng, q: &QName| -> String {
          let mut c = uris.clone();
          c.push("urn:foreign".into());
          c.push(String::new());
          if rng.chance(40) {
            c = vec![sites::near_uri(&q.ns, rng), sites::near_uri(&q.ns, rng)];
          }
          c.retain(|u| *u != q.ns);
          if c.is_empty() { "urn:foreign".into() } else { rng.pick(&c).clone() }
        };
        if rng.chance(25) {
          el.name.ns = other(rng, &el.name);
          changed += 1;
          names.push("root");
        }
        let rate = *rng.pick(&[0, 5, 20, 60]);
        walk(m, ty, &mut el, &mut |s, e| {
          let Site::Type(t) = s else { return };
          // variants are matched by local name
          if !matches!(m.types[t].kind, Kind::Struct(_)) || reads(m, t).is_enum {
            return;
          }
          for c in e.kids.iter_mut() {
            if let Nd::El(x) = c {
              if rng.chance(rate) {
                x.name.ns = other(rng, &x.name);
                changed += 1;
              }
            }
          }
        });
      }
      let s = style(&mut w.rng);
      let text = print::print(&el, &mut w.rng, s);
      if judge(w, g, m, ty, &el, &text, "namespaces") {
        w.count("names moved to another namespace", changed);
        w.eval(true, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
        w.sample(|| format!("{}: {text}", g.types[ty].name));
      }
    },
    400,
    |g| g.feats.contains(&"ns"),
  );
  jobs.extend(jobs_over_writers(
    ctx,
    |w: &mut Worker, g: &Group, m: &Model, k: usize| {
      if g.feats.contains(&"ns") {
        super::flat::written(w, g, m, k, ORDINARY, true, "names")
      }
    },
    400,
  ));
  jobs.push(job("known findings", super::probes::rebound_names));
  (
    Report {
      rule: "A case is a document of a type with namespaces, its prefixes chosen at random and some names moved to another declared, to a foreign or to no namespace, judged by the model (wrong root namespace: error; wrong element namespace: not that field); or a serialized value whose expanded names must be the declared ones. Distinct by (type, text).",
      level: "exploration",
      assumptions: &["Enum variants and attributes without a counterpart in the field's namespace are matched by local name."],
    },
    jobs,
  )
}

/// Enums.
pub fn c11(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let has_enum = |g: &Group| g.types.iter().any(|t| matches!(t.kind, Kind::Enum { .. }));
  let mut jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let enums: Vec<usize> = g.entries.iter().map(|e| e.0).filter(|t| matches!(m.types[*t].kind, Kind::Enum { .. })).collect();
      let ty = if k % 3 == 0 && !enums.is_empty() { *w.rng.pick(&enums) } else { g.root };
      let mut o = ORDINARY;
      o.items = 3;
      if k % 8 == 7 {
        super::flat::written(w, g, m, k / 8, o, false, "enums");
        return;
      }
      let (v, mut el) = document(w, g, m, ty, o);
      if k % 4 == 0 {
        // the value comes back as it was
        let Some(text) = w.ser_ok(g, ty, &v, None) else { return };
        let Some(back) = w.de(g, ty, &text) else { return };
        w.eval(true, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
        match crate::gen::survives(&g.types, ty, &v).0 {
          Ok(e) if back != Ok(e.clone()) => w.violation(format!("variant {}", g.name), format!("an enum value does not come back\nvalue: {v:?}\ngot: {}\nas: {text}", show_r(&back))),
          _ => {}
        }
        return;
      }
      let pool = sites::names(g);
      let mut changed = 0u64;
      let rate = *w.rng.pick(&[10, 30, 80]);
      {
        let rng = &mut w.rng;
        walk(m, ty, &mut el, &mut |s, e| {
          let Site::Type(t) = s else { return };
          let Kind::Enum { tag, variants, .. } = &m.types[t].kind else { return };
          if !rng.chance(rate) {
            return;
          }
          changed += 1;
          let names: Vec<String> = variants.iter().map(|x| x.xml.to_string()).collect();
          let bad = ["", "nosuch", "Nosuch", "a", "1", "true", "  "];
          if let Some(tag) = tag {
            if rng.chance(40) {
              // attributes that are nearly the tag, holding names of variants
              let alike = sites::near_names(&[tag.to_string()]);
              for _ in 0..rng.range(1, 3) {
                let q = QName::new("", rng.pick(&alike));
                if !e.attrs.iter().any(|a| a.0 == q) {
                  let at = rng.below(e.attrs.len() + 1);
                  let v = rng.pick(&names).clone();
                  e.attrs.insert(at, (q, v));
                }
              }
            }
            match rng.below(5) {
              4 => {}
              0 => e.attrs.retain(|a| a.0.local != *tag),
              1 => {
                for a in e.attrs.iter_mut() {
                  a.1 = rng.pick(&bad).to_string();
                }
              }
              _ => {
                for a in e.attrs.iter_mut() {
                  a.1 = match rng.below(3) {
                    0 => rng.pick(&names).to_uppercase(),
                    1 => format!("{}x", rng.pick(&names)),
                    _ => rng.pick(&names).clone(),
                  };
                }
              }
            }
            if variants.iter().all(|v| v.payload.is_none()) || rng.chance(70) {
              return;
            }
          }
          match rng.below(8) {
            7 => {
              // the same content under another variant's name, or a list going on as another one
              let Some(Nd::El(x)) = e.kids.first().cloned() else { return };
              let mut y = x.clone();
              let to = rng.pick(variants);
              if to.payload.is_some() {
                y.name = QName::new(ns_of(&m.types[t], to.prefix), to.xml);
                if let Some((_, Ty::P(p))) = &to.payload {
                  let v = if *p == Prim::Bool { "true" } else { "7" };
                  y.attrs.clear();
                  y.kids = vec![Nd::Text(v.into())];
                }
                if rng.chance(50) {
                  e.kids.push(Nd::El(y));
                } else {
                  e.kids = vec![Nd::El(y)];
                }
              }
            }
            0 => e.kids = vec![Nd::Text(rng.pick(&bad).to_string())],
            1 => e.kids = vec![],
            2 => {
              // another unit variant, or nearly
              let units: Vec<String> = variants.iter().filter(|x| x.payload.is_none()).map(|x| unit_text(&m.types[t], x)).collect();
              if !units.is_empty() {
                let u = rng.pick(&units).clone();
                e.kids = vec![Nd::Text(match rng.below(5) {
                  0 => u.to_lowercase() + "x",
                  1 => u[..u.len() - u.chars().last().map_or(0, |c| c.len_utf8())].to_string(),
                  _ => u,
                })];
              }
            }
            3 => {
              // variant elements under a name that is none
              for c in e.kids.iter_mut() {
                if let Nd::El(x) = c {
                  let n = rng.pick(&pool).clone();
                  x.name.local = if names.contains(&n) { format!("un{n}") } else { n };
                }
              }
            }
            4 => {
              let mut u = sites::random_el(rng, &pool, &[], 2);
              if names.contains(&u.name.local) {
                u.name.local = format!("un{}", u.name.local);
              }
              e.kids.insert(0, Nd::El(u));
            }
            5 => {
              let mut u = sites::random_el(rng, &pool, &[], 2);
              if names.contains(&u.name.local) {
                u.name.local = format!("un{}", u.name.local);
              }
              e.kids.push(Nd::El(u));
            }
            _ => {
              // more of the same variant
              if let Some(Nd::El(x)) = e.kids.first().cloned() {
                for _ in 0..rng.below(3) {
                  e.kids.push(Nd::El(x.clone()));
                }
              }
            }
          }
        });
      }
      let s = style(&mut w.rng);
      let text = print::print(&el, &mut w.rng, s);
      if judge(w, g, m, ty, &el, &text, "enum") {
        w.count("enum elements changed", changed);
        w.eval(true, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
        w.sample(|| format!("{}: {text}", g.types[ty].name));
      }
    },
    300,
    has_enum,
  );
  jobs.extend(jobs_over_writers(
    ctx,
    move |w: &mut Worker, g: &Group, m: &Model, k: usize| {
      if has_enum(g) {
        super::flat::written(w, g, m, k, ORDINARY, false, "enums")
      }
    },
    400,
  ));
  (
    Report {
      rule: "A case is a document of a type tree with enums (unit, payload, list, nested, flattened, tagged, as attributes, sharing names with fields), its variants, tags and texts renamed, removed, repeated or surrounded by unknown elements, judged by the model; or a value that must be written as the model says and come back unchanged. Distinct by (type, text).",
      level: "exploration",
      assumptions: &["Text and different variants mixed in one element, and payload content that cannot be read, are unspecified and not judged."],
    },
    jobs,
  )
}

/// Calls `f` for every list that is written as elements.
fn each_list(types: &[TypeDef], ty: usize, v: &mut Val, f: &mut dyn FnMut(&Ty, &mut Vec<Val>)) {
  let mut at = |card: Card, ty: &Ty, v: &mut Val| {
    if let (Card::Many, Val::Vec(items)) = (card, &mut *v) {
      f(ty, items);
    }
    let Ty::R(r) = ty else { return };
    match v {
      Val::Vec(items) => items.iter_mut().for_each(|x| each_list(types, *r, x, f)),
      Val::Some(x) => each_list(types, *r, x, f),
      Val::None => {}
      _ => each_list(types, *r, v, f),
    }
  };
  match (&types[ty].kind, v) {
    (Kind::Struct(fs), Val::Struct(xs)) => {
      for (d, x) in fs.iter().zip(xs) {
        if d.role != Role::Attr && !d.skip {
          at(d.card, &d.ty, x);
        }
      }
    }
    (Kind::Enum { variants, .. }, Val::Var(i, p)) => {
      if let Some((card, ty)) = &variants[*i].payload {
        at(*card, ty, p);
      }
    }
    _ => {}
  }
}

/// Makes an item tell where it was.
fn number(types: &[TypeDef], ty: &Ty, v: &mut Val, i: usize) {
  let scalar = |p: Prim| match p {
    Prim::Bool => Val::Bool((i * 2_654_435_761) >> 7 & 1 == 1),
    Prim::Str => Val::Str(format!("i{i}")),
    Prim::F32 => Val::F32((i as f32).to_bits()),
    Prim::F64 => Val::F64((i as f64).to_bits()),
    p => {
      let (lo, hi) = p.int_range().unwrap();
      Val::Int(lo + i as i128 % (hi - lo + 1))
    }
  };
  match ty {
    Ty::P(p) => *v = scalar(*p),
    Ty::R(r) => {
      if let (Kind::Struct(fs), Val::Struct(xs)) = (&types[*r].kind, v) {
        for (d, x) in fs.iter().zip(xs) {
          if let (Card::One, Ty::P(p), false, None, None) = (d.card, &d.ty, d.skip, &d.skip_if, &d.default) {
            *x = scalar(*p);
          }
        }
      }
    }
  }
}

/// Lists longer than any counter of 8, 12 or 16 bits.
fn long_list(w: &mut Worker, g: &Group, m: &Model, n: usize) {
  let mut o = ORDINARY;
  o.items = 2;
  o.depth = 3;
  let (mut v, mut lists) = (Val::None, 0);
  for _ in 0..20 {
    v = Gen::new(g, o).value(g.root, &mut w.rng);
    lists = 0;
    each_list(&g.types, g.root, &mut v, &mut |_, _| lists += 1);
    if lists > 0 {
      break;
    }
  }
  if lists == 0 {
    return;
  }
  let (chosen, mut at) = (w.rng.below(lists), 0);
  o.depth = 1;
  let gen = |ty: &Ty, r: &mut Rng| match ty {
    Ty::R(t) => Gen::new(g, o).value(*t, r),
    Ty::P(p) => crate::gen::prim(*p, r, crate::gen::Pos::Elem, &ORDINARY),
  };
  let rng = &mut w.rng;
  each_list(&g.types, g.root, &mut v, &mut |ty, items| {
    if at == chosen {
      let pool: Vec<Val> = (0..8).map(|_| gen(ty, rng)).collect();
      *items = (0..n).map(|_| rng.pick(&pool).clone()).collect();
      for (i, x) in items.iter_mut().enumerate() {
        number(&g.types, ty, x, i);
      }
    }
    at += 1;
  });
  let (Ok(want), _) = crate::gen::survives(&g.types, g.root, &v) else { return };
  let name = g.types[g.root].name;
  let el = m.ser(g.root, &v);
  let doc = print::plain(&el);
  let Some(got) = w.de(g, g.root, &doc) else { return };
  w.eval(true, fp(&[name.as_bytes(), doc.as_bytes()]));
  w.max("items of the longest list", n as u64);
  let beginning = |s: &str| s.chars().take(400).collect::<String>();
  if got.as_ref() != Ok(&want) {
    w.violation(
      format!("long list {}", g.name),
      format!("a {name} with a list of {n} items is not read as written\ndocument of {} bytes: {}\nexpected: {}\ngot: {}", doc.len(), beginning(&doc), beginning(&format!("{want:?}")), beginning(&show_r(&got))),
    );
  }
  let Some(text) = w.ser_ok(g, g.root, &v, None) else { return };
  match xmlp::parse(&text) {
    Ok(d) if d.root.canon(false) == el.canon(false) => {}
    r => w.violation(
      format!("long list written {}", g.name),
      format!("a {name} with a list of {n} items is not written item by item ({})\n{}", r.err().unwrap_or_default(), beginning(&text)),
    ),
  }
}

/// Lists: order and multiplicity.
pub fn c20(ctx: &Arc<Ctx>) -> (Report, Vec<Job>) {
  let has_list = |g: &Group| {
    g.types.iter().any(|t| match &t.kind {
      Kind::Struct(fs) => fs.iter().any(|f| f.card == Card::Many),
      Kind::Enum { variants, .. } => variants.iter().any(|v| matches!(v.payload, Some((Card::Many, _)))),
      _ => false,
    })
  };
  let mut jobs = jobs_over(
    ctx,
    |w, g, m, k| {
      let ty = pick_type(w, g, k);
      let mut o = ORDINARY;
      o.items = *w.rng.pick(&[2, 5, 9]);
      o.depth = 3;
      if w.rng.chance(3) {
        o.items = 200;
        o.depth = 1;
      }
      if k == 0 {
        let n = *w.rng.pick(&[300, 5000, 5000, 5000, 5000, 5000, 70_000]);
        long_list(w, g, m, n);
      }
      if k % 6 == 5 {
        super::flat::written(w, g, m, k / 6, o, false, "lists");
        return;
      }
      let (v, mut el) = document(w, g, m, ty, o);
      let mut moved = 0u64;
      let mixed = w.rng.chance(75);
      if mixed {
        let rng = &mut w.rng;
        walk(m, ty, &mut el, &mut |s, e| {
          let Site::Type(t) = s else { return };
          // text stays in one piece
          if e.kids.iter().any(|k| matches!(k, Nd::Text(_))) || matches!(m.types[t].kind, Kind::Wrap { .. }) {
            return;
          }
          moved += 1;
          interleave(&mut e.kids, rng);
        });
      }
      // list attributes are only read
      let lists = sites::list_attributes(m, ty, &mut el, &mut w.rng);
      w.count("list attributes", lists);
      let s = style(&mut w.rng);
      let text = if mixed || lists > 0 {
        print::print(&el, &mut w.rng, s)
      } else {
        let Some(t) = w.ser_ok(g, ty, &v, None) else { return };
        t
      };
      if judge(w, g, m, ty, &el, &text, "lists") {
        w.count("elements whose children were interleaved", moved);
        w.eval(el.count() > 3, fp(&[g.types[ty].name.as_bytes(), text.as_bytes()]));
        w.sample(|| format!("{}: {text}", g.types[ty].name));
      }
    },
    180,
    has_list,
  );
  jobs.extend(jobs_over_writers(
    ctx,
    move |w: &mut Worker, g: &Group, m: &Model, k: usize| {
      if has_list(g) {
        super::flat::written(w, g, m, k, ORDINARY, false, "lists")
      }
    },
    300,
  ));
  (
    Report {
      rule: "A case is a document of a type with lists (of scalars, structs, enums, wrappers, at any depth, flattened, in enum variants, in attributes), up to hundreds of items (for one list of every type, up to 70 000), the items of different fields interleaved at random while each keeps its own order; every list must hold exactly its items in order; or a value whose lists must be written item by item in order. Non-trivial: more than three elements. Distinct by (type, text).",
      level: "exploration",
      assumptions: &[],
    },
    jobs,
  )
}

/// A random merge that keeps the order among children of one name.
pub fn interleave(kids: &mut Vec<Nd>, r: &mut Rng) {
  let mut by: Vec<(QName, std::collections::VecDeque<Nd>)> = vec![];
  for k in std::mem::take(kids) {
    let n = match &k {
      Nd::El(e) => e.name.clone(),
      Nd::Text(_) => QName::new("", ""),
    };
    match by.iter_mut().find(|b| b.0 == n) {
      Some(b) => b.1.push_back(k),
      None => by.push((n, [k].into())),
    }
  }
  while !by.is_empty() {
    let i = r.below(by.len());
    kids.push(by[i].1.pop_front().unwrap());
    if by[i].1.is_empty() {
      by.remove(i);
    }
  }
}
