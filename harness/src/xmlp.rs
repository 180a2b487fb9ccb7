//! A strict, namespace-aware XML 1.0 reader written for the monitors. It shares nothing with the
//! parser yaserde uses. Line ends and attribute values are reported as written (not normalised).

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct QName {
  pub ns: String,
  pub local: String,
}

impl QName {
  pub fn new(ns: &str, local: &str) -> QName {
    QName {
      ns: ns.to_string(),
      local: local.to_string(),
    }
  }
}

#[derive(Clone, Debug, PartialEq)]
pub struct El {
  pub name: QName,
  pub attrs: Vec<(QName, String)>,
  pub kids: Vec<Nd>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Nd {
  El(El),
  Text(String),
}

pub fn is_ws(c: char) -> bool {
  matches!(c, ' ' | '\t' | '\n' | '\r')
}

pub fn trim(s: &str) -> &str {
  s.trim_matches(is_ws)
}

pub fn is_char(c: char) -> bool {
  matches!(c, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..)
}

fn is_name_start(c: char) -> bool {
  matches!(c, '_' | 'A'..='Z' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
    | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
    | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}

fn is_name_char(c: char) -> bool {
  is_name_start(c)
    || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{0300}'..='\u{036F}' | '\u{203F}'..='\u{2040}')
}

impl El {
  pub fn new(ns: &str, local: &str) -> El {
    El {
      name: QName::new(ns, local),
      attrs: vec![],
      kids: vec![],
    }
  }
  pub fn elems(&self) -> impl Iterator<Item = &El> {
    self.kids.iter().filter_map(|k| match k {
      Nd::El(e) => Some(e),
      _ => None,
    })
  }
  /// Character data chunks, adjacent ones joined; each trimmed, empty ones left out
  pub fn chunks(&self) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut cur = String::new();
    for k in &self.kids {
      match k {
        Nd::Text(t) => cur.push_str(t),
        Nd::El(_) => {
          if !trim(&cur).is_empty() {
            out.push(trim(&cur).to_string());
          }
          cur.clear();
        }
      }
    }
    if !trim(&cur).is_empty() {
      out.push(trim(&cur).to_string());
    }
    out
  }
  pub fn text(&self) -> String {
    self
      .kids
      .iter()
      .filter_map(|k| match k {
        Nd::Text(t) => Some(t.as_str()),
        _ => None,
      })
      .collect()
  }
  pub fn has_elems(&self) -> bool {
    self.elems().next().is_some()
  }
  /// The same information, written in one way: attributes sorted, adjacent text joined, empty text
  /// dropped. With `loose`, text is trimmed and whitespace-only text dropped as well.
  pub fn canon(&self, loose: bool) -> El {
    let mut attrs = self.attrs.clone();
    attrs.sort();
    let mut kids: Vec<Nd> = vec![];
    let mut cur = String::new();
    let flush = |cur: &mut String, kids: &mut Vec<Nd>| {
      let t = if loose { trim(cur).to_string() } else { cur.clone() };
      if !t.is_empty() {
        kids.push(Nd::Text(t));
      }
      cur.clear();
    };
    for k in &self.kids {
      match k {
        Nd::Text(t) => cur.push_str(t),
        Nd::El(e) => {
          flush(&mut cur, &mut kids);
          kids.push(Nd::El(e.canon(loose)));
        }
      }
    }
    flush(&mut cur, &mut kids);
    El {
      name: self.name.clone(),
      attrs,
      kids,
    }
  }
  pub fn count(&self) -> usize {
    1 + self.elems().map(|e| e.count()).sum::<usize>()
  }
  /// names and structure only
  pub fn skeleton(&self) -> String {
    let mut s = String::new();
    self.skel(&mut s);
    s
  }
  fn skel(&self, s: &mut String) {
    s.push_str(&format!("<{{{}}}{}", self.name.ns, self.name.local));
    let mut names: Vec<_> = self.attrs.iter().map(|a| &a.0).collect();
    names.sort();
    for n in names {
      s.push_str(&format!(" {{{}}}{}", n.ns, n.local));
    }
    s.push('>');
    for e in self.elems() {
      e.skel(s);
    }
    s.push_str("</>");
  }
}

pub struct Doc {
  pub has_decl: bool,
  pub root: El,
  /// byte offset just behind the root element
  pub root_end: usize,
}

struct P<'a> {
  s: &'a str,
  i: usize,
  ns: Vec<(String, String)>,
}

type R<T> = Result<T, String>;

const XMLNS: &str = "http://www.w3.org/2000/xmlns/";
pub const XML: &str = "http://www.w3.org/XML/1998/namespace";

impl<'a> P<'a> {
  fn rest(&self) -> &'a str {
    &self.s[self.i..]
  }
  fn err<T>(&self, m: &str) -> R<T> {
    Err(format!("{m} at byte {}", self.i))
  }
  fn eat(&mut self, t: &str) -> bool {
    if self.rest().starts_with(t) {
      self.i += t.len();
      true
    } else {
      false
    }
  }
  fn ws(&mut self) -> bool {
    let n = self.rest().len() - self.rest().trim_start_matches(is_ws).len();
    self.i += n;
    n > 0
  }
  fn name(&mut self) -> R<&'a str> {
    let r = self.rest();
    let mut end = 0;
    for (i, c) in r.char_indices() {
      let ok = if i == 0 { is_name_start(c) } else { is_name_char(c) || c == ':' };
      if !ok {
        break;
      }
      end = i + c.len_utf8();
    }
    if end == 0 {
      return self.err("name expected");
    }
    self.i += end;
    Ok(&r[..end])
  }
  fn split(&self, n: &'a str) -> R<(&'a str, &'a str)> {
    match n.find(':') {
      None => Ok(("", n)),
      Some(k) => {
        let (p, l) = (&n[..k], &n[k + 1..]);
        if p.is_empty() || l.is_empty() || l.contains(':') || !l.starts_with(is_name_start) {
          return self.err("bad qualified name");
        }
        Ok((p, l))
      }
    }
  }
  fn lookup(&self, p: &str) -> R<String> {
    if p == "xml" {
      return Ok(XML.to_string());
    }
    for (q, u) in self.ns.iter().rev() {
      if q == p {
        if u.is_empty() && !p.is_empty() {
          break;
        }
        return Ok(u.clone());
      }
    }
    if p.is_empty() {
      Ok(String::new())
    } else {
      self.err(&format!("unbound prefix {p}"))
    }
  }
  fn reference(&mut self) -> R<char> {
    let r = self.rest();
    let end = match r.find(';') {
      Some(e) if e < 12 => e,
      _ => return self.err("bare &"),
    };
    let b = &r[1..end];
    let c = match b {
      "lt" => '<',
      "gt" => '>',
      "amp" => '&',
      "quot" => '"',
      "apos" => '\'',
      _ => {
        let n = if let Some(h) = b.strip_prefix("#x") {
          u32::from_str_radix(h, 16).ok()
        } else if let Some(d) = b.strip_prefix('#') {
          d.parse().ok()
        } else {
          None
        };
        match n.and_then(char::from_u32) {
          Some(c) if is_char(c) => c,
          _ => return self.err("bad reference"),
        }
      }
    };
    self.i += end + 1;
    Ok(c)
  }
  fn misc(&mut self) -> R<bool> {
    if self.eat("<!--") {
      match self.rest().find("--") {
        Some(k) if self.rest()[k..].starts_with("-->") => {
          if !self.rest()[..k].chars().all(is_char) {
            return self.err("bad character in comment");
          }
          self.i += k + 3;
          return Ok(true);
        }
        _ => return self.err("bad comment"),
      }
    }
    if self.rest().starts_with("<?") {
      self.i += 2;
      let n = self.name()?;
      if n.eq_ignore_ascii_case("xml") {
        return self.err("misplaced XML declaration");
      }
      match self.rest().find("?>") {
        Some(k) => {
          if k > 0 && !self.rest().starts_with(is_ws) {
            return self.err("bad processing instruction");
          }
          self.i += k + 2;
          return Ok(true);
        }
        None => return self.err("unterminated processing instruction"),
      }
    }
    Ok(false)
  }
  fn attr_value(&mut self) -> R<String> {
    let quote = match self.rest().chars().next() {
      Some(c @ ('"' | '\'')) => c,
      _ => return self.err("quote expected"),
    };
    self.i += 1;
    let mut v = String::new();
    loop {
      match self.rest().chars().next() {
        None => return self.err("unterminated attribute value"),
        Some(c) if c == quote => {
          self.i += 1;
          return Ok(v);
        }
        Some('<') => return self.err("< in attribute value"),
        Some('&') => v.push(self.reference()?),
        Some(c) => {
          if !is_char(c) {
            return self.err("illegal character");
          }
          v.push(c);
          self.i += c.len_utf8();
        }
      }
    }
  }
  fn element(&mut self, depth: usize) -> R<El> {
    if depth > 4000 {
      return self.err("too deep");
    }
    if !self.eat("<") {
      return self.err("< expected");
    }
    let raw = self.name()?;
    let mut raws: Vec<(&'a str, String)> = vec![];
    let mark = self.ns.len();
    let empty = loop {
      let sp = self.ws();
      if self.eat("/>") {
        break true;
      }
      if self.eat(">") {
        break false;
      }
      if !sp {
        return self.err("whitespace expected before attribute");
      }
      let n = self.name()?;
      self.ws();
      if !self.eat("=") {
        return self.err("= expected");
      }
      self.ws();
      let v = self.attr_value()?;
      if raws.iter().any(|(m, _)| *m == n) {
        return self.err(&format!("duplicate attribute {n}"));
      }
      raws.push((n, v));
    };
    for (n, v) in &raws {
      if *n == "xmlns" {
        self.ns.push((String::new(), v.clone()));
      } else if let Some(p) = n.strip_prefix("xmlns:") {
        if v.is_empty() || v == XMLNS || p == "xmlns" || (p == "xml") != (v == XML) {
          return self.err("bad namespace declaration");
        }
        self.ns.push((p.to_string(), v.clone()));
      }
    }
    let (p, l) = self.split(raw)?;
    if p == "xmlns" {
      return self.err("xmlns prefix on an element");
    }
    let mut el = El::new(&self.lookup(p)?, l);
    for (n, v) in &raws {
      if *n == "xmlns" || n.starts_with("xmlns:") {
        continue;
      }
      let (p, l) = self.split(n)?;
      let q = QName::new(&if p.is_empty() { String::new() } else { self.lookup(p)? }, l);
      if el.attrs.iter().any(|(m, _)| *m == q) {
        return self.err(&format!("duplicate attribute {l}"));
      }
      el.attrs.push((q, v.clone()));
    }
    if !empty {
      let mut cur = String::new();
      loop {
        let r = self.rest();
        if r.is_empty() {
          return self.err("unterminated element");
        }
        if r.starts_with("</") {
          break;
        }
        if self.eat("<![CDATA[") {
          match self.rest().find("]]>") {
            Some(k) => {
              let t = &self.rest()[..k];
              if !t.chars().all(is_char) {
                return self.err("illegal character in CDATA");
              }
              cur.push_str(t);
              self.i += k + 3;
            }
            None => return self.err("unterminated CDATA"),
          }
          continue;
        }
        if r.starts_with("<!--") || r.starts_with("<?") {
          self.misc()?;
          continue;
        }
        if r.starts_with('<') {
          if !cur.is_empty() {
            el.kids.push(Nd::Text(std::mem::take(&mut cur)));
          }
          let e = self.element(depth + 1)?;
          el.kids.push(Nd::El(e));
          continue;
        }
        if r.starts_with('&') {
          cur.push(self.reference()?);
          continue;
        }
        if r.starts_with("]]>") {
          return self.err("]]> in character data");
        }
        let c = r.chars().next().unwrap();
        if !is_char(c) {
          return self.err("illegal character");
        }
        cur.push(c);
        self.i += c.len_utf8();
      }
      if !cur.is_empty() {
        el.kids.push(Nd::Text(cur));
      }
      self.i += 2;
      let n = self.name()?;
      if n != raw {
        return self.err("mismatched end tag");
      }
      self.ws();
      if !self.eat(">") {
        return self.err("> expected");
      }
    }
    self.ns.truncate(mark);
    Ok(el)
  }
}

pub fn parse(s: &str) -> R<Doc> {
  let mut p = P { s, i: 0, ns: vec![] };
  p.eat("\u{feff}");
  let mut has_decl = false;
  if p.rest().starts_with("<?xml") && p.rest()[5..].starts_with(is_ws) {
    let end = match p.rest().find("?>") {
      Some(e) => e,
      None => return p.err("unterminated XML declaration"),
    };
    let body = &p.rest()[5..end];
    let mut q = P { s: body, i: 0, ns: vec![] };
    let mut seen = vec![];
    loop {
      let sp = q.ws();
      if q.rest().is_empty() {
        break;
      }
      if !sp {
        return p.err("bad XML declaration");
      }
      let n = q.name()?;
      q.ws();
      if !q.eat("=") {
        return p.err("bad XML declaration");
      }
      q.ws();
      let v = q.attr_value()?;
      let ok = match n {
        "version" => v == "1.0" || v == "1.1",
        "encoding" => !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c)),
        "standalone" => v == "yes" || v == "no",
        _ => false,
      };
      if !ok {
        return p.err("bad XML declaration");
      }
      seen.push(n.to_string());
    }
    let order: Vec<usize> = seen
      .iter()
      .map(|n| ["version", "encoding", "standalone"].iter().position(|m| m == n).unwrap())
      .collect();
    if order.first() != Some(&0) || order.windows(2).any(|w| w[0] >= w[1]) {
      return p.err("bad XML declaration");
    }
    p.i += end + 2;
    has_decl = true;
  }
  loop {
    p.ws();
    if p.rest().starts_with("<!--") || p.rest().starts_with("<?") {
      p.misc()?;
    } else {
      break;
    }
  }
  let root = p.element(0)?;
  let root_end = p.i;
  loop {
    p.ws();
    if p.rest().is_empty() {
      break;
    }
    if !p.misc()? {
      return p.err("content after the root element");
    }
  }
  Ok(Doc { has_decl, root, root_end })
}

/// Content without a root: zero or more elements and text.
pub fn parse_content(s: &str, ns: &[(String, String)]) -> R<El> {
  let mut wrapped = String::from("<w");
  for (p, u) in ns {
    if p.is_empty() {
      continue;
    }
    wrapped.push_str(&format!(" xmlns:{p}=\"{}\"", u.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")));
  }
  wrapped.push('>');
  wrapped.push_str(s);
  wrapped.push_str("</w>");
  parse(&wrapped).map(|d| d.root)
}
