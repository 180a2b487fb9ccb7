//! Writes an element tree as XML text, in one of the many ways XML allows.

use crate::rng::Rng;
use crate::xmlp::{is_ws, El, Nd};

#[derive(Clone, Copy, Debug)]
pub struct Style {
  pub prefixes: usize,
  pub quotes: usize,
  pub refs: usize,
  pub cdata: usize,
  pub comments: usize,
  pub pis: usize,
  pub ws: usize,
  pub shuffle: usize,
  pub prolog: usize,
}

pub const PLAIN: Style = Style {
  prefixes: 0,
  quotes: 0,
  refs: 0,
  cdata: 0,
  comments: 0,
  pis: 0,
  ws: 0,
  shuffle: 0,
  prolog: 0,
};

pub const WILD: Style = Style {
  prefixes: 40,
  quotes: 50,
  refs: 15,
  cdata: 25,
  comments: 15,
  pis: 8,
  ws: 30,
  shuffle: 50,
  prolog: 50,
};

struct P<'a> {
  r: &'a mut Rng,
  s: Style,
  o: String,
  scope: Vec<(String, String)>,
}

const PREFIXES: &[&str] = &["a", "b", "ns0", "p-1", "_x", "n", "m", "p", "q", "x1", "e", "d", "r", "xm"];

pub fn esc_attr(s: &str) -> String {
  let mut o = String::new();
  for c in s.chars() {
    match c {
      '<' => o.push_str("&lt;"),
      '&' => o.push_str("&amp;"),
      '"' => o.push_str("&quot;"),
      '\n' => o.push_str("&#10;"),
      '\t' => o.push_str("&#9;"),
      c => o.push(c),
    }
  }
  o
}

impl P<'_> {
  fn space(&mut self) {
    if self.r.chance(self.s.ws) {
      let n = self.r.range(1, 3);
      for _ in 0..n {
        let w = *self.r.pick(&[" ", "\n", "\t", "\r\n", "  "]);
        self.o.push_str(w);
      }
    }
  }
  fn one_space(&mut self) {
    if self.r.chance(self.s.ws) {
      let w = *self.r.pick(&["  ", "\n", "\t", " \n "]);
      self.o.push_str(w);
    } else {
      self.o.push(' ');
    }
  }
  fn comment(&mut self) {
    if self.r.chance(self.s.comments) {
      let c = *self.r.pick(&["<!---->", "<!-- c -->", "<!--<a>1</a>-->", "<!-- & ]]> \n -->", "<!-- ä -->"]);
      self.o.push_str(c);
    }
  }
  fn pi(&mut self) {
    if self.r.chance(self.s.pis) {
      let c = *self.r.pick(&["<?pi?>", "<?target some data?>", "<?x <a>1</a> ?>"]);
      self.o.push_str(c);
    }
  }
  fn charref(&mut self, c: char) {
    let n = c as u32;
    let s = match self.r.below(4) {
      0 => format!("&#{n};"),
      1 => format!("&#x{n:x};"),
      2 => format!("&#x{n:X};"),
      _ => format!("&#x{n:06x};"),
    };
    self.o.push_str(&s);
  }
  fn attr_value(&mut self, v: &str) {
    let q = if self.r.chance(self.s.quotes) { '\'' } else { '"' };
    self.o.push(q);
    for c in v.chars() {
      let refit = self.r.chance(self.s.refs / 2);
      match c {
        '<' => self.o.push_str(if refit { "&#60;" } else { "&lt;" }),
        '&' => self.o.push_str(if refit { "&#x26;" } else { "&amp;" }),
        '"' if q == '"' || refit => self.o.push_str("&quot;"),
        '\'' if q == '\'' || refit => self.o.push_str("&apos;"),
        '>' if refit => self.o.push_str("&gt;"),
        '\n' | '\t' | '\r' => self.charref(c),
        c if refit => self.charref(c),
        c => self.o.push(c),
      }
    }
    self.o.push(q);
  }
  fn plain_text(&mut self, t: &str) {
    for c in t.chars() {
      let refit = self.r.chance(self.s.refs / 2) && !is_ws(c);
      match c {
        '<' => self.o.push_str(if refit { "&#60;" } else { "&lt;" }),
        '&' => self.o.push_str(if refit { "&#x26;" } else { "&amp;" }),
        '>' if refit || self.o.ends_with("]]") || self.s.refs == 0 => self.o.push_str("&gt;"),
        '"' if refit => self.o.push_str("&quot;"),
        c if refit => self.charref(c),
        c => self.o.push(c),
      }
    }
  }
  fn text(&mut self, t: &str) {
    let chars: Vec<char> = t.chars().collect();
    let mut i = 0;
    if chars.is_empty() && self.r.chance(self.s.cdata) {
      self.o.push_str("<![CDATA[]]>");
    }
    while i < chars.len() {
      if self.r.chance(self.s.cdata) {
        let mut j = (i + self.r.range(1, chars.len() - i)).min(chars.len());
        // the section must not hold its own terminator, nor be empty
        if let Some(k) = (i..j).find(|k| chars[*k..j].starts_with(&[']', ']', '>'])) {
          j = k + 2;
        }
        let part: String = chars[i..j].iter().collect();
        self.o.push_str("<![CDATA[");
        self.o.push_str(&part);
        self.o.push_str("]]>");
        i = j;
      } else {
        let j = if self.s.cdata + self.s.comments == 0 {
          chars.len()
        } else {
          i + self.r.range(1, chars.len() - i)
        };
        let part: String = chars[i..j].iter().collect();
        self.plain_text(&part);
        i = j;
      }
      // a comment next to white space inside of text is left out: readers that trim may lose the space
      let edge = i > 0 && i < chars.len() && (is_ws(chars[i - 1]) || is_ws(chars[i]));
      if !edge {
        self.comment();
      }
    }
  }
  fn lookup(&self, p: &str) -> Option<&str> {
    self.scope.iter().rev().find(|(q, _)| q == p).map(|(_, u)| u.as_str())
  }
  fn el(&mut self, e: &El, top: bool) {
    let mark = self.scope.len();
    let mut decls: Vec<(String, String)> = vec![];
    let mut used: Vec<String> = vec![];
    let fresh = |p: &mut Self, decls: &Vec<(String, String)>, used: &Vec<String>, n: &mut usize| -> String {
      for _ in 0..20 {
        let c = if p.s.prefixes == 0 { format!("n{n}") } else { p.r.pick(PREFIXES).to_string() };
        *n += 1;
        if !used.contains(&c) && !decls.iter().any(|d| d.0 == c) {
          return c;
        }
      }
      loop {
        let c = format!("z{n}");
        *n += 1;
        if !used.contains(&c) && !decls.iter().any(|d| d.0 == c) {
          return c;
        }
      }
    };
    let mut n = self.scope.len();
    let mut name = |p: &mut Self, ns: &str, attr: bool, decls: &mut Vec<(String, String)>, used: &mut Vec<String>| -> String {
      if ns.is_empty() {
        if attr {
          return String::new();
        }
        if !p.lookup("").unwrap_or("").is_empty() {
          decls.push((String::new(), String::new()));
        }
        used.push(String::new());
        return String::new();
      }
      if ns == crate::xmlp::XML {
        return "xml:".into();
      }
      let mut cands: Vec<String> = vec![];
      for (q, u) in decls.iter() {
        if u == ns && !(attr && q.is_empty()) {
          cands.push(q.clone());
        }
      }
      for i in 0..p.scope.len() {
        let (q, u) = p.scope[i].clone();
        if u == ns && p.lookup(&q) == Some(ns) && !decls.iter().any(|d| d.0 == q) && !(attr && q.is_empty()) {
          cands.push(q);
        }
      }
      let declare = cands.is_empty() || p.r.chance(p.s.prefixes / 3);
      let q = if !declare {
        p.r.pick(&cands).clone()
      } else if !attr && p.r.chance(p.s.prefixes) && !used.contains(&String::new()) && !decls.iter().any(|d| d.0.is_empty()) {
        decls.push((String::new(), ns.to_string()));
        String::new()
      } else {
        let q = fresh(p, decls, used, &mut n);
        decls.push((q.clone(), ns.to_string()));
        q
      };
      used.push(q.clone());
      if q.is_empty() {
        q
      } else {
        format!("{q}:")
      }
    };
    let ep = name(self, &e.name.ns, false, &mut decls, &mut used);
    let mut attrs: Vec<(String, String)> = vec![];
    for (q, v) in &e.attrs {
      let p = name(self, &q.ns, true, &mut decls, &mut used);
      attrs.push((format!("{p}{}", q.local), v.clone()));
    }
    if self.r.chance(self.s.prefixes / 8) {
      let q = fresh(self, &decls, &used, &mut n);
      decls.push((q, "urn:unused".into()));
    }
    for (q, u) in &decls {
      attrs.push((if q.is_empty() { "xmlns".into() } else { format!("xmlns:{q}") }, u.clone()));
    }
    if self.r.chance(self.s.shuffle) {
      self.r.shuffle(&mut attrs);
    } else {
      // declarations first
      let k = attrs.len() - decls.len();
      attrs.rotate_left(k);
    }
    self.scope.extend(decls);
    let tag = format!("{ep}{}", e.name.local);
    self.o.push('<');
    self.o.push_str(&tag);
    for (a, v) in &attrs {
      self.one_space();
      self.o.push_str(a);
      self.space();
      self.o.push('=');
      self.space();
      self.attr_value(v);
    }
    self.space();
    let has_text = e.kids.iter().any(|k| matches!(k, Nd::Text(t) if !t.is_empty()));
    let empty = !has_text && !e.has_elems();
    if empty && self.r.chance(50) {
      self.o.push_str("/>");
    } else {
      self.o.push('>');
      self.space();
      for k in &e.kids {
        self.comment();
        match k {
          Nd::El(c) => {
            if !has_text {
              self.pi();
            }
            self.el(c, false);
          }
          Nd::Text(t) => self.text(t),
        }
        self.space();
      }
      self.comment();
      if !has_text && !empty {
        self.pi();
      }
      self.space();
      self.o.push_str("</");
      self.o.push_str(&tag);
      self.space();
      self.o.push('>');
    }
    self.scope.truncate(mark);
    let _ = top;
  }
}

pub fn print(e: &El, r: &mut Rng, s: Style) -> String {
  let mut p = P { r, s, o: String::new(), scope: vec![] };
  if p.r.chance(s.prolog) {
    let d = *p.r.pick(&[
      "<?xml version=\"1.0\" encoding=\"utf-8\"?>",
      "<?xml version='1.0'?>\n",
      "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>",
      "<?xml version=\"1.1\" encoding=\"UTF-8\"?>",
    ]);
    p.o.push_str(d);
  }
  if p.r.chance(s.prolog / 2) {
    p.o.push_str("\n<!-- before -->");
    p.pi();
  }
  p.el(e, true);
  // XML 1.1 restricts more characters and has other line ends
  if p.o.starts_with("<?xml version=\"1.1\"") && p.o.contains(|c: char| matches!(c as u32, 0x7f..=0x9f | 0x2028)) {
    p.o = p.o.replacen("<?xml version=\"1.1\"", "<?xml version=\"1.0\"", 1);
  }
  if p.r.chance(s.prolog / 2) {
    p.o.push_str("\n<!-- after -->\n");
    p.pi();
  }
  p.o
}

pub fn plain(e: &El) -> String {
  print(e, &mut Rng::new("plain"), PLAIN)
}

/// The same document in another character encoding, labelled.
pub fn encodings(body: &str, r: &mut Rng) -> (&'static str, Vec<u8>) {
  let body = match body.strip_prefix("<?xml") {
    Some(rest) => &rest[rest.find("?>").map(|i| i + 2).unwrap_or(0)..],
    None => body,
  };
  match r.below(5) {
    0 => {
      let mut o = vec![0xEF, 0xBB, 0xBF];
      o.extend(body.as_bytes());
      ("utf-8 bom", o)
    }
    1 => {
      let mut o = vec![0xFF, 0xFE];
      o.extend(format!("<?xml version=\"1.0\" encoding=\"UTF-16\"?>{body}").encode_utf16().flat_map(|u| u.to_le_bytes()));
      ("utf-16le bom", o)
    }
    2 => {
      let mut o = vec![0xFE, 0xFF];
      o.extend(format!("<?xml version=\"1.0\" encoding=\"UTF-16\"?>{body}").encode_utf16().flat_map(|u| u.to_be_bytes()));
      ("utf-16be bom", o)
    }
    3 if body.chars().all(|c| (c as u32) < 0x80 || (0xA0..0x100).contains(&(c as u32))) => {
      let mut o = b"<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>".to_vec();
      o.extend(body.chars().map(|c| c as u32 as u8));
      ("latin-1", o)
    }
    _ => {
      let mut o = b"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n".to_vec();
      o.extend(body.as_bytes());
      ("utf-8", o)
    }
  }
}
