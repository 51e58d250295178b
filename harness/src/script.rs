//! Scripts: random ones, how they are written, and what they mean (as matcher
//! expressions).

use crate::expr::*;
use crate::rng::Rng;
use crate::rx::{gen_rx, Flags, Rx, RxProfile};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mod {
  None,
  Opt,
  Not,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rep {
  None,
  Star,
  Plus,
  Range(usize, usize),
  Open(usize),
}

#[derive(Clone, Debug)]
pub enum M {
  Regex(Rx, Flags),
  Equals(String),
  Seq(String, String, String),
  Custom(String),
  Switch(Vec<P>),
  Program(Vec<P>),
}

#[derive(Clone, Debug)]
pub struct P {
  pub captured: bool,
  pub name: Option<String>,
  pub outer: Mod,
  pub inner: Mod,
  pub m: M,
  pub attrs: Vec<(String, String)>,
  pub rep: Rep,
}

#[derive(Clone, Debug)]
pub enum Item {
  Assign(String, P),
  Alias(String, String),
  /// Names (with the name they get here), and index of the file
  Import(Vec<(String, Option<String>)>, usize, String),
}

#[derive(Clone, Debug, Default)]
pub struct Header {
  pub name: Option<String>,
  pub extra: Vec<(String, String)>,
  pub items: Vec<Item>,
}

#[derive(Clone, Debug, Default)]
pub struct Script {
  pub header: Option<Header>,
  pub patterns: Vec<P>,
}

/// How free the layout is
pub struct Layout<'a> {
  pub rng: &'a mut Rng,
  /// 0: none but what is needed, 100: all over the place
  pub free: usize,
  pub comments: bool,
}

impl<'a> Layout<'a> {
  fn ws0(&mut self, out: &mut String) {
    if self.rng.pct(self.free) {
      let s = *self.rng.pick(&[
        " ", "  ", "\t", " \t ", "   ", " ", "  ", "\t", "\u{c}", "\u{a0}", "                    ",
      ]);
      out.push_str(s);
    }
  }

  fn wsn0(&mut self, out: &mut String) {
    if self.rng.pct(self.free) {
      let s = *self.rng.pick(&[
        " ", "  ", "\t", "\n", "\n  ", "\r\n", "\n\n", " \n\t", "\r", " ", "\n", "\u{3000}",
        "\n\n\n\n\n\n\n\n\n\n\n\n", "\r\n\r\n\t\t",
      ]);
      out.push_str(s);
    }
  }

  fn wsn1(&mut self, out: &mut String) {
    let s = if self.rng.pct(self.free) {
      *self.rng.pick(&["  ", "\t", "\n", "\n  ", "\r\n", "\n\n", " \n\t"])
    } else {
      " "
    };
    out.push_str(s);
  }

  fn ws1(&mut self, out: &mut String) {
    out.push(' ');
    self.ws0(out);
  }

  fn comment(&mut self, out: &mut String) {
    if self.comments && self.rng.pct(self.free / 2) {
      self.wsn0(out);
      let c = *self.rng.pick(&[
        "# a comment",
        "#",
        "# <not> (<a>) 'pattern' -->x",
        "# é 日本 # twice",
        "#<=\"x\">",
        "# it's",
        "# import { A } from 'b'",
        "# ] } > ) |",
        "# \\",
        "#\t",
        "##",
        "# a comment that is rather long, and that has (<='nothing'>) in it that is a pattern, and on it goes",
      ]);
      out.push_str(c);
      let e = *self.rng.pick(&["\n", "\r\n", "\n\n  ", "\r"]);
      out.push_str(e);
    }
  }
}

pub fn quote(s: &str) -> String {
  let mut out = String::from("'");
  for c in s.chars() {
    if c == '\\' || c == '\'' {
      out.push('\\');
    }
    out.push(c);
  }
  out.push('\'');
  out
}

impl<'a> Layout<'a> {
  /// A string; also characters that need no escape may have one
  fn quoted(&mut self, s: &str) -> String {
    let mut out = String::from("'");
    for c in s.chars() {
      let may = !c.is_alphanumeric() && !c.is_control();
      if c == '\\' || c == '\'' || (may && self.rng.pct(self.free / 6)) {
        out.push('\\');
      }
      out.push(c);
    }
    out.push('\'');
    out
  }

  /// A regex; a slash may be in a set, or escaped
  fn regex(&mut self, s: &str) -> String {
    let mut out = String::new();
    let mut chars = s.char_indices();
    let mut set = false;
    while let Some((i, c)) = chars.next() {
      match c {
        '\\' => {
          out.push(c);
          out.extend(chars.next().map(|(_, c)| c));
        }
        '[' if !set && s[i..].starts_with("[/]") && self.rng.pct(50) => {
          out.push_str("\\/");
          chars.next();
          chars.next();
        }
        '[' if !set => {
          set = true;
          out.push(c);
        }
        ']' if set => {
          set = false;
          out.push(c);
        }
        '/' if self.rng.pct(30) => out.push_str("\\/"),
        _ => out.push(c),
      }
    }
    out
  }
}

fn print_attrs(attrs: &[(String, String)], l: &mut Layout, out: &mut String) {
  for (i, (k, v)) in attrs.iter().enumerate() {
    if i > 0 {
      l.wsn1(out);
    }
    out.push_str(k);
    l.ws0(out);
    out.push('=');
    l.ws0(out);
    let q = l.quoted(v);
    out.push_str(&q);
  }
}

impl P {
  pub fn plain(m: M) -> P {
    P {
      captured: true,
      name: None,
      outer: Mod::None,
      inner: Mod::None,
      m,
      attrs: Vec::new(),
      rep: Rep::None,
    }
  }

  pub fn print(&self, l: &mut Layout, out: &mut String) {
    if self.captured {
      out.push('(');
      l.wsn0(out);
      if let Some(n) = &self.name {
        out.push('?');
        let q = l.quoted(n);
        out.push_str(&q);
        l.wsn0(out);
      }
      self.print_def(l, out);
      l.wsn0(out);
      out.push(')');
    } else {
      self.print_def(l, out);
    }
  }

  fn print_def(&self, l: &mut Layout, out: &mut String) {
    match self.outer {
      Mod::None => {}
      Mod::Opt => out.push('?'),
      Mod::Not => out.push('!'),
    }
    out.push('<');
    match self.inner {
      Mod::None => {}
      Mod::Opt => out.push('?'),
      Mod::Not => out.push('!'),
    }
    l.wsn0(out);
    match &self.m {
      M::Regex(rx, f) => {
        out.push('/');
        let text = l.regex(&rx.print());
        out.push_str(&text);
        out.push('/');
        out.push_str(&f.text());
      }
      M::Equals(s) => {
        out.push('=');
        let q = l.quoted(s);
        out.push_str(&q);
      }
      M::Seq(a, b, c) => {
        out.push('%');
        l.wsn0(out);
        let q = l.quoted(a);
        out.push_str(&q);
        l.wsn0(out);
        out.push(',');
        l.wsn0(out);
        let q = l.quoted(b);
        out.push_str(&q);
        l.wsn0(out);
        out.push(',');
        l.wsn0(out);
        let q = l.quoted(c);
        out.push_str(&q);
      }
      M::Custom(n) => out.push_str(n),
      M::Switch(ps) => {
        out.push('[');
        l.wsn0(out);
        for (i, p) in ps.iter().enumerate() {
          if i > 0 {
            out.push('|');
            l.wsn0(out);
          }
          p.print(l, out);
          l.wsn0(out);
        }
        out.push(']');
      }
      M::Program(ps) => {
        out.push('{');
        l.wsn0(out);
        for p in ps {
          p.print(l, out);
          l.wsn0(out);
        }
        out.push('}');
      }
    }
    if !self.attrs.is_empty() {
      l.wsn1(out);
      print_attrs(&self.attrs, l, out);
    }
    l.wsn0(out);
    out.push('>');
    match self.rep {
      Rep::None => {}
      Rep::Star => out.push('*'),
      Rep::Plus => out.push('+'),
      Rep::Range(a, b) => {
        out.push('{');
        l.ws0(out);
        out.push_str(&a.to_string());
        l.ws0(out);
        out.push(',');
        l.ws0(out);
        out.push_str(&b.to_string());
        l.ws0(out);
        out.push('}');
      }
      Rep::Open(a) => {
        out.push('{');
        l.ws0(out);
        out.push_str(&a.to_string());
        l.ws0(out);
        out.push(',');
        l.ws0(out);
        out.push('}');
      }
    }
  }

  fn def_node(&self, ar: &mut Arena, name: Option<String>, captured: bool) -> usize {
    let mut id = match &self.m {
      M::Regex(rx, f) => ar.add(K::Matches(rx.clone(), *f), vec![]),
      M::Equals(s) => ar.add(K::Equals(Src::Str(s.clone())), vec![]),
      M::Seq(a, b, c) => ar.add(
        K::Sequence(Src::Str(a.clone()), Src::Str(b.clone()), Src::Str(c.clone())),
        vec![],
      ),
      M::Custom(n) => ar.add(K::Ref(Src::Str(n.clone())), vec![]),
      M::Switch(ps) => {
        let kids = ps.iter().map(|p| p.node(ar)).collect();
        ar.add(K::Switch, kids)
      }
      M::Program(ps) => {
        let kids = ps.iter().map(|p| p.node(ar)).collect();
        ar.add(K::Program, kids)
      }
    };
    ar.nodes[id].name = name;
    if !self.attrs.is_empty() {
      // The last one of a name counts
      let mut attrs: Vec<(String, String)> = Vec::new();
      for (k, v) in &self.attrs {
        attrs.retain(|(n, _)| n != k);
        attrs.push((k.clone(), v.clone()));
      }
      id = ar.add(K::MapAttrs(attrs), vec![id]);
    }
    let modify = |ar: &mut Arena, m: Mod, id: usize| match m {
      Mod::None => id,
      Mod::Opt => ar.add(K::Optional, vec![id]),
      Mod::Not => ar.add(K::Not, vec![id]),
    };
    id = modify(ar, self.inner, id);
    id = match self.rep {
      Rep::None => id,
      Rep::Star => ar.add(K::Loop(0, UNBOUNDED), vec![id]),
      Rep::Plus => ar.add(K::Loop(1, UNBOUNDED), vec![id]),
      Rep::Range(a, b) => ar.add(K::Loop(a, b), vec![id]),
      Rep::Open(a) => ar.add(K::Loop(a, UNBOUNDED), vec![id]),
    };
    id = modify(ar, self.outer, id);
    if !captured {
      id = ar.add(K::Discard, vec![id]);
    }
    id
  }

  pub fn node(&self, ar: &mut Arena) -> usize {
    let name = if self.captured { self.name.clone() } else { None };
    self.def_node(ar, name, self.captured)
  }

  pub fn has_names(&self) -> bool {
    self.captured && self.name.is_some()
      || match &self.m {
        M::Switch(ps) | M::Program(ps) => ps.iter().any(|p| p.has_names()),
        _ => false,
      }
  }

  /// What a script that names its captures does today: all get one name
  fn rename(&mut self, to: &str) {
    if self.name.is_some() {
      self.name = Some(to.to_string());
    }
    match &mut self.m {
      M::Switch(ps) | M::Program(ps) => ps.iter_mut().for_each(|p| p.rename(to)),
      _ => {}
    }
  }
}

impl Script {
  pub fn print(&self, l: &mut Layout) -> String {
    let mut out = String::new();
    l.comment(&mut out);
    l.comment(&mut out);
    l.wsn0(&mut out);
    if let Some(h) = &self.header {
      out.push_str("<!--[adextopa");
      l.ws1(&mut out);
      let mut attrs = vec![("version".to_string(), "1".to_string())];
      if let Some(n) = &h.name {
        attrs.push(("name".to_string(), n.clone()));
      }
      attrs.extend(h.extra.iter().cloned());
      print_attrs(&attrs, l, &mut out);
      l.wsn0(&mut out);
      out.push(']');
      for item in &h.items {
        out.push('\n');
        l.comment(&mut out);
        l.wsn0(&mut out);
        match item {
          Item::Assign(n, p) => {
            out.push_str(n);
            l.wsn0(&mut out);
            out.push('=');
            l.wsn0(&mut out);
            p.print_def(l, &mut out);
          }
          Item::Alias(a, b) => {
            out.push_str(a);
            l.wsn0(&mut out);
            out.push('=');
            l.wsn0(&mut out);
            out.push_str(b);
          }
          Item::Import(names, _, path) => {
            out.push_str("import");
            l.ws0(&mut out);
            out.push('{');
            for (i, (n, to)) in names.iter().enumerate() {
              l.wsn0(&mut out);
              out.push_str(n);
              if let Some(to) = to {
                l.wsn1(&mut out);
                out.push_str("as");
                l.wsn1(&mut out);
                out.push_str(to);
              }
              if i + 1 < names.len() {
                out.push(',');
              }
            }
            l.wsn0(&mut out);
            out.push('}');
            l.ws0(&mut out);
            out.push_str("from");
            l.ws0(&mut out);
            let q = l.quoted(path);
        out.push_str(&q);
          }
        }
      }
      l.wsn0(&mut out);
      if !h.items.is_empty() || l.rng.pct(50) {
        out.push('\n');
        l.comment(&mut out);
      }
      out.push_str("-->");
    }
    for p in &self.patterns {
      l.wsn0(&mut out);
      l.comment(&mut out);
      p.print(l, &mut out);
    }
    l.wsn0(&mut out);
    l.comment(&mut out);
    out
  }

  pub fn has_names(&self) -> bool {
    self.patterns.iter().any(|p| p.has_names())
      || self.header.as_ref().map_or(false, |h| {
        h.items.iter().any(|i| match i {
          // The name of an assignment replaces that of its own pattern
          Item::Assign(_, p) => match &p.m {
            M::Switch(ps) | M::Program(ps) => ps.iter().any(|p| p.has_names()),
            _ => false,
          },
          _ => false,
        })
      })
  }

  pub fn rename_captures(&mut self, to: &str) {
    self.patterns.iter_mut().for_each(|p| p.rename(to));
    if let Some(h) = &mut self.header {
      for i in &mut h.items {
        if let Item::Assign(_, p) = i {
          p.rename(to);
        }
      }
    }
  }
}

/// Why scripts do not compile
#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
  Circular,
  Missing,
  NotFound(String),
  UnnamedRoot,
  Malformed,
}

/// The meaning of file `at` of some scripts; `None` is a file that is missing
pub fn link(
  files: &[Option<Script>],
  at: usize,
  name: &str,
  ar: &mut Arena,
  importing: &mut Vec<usize>,
) -> Result<(usize, usize), Bad> {
  let script = match &files[at] {
    Some(s) => s,
    None => return Err(Bad::Missing),
  };
  importing.push(at);
  let scope = ar.scopes.len();
  ar.scopes.push(Vec::new());
  let mut root_name = name.to_string();
  if let Some(h) = &script.header {
    if let Some(n) = &h.name {
      root_name = n.clone();
    }
    for item in &h.items {
      match item {
        Item::Assign(n, p) => {
          let id = p.def_node(ar, Some(n.clone()), true);
          ar.scopes[scope].push((n.clone(), id));
        }
        Item::Alias(n, to) => {
          let id = ar.add(K::Ref(Src::Str(to.clone())), vec![]);
          ar.scopes[scope].push((n.clone(), id));
        }
        Item::Import(names, file, _) => {
          if importing.contains(file) {
            return Err(Bad::Circular);
          }
          let (root, other) = link(files, *file, "imported", ar, importing)?;
          for (n, to) in names {
            let here = to.clone().unwrap_or(n.clone());
            if n == "_" {
              if here == "_" {
                return Err(Bad::UnnamedRoot);
              }
              let kids = ar.nodes[root].kids.clone();
              let named = ar.add_named(K::Program, kids, Some(here.clone()), 0);
              ar.scopes[scope].push((here, named));
            } else {
              let id = match ar.scopes[other].iter().rev().find(|(x, _)| x == n) {
                Some((_, id)) => *id,
                None => return Err(Bad::NotFound(n.clone())),
              };
              let map = ar.add(K::MapRename(here.clone()), vec![id]);
              let set = ar.add(K::SetScopeX(other), vec![map]);
              ar.scopes[scope].push((here, set));
            }
          }
        }
      }
    }
  }
  let kids = script.patterns.iter().map(|p| p.node(ar)).collect();
  let program = ar.add(K::Program, kids);
  let proxy = ar.add(K::Proxy, vec![program]);
  let set = ar.add(K::SetScopeX(scope), vec![proxy]);
  let root = ar.add_named(K::Program, vec![set], Some(root_name), 0);
  importing.pop();
  Ok((root, scope))
}

pub struct ScriptProfile {
  pub depth: usize,
  pub names: usize,
  pub header: usize,
  pub multibyte: usize,
}

struct Gen<'a> {
  rng: &'a mut Rng,
  p: &'a ScriptProfile,
  known: Vec<String>,
  multibyte: bool,
  pool: Vec<String>,
}

pub const IDENTS: [&str; 24] = [
  "Word", "A", "B", "Expr", "$x", "_y", "imports", "Item_2", "Nam", "from", "Word", "A", "B", "Expr",
  "a", "Z9", "as", "$", "__", "word", "importer", "AB", "x1y2z3",
  "ALongNameThatIsLongerThanMostNamesAre_0123456789",
];

pub fn ident(rng: &mut Rng) -> String {
  if rng.pct(80) {
    return rng.pick(&IDENTS).to_string();
  }
  let mut s = rng.pick(&["a", "A", "z", "Z", "$", "_", "q"]).to_string();
  for _ in 0..rng.range(0, 5) {
    s.push_str(*rng.pick(&["a", "B", "$", "_", "0", "9", "x", "Q", "z", "Z"]));
  }
  s
}

fn text(g: &mut Gen) -> String {
  if g.rng.pct(75) && !g.pool.is_empty() {
    return g.rng.pick(&g.pool).clone();
  }
  let mut atoms = vec![
    "a", "b", "ab", "1", " ", ",", "'", "\\", "(", ">", "x y", "#", "-->", "a", "b", "A", "<", "/",
    "\"", "|", "]", "}", "?", "!", "\t", "\n", "%", "=", "\r\n", "\r", "\n\n",
  ];
  if g.multibyte {
    atoms.extend_from_slice(&["é", "日", "日本", "😀", "É", "\u{a0}", "\u{feff}"]);
  }
  let n = g.rng.range(1, 2);
  let mut s = String::new();
  for _ in 0..n {
    s.push_str(g.rng.pick(&atoms));
  }
  s
}

fn gen_m(g: &mut Gen, depth: usize) -> M {
  let w: [u32; 6] = if depth == 0 {
    [5, 6, 2, 4, 0, 0]
  } else {
    [4, 5, 2, 4, 4, 5]
  };
  match g.rng.weighted(&w) {
    0 => {
      let p = RxProfile {
        multibyte: g.multibyte,
        newline: false,
      };
      let d = g.rng.range(0, 2);
      let rx = gen_rx(g.rng, &p, d);
      let mut f = Flags::default();
      if g.rng.pct(20) {
        f.i = true;
      }
      if g.rng.pct(10) {
        f.s = true;
      }
      if g.rng.pct(5) {
        f.m = true;
      }
      if g.rng.pct(5) {
        f.u = true;
      }
      M::Regex(rx, f)
    }
    1 => M::Equals(text(g)),
    2 => {
      let a = *g.rng.pick(&["\"", "'", "(", "<!--", "a", "«", "[[", "/", "日"]);
      let b = if g.rng.pct(40) {
        a
      } else {
        *g.rng.pick(&["\"", "'", ")", "-->", "b", "»", "日", "]]", "\n", "*/"])
      };
      let c = *g.rng.pick(&["\\", "\\", "", "", "!", "^^", "é", "'", " "]);
      M::Seq(a.to_string(), b.to_string(), c.to_string())
    }
    3 => {
      if g.known.is_empty() || g.rng.pct(4) {
        if g.rng.pct(50) {
          return M::Equals(text(g));
        }
        return M::Custom(ident(g.rng));
      }
      let k = g.known.clone();
      M::Custom(g.rng.pick(&k).clone())
    }
    4 => {
      let top = if g.rng.pct(4) { 9 } else { 3 };
      let n = g.rng.range(1, top);
      M::Switch((0..n).map(|_| gen_p(g, depth - 1)).collect())
    }
    _ => {
      let top = if g.rng.pct(4) { 9 } else { 3 };
      let n = g.rng.range(1, top);
      M::Program((0..n).map(|_| gen_p(g, depth - 1)).collect())
    }
  }
}

pub fn gen_attrs(rng: &mut Rng) -> Vec<(String, String)> {
  let n = rng.range(1, 3);
  (0..n)
    .map(|_| {
      (
        rng
          .pick(&["hello", "a", "b_c", "x1", "name", "+", "version", "é", "A", "value", "a+b", "1", "b__"])
          .to_string(),
        rng
          .pick(&["world", "", "1", "it's", "\\", "é 日", "a\nb", ">", "-->", "a='b'", "#", " x ", "/", "\"q\""])
          .to_string(),
      )
    })
    .collect()
}

fn gen_p(g: &mut Gen, depth: usize) -> P {
  let m = gen_m(g, depth);
  let captured = g.rng.pct(70);
  let name = if captured && g.rng.pct(g.p.names) {
    Some(g.rng.pick(&["first", "Name", "é x", "value"]).to_string())
  } else {
    None
  };
  let mods = |rng: &mut Rng| match rng.weighted(&[80, 14, 6]) {
    0 => Mod::None,
    1 => Mod::Opt,
    _ => Mod::Not,
  };
  let outer = mods(g.rng);
  let inner = mods(g.rng);
  let attrs = if g.rng.pct(25) { gen_attrs(g.rng) } else { Vec::new() };
  let rep = match g.rng.weighted(&[66, 8, 8, 10, 4]) {
    0 => Rep::None,
    1 => Rep::Star,
    2 => Rep::Plus,
    3 => {
      let (a, b) = *g.rng.pick(&[
        (0, 1), (1, 2), (2, 2), (1, 5), (0, 3), (2, 4), (1, 1), (3, 10), (10, 12), (0, 20), (9, 9),
        (5, 100), (1, 65536),
      ]);
      Rep::Range(a, b)
    }
    _ => Rep::Open(if g.rng.pct(15) { g.rng.range(4, 12) } else { g.rng.range(0, 3) }),
  };
  P {
    captured,
    name,
    outer,
    inner,
    m,
    attrs,
    rep,
  }
}

pub fn gen_script(rng: &mut Rng, p: &ScriptProfile, imports: Vec<Item>) -> Script {
  let multibyte = rng.pct(p.multibyte);
  let mut g = Gen {
    rng,
    p,
    known: Vec::new(),
    multibyte,
    pool: Vec::new(),
  };
  for _ in 0..4 {
    let t = text(&mut g);
    g.pool.push(t);
  }
  let mut script = Script::default();
  if g.rng.pct(p.header) || !imports.is_empty() {
    let mut h = Header::default();
    if g.rng.pct(60) {
      h.name = Some(g.rng.pick(&["Main", "Word", "é name", "it's", "A", "Script", "x\\y"]).to_string());
    }
    if g.rng.pct(25) {
      h.extra = gen_attrs(g.rng);
      h.extra.retain(|(k, _)| k != "name" && k != "version");
    }
    for i in &imports {
      if let Item::Import(names, _, _) = i {
        for (n, to) in names {
          g.known.push(to.clone().unwrap_or(n.clone()));
        }
      }
    }
    let top = if g.rng.pct(5) { 12 } else { 4 };
    let n = g.rng.range(0, top);
    let mut names: Vec<String> = Vec::new();
    // Names that are defined more than once
    let few: Option<Vec<String>> = if g.rng.pct(25) {
      Some((0..3).map(|_| ident(g.rng)).collect())
    } else {
      None
    };
    for _ in 0..n {
      let name = match &few {
        Some(few) => g.rng.pick(few).clone(),
        None => ident(g.rng),
      };
      names.push(name);
    }
    // A definition can use one that comes later, and itself
    g.known.extend(names.iter().cloned());
    let mut items: Vec<Item> = Vec::new();
    for n in names {
      if g.rng.pct(15) {
        let k = g.known.clone();
        let to = g.rng.pick(&k).clone();
        items.push(Item::Alias(n, to));
      } else if g.rng.pct(12) {
        // `( ... )` with itself in between
        let open = P {
          captured: g.rng.pct(40),
          ..P::plain(M::Equals("(".to_string()))
        };
        let close = P {
          captured: g.rng.pct(40),
          ..P::plain(M::Equals(")".to_string()))
        };
        let leaf = gen_p(&mut g, 0);
        let inner = P {
          outer: Mod::Opt,
          rep: *g.rng.pick(&[Rep::None, Rep::Star, Rep::Plus]),
          ..P::plain(M::Switch(vec![P::plain(M::Custom(n.clone())), leaf]))
        };
        items.push(Item::Assign(n, P::plain(M::Program(vec![open, inner, close]))));
      } else {
        let d = g.rng.range(0, p.depth);
        let mut q = gen_p(&mut g, d);
        q.captured = true;
        q.name = None;
        items.push(Item::Assign(n, q));
      }
    }
    for i in imports {
      let at = g.rng.below(items.len() + 1);
      items.insert(at, i);
    }
    h.items = items;
    script.header = Some(h);
  }
  let top = if g.rng.pct(4) { 10 } else { 4 };
  let n = g.rng.range(1, top);
  for _ in 0..n {
    let d = g.rng.range(0, p.depth);
    let q = gen_p(&mut g, d);
    script.patterns.push(q);
  }
  script
}
