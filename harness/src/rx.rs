//! A small regular expression language with its own backtracking matcher:
//! the oracle for what a regex matcher has to match.

use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Rx {
  Lit(char),
  Dot,
  Set(bool, Vec<(char, char)>),
  Cat(Vec<Rx>),
  Alt(Vec<Rx>),
  Rep(Box<Rx>, usize, Option<usize>, bool),
  /// A group that captures
  Group(Box<Rx>),
  /// `^`
  Begin,
  /// `$`
  End,
  /// `\b`
  Word,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Flags {
  pub i: bool,
  pub s: bool,
  pub u: bool,
  pub m: bool,
}

impl Flags {
  pub fn text(&self) -> String {
    let mut s = String::new();
    if self.i {
      s.push('i');
    }
    if self.m {
      s.push('m');
    }
    if self.s {
      s.push('s');
    }
    if self.u {
      s.push('U');
    }
    s
  }
}

fn esc_lit(c: char, out: &mut String) {
  match c {
    '\n' => out.push_str("\\n"),
    '\r' => out.push_str("\\r"),
    '\t' => out.push_str("\\t"),
    '/' => out.push_str("[/]"),
    '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' | '#'
    | '&' | '-' | '~' => {
      out.push('\\');
      out.push(c);
    }
    _ => out.push(c),
  }
}

fn esc_set(c: char, out: &mut String) {
  match c {
    '\n' => out.push_str("\\n"),
    '\r' => out.push_str("\\r"),
    '\t' => out.push_str("\\t"),
    '\\' | '[' | ']' | '^' | '-' | '&' | '~' => {
      out.push('\\');
      out.push(c);
    }
    _ => out.push(c),
  }
}

impl Rx {
  pub fn print(&self) -> String {
    let mut s = String::new();
    self.emit(&mut s, 0);
    s
  }

  // level 0: alternation allowed, 1: concatenation, 2: atom
  fn emit(&self, out: &mut String, level: u8) {
    match self {
      Rx::Lit(c) => esc_lit(*c, out),
      Rx::Dot => out.push('.'),
      Rx::Set(neg, ranges) => {
        out.push('[');
        if *neg {
          out.push('^');
        }
        for (a, b) in ranges {
          esc_set(*a, out);
          if a != b {
            out.push('-');
            esc_set(*b, out);
          }
        }
        out.push(']');
      }
      Rx::Cat(items) => {
        let group = level > 1 || items.is_empty();
        if group {
          out.push_str("(?:");
        }
        for item in items {
          item.emit(out, 1);
        }
        if group {
          out.push(')');
        }
      }
      Rx::Alt(items) => {
        let group = level > 0;
        if group {
          out.push_str("(?:");
        }
        for (i, item) in items.iter().enumerate() {
          if i > 0 {
            out.push('|');
          }
          item.emit(out, 1);
        }
        if group {
          out.push(')');
        }
      }
      Rx::Rep(inner, min, max, greedy) => {
        match **inner {
          Rx::Rep(..) => {
            out.push_str("(?:");
            inner.emit(out, 0);
            out.push(')');
          }
          _ => inner.emit(out, 2),
        }
        match (min, max) {
          (0, None) => out.push('*'),
          (1, None) => out.push('+'),
          (0, Some(1)) => out.push('?'),
          (n, None) => out.push_str(&format!("{{{},}}", n)),
          (n, Some(m)) => out.push_str(&format!("{{{},{}}}", n, m)),
        }
        if !greedy {
          out.push('?');
        }
      }
      Rx::Group(inner) => {
        out.push('(');
        inner.emit(out, 0);
        out.push(')');
      }
      Rx::Begin => out.push('^'),
      Rx::End => out.push('$'),
      Rx::Word => out.push_str("\\b"),
    }
  }

  pub fn nullable(&self) -> bool {
    match self {
      Rx::Lit(_) | Rx::Dot | Rx::Set(..) => false,
      Rx::Cat(items) => items.iter().all(|i| i.nullable()),
      Rx::Alt(items) => items.iter().any(|i| i.nullable()),
      Rx::Rep(inner, min, _, _) => *min == 0 || inner.nullable(),
      Rx::Group(inner) => inner.nullable(),
      Rx::Begin | Rx::End | Rx::Word => true,
    }
  }

  /// Length in bytes of the leftmost-first match at the very start of
  /// `text`, `None` if there is none, or `Err` when the search is too long
  pub fn match_prefix(&self, text: &str, flags: Flags) -> Result<Option<usize>, ()> {
    let mut m = Matcher {
      text,
      flags,
      steps: 0,
      over: false,
    };
    let mut end: Option<usize> = None;
    m.go(self, 0, &mut |_, at| {
      end = Some(at);
      true
    });
    if m.over || !self.crate_agrees(text, flags, end) {
      return Err(());
    }
    Ok(end)
  }

  // The regex crate this project is locked to has defects of its own: an
  // unanchored search of "acQbbbbbbba" for `(?:ac[A-Z])*[a-d](?:bb){2,}?` finds
  // 3..8. Nothing is expected of a search that the crate gets wrong.
  fn crate_agrees(&self, text: &str, flags: Flags, end: Option<usize>) -> bool {
    thread_local! {
      static CACHE: RefCell<HashMap<String, Option<regex::Regex>>> = RefCell::new(HashMap::new());
    }
    let f = flags.text();
    let print = if f.is_empty() {
      self.print()
    } else {
      format!("(?{}){}", f, self.print())
    };
    CACHE.with(|cache| {
      let mut cache = cache.borrow_mut();
      if cache.len() > 256 {
        cache.clear();
      }
      let regex = cache
        .entry(print)
        .or_insert_with_key(|p| regex::Regex::new(p).ok());
      match regex {
        Some(r) => r.find(text).filter(|m| m.start() == 0).map(|m| m.end()) == end,
        None => true,
      }
    })
  }

  pub fn sample(&self, rng: &mut Rng, flags: Flags, out: &mut String) {
    match self {
      Rx::Lit(c) => {
        if flags.i && rng.pct(50) {
          let upper = c.to_uppercase();
          if upper.len() == 1 {
            out.extend(upper);
          } else {
            out.push(*c);
          }
        } else {
          out.push(*c);
        }
      }
      Rx::Dot => out.push(*rng.pick(&['a', 'b', 'é', '日', '1'])),
      Rx::Set(neg, ranges) => {
        if *neg {
          for _ in 0..8 {
            let c = *rng.pick(&['a', 'b', 'c', 'd', '1', '2', 'é', '日', ' ', '\n', '=']);
            if !ranges.iter().any(|(a, b)| *a <= c && c <= *b) {
              out.push(c);
              return;
            }
          }
        } else {
          let (a, b) = *rng.pick(ranges);
          let span = (b as u32 - a as u32) as usize;
          let c = char::from_u32(a as u32 + rng.below(span + 1) as u32).unwrap_or(a);
          out.push(c);
        }
      }
      Rx::Cat(items) => {
        for i in items {
          i.sample(rng, flags, out);
        }
      }
      Rx::Alt(items) => {
        let i = rng.below(items.len());
        items[i].sample(rng, flags, out);
      }
      Rx::Rep(inner, min, max, _) => {
        let hi = match max {
          Some(m) => (*m).min(min + 3),
          None => min + 3,
        };
        let n = rng.range(*min, hi);
        for _ in 0..n {
          inner.sample(rng, flags, out);
        }
      }
      Rx::Group(inner) => inner.sample(rng, flags, out),
      Rx::Begin | Rx::End | Rx::Word => {}
    }
  }
}

struct Matcher<'a> {
  text: &'a str,
  flags: Flags,
  steps: usize,
  over: bool,
}

impl<'a> Matcher<'a> {
  fn char_at(&self, at: usize) -> Option<char> {
    self.text[at..].chars().next()
  }

  fn eq(&self, a: char, b: char) -> bool {
    if self.flags.i {
      a.to_lowercase().eq(b.to_lowercase())
    } else {
      a == b
    }
  }

  fn go(
    &mut self,
    rx: &Rx,
    at: usize,
    k: &mut dyn FnMut(&mut Matcher<'a>, usize) -> bool,
  ) -> bool {
    self.steps += 1;
    if self.steps > 200_000 {
      self.over = true;
      return true;
    }

    match rx {
      Rx::Lit(c) => match self.char_at(at) {
        Some(d) if self.eq(*c, d) => k(self, at + d.len_utf8()),
        _ => false,
      },
      Rx::Dot => match self.char_at(at) {
        Some(d) if d != '\n' || self.flags.s => k(self, at + d.len_utf8()),
        _ => false,
      },
      Rx::Set(neg, ranges) => match self.char_at(at) {
        Some(d) => {
          let mut hit = ranges.iter().any(|(a, b)| *a <= d && d <= *b);
          if !hit && self.flags.i {
            let upper = d.to_uppercase();
            let upper = if upper.len() == 1 { Some(upper) } else { None };
            for alt in d.to_lowercase().chain(upper.into_iter().flatten()) {
              if ranges.iter().any(|(a, b)| *a <= alt && alt <= *b) {
                hit = true;
              }
            }
          }
          if hit != *neg {
            k(self, at + d.len_utf8())
          } else {
            false
          }
        }
        None => false,
      },
      Rx::Cat(items) => self.cat(items, at, k),
      Rx::Alt(items) => {
        for i in items {
          if self.go(i, at, k) {
            return true;
          }
        }
        false
      }
      Rx::Rep(inner, min, max, greedy) => {
        let greedy = *greedy != self.flags.u;
        self.rep(inner, *min, *max, greedy, 0, at, k)
      }
      Rx::Group(inner) => self.go(inner, at, k),
      Rx::End => match self.char_at(at) {
        None => k(self, at),
        Some('\n') if self.flags.m => k(self, at),
        _ => false,
      },
      // What is before the position is not looked at
      Rx::Begin => {
        let m = self.flags.m && self.text[..at].ends_with('\n');
        (at == 0 || m) && k(self, at)
      }
      Rx::Word => {
        let word = |c: Option<char>| c.map_or(false, |c| c.is_alphanumeric() || c == '_');
        let before = word(self.text[..at].chars().next_back());
        if before != word(self.char_at(at)) {
          k(self, at)
        } else {
          false
        }
      }
    }
  }

  fn cat(
    &mut self,
    items: &[Rx],
    at: usize,
    k: &mut dyn FnMut(&mut Matcher<'a>, usize) -> bool,
  ) -> bool {
    match items.split_first() {
      None => k(self, at),
      Some((first, rest)) => self.go(first, at, &mut |m, next| m.cat(rest, next, k)),
    }
  }

  fn rep(
    &mut self,
    inner: &Rx,
    min: usize,
    max: Option<usize>,
    greedy: bool,
    count: usize,
    at: usize,
    k: &mut dyn FnMut(&mut Matcher<'a>, usize) -> bool,
  ) -> bool {
    if self.over {
      return true;
    }
    if count == 0 && matches!(inner, Rx::Lit(_) | Rx::Dot | Rx::Set(..)) {
      return self.rep_one(inner, min, max, greedy, at, k);
    }
    let may = max.map_or(true, |m| count < m);
    if count < min {
      return self.go(inner, at, &mut |m, next| {
        m.rep(inner, min, max, greedy, count + 1, next, k)
      });
    }
    if greedy {
      if may
        && self.go(inner, at, &mut |m, next| {
          next != at && m.rep(inner, min, max, greedy, count + 1, next, k)
        })
      {
        return true;
      }
      k(self, at)
    } else {
      if k(self, at) {
        return true;
      }
      may
        && self.go(inner, at, &mut |m, next| {
          next != at && m.rep(inner, min, max, greedy, count + 1, next, k)
        })
    }
  }

  /// The same, of one character each time: without recursion, as texts may be long
  fn rep_one(
    &mut self,
    inner: &Rx,
    min: usize,
    max: Option<usize>,
    greedy: bool,
    mut at: usize,
    k: &mut dyn FnMut(&mut Matcher<'a>, usize) -> bool,
  ) -> bool {
    let mut ends = Vec::new();
    let mut count = 0;
    loop {
      if self.over {
        return true;
      }
      if count >= min {
        if greedy {
          ends.push(at);
        } else if k(self, at) {
          return true;
        }
      }
      if max.map_or(false, |m| count >= m) {
        break;
      }
      let mut next = at;
      self.steps = self.steps.saturating_sub(1);
      if !self.go(inner, at, &mut |_, n| {
        next = n;
        true
      }) || next == at
      {
        break;
      }
      at = next;
      count += 1;
    }
    while let Some(end) = ends.pop() {
      if k(self, end) {
        return true;
      }
    }
    false
  }
}

pub struct RxProfile {
  pub multibyte: bool,
  pub newline: bool,
}

/// Also with what looks at what is behind the match
pub fn gen_rx_ahead(rng: &mut Rng, p: &RxProfile, depth: usize) -> Rx {
  let rx = gen_rx(rng, p, depth);
  if rx.nullable() {
    return rx;
  }
  match rng.below(32) {
    0 | 1 => Rx::Cat(vec![rx, Rx::End]),
    2 | 3 => Rx::Cat(vec![rx, Rx::Word]),
    4 => Rx::Cat(vec![Rx::Begin, rx]),
    5 => Rx::Cat(vec![Rx::Word, rx]),
    6 => Rx::Alt(vec![Rx::Cat(vec![Rx::Begin, rx]), gen_rx_solid(rng, p)]),
    _ => rx,
  }
}

fn gen_rx_solid(rng: &mut Rng, p: &RxProfile) -> Rx {
  loop {
    let rx = gen_rx(rng, p, 1);
    if !rx.nullable() {
      return rx;
    }
  }
}

pub fn gen_rx(rng: &mut Rng, p: &RxProfile, depth: usize) -> Rx {
  fn lit(rng: &mut Rng, p: &RxProfile) -> char {
    if p.multibyte && rng.pct(25) {
      return *rng.pick(&['é', '日', 'ß', 'É', '😀', '\u{2028}', '\u{0}', '\u{feff}', 'ı']);
    }
    if p.newline && rng.pct(6) {
      return *rng.pick(&['\n', '\n', '\r']);
    }
    if rng.pct(20) {
      return *rng.pick(&[
        'A', 'B', 'C', 'Z', 'x', 'z', '\t', '_', '"', ',', ';', ':', '0', '9', '{', '}', '(', ')',
        '[', ']', '<', '>', '$', '^', '*', '+', '?', '|', '\\', '#', '&', '~', '!', '%', '@', '`',
      ]);
    }
    *rng.pick(&['a', 'b', 'c', '1', '2', ' ', '=', '-', '/', '\'', '.', 'a', 'b'])
  }
  if depth > 0 && rng.pct(4) {
    let rx = gen_rx(rng, p, depth - 1);
    return Rx::Group(Box::new(rx));
  }
  let w: [u32; 6] = if depth == 0 {
    [6, 1, 5, 0, 0, 0]
  } else {
    [4, 1, 4, 4, 2, 6]
  };
  match rng.weighted(&w) {
    0 => Rx::Lit(lit(rng, p)),
    1 => Rx::Dot,
    2 => {
      let neg = rng.pct(25);
      let n = rng.range(1, 3);
      let mut v = Vec::new();
      for _ in 0..n {
        if rng.pct(40) {
          v.push(*rng.pick(&[('a', 'c'), ('0', '9'), ('a', 'z'), ('A', 'Z'), ('b', 'd')]));
        } else {
          let c = lit(rng, p);
          v.push((c, c));
        }
      }
      if neg {
        // Keep the inputs short: a negated set also stops at line ends
        v.push(('\n', '\n'));
      }
      Rx::Set(neg, v)
    }
    3 => {
      let n = rng.range(2, 3);
      Rx::Cat((0..n).map(|_| gen_rx(rng, p, depth - 1)).collect())
    }
    4 => {
      let n = rng.range(2, 3);
      Rx::Alt((0..n).map(|_| gen_rx(rng, p, depth - 1)).collect())
    }
    _ => {
      let inner = gen_rx(rng, p, depth - 1);
      // A repeated expression that can be empty is where regex engines differ
      if inner.nullable() {
        return inner;
      }
      let (min, max) = *rng.pick(&[
        (0, None),
        (1, None),
        (0, Some(1)),
        (1, None),
        (2, Some(3)),
        (1, Some(2)),
        (2, None),
        (0, Some(5)),
        (4, Some(4)),
        (3, None),
      ]);
      Rx::Rep(Box::new(inner), min, max, rng.pct(85))
    }
  }
}
