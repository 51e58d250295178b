//! Random matcher expressions, and inputs for them.

use crate::expr::*;
use crate::rng::Rng;
use crate::rx::{gen_rx_ahead, Flags, Rx, RxProfile};
use std::collections::HashMap;

pub const BASE: [u32; 32] = [
  // Equals Matches Sequence Program Loop Switch Not Optional Discard Proxy Expand Pin
  16, 10, 4, 14, 8, 10, 3, 6, 6, 4, 3, 3,
  // Store StoreStr Ref RefDirect Register SetScope SetScopeX Break Error Panic
  3, 1, 3, 1, 1, 2, 1, 2, 1, 1,
  // AssertIf AssertIfNot FatalIf FatalIfNot Null Debug MapAttrs MapRename Map Catch
  1, 1, 1, 1, 1, 1, 2, 1, 1, 1,
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tmpl {
  BreakNest,
  Pin,
  Backref,
  Errors,
  Recursive,
  Csv,
  Scoping,
  Sequences,
  Loops,
  Wrappers,
  Lookahead,
  Choice,
  Fatal,
  Lines,
  Skips,
}

pub const ALL_TMPL: [Tmpl; 15] = [
  Tmpl::BreakNest,
  Tmpl::Pin,
  Tmpl::Backref,
  Tmpl::Errors,
  Tmpl::Recursive,
  Tmpl::Csv,
  Tmpl::Scoping,
  Tmpl::Sequences,
  Tmpl::Loops,
  Tmpl::Wrappers,
  Tmpl::Lookahead,
  Tmpl::Choice,
  Tmpl::Fatal,
  Tmpl::Lines,
  Tmpl::Skips,
];

#[derive(Clone)]
pub struct Profile {
  pub w: [u32; 32],
  pub depth: (usize, usize),
  /// How many of 100 cases use characters of several bytes
  pub multibyte: usize,
  /// How many of 100 cases have line ends of all sorts
  pub lines: usize,
  /// How many of 100 inputs are only a part of their source
  pub window: usize,
  pub registered: usize,
  pub scopes: usize,
  pub names: usize,
  pub fetch: usize,
  pub share: usize,
  pub wrap: usize,
  /// Out of 100 inner nodes that one of the templates is used for
  pub tmpl: usize,
  pub tmpls: Vec<Tmpl>,
}

impl Profile {
  pub fn base() -> Profile {
    Profile {
      w: BASE,
      depth: (2, 5),
      multibyte: 40,
      lines: 20,
      window: 25,
      registered: 40,
      scopes: 15,
      names: 30,
      fetch: 12,
      share: 4,
      wrap: 10,
      tmpl: 12,
      tmpls: ALL_TMPL.to_vec(),
    }
  }

  /// More of some matchers, and of what makes them interesting
  pub fn focus(kinds: &[&str], tmpls: &[Tmpl]) -> Profile {
    let mut p = Profile::base();
    for k in kinds {
      let i = KINDS.iter().position(|n| n == k).expect("kind");
      p.w[i] = p.w[i] * 4 + 6;
    }
    if !tmpls.is_empty() {
      p.tmpl = 25;
      let mut t = Vec::new();
      for _ in 0..6 {
        t.extend_from_slice(tmpls);
      }
      t.extend_from_slice(&ALL_TMPL);
      p.tmpls = t;
    }
    p
  }
}

struct Gen<'a> {
  rng: &'a mut Rng,
  p: &'a Profile,
  ar: Arena,
  loops: Vec<String>,
  refs: Vec<String>,
  multibyte: bool,
  lines: bool,
  pool: Vec<String>,
  /// Nodes that are complete and may be used a second time
  done: Vec<usize>,
}

const NAMES: [&str; 21] = [
  "A", "B", "C", "Loop", "Item", "v1", "Ünï", "L1", "A", "B", "C", "Item", "v1", "a", "Program",
  "Switch", "two words", "a.b", "Error", "", "AVeryLongNameThatNobodyWouldEverReallyUse",
];
// Some are the start of others, or differ in case only
const LOOP_NAMES: [&str; 16] = [
  "L1", "L2", "L3", "Loop", "L1", "L2", "L", "L12", "Loo", "Loops", "loop", "A", "AB", "é", "l1", "Program",
];
const VARS: [&str; 4] = ["v1", "v2", "v3", "A"];
const MESSAGES: [&str; 9] = [
  "bad", "oh no", "é!", "two\nlines", "x: y", "", "{} {0} {{}}", "  ",
  "a message that is rather long, longer than what fits into most of the lines of a terminal, and on",
];

pub fn gen_expr(rng: &mut Rng, p: &Profile) -> Arena {
  let multibyte = rng.pct(p.multibyte);
  let lines = rng.pct(p.lines);
  let mut g = Gen {
    rng,
    p,
    ar: Arena::default(),
    loops: Vec::new(),
    refs: Vec::new(),
    multibyte,
    lines,
    pool: Vec::new(),
    done: Vec::new(),
  };
  // Few patterns, so that the same text can match in several places
  let n = g.rng.range(3, 6);
  for _ in 0..n {
    let s = g.fresh_text();
    g.pool.push(s);
  }
  let depth = g.rng.range(p.depth.0, p.depth.1);
  let registered = if g.rng.pct(p.registered) { g.rng.range(1, 2) } else { 0 };
  for i in 0..registered {
    g.refs.push(format!("R{}", i + 1));
  }
  let scopes = if g.rng.pct(p.scopes) { g.rng.range(1, 2) } else { 0 };
  for i in 0..scopes {
    g.ar.scopes.push(Vec::new());
    if g.rng.pct(60) {
      g.refs.push(format!("S{}", i + 1));
    }
  }
  let root = if g.rng.pct(90) {
    g.composite(depth)
  } else {
    g.node(depth, false)
  };
  g.ar.root = root;
  for i in 0..registered {
    let id = if g.rng.pct(50) {
      g.recursive(i)
    } else {
      let d = g.rng.range(0, 2);
      g.node(d, false)
    };
    let name = format!("R{}", i + 1);
    // Registered by the name it has itself
    if g.rng.pct(35) && g.ar.nodes[id].kids.iter().all(|k| *k != id) {
      if let K::Equals(..) | K::Matches(..) | K::Sequence(..) | K::Program | K::Loop(..) | K::Switch = g.ar.nodes[id].k {
        g.ar.nodes[id].name = Some(name.clone());
      }
    }
    g.ar.registered.push((name, id));
  }
  for i in 0..scopes {
    let name = format!("S{}", i + 1);
    if g.refs.contains(&name) {
      let id = g.node(1, false);
      g.ar.scopes[i].push((name, id));
    }
    if g.rng.pct(30) && registered > 0 {
      // The same name in another scope
      let id = g.node(1, false);
      g.ar.scopes[i].push(("R1".to_string(), id));
    }
  }
  g.ar
}

/// One more matcher for an expression, which nothing refers to yet
pub fn gen_more(rng: &mut Rng, p: &Profile, ar: &mut Arena, depth: usize) -> usize {
  let multibyte = rng.pct(p.multibyte);
  let lines = rng.pct(p.lines);
  let mut pool = Vec::new();
  for n in &ar.nodes {
    if let K::Equals(Src::Str(s)) = &n.k {
      if pool.len() < 6 {
        pool.push(s.clone());
      }
    }
  }
  let refs = ar.registered.iter().map(|r| r.0.clone()).collect();
  let mut g = Gen {
    rng,
    p,
    ar: std::mem::take(ar),
    loops: vec!["Loop".to_string(), "L1".to_string()],
    refs,
    multibyte,
    lines,
    pool,
    done: Vec::new(),
  };
  let s = g.fresh_text();
  g.pool.push(s);
  let id = g.node(depth, false);
  *ar = g.ar;
  id
}

pub fn gen_name(rng: &mut Rng) -> String {
  if rng.pct(30) {
    rng.pick(&LOOP_NAMES).to_string()
  } else {
    rng.pick(&NAMES).to_string()
  }
}

impl<'a> Gen<'a> {
  fn fresh_text(&mut self) -> String {
    let mut atoms = vec!["a", "b", "ab", "c", "1", "12", " ", ",", "(", ")", "aa", "=", "-"];
    if self.multibyte {
      atoms.extend_from_slice(&["é", "日", "日本", "aé", "é", "日", "😀", "ß", "É", "\u{feff}", "\u{0}", "e\u{301}", "\u{a0}"]);
    }
    if self.lines {
      atoms.extend_from_slice(&["\n", "\r\n", "\r", "a\n", "\n", "\n\r", "\u{b}", "\u{85}", "\u{2028}"]);
    }
    if self.rng.pct(20) {
      atoms.extend_from_slice(&["A", "B", "AB", "Ab", "x", "Z", "9", "_", "\t", ";", "<", ">", "\"", "\\", "abc"]);
    }
    let n = if self.rng.pct(2) {
      self.rng.range(4, 14)
    } else {
      self.rng.weighted(&[6, 3, 1]) + 1
    };
    let mut s = String::new();
    for _ in 0..n {
      s.push_str(self.rng.pick(&atoms));
    }
    s
  }

  fn text(&mut self) -> String {
    if self.rng.pct(80) {
      self.rng.pick(&self.pool).clone()
    } else {
      self.fresh_text()
    }
  }

  fn name(&mut self) -> Option<String> {
    if self.rng.pct(self.p.names) {
      Some(self.rng.pick(&NAMES).to_string())
    } else {
      None
    }
  }

  fn msg(&mut self) -> String {
    self.rng.pick(&MESSAGES).to_string()
  }

  fn add(&mut self, k: K, kids: Vec<usize>) -> usize {
    let via = self.rng.below(24) as u8;
    let name = match k {
      K::Equals(..)
      | K::Matches(..)
      | K::Sequence(..)
      | K::Program
      | K::Switch
      | K::Loop(..)
      | K::Proxy
      | K::Ref(..)
      | K::RefDirect => self.name(),
      K::Pin(..) => self.name(),
      _ => None,
    };
    self.ar.add_named(k, kids, name, via)
  }

  fn eq(&mut self, s: &str) -> usize {
    self.add(K::Equals(Src::Str(s.to_string())), vec![])
  }

  fn equals(&mut self) -> usize {
    if self.rng.pct(self.p.fetch) {
      let path = self.path();
      return self.add(K::Equals(Src::Fetch(path)), vec![]);
    }
    let s = if self.rng.pct(2) {
      String::new()
    } else {
      self.text()
    };
    self.add(K::Equals(Src::Str(s)), vec![])
  }

  fn path(&mut self) -> String {
    let v = *self.rng.pick(&VARS);
    match self.rng.weighted(&[8, 3, 4, 1, 1, 1]) {
      0 => format!("{}.captured_value", v),
      1 => format!("{}.matched_value", v),
      2 => v.to_string(),
      3 => format!("{}.start", v),
      4 => format!("{}.captured_end", v),
      _ => format!("{}.range", v),
    }
  }

  fn matches(&mut self) -> usize {
    let p = RxProfile {
      multibyte: self.multibyte,
      newline: self.lines,
    };
    let depth = self.rng.range(0, 3);
    let rx = gen_rx_ahead(self.rng, &p, depth);
    let mut flags = Flags::default();
    if self.rng.pct(15) {
      flags.i = true;
    }
    if self.rng.pct(8) {
      flags.s = true;
    }
    if self.rng.pct(5) {
      flags.u = true;
    }
    if self.rng.pct(5) {
      flags.m = true;
    }
    self.add(K::Matches(rx, flags), vec![])
  }

  fn sequence(&mut self) -> usize {
    let mut starts = vec!["\"", "'", "(", "<!--", "a", "[["];
    let mut ends = vec!["\"", "'", ")", "-->", "b", "]]", "aa"];
    let mut escs = vec!["\\", "\\", "\\", "", "!", "\\\\", "aa", "^^"];
    if self.multibyte {
      starts.extend_from_slice(&["«", "日", "é"]);
      ends.extend_from_slice(&["»", "日", "é", "本日"]);
      escs.extend_from_slice(&["é", "日", "日本"]);
    }
    let a = self.rng.pick(&starts).to_string();
    let b = if self.rng.pct(40) {
      a.clone()
    } else {
      self.rng.pick(&ends).to_string()
    };
    let c = match self.rng.below(20) {
      0 => b.clone(),
      1 => a.clone(),
      _ => self.rng.pick(&escs).to_string(),
    };
    self.add(
      K::Sequence(Src::Str(a), Src::Str(b), Src::Str(c)),
      vec![],
    )
  }

  fn loop_bounds(&mut self) -> (usize, usize) {
    if self.rng.pct(8) {
      return *self.rng.pick(&[
        (0, 7),
        (4, 8),
        (5, 5),
        (7, UNBOUNDED),
        (10, UNBOUNDED),
        (10, 12),
        (0, 20),
        (0, 10),
        (9, 11),
        (16, 17),
        (0, 255),
        (0, 256),
        (0, 0),
        (0, 0),
        (65_536, UNBOUNDED),
        (1 << 40, UNBOUNDED),
        (UNBOUNDED - 1, UNBOUNDED),
        (UNBOUNDED, UNBOUNDED),
        (0, UNBOUNDED - 1),
        (0, 1 << 33),
      ]);
    }
    *self.rng.pick(&[
      (0, UNBOUNDED),
      (0, UNBOUNDED),
      (0, UNBOUNDED),
      (1, UNBOUNDED),
      (1, UNBOUNDED),
      (2, UNBOUNDED),
      (3, UNBOUNDED),
      (0, 1),
      (0, 2),
      (1, 2),
      (2, 4),
      (3, 3),
      (1, 1),
      (2, 2),
      (0, 3),
      (1, 5),
    ])
  }

  fn leaf(&mut self) -> usize {
    let mut w = [0u32; 32];
    for i in [0usize, 1, 2, 14, 13, 19, 20, 21, 26, 16] {
      w[i] = self.p.w[i];
    }
    let k = self.rng.weighted(&w);
    self.of_kind(k, 0)
  }

  fn consuming_leaf(&mut self) -> usize {
    match self.rng.weighted(&[6, 3, 1]) {
      0 => {
        let s = self.text();
        self.eq(&s)
      }
      1 => self.matches(),
      _ => self.sequence(),
    }
  }

  fn composite(&mut self, depth: usize) -> usize {
    let k = match self.rng.weighted(&[self.p.w[3] * 2, self.p.w[4], self.p.w[5]]) {
      0 => 3,
      1 => 4,
      _ => 5,
    };
    self.of_kind(k, depth)
  }

  /// `direct`: it is a direct child of a Program or Loop
  fn node(&mut self, depth: usize, direct: bool) -> usize {
    if !self.done.is_empty() && self.rng.pct(self.p.share) {
      return *self.rng.pick(&self.done);
    }
    let id = if depth == 0 {
      self.leaf()
    } else if self.rng.pct(self.p.tmpl) {
      let t = *self.rng.pick(&self.p.tmpls);
      self.template(t, depth)
    } else {
      let k = self.rng.weighted(&self.p.w);
      if k == 11 && direct && self.rng.pct(30) {
        let off = self.pin_src();
        return self.add(K::Pin(off), vec![]);
      }
      self.of_kind(k, depth)
    };
    let id = if depth > 0 && self.rng.pct(self.p.wrap) {
      self.wrap(id)
    } else {
      id
    };
    self.done.push(id);
    id
  }

  fn wrap(&mut self, mut id: usize) -> usize {
    let n = self.rng.range(1, 3);
    for _ in 0..n {
      let k = match self.rng.below(14) {
        0 => K::Optional,
        1 | 2 => K::Discard,
        3 | 4 => K::Proxy,
        5 => K::Expand,
        6 => K::SetScope,
        7 => K::Debug(self.rng.below(5)),
        8 => K::Store(self.rng.pick(&VARS).to_string()),
        9 => K::RefDirect,
        10 => self.attrs(),
        11 => K::Map(*self.rng.pick(&[MapMode::Same, MapMode::SameOrSkip, MapMode::Proxy, MapMode::Mark, MapMode::Replace, MapMode::Set, MapMode::SameOrFail, MapMode::Trim, MapMode::Value, MapMode::Over])),
        12 => K::Catch(self.catch_mode()),
        _ => K::MapRename(self.rng.pick(&NAMES).to_string()),
      };
      id = self.add(k, vec![id]);
    }
    id
  }

  fn attrs(&mut self) -> K {
    let n = self.rng.range(1, 3);
    let mut v = Vec::new();
    for i in 0..n {
      v.push((
        format!("{}{}", self.rng.pick(&["k", "name", "ü", "__x", "Value", "a-b"]), i),
        self.rng.pick(&["", "1", "é", "x y", "true", "\n", "\"q\""]).to_string(),
      ));
    }
    K::MapAttrs(v)
  }

  /// A success that becomes a jump
  fn jump(&mut self) -> MapMode {
    let jump = if self.rng.pct(50) { Jump::Break } else { Jump::Continue };
    let to = self.jump_target();
    let load = match self.rng.below(8) {
      0 => Load::Nothing,
      1 | 2 => Load::Children,
      3 | 4 => Load::Skip,
      _ => Load::Token,
    };
    MapMode::Jump(jump, to, load)
  }

  fn jump_target(&mut self) -> &'static str {
    if let Some(n) = self.loops.last() {
      let n = if self.rng.pct(30) { self.rng.pick(&self.loops).clone() } else { n.clone() };
      if self.rng.pct(70) {
        if let Some(s) = LOOP_NAMES.iter().chain(&["Loop"]).find(|s| **s == n) {
          return s;
        }
      }
    }
    *self.rng.pick(&["", "", "L1", "L2", "Loop"])
  }

  fn catch_mode(&mut self) -> CatchMode {
    let jump = if self.rng.pct(50) { Jump::Break } else { Jump::Continue };
    let to = self.jump_target();
    *self.rng.pick(&[
      CatchMode::Pass,
      CatchMode::Swallow,
      CatchMode::SwallowFail,
      CatchMode::FailToError,
      CatchMode::ErrorToFail,
      CatchMode::Describe,
      CatchMode::Rest,
      CatchMode::Jump(jump, to),
      CatchMode::Fatal,
      CatchMode::Bare,
    ])
  }

  fn pin_src(&mut self) -> Src {
    if self.rng.pct(35) {
      let v = *self.rng.pick(&VARS);
      let f = *self.rng.pick(&["range", "captured_range", "start", "captured_start", "end"]);
      return Src::Fetch(format!("{}.{}", v, f));
    }
    if self.rng.pct(20) {
      // Offsets that are outside of the source, upside down, or none
      if self.rng.pct(30) {
        let v = *self.rng.pick(&VARS);
        let f = *self.rng.pick(&["captured_value", "value", "matched_value"]);
        return Src::Fetch(format!("{}.{}", v, f));
      }
      let odd = self.rng.pick(&[
        "+40", "-40", "40", "0..40", "+0..+40", "40..", "40..41", "3..1", "2..2", "+2..-1", "+1..0",
        "18446744073709551615", "+18446744073709551615", "-18446744073709551615",
        "..18446744073709551615", "..+18446744073709551615", "99999999999999999999", "x", "é", "é..",
        "1..x", "+x", "- 1", " 1", "--1", "+-1", "++1", "1.5", "1...2", "1..2..3", "0x1", "-0..", "00",
        "+00", "..99999999999999999999", "1..é",
      ]);
      return Src::Str(odd.to_string());
    }
    Src::Str(
      self
        .rng
        .pick(&[
          "", "", "+", "+0", "0", "1", "+1", "+2", "-1", "0..", "0..3", "..+2", "+0..+2", "1..+3",
          "+1..", "-1..+1", "..", "0..-0",
        ])
        .to_string(),
    )
  }

  fn break_target(&mut self) -> String {
    if !self.loops.is_empty() && self.rng.pct(75) {
      let l = self.loops.clone();
      return self.rng.pick(&l).clone();
    }
    if self.rng.pct(40) {
      return String::new();
    }
    self.rng.pick(&LOOP_NAMES).to_string()
  }

  fn body(&mut self, depth: usize, lo: usize, hi: usize) -> Vec<usize> {
    let n = self.rng.range(lo, hi);
    let mut kids = Vec::new();
    for _ in 0..n {
      let d = if depth == 0 { 0 } else { self.rng.below(depth) };
      let id = self.node(d, true);
      kids.push(id);
    }
    kids
  }

  fn of_kind(&mut self, k: usize, depth: usize) -> usize {
    let d = depth.saturating_sub(1);
    match k {
      0 => self.equals(),
      1 => self.matches(),
      2 => self.sequence(),
      3 => {
        let hi = if self.rng.pct(3) { 10 } else { 4 };
        let kids = self.body(depth, 1, hi);
        self.add(K::Program, kids)
      }
      4 => {
        let (lo, hi) = self.loop_bounds();
        let name = if self.rng.pct(40) {
          Some(self.rng.pick(&LOOP_NAMES).to_string())
        } else {
          None
        };
        self.loops.push(name.clone().unwrap_or("Loop".to_string()));
        let n = if self.rng.pct(3) { 7 } else { 3 };
        let kids = self.body(depth, 1, n);
        self.loops.pop();
        let via = self.rng.below(24) as u8;
        self.ar.add_named(K::Loop(lo, hi), kids, name, via)
      }
      5 => {
        let hi = if self.rng.pct(4) { 10 } else { 4 };
        let n = self.rng.range(1, hi);
        let mut kids = Vec::new();
        for _ in 0..n {
          let d = if depth == 0 { 0 } else { self.rng.below(depth) };
          kids.push(self.node(d, false));
        }
        self.add(K::Switch, kids)
      }
      11 => {
        let off = self.pin_src();
        let kid = self.node(d, false);
        self.add(K::Pin(off), vec![kid])
      }
      12 => {
        let var = self.rng.pick(&VARS).to_string();
        let kid = if self.rng.pct(8) {
          let off = self.pin_src();
          self.add(K::Pin(off), vec![])
        } else {
          self.node(d, false)
        };
        self.add(K::Store(var), vec![kid])
      }
      13 => {
        let var = self.rng.pick(&VARS).to_string();
        let value = self.text();
        self.add(K::StoreStr(var, value), vec![])
      }
      14 => {
        if self.rng.pct(self.p.fetch) {
          let v = self.rng.pick(&VARS).to_string();
          return self.add(K::Ref(Src::Fetch(v)), vec![]);
        }
        let target = if !self.refs.is_empty() && self.rng.pct(80) {
          let r = self.refs.clone();
          self.rng.pick(&r).clone()
        } else {
          self.rng.pick(&NAMES).to_string()
        };
        self.add(K::Ref(Src::Str(target)), vec![])
      }
      16 => {
        let n = self.rng.range(1, 2);
        let mut kids = Vec::new();
        for _ in 0..n {
          let id = self.consuming_leaf();
          if self.ar.nodes[id].name.is_none() {
            self.ar.nodes[id].name = Some(self.rng.pick(&["R1", "R2", "A", "B"]).to_string());
          }
          kids.push(id);
        }
        self.ar.add(K::Register, kids)
      }
      18 => {
        let kid = self.node(d, false);
        if self.ar.scopes.is_empty() {
          self.add(K::SetScope, vec![kid])
        } else {
          let i = self.rng.below(self.ar.scopes.len());
          self.add(K::SetScopeX(i), vec![kid])
        }
      }
      19 => {
        let t = self.break_target();
        self.add(K::Break(t), vec![])
      }
      20 => {
        let m = self.msg();
        self.add(K::Error(m), vec![])
      }
      21 => {
        let m = self.msg();
        self.add(K::Panic(m), vec![])
      }
      26 => self.add(K::Null, vec![]),
      27 => {
        let mode = self.rng.below(5);
        if self.rng.pct(20) {
          return self.add(K::Debug(mode), vec![]);
        }
        let kid = self.node(d, false);
        self.add(K::Debug(mode), vec![kid])
      }
      _ => {
        let kid = self.node(d, false);
        let k = match k {
          6 => K::Not,
          7 => K::Optional,
          8 => K::Discard,
          9 => K::Proxy,
          10 => K::Expand,
          15 => K::RefDirect,
          17 => K::SetScope,
          22 => K::AssertIf(self.msg()),
          23 => K::AssertIfNot(self.msg()),
          24 => K::FatalIf(self.msg()),
          25 => K::FatalIfNot(self.msg()),
          28 => self.attrs(),
          29 => K::MapRename(self.rng.pick(&NAMES).to_string()),
          30 => {
            let jumps = self.jump();
            K::Map(*self.rng.pick(&[
            MapMode::Same,
            MapMode::Fail,
            MapMode::Skip,
            MapMode::Over,
            MapMode::Step,
            MapMode::Back,
            MapMode::Proxy,
            MapMode::SameOrSkip,
            MapMode::Mark,
            MapMode::Mark,
            MapMode::Replace,
            MapMode::Fatal,
            MapMode::Bare,
            MapMode::Trim,
            MapMode::Value,
            jumps,
            jumps,
            MapMode::Set,
            MapMode::SameOrSwallow,
            MapMode::SameOrFail,
            MapMode::SameOrFatal,
          ]))
          }
          _ => K::Catch(self.catch_mode()),
        };
        self.add(k, vec![kid])
      }
    }
  }

  /// `( ... )` with itself, or another registered one, in between
  fn recursive(&mut self, i: usize) -> usize {
    let open = *self.rng.pick(&["(", "[", "a("]);
    let close = *self.rng.pick(&[")", "]"]);
    let o = self.eq(open);
    let c = self.eq(close);
    let target = if self.rng.pct(75) || self.refs.is_empty() {
      format!("R{}", i + 1)
    } else {
      let r = self.refs.clone();
      self.rng.pick(&r).clone()
    };
    let r = self.add(K::Ref(Src::Str(target)), vec![]);
    let leaf = self.consuming_leaf();
    let sw = self.add(K::Switch, vec![r, leaf]);
    let inner = match self.rng.below(3) {
      0 => self.add(K::Optional, vec![sw]),
      1 => {
        let l = self.add(K::Loop(0, UNBOUNDED), vec![sw]);
        self.add(K::Optional, vec![l])
      }
      _ => {
        let l = self.add(K::Loop(1, UNBOUNDED), vec![sw]);
        let l = if self.rng.pct(40) { self.add(K::Proxy, vec![l]) } else { l };
        self.add(K::Optional, vec![l])
      }
    };
    let o = if self.rng.pct(50) { self.add(K::Discard, vec![o]) } else { o };
    let c = if self.rng.pct(50) { self.add(K::Discard, vec![c]) } else { c };
    self.add(K::Program, vec![o, inner, c])
  }

  fn wrapped_break(&mut self, target: String) -> usize {
    let mut id = self.add(K::Break(target), vec![]);
    if self.rng.pct(50) {
      // What was matched before is handed over with the break
      let n = self.rng.range(1, 2);
      let mut kids = Vec::new();
      for _ in 0..n {
        let leaf = self.consuming_leaf();
        kids.push(if self.rng.pct(30) { self.wrap(leaf) } else { leaf });
      }
      kids.push(id);
      id = self.add(K::Program, kids);
    }
    let n = self.rng.weighted(&[4, 3, 2]);
    for _ in 0..n {
      let k = match self.rng.below(10) {
        0 => K::Optional,
        1 => K::Discard,
        2 => K::Proxy,
        3 => K::Expand,
        4 => K::SetScope,
        5 => K::Debug(0),
        6 => K::RefDirect,
        7 => K::Not,
        8 => K::Store("v1".to_string()),
        _ => K::Switch,
      };
      id = self.add(k, vec![id]);
    }
    id
  }

  fn template(&mut self, t: Tmpl, depth: usize) -> usize {
    let d = depth.saturating_sub(1).min(2);
    match t {
      Tmpl::BreakNest => {
        let levels = self.rng.range(1, 3);
        let mut names = Vec::new();
        for _ in 0..levels {
          let n = if self.rng.pct(70) {
            Some(self.rng.pick(&LOOP_NAMES).to_string())
          } else {
            None
          };
          names.push(n.clone());
          self.loops.push(n.unwrap_or("Loop".to_string()));
        }
        let mut inner: Option<usize> = None;
        for name in names.into_iter().rev() {
          let target = self.break_target();
          let brk = self.wrapped_break(target);
          let guard = self.text();
          let g = self.eq(&guard);
          let stop = self.add(K::Program, vec![g, brk]);
          let mut alts = vec![stop];
          if let Some(inner) = inner {
            let lead = self.text();
            let l = self.eq(&lead);
            let l = if self.rng.pct(40) { self.add(K::Discard, vec![l]) } else { l };
            let nest = self.add(K::Program, vec![l, inner]);
            alts.push(if self.rng.pct(30) { self.wrap(nest) } else { nest });
          }
          if self.rng.pct(40) {
            // One that goes on with the loop, or with one around it
            let leaf = self.consuming_leaf();
            let leaf = if self.rng.pct(30) {
              let more = self.leaf();
              self.add(K::Program, vec![leaf, more])
            } else {
              leaf
            };
            let mode = self.jump();
            let leap = self.add(K::Map(mode), vec![leaf]);
            let leap = if self.rng.pct(30) { self.wrap(leap) } else { leap };
            let leap = if self.rng.pct(40) {
              let lead = self.consuming_leaf();
              let lead = if self.rng.pct(40) { self.add(K::Discard, vec![lead]) } else { lead };
              let after = self.leaf();
              self.add(K::Program, vec![lead, leap, after])
            } else {
              leap
            };
            alts.push(leap);
          }
          for _ in 0..2 {
            let leaf = self.consuming_leaf();
            alts.push(leaf);
          }
          let sw = self.add(K::Switch, alts);
          let mut body = vec![sw];
          if self.rng.pct(40) {
            let tail = self.leaf();
            let tail = self.add(K::Optional, vec![tail]);
            body.push(tail);
          }
          let (lo, hi) = self.loop_bounds();
          self.loops.pop();
          let via = self.rng.below(24) as u8;
          inner = Some(self.ar.add_named(K::Loop(lo, hi), body, name, via));
        }
        let rest = self.leaf();
        let rest = self.add(K::Optional, vec![rest]);
        self.add(K::Program, vec![inner.unwrap(), rest])
      }
      Tmpl::Pin => {
        let var = self.rng.pick(&VARS).to_string();
        let m = match self.rng.below(5) {
          // What captures less than it matches
          0 | 1 => self.sequence(),
          2 => {
            let a = self.consuming_leaf();
            let a = self.add(K::Discard, vec![a]);
            let b = self.sequence();
            let p = self.add(K::Program, vec![a, b]);
            if self.rng.pct(50) { self.add(K::Expand, vec![p]) } else { p }
          }
          _ => self.node(d, false),
        };
        let s = self.add(K::Store(var.clone()), vec![m]);
        let f = *self.rng.pick(&[
          "range", "captured_range", "captured_range", "start", "captured_start", "end",
        ]);
        let again = if self.rng.pct(40) {
          // All of the window
          let rx = Rx::Rep(Box::new(Rx::Dot), 1, None, true);
          let flags = Flags { s: true, ..Flags::default() };
          self.add(K::Matches(rx, flags), vec![])
        } else {
          self.node(d, false)
        };
        let pin = self.add(K::Pin(Src::Fetch(format!("{}.{}", var, f))), vec![again]);
        let wrapped = match self.rng.below(6) {
          0 => self.add(K::Optional, vec![pin]),
          1 => self.add(K::Discard, vec![pin]),
          2 => self.add(K::Proxy, vec![pin]),
          3 => self.add(K::Debug(0), vec![pin]),
          _ => pin,
        };
        let rest = self.node(d, true);
        let k = if self.rng.pct(25) {
          let (lo, hi) = self.loop_bounds();
          K::Loop(lo, hi)
        } else {
          K::Program
        };
        let mut kids = vec![s, wrapped, rest];
        if self.rng.pct(30) {
          let p = self.pin_src();
          let e = self.add(K::Pin(p), vec![]);
          let at = self.rng.below(kids.len() + 1);
          kids.insert(at, e);
        }
        self.add(k, kids)
      }
      Tmpl::Backref => {
        let var = self.rng.pick(&VARS).to_string();
        let m = self.consuming_leaf();
        let m = if self.rng.pct(30) { self.wrap(m) } else { m };
        let s = self.add(K::Store(var.clone()), vec![m]);
        let sep = self.leaf();
        let sep = self.add(K::Optional, vec![sep]);
        let f = *self.rng.pick(&["captured_value", "matched_value"]);
        let again = self.add(K::Equals(Src::Fetch(format!("{}.{}", var, f))), vec![]);
        self.add(K::Program, vec![s, sep, again])
      }
      Tmpl::Errors => {
        let m = self.msg();
        let e = match self.rng.below(5) {
          0 | 1 => self.add(K::Error(m), vec![]),
          2 => {
            let l = self.consuming_leaf();
            self.add(K::AssertIf(m), vec![l])
          }
          3 => {
            let l = self.consuming_leaf();
            self.add(K::AssertIfNot(m), vec![l])
          }
          _ => {
            let l = self.consuming_leaf();
            self.add(K::Catch(CatchMode::FailToError), vec![l])
          }
        };
        let a = self.consuming_leaf();
        let mut kids = vec![a, e];
        let n = self.rng.below(3);
        for _ in 0..n {
          let x = self.node(d, true);
          kids.push(x);
        }
        let at = self.rng.below(kids.len());
        kids.swap(1, at);
        let k = if self.rng.pct(30) {
          let (lo, hi) = self.loop_bounds();
          K::Loop(lo, hi)
        } else {
          K::Program
        };
        let p = self.add(k, kids);
        let p = if self.rng.pct(70) { self.wrap(p) } else { p };
        let other = self.node(d, false);
        match self.rng.below(3) {
          0 => self.add(K::Switch, vec![p, other]),
          1 => self.add(K::Program, vec![p, other]),
          _ => {
            let b = self.consuming_leaf();
            self.add(K::Program, vec![b, p])
          }
        }
      }
      Tmpl::Recursive => {
        if self.refs.is_empty() {
          return self.composite(d);
        }
        let r = self.refs.clone();
        let t = self.rng.pick(&r).clone();
        let r = self.add(K::Ref(Src::Str(t)), vec![]);
        let l = self.consuming_leaf();
        let sw = self.add(K::Switch, vec![r, l]);
        self.add(K::Loop(0, UNBOUNDED), vec![sw])
      }
      Tmpl::Csv => {
        let q = self.sequence();
        let m = self.matches();
        let value = self.add(K::Switch, vec![q, m]);
        let sep = *self.rng.pick(&[",", ", ", ";"]);
        let sep = self.eq(sep);
        let sep = self.add(K::Discard, vec![sep]);
        let sep = if self.rng.pct(60) { self.add(K::Optional, vec![sep]) } else { sep };
        let row = self.add(K::Program, vec![value, sep]);
        let row = if self.rng.pct(40) { self.add(K::Proxy, vec![row]) } else { row };
        let (lo, hi) = self.loop_bounds();
        self.add(K::Loop(lo, hi), vec![row])
      }
      Tmpl::Scoping => {
        let var = self.rng.pick(&VARS).to_string();
        let outer = match self.rng.below(3) {
          0 => {
            let l = self.consuming_leaf();
            self.add(K::Store(var.clone()), vec![l])
          }
          1 => {
            let t = self.text();
            self.add(K::StoreStr(var.clone(), t), vec![])
          }
          _ => {
            let l = self.consuming_leaf();
            self.ar.nodes[l].name = Some(var.clone());
            l
          }
        };
        let inner = match self.rng.below(3) {
          0 => {
            let l = self.consuming_leaf();
            self.add(K::Store(var.clone()), vec![l])
          }
          1 => {
            let t = self.text();
            self.add(K::StoreStr(var.clone(), t), vec![])
          }
          _ => {
            let l = self.consuming_leaf();
            self.ar.nodes[l].name = Some(var.clone());
            l
          }
        };
        let used = self.scope_use(&var);
        let tail = self.node(d, true);
        let mut kids = vec![inner, used];
        if self.rng.pct(40) {
          kids.push(tail);
        }
        let p = self.add(K::Program, kids);
        let p = match self.rng.below(4) {
          0 if !self.ar.scopes.is_empty() => self.add(K::SetScopeX(0), vec![p]),
          3 => p,
          _ => self.add(K::SetScope, vec![p]),
        };
        let p = if self.rng.pct(60) { self.add(K::Optional, vec![p]) } else { p };
        let after = self.scope_use(&var);
        let first = self.consuming_leaf();
        self.add(K::Program, vec![first, outer, p, after])
      }
      Tmpl::Sequences => {
        let s = self.sequence();
        let sep = self.leaf();
        let sep = self.add(K::Optional, vec![sep]);
        if self.rng.pct(50) {
          self.add(K::Loop(0, UNBOUNDED), vec![s, sep])
        } else {
          let t = self.sequence();
          self.add(K::Program, vec![s, sep, t])
        }
      }
      Tmpl::Loops => {
        let (lo, hi) = self.loop_bounds();
        let a = self.node(d, true);
        let b = self.node(d, true);
        let body = match self.rng.below(5) {
          0 => {
            let o = self.add(K::Optional, vec![a]);
            vec![o]
          }
          1 => {
            let o = self.add(K::Discard, vec![a]);
            vec![o]
          }
          2 => vec![a, b],
          3 => {
            let o = self.add(K::Optional, vec![a]);
            let q = self.add(K::Optional, vec![b]);
            vec![o, q]
          }
          _ => {
            let (lo, hi) = self.loop_bounds();
            let l = self.add(K::Loop(lo, hi), vec![a]);
            vec![l, b]
          }
        };
        let l = self.add(K::Loop(lo, hi), body);
        let rest = self.leaf();
        self.add(K::Program, vec![l, rest])
      }
      Tmpl::Wrappers => {
        let n = self.node(d, false);
        let w = self.wrap(n);
        let w = self.wrap(w);
        let a = self.leaf();
        let b = self.leaf();
        let k = if self.rng.pct(30) { K::Loop(0, UNBOUNDED) } else { K::Program };
        let kids = match self.rng.below(3) {
          0 => vec![w, a],
          1 => vec![a, w],
          _ => vec![a, w, b],
        };
        self.add(k, kids)
      }
      Tmpl::Skips => {
        // A handler that moves on, or back, and what comes after it
        let first = self.consuming_leaf();
        let n = self.node(d, true);
        let mode = *self.rng.pick(&[MapMode::Over, MapMode::Step, MapMode::Step, MapMode::Back, MapMode::Back]);
        let mut moved = self.add(K::Map(mode), vec![n]);
        if self.rng.pct(70) {
          moved = self.wrap(moved);
        }
        let rest = if self.rng.pct(50) {
          let rx = Rx::Rep(Box::new(Rx::Dot), 1, None, true);
          let flags = Flags { s: true, ..Flags::default() };
          self.add(K::Matches(rx, flags), vec![])
        } else {
          self.node(d, true)
        };
        let kids = if self.rng.pct(20) {
          let more = self.leaf();
          vec![first, more, moved, rest]
        } else {
          vec![first, moved, rest]
        };
        if self.rng.pct(30) {
          let (lo, hi) = self.loop_bounds();
          self.add(K::Loop(lo, hi), kids)
        } else {
          self.add(K::Program, kids)
        }
      }
      Tmpl::Lookahead => {
        let n = self.node(d, false);
        let not = self.add(K::Not, vec![n]);
        let not = if self.rng.pct(20) { self.add(K::Not, vec![not]) } else { not };
        let a = self.consuming_leaf();
        if self.rng.pct(50) {
          self.add(K::Loop(0, UNBOUNDED), vec![not, a])
        } else {
          let o = self.node(d, false);
          let o = self.add(K::Optional, vec![o]);
          self.add(K::Program, vec![o, not, a])
        }
      }
      Tmpl::Choice => {
        // Alternatives with a common prefix
        let p = self.text();
        let mut alts = Vec::new();
        let n = self.rng.range(2, 3);
        for _ in 0..n {
          let a = self.eq(&p);
          let a = if self.rng.pct(30) {
            self.add(K::Store("v1".to_string()), vec![a])
          } else {
            a
          };
          let b = self.node(d, true);
          alts.push(self.add(K::Program, vec![a, b]));
        }
        if self.rng.pct(40) {
          alts.push(self.eq(&p));
        }
        if self.rng.pct(30) {
          let x = self.leaf();
          let o = self.add(K::Optional, vec![x]);
          let at = self.rng.below(alts.len() + 1);
          alts.insert(at, o);
        }
        self.add(K::Switch, alts)
      }
      Tmpl::Fatal => {
        let m = self.msg();
        let l = self.node(d, false);
        let f = match self.rng.below(3) {
          0 => self.add(K::Panic(m), vec![]),
          1 => self.add(K::FatalIf(m), vec![l]),
          _ => self.add(K::FatalIfNot(m), vec![l]),
        };
        let a = self.consuming_leaf();
        let p = self.add(K::Program, vec![a, f]);
        let p = self.wrap(p);
        let b = self.node(d, false);
        match self.rng.below(4) {
          0 => self.add(K::Switch, vec![p, b]),
          1 => {
            let o = self.add(K::Optional, vec![p]);
            self.add(K::Program, vec![o, b])
          }
          2 => {
            let n = self.add(K::Not, vec![p]);
            self.add(K::Program, vec![n, b])
          }
          _ => {
            let sw = self.add(K::Switch, vec![b, p]);
            self.add(K::Loop(0, UNBOUNDED), vec![sw])
          }
        }
      }
      Tmpl::Lines => {
        let m = self.msg();
        let e = match self.rng.below(4) {
          0 => self.add(K::Error(m), vec![]),
          1 => {
            let l = self.consuming_leaf();
            self.add(K::AssertIf(m), vec![l])
          }
          2 => self.add(K::Panic(m), vec![]),
          _ => {
            let l = self.consuming_leaf();
            self.add(K::FatalIf(m), vec![l])
          }
        };
        let nl = *self.rng.pick(&["\n", "\r\n", "\r"]);
        let nl = self.eq(nl);
        let a = self.consuming_leaf();
        let guard = self.text();
        let g = self.eq(&guard);
        let fail = self.add(K::Program, vec![g, e]);
        let sw = self.add(K::Switch, vec![fail, a, nl]);
        self.add(K::Loop(0, UNBOUNDED), vec![sw])
      }
    }
  }

  fn scope_use(&mut self, var: &str) -> usize {
    match self.rng.below(4) {
      0 => self.add(K::Equals(Src::Fetch(format!("{}.captured_value", var))), vec![]),
      1 => self.add(K::Equals(Src::Fetch(var.to_string())), vec![]),
      2 => self.add(K::Ref(Src::Str(var.to_string())), vec![]),
      _ => {
        let l = self.consuming_leaf();
        self.add(K::Optional, vec![l])
      }
    }
  }
}

/// A text that the expression is likely to match
pub struct Sampler<'a> {
  pub ar: &'a Arena,
  vars: HashMap<String, String>,
  named: HashMap<String, usize>,
  budget: usize,
  max_rep: usize,
}

enum Flow {
  Go,
  Break(String),
  Continue(String),
}

impl<'a> Sampler<'a> {
  pub fn new(ar: &'a Arena, max_rep: usize, budget: usize) -> Self {
    let mut named = HashMap::new();
    for id in 0..ar.nodes.len() {
      let (name, custom) = ar.matcher_name(id);
      if custom {
        named.insert(name, id);
      }
    }
    for s in &ar.scopes {
      for (n, id) in s {
        named.insert(n.clone(), *id);
      }
    }
    for (n, id) in &ar.registered {
      named.insert(n.clone(), *id);
    }
    Sampler {
      ar,
      vars: HashMap::new(),
      named,
      budget,
      max_rep,
    }
  }

  pub fn sample(mut self, rng: &mut Rng) -> String {
    let mut out = String::new();
    let root = self.ar.root;
    self.go(root, rng, &mut out, 0);
    out
  }

  fn src(&self, s: &Src) -> String {
    match s {
      Src::Str(s) => s.clone(),
      Src::Fetch(p) => {
        let v = p.split('.').next().unwrap_or("");
        self.vars.get(v).cloned().unwrap_or_default()
      }
    }
  }

  fn go(&mut self, id: usize, rng: &mut Rng, out: &mut String, depth: usize) -> Flow {
    if self.budget == 0 || depth > 300 || out.len() > 3000 {
      return Flow::Go;
    }
    self.budget -= 1;
    let ar = self.ar;
    let n = &ar.nodes[id];
    match &n.k {
      K::Equals(s) => {
        let s = self.src(s);
        out.push_str(&s);
        Flow::Go
      }
      K::Matches(rx, f) => {
        rx.sample(rng, *f, out);
        Flow::Go
      }
      K::Sequence(a, b, c) => {
        let (a, b, c) = (self.src(a), self.src(b), self.src(c));
        out.push_str(&a);
        let parts = rng.below(5);
        for _ in 0..parts {
          match rng.below(8) {
            0 | 1 => {
              out.push_str(&c);
              out.push_str(&b);
            }
            2 => {
              out.push_str(&c);
              out.push_str(&c);
            }
            3 => {
              out.push_str(&c);
              out.push_str(rng.pick(&["a", "n", "é", "日", " "]));
            }
            4 => {
              // A part of the end
              let cut = b.chars().next().unwrap_or('x');
              out.push(cut);
            }
            5 if rng.pct(40) => out.push_str(rng.pick(&["\\", "\\\\", "\\a", "!", "'"])),
            _ => out.push_str(rng.pick(&["a", "b", "xy", "é", "日", "\n", " ", "1"])),
          }
        }
        out.push_str(&b);
        Flow::Go
      }
      K::Program => {
        for k in &n.kids {
          match self.go(*k, rng, out, depth + 1) {
            Flow::Go => {}
            jump => return jump,
          }
        }
        Flow::Go
      }
      K::Loop(lo, hi) => {
        let (name, _) = ar.matcher_name(id);
        let lo = (*lo).min(20);
        let top = (*hi).min(lo + self.max_rep);
        let count = rng.range(lo, top.max(lo));
        for _ in 0..count {
          for k in &n.kids {
            match self.go(*k, rng, out, depth + 1) {
              Flow::Go => {}
              Flow::Break(t) if t.is_empty() || t == name => return Flow::Go,
              Flow::Continue(t) if t.is_empty() || t == name => break,
              jump => return jump,
            }
          }
        }
        Flow::Go
      }
      K::Switch => {
        // Breaks and recursion are only one of several choices
        let k = *rng.pick(&n.kids);
        self.go(k, rng, out, depth + 1)
      }
      K::Not | K::FatalIf(_) | K::AssertIf(_) => {
        if rng.pct(20) {
          self.go(n.kids[0], rng, out, depth + 1);
        }
        Flow::Go
      }
      K::Optional => {
        if rng.pct(60) {
          self.go(n.kids[0], rng, out, depth + 1)
        } else {
          Flow::Go
        }
      }
      K::AssertIfNot(_) | K::FatalIfNot(_) => Flow::Go,
      K::Pin(_) => Flow::Go,
      K::Store(v) => {
        let at = out.len();
        let r = self.go(n.kids[0], rng, out, depth + 1);
        self.vars.insert(v.clone(), out[at..].to_string());
        r
      }
      K::StoreStr(v, s) => {
        self.vars.insert(v.clone(), s.clone());
        Flow::Go
      }
      K::Ref(s) => {
        let target = self.src(s);
        match self.named.get(&target) {
          Some(id) if depth < 40 => {
            let id = *id;
            self.go(id, rng, out, depth + 1)
          }
          _ => Flow::Go,
        }
      }
      K::Break(t) => Flow::Break(t.clone()),
      K::Map(MapMode::Jump(jump, to, _)) => {
        match self.go(n.kids[0], rng, out, depth + 1) {
          Flow::Go => {}
          other => return other,
        }
        match jump {
          Jump::Break => Flow::Break(to.to_string()),
          Jump::Continue => Flow::Continue(to.to_string()),
        }
      }
      K::Register | K::Error(_) | K::Panic(_) | K::Null => Flow::Go,
      _ => match n.kids.first() {
        Some(k) => self.go(*k, rng, out, depth + 1),
        None => Flow::Go,
      },
    }
  }
}

pub fn mutate(rng: &mut Rng, s: &str, lines: bool) -> String {
  let mut chars: Vec<char> = s.chars().collect();
  let n = rng.range(1, 3);
  for _ in 0..n {
    match rng.below(7) {
      6 if !chars.is_empty() => {
        // The same letter in the other case
        let at = rng.below(chars.len());
        let c = chars[at];
        chars[at] = if c.is_lowercase() {
          c.to_uppercase().next().unwrap_or(c)
        } else {
          c.to_lowercase().next().unwrap_or(c)
        };
      }
      0 if !chars.is_empty() => {
        let at = rng.below(chars.len());
        chars.remove(at);
      }
      1 => {
        let at = rng.below(chars.len() + 1);
        let c = *rng.pick(&[
          'a', 'b', '1', ' ', 'é', '日', '(', ')', ',', '\\', '"', '\'', '😀', 'A', '\t', '\u{0}',
          '\u{feff}', '\u{301}', '-', '_', '\u{85}',
        ]);
        chars.insert(at, c);
      }
      2 if chars.len() > 1 => {
        let a = rng.below(chars.len());
        let b = rng.below(chars.len());
        chars.swap(a, b);
      }
      3 if !chars.is_empty() => {
        let at = rng.below(chars.len());
        chars.truncate(at);
      }
      4 if !chars.is_empty() => {
        let a = rng.below(chars.len());
        let b = rng.range(a, chars.len() - 1);
        let part: Vec<char> = chars[a..=b].to_vec();
        let at = rng.below(chars.len() + 1);
        for (i, c) in part.into_iter().enumerate() {
          chars.insert(at + i, c);
        }
      }
      _ => {
        let at = rng.below(chars.len() + 1);
        let c = if lines {
          *rng.pick(&['\n', '\r', 'a', '\n', '\u{c}', '\u{2028}'])
        } else {
          *rng.pick(&['a', 'c', '\n'])
        };
        chars.insert(at, c);
      }
    }
  }
  chars.truncate(400);
  chars.into_iter().collect()
}

#[derive(Clone, Debug)]
pub struct Input {
  pub src: String,
  pub file: String,
  pub start: usize,
  pub end: usize,
  pub whole: bool,
}

/// The name of a file that is deep inside of directories
pub fn long_name(rng: &mut Rng) -> String {
  let mut name = String::new();
  for _ in 0..*rng.pick(&[1, 3, 8, 12, 30, 50, 120]) {
    name.push_str(*rng.pick(&["/dir", "/a directory", "/日", "/..", "/x.y"]));
  }
  name.push_str(*rng.pick(&["/a.txt", "/é.x"]));
  name
}

pub fn gen_input(rng: &mut Rng, ar: &Arena, p: &Profile) -> Input {
  let reps = if rng.pct(4) { rng.range(8, 20) } else { rng.range(1, 4) };
  let mut text = Sampler::new(ar, reps, 200).sample(rng);
  if text.len() > 300 {
    let mut at = 300;
    while !text.is_char_boundary(at) {
      at -= 1;
    }
    text.truncate(at);
  }
  match rng.weighted(&[50, 25, 15, 4]) {
    0 => {}
    1 => text = mutate(rng, &text, p.lines > 0),
    2 => {
      let more = Sampler::new(ar, 1, 60).sample(rng);
      text.push_str(&more);
    }
    _ => {
      text = mutate(rng, "", true);
    }
  }
  let file = rng.pick(&["", "test", "dir/a.txt", "é.x"]).to_string();
  let file = if rng.pct(4) { long_name(rng) } else { file };
  if rng.pct(p.window) {
    let pre = rng.pick(&["", "a", "é", "a\n", "日\r\nb", "(a"]).to_string();
    let post = rng.pick(&["", "a", "é", "\n", "日b", "aab", ")"]).to_string();
    // The window may end inside of what would match beyond it
    let start = pre.len();
    let mut end = start + text.len();
    if rng.pct(40) && !text.is_empty() {
      let mut cut = rng.below(text.len() + 1);
      while !text.is_char_boundary(cut) {
        cut -= 1;
      }
      end = start + cut;
    }
    let src = format!("{}{}{}", pre, text, post);
    return Input {
      src,
      file,
      start,
      end,
      whole: false,
    };
  }
  if rng.pct(30) {
    text.push_str(*rng.pick(&["a", "é", "\n", "日b", "aab", ")", " "]));
  }
  Input {
    start: 0,
    end: text.len(),
    src: text,
    file,
    whole: true,
  }
}
