//! Matcher expressions: what a case is made of. An expression is built into a
//! real matcher (through the public constructors and macros of the crate), and
//! interpreted by the reference model.

use crate::rx::{Flags, Rx};

pub const UNBOUNDED: usize = usize::MAX;

/// A string, or the path of a variable that is fetched when it is needed
#[derive(Clone, Debug)]
pub enum Src {
  Str(String),
  Fetch(String),
}

/// What a jump does with the loop it names: it ends, or it starts its next
/// iteration
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Jump {
  Break,
  Continue,
}

/// What goes along with a jump
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Load {
  Nothing,
  Token,
  Children,
  Skip,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CatchMode {
  /// Returns the failure that was caught
  Pass,
  /// A failure or an error becomes an empty success
  Swallow,
  /// A plain failure becomes an empty success
  SwallowFail,
  /// A plain failure becomes a recoverable error
  FailToError,
  /// An error becomes a plain failure
  ErrorToFail,
  /// What was caught becomes a recoverable error that says it
  Describe,
  /// What was caught becomes a token over the rest of the window
  Rest,
  /// What was caught becomes a jump
  Jump(Jump, &'static str),
  /// A failure becomes a fatal error
  Fatal,
  /// Whatever was caught becomes a fatal error that says nothing
  Bare,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MapMode {
  /// Success becomes a fatal error that says nothing, about no place
  Bare,
  /// The token takes back what it matched around what it captured
  Trim,
  /// The token gets another value
  Value,
  /// Returns the token
  Same,
  /// Success becomes failure
  Fail,
  /// Success becomes an empty success
  Skip,
  /// Success becomes a skip over what was matched
  Over,
  /// Success becomes a skip over a part of what was matched
  Step,
  /// Success becomes a skip back over the character before
  Back,
  /// Returns the children of the token
  Proxy,
  /// Returns the token, plain failure becomes an empty success
  SameOrSkip,
  /// Adds to an attribute of the token
  Mark,
  /// Returns another token
  Replace,
  /// Success becomes a fatal error at the token
  Fatal,
  /// Success becomes a jump
  Jump(Jump, &'static str, Load),
  /// Sets a variable to the text of the token
  Set,
  /// Any failure becomes an empty success
  SameOrSwallow,
  /// A fatal error becomes a plain failure
  SameOrFail,
  /// A failure becomes a fatal error
  SameOrFatal,
}

#[derive(Clone, Debug)]
pub enum K {
  Equals(Src),
  Matches(Rx, Flags),
  Sequence(Src, Src, Src),
  Program,
  Loop(usize, usize),
  Switch,
  Not,
  Optional,
  Discard,
  Proxy,
  Expand,
  Pin(Src),
  Store(String),
  StoreStr(String, String),
  Ref(Src),
  RefDirect,
  Register,
  SetScope,
  SetScopeX(usize),
  Break(String),
  Error(String),
  Panic(String),
  AssertIf(String),
  AssertIfNot(String),
  FatalIf(String),
  FatalIfNot(String),
  Null,
  Debug(usize),
  MapAttrs(Vec<(String, String)>),
  MapRename(String),
  Map(MapMode),
  Catch(CatchMode),
}

pub const KINDS: [&str; 32] = [
  "Equals",
  "Matches",
  "Sequence",
  "Program",
  "Loop",
  "Switch",
  "Not",
  "Optional",
  "Discard",
  "ProxyChildren",
  "ExpandRange",
  "Pin",
  "Store",
  "StoreString",
  "Ref",
  "RefDirect",
  "Register",
  "SetScope",
  "SetScopeExplicit",
  "Break",
  "Error",
  "Panic",
  "AssertIf",
  "AssertIfNot",
  "FatalIf",
  "FatalIfNot",
  "Null",
  "Debug",
  "MapAttributes",
  "MapRename",
  "Map",
  "Catch",
];

impl K {
  pub fn index(&self) -> usize {
    match self {
      K::Equals(..) => 0,
      K::Matches(..) => 1,
      K::Sequence(..) => 2,
      K::Program => 3,
      K::Loop(..) => 4,
      K::Switch => 5,
      K::Not => 6,
      K::Optional => 7,
      K::Discard => 8,
      K::Proxy => 9,
      K::Expand => 10,
      K::Pin(..) => 11,
      K::Store(..) => 12,
      K::StoreStr(..) => 13,
      K::Ref(..) => 14,
      K::RefDirect => 15,
      K::Register => 16,
      K::SetScope => 17,
      K::SetScopeX(..) => 18,
      K::Break(..) => 19,
      K::Error(..) => 20,
      K::Panic(..) => 21,
      K::AssertIf(..) => 22,
      K::AssertIfNot(..) => 23,
      K::FatalIf(..) => 24,
      K::FatalIfNot(..) => 25,
      K::Null => 26,
      K::Debug(..) => 27,
      K::MapAttrs(..) => 28,
      K::MapRename(..) => 29,
      K::Map(..) => 30,
      K::Catch(..) => 31,
    }
  }

  pub fn fetches(&self) -> bool {
    let f = |s: &Src| matches!(s, Src::Fetch(_));
    match self {
      K::Equals(s) | K::Pin(s) | K::Ref(s) => f(s),
      K::Sequence(a, b, c) => f(a) || f(b) || f(c),
      _ => false,
    }
  }

  pub fn name(&self) -> &'static str {
    KINDS[self.index()]
  }
}

#[derive(Clone, Debug)]
pub struct Node {
  pub k: K,
  pub kids: Vec<usize>,
  /// The name that is given to the matcher (`None`: the default one)
  pub name: Option<String>,
  /// Which of the equivalent ways to build it is used
  pub via: u8,
}

#[derive(Clone, Debug, Default)]
pub struct Arena {
  pub nodes: Vec<Node>,
  pub root: usize,
  /// What explicit scopes hold before the first parse: name and node
  pub scopes: Vec<Vec<(String, usize)>>,
  /// What the context of every parse holds before it starts
  pub registered: Vec<(String, usize)>,
}

impl Arena {
  pub fn add(&mut self, k: K, kids: Vec<usize>) -> usize {
    self.nodes.push(Node {
      k,
      kids,
      name: None,
      via: 0,
    });
    self.nodes.len() - 1
  }

  pub fn add_named(&mut self, k: K, kids: Vec<usize>, name: Option<String>, via: u8) -> usize {
    self.nodes.push(Node { k, kids, name, via });
    self.nodes.len() - 1
  }

  /// The name of the matcher, and whether that is one it was given
  pub fn matcher_name(&self, id: usize) -> (String, bool) {
    let n = &self.nodes[id];
    let default = match &n.k {
      K::Store(name) | K::StoreStr(name, _) => return (name.clone(), true),
      K::Equals(..) => "Equals",
      K::Matches(..) => "Matches",
      K::Sequence(..) => "Sequence",
      K::Program => "Program",
      K::Loop(..) => "Loop",
      K::Switch => "Switch",
      K::Not => "Not",
      K::Optional => "Optional",
      K::Discard => "Discard",
      K::Proxy => "Flatten",
      K::Expand => "Catch",
      K::Pin(..) => "Pin",
      K::Ref(..) | K::RefDirect => "Ref",
      K::Register => "Register",
      K::SetScope | K::SetScopeX(..) => "SetScope",
      K::Break(..) => "Break",
      K::Error(..) | K::Panic(..) => "Error",
      K::Null => "Null",
      K::Debug(..) => "Debug",
      K::AssertIf(..)
      | K::AssertIfNot(..)
      | K::FatalIf(..)
      | K::FatalIfNot(..)
      | K::MapAttrs(..)
      | K::MapRename(..)
      | K::Map(..) => "Map",
      K::Catch(..) => "Catch",
    };
    match &n.name {
      Some(name) => (name.clone(), true),
      None => (default.to_string(), false),
    }
  }

  pub fn is_consuming(&self, id: usize) -> bool {
    !matches!(
      self.nodes[id].k,
      K::Pin(..) | K::Null | K::StoreStr(..) | K::Register
    )
  }

  /// The kinds of matchers in this expression, one bit for each
  pub fn kinds(&self) -> u64 {
    self.nodes.iter().fold(0, |m, n| m | 1 << n.k.index())
  }

  /// Every name a variable or a matcher of this expression can have
  pub fn names(&self) -> Vec<String> {
    let mut names = Vec::new();
    for id in 0..self.nodes.len() {
      // (a name that was not given to a matcher is no variable)
      names.push(self.matcher_name(id).0);
      if let K::Ref(Src::Str(target)) = &self.nodes[id].k {
        names.push(target.clone());
      }
    }
    for (name, _) in &self.registered {
      names.push(name.clone());
    }
    names.sort();
    names.dedup();
    names
  }

  pub fn print(&self) -> String {
    let mut out = String::new();
    for (name, id) in &self.registered {
      out.push_str(&format!("register {} = ", name));
      self.emit(*id, &mut out);
      out.push_str("; ");
    }
    for (i, scope) in self.scopes.iter().enumerate() {
      for (name, id) in scope {
        out.push_str(&format!("scope{} {} = ", i, name));
        self.emit(*id, &mut out);
        out.push_str("; ");
      }
    }
    self.emit(self.root, &mut out);
    out
  }

  fn emit(&self, id: usize, out: &mut String) {
    let n = &self.nodes[id];
    out.push_str(n.k.name());
    if let Some(name) = &n.name {
      out.push_str(&format!(":{:?}", name));
    }
    let mut args: Vec<String> = Vec::new();
    let src = |s: &Src| match s {
      Src::Str(s) => format!("{:?}", s),
      Src::Fetch(p) => format!("Fetch({})", p),
    };
    match &n.k {
      K::Equals(s) | K::Pin(s) | K::Ref(s) => args.push(src(s)),
      K::Matches(rx, flags) => args.push(format!("/{}/{}", rx.print(), flags.text())),
      K::Sequence(a, b, c) => {
        args.push(src(a));
        args.push(src(b));
        args.push(src(c));
      }
      K::Loop(lo, hi) => args.push(if *hi == UNBOUNDED {
        format!("{}..", lo)
      } else {
        format!("{}..{}", lo, hi)
      }),
      K::Store(n) => args.push(format!("{:?}", n)),
      K::StoreStr(n, v) => args.push(format!("{:?}={:?}", n, v)),
      K::SetScopeX(i) => args.push(format!("scope{}", i)),
      K::Break(s)
      | K::Error(s)
      | K::Panic(s)
      | K::AssertIf(s)
      | K::AssertIfNot(s)
      | K::FatalIf(s)
      | K::FatalIfNot(s)
      | K::MapRename(s) => args.push(format!("{:?}", s)),
      K::Debug(m) => args.push(format!("{}", m)),
      K::MapAttrs(a) => args.push(format!("{:?}", a)),
      K::Map(m) => args.push(format!("{:?}", m)),
      K::Catch(m) => args.push(format!("{:?}", m)),
      _ => {}
    }
    out.push('(');
    let mut first = true;
    for a in args {
      if !first {
        out.push_str(", ");
      }
      first = false;
      out.push_str(&a);
    }
    for kid in &n.kids {
      if !first {
        out.push_str(", ");
      }
      first = false;
      if out.len() > 6000 {
        out.push_str("...");
        break;
      }
      self.emit(*kid, out);
    }
    out.push(')');
  }
}
