//! The reference model: an independent interpreter of matcher expressions.
//! It says, before the real code runs, every matcher that has to be executed,
//! where, and with which result.

use crate::expr::*;
use crate::linecol::{messages, Expect};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Tok = Rc<RefCell<MTok>>;

#[derive(Clone, Debug)]
pub struct MTok {
  pub id: usize,
  pub name: String,
  pub cap: (usize, usize),
  pub mat: (usize, usize),
  pub attrs: BTreeMap<String, Expect>,
  pub err: bool,
  pub pin: bool,
  pub kids: Vec<Tok>,
  pub parent: Option<usize>,
  pub src: Rc<str>,
}

impl MTok {
  fn text(&self, r: (usize, usize)) -> String {
    self.src.get(r.0..r.1.min(self.src.len())).unwrap_or("").to_string()
  }

  fn value(&self) -> String {
    match self.attrs.get("__value") {
      Some(Expect::OneOf(v)) => v[0].clone(),
      _ => self.text(self.cap),
    }
  }
}

/// Why a case says nothing: what it does is not defined, or it is too long
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Undef {
  Offsets,
  NoVariable,
  Steps,
  Depth,
  Regex,
  PinToken,
}

#[derive(Clone, Debug)]
pub enum R {
  Tok(Tok),
  Proxy(Tok),
  Skip(isize),
  Jump(Jump, String, Box<R>),
  None,
  Fail,
  Err(Expect, Option<(usize, usize)>),
}

#[derive(Clone, Debug)]
pub struct Snap {
  pub name: String,
  pub cap: (usize, usize),
  pub mat: (usize, usize),
  pub attrs: BTreeMap<String, Expect>,
  pub err: bool,
  pub pin: bool,
  pub kids: Vec<Snap>,
  /// How many children there are (`kids` may hold less of them)
  pub count: usize,
  /// Whether the parent of every child in `kids` is this token
  pub parents: Vec<bool>,
}

#[derive(Clone, Debug)]
pub enum SnapR {
  Tok(Snap),
  Proxy(Snap),
  Skip(isize),
  Jump(Jump, String, Box<SnapR>),
  None,
  Fail,
  Err(Expect, Option<(usize, usize)>),
}

pub const T_TOK: u32 = 1;
pub const T_PROXY: u32 = 2;
pub const T_SKIP: u32 = 4;
pub const T_SKIP0: u32 = 8;
pub const T_BRK: u32 = 16;
pub const T_FAIL: u32 = 32;
pub const T_ERR: u32 = 64;
pub const T_ERRTOK: u32 = 128;
pub const T_PIN: u32 = 256;
pub const T_CONT: u32 = 512;

impl SnapR {
  pub fn tags(&self) -> u32 {
    match self {
      SnapR::Tok(t) => {
        T_TOK | if t.has_err() { T_ERRTOK } else { 0 } | if t.pin { T_PIN } else { 0 }
      }
      SnapR::Proxy(t) => T_PROXY | if t.has_err() { T_ERRTOK } else { 0 },
      SnapR::Skip(0) => T_SKIP0,
      SnapR::Skip(_) => T_SKIP,
      SnapR::Jump(Jump::Break, _, p) => T_BRK | (p.tags() & T_ERRTOK),
      SnapR::Jump(Jump::Continue, _, p) => T_CONT | (p.tags() & T_ERRTOK),
      SnapR::None => 0,
      SnapR::Fail => T_FAIL,
      SnapR::Err(..) => T_ERR,
    }
  }

  pub fn class(&self) -> &'static str {
    match self {
      SnapR::Tok(_) => "Token",
      SnapR::Proxy(_) => "ProxyChildren",
      SnapR::Skip(0) => "Skip(0)",
      SnapR::Skip(_) => "Skip(n)",
      SnapR::Jump(Jump::Break, ..) => "Break",
      SnapR::Jump(Jump::Continue, ..) => "Continue",
      SnapR::None => "None",
      SnapR::Fail => "Fail",
      SnapR::Err(..) => "Error",
    }
  }

  pub fn show(&self) -> String {
    match self {
      SnapR::Tok(t) => format!("Token {}", t.show()),
      SnapR::Proxy(t) => format!("ProxyChildren {}", t.show()),
      SnapR::Skip(n) => format!("Skip({})", n),
      SnapR::Jump(j, n, p) => format!("{:?}({:?}, {})", j, n, p.show()),
      SnapR::None => "None".to_string(),
      SnapR::Fail => "Fail".to_string(),
      SnapR::Err(m, r) => format!("Error({}, {:?})", m.show(), r),
    }
  }
}

impl Snap {
  pub fn has_err(&self) -> bool {
    self.err || self.kids.iter().any(|k| k.has_err())
  }

  pub fn size(&self) -> usize {
    1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
  }

  pub fn show(&self) -> String {
    let mut s = format!(
      "{}{}{{captured {}..{} matched {}..{}",
      self.name,
      if self.err { "!" } else { "" },
      self.cap.0,
      self.cap.1,
      self.mat.0,
      self.mat.1
    );
    for (i, k) in self.kids.iter().enumerate() {
      if i == 6 {
        s.push_str(", ...");
        break;
      }
      s.push_str(", ");
      s.push_str(&k.show());
      if s.len() > 1500 {
        s.push_str("...");
        break;
      }
    }
    s.push('}');
    s
  }
}

pub fn snap(t: &Tok, budget: &mut usize) -> Snap {
  let b = t.borrow();
  let mut kids = Vec::new();
  let mut parents = Vec::new();
  for k in &b.kids {
    if *budget == 0 {
      break;
    }
    *budget -= 1;
    parents.push(k.borrow().parent == Some(b.id));
    kids.push(snap(k, budget));
  }
  Snap {
    name: b.name.clone(),
    cap: b.cap,
    mat: b.mat,
    attrs: b.attrs.clone(),
    err: b.err,
    pin: b.pin,
    kids,
    count: b.kids.len(),
    parents,
  }
}

pub fn snap_r(r: &R, budget: usize) -> SnapR {
  let mut left = budget;
  match r {
    R::Tok(t) => SnapR::Tok(snap(t, &mut left)),
    R::Proxy(t) => SnapR::Proxy(snap(t, &mut left)),
    R::Skip(n) => SnapR::Skip(*n),
    R::Jump(j, n, p) => SnapR::Jump(*j, n.clone(), Box::new(snap_r(p, budget))),
    R::None => SnapR::None,
    R::Fail => SnapR::Fail,
    R::Err(m, r) => SnapR::Err(m.clone(), *r),
  }
}

#[derive(Clone, Debug)]
pub enum Ev {
  Enter(usize, usize, usize),
  Exit(usize, Rc<SnapR>),
}

#[derive(Clone)]
pub enum Var {
  Tok(Tok),
  Str(String),
  /// A matcher; the flag says whether executing it is observed
  Mat(usize, bool),
}

#[derive(Clone, Default)]
pub struct Scope {
  vars: HashMap<String, (Var, bool)>,
}

#[derive(Clone, Default)]
pub struct ScopeStack {
  stack: Vec<Scope>,
}

impl ScopeStack {
  pub fn get(&self, name: &str) -> Option<Var> {
    for s in self.stack.iter().rev() {
      if let Some((v, _)) = s.vars.get(name) {
        return Some(v.clone());
      }
    }
    None
  }

  fn top(&mut self) -> &mut Scope {
    if self.stack.is_empty() {
      self.stack.push(Scope::default());
    }
    self.stack.last_mut().unwrap()
  }

  pub fn set(&mut self, name: &str, v: Var) {
    self.top().vars.insert(name.to_string(), (v, false));
  }

  fn set_implicit(&mut self, name: &str, v: Var) {
    let top = self.top();
    if let Some((_, false)) = top.vars.get(name) {
      return;
    }
    top.vars.insert(name.to_string(), (v, true));
  }
}

#[derive(Clone, Copy)]
struct Ctx {
  start: usize,
  end: usize,
  /// Where the innermost Program, Loop or Switch began
  top: Option<usize>,
  depth: usize,
}

pub struct Limits {
  pub steps: usize,
  pub depth: usize,
  pub snap: usize,
}

impl Limits {
  pub const NORMAL: Limits = Limits {
    steps: 4_000,
    depth: 60,
    snap: 80,
  };
  pub const SCALE: Limits = Limits {
    steps: 1_500_000,
    depth: 420,
    snap: 12,
  };
}

pub struct Model<'a> {
  pub ar: &'a Arena,
  pub src: Rc<str>,
  pub file: String,
  /// 0: the scope of the parser context; 1..: the explicit ones
  pub scopes: Vec<ScopeStack>,
  pub events: Vec<Ev>,
  pub log: bool,
  pub steps: usize,
  pub limits: Limits,
  next_id: usize,
}

impl<'a> Model<'a> {
  pub fn new(ar: &'a Arena, limits: Limits, log: bool) -> Self {
    let mut scopes = vec![ScopeStack::default()];
    for s in &ar.scopes {
      let mut st = ScopeStack::default();
      for (name, id) in s {
        st.set(name, Var::Mat(*id, log));
      }
      scopes.push(st);
    }
    Model {
      ar,
      src: "".into(),
      file: String::new(),
      scopes,
      events: Vec::new(),
      log,
      steps: 0,
      limits,
      next_id: 0,
    }
  }

  /// Run the whole expression on a source. `fresh` starts with the scope of a
  /// new parser context (explicit scopes are always kept).
  pub fn run(
    &mut self,
    src: &str,
    file: &str,
    start: usize,
    end: usize,
    fresh: bool,
  ) -> Result<R, Undef> {
    self.src = src.into();
    self.file = file.to_string();
    self.events = Vec::new();
    self.steps = 0;
    if fresh {
      self.scopes[0] = ScopeStack::default();
      let ar = self.ar;
      for (name, id) in &ar.registered {
        let log = self.log;
        self.scopes[0].set(name, Var::Mat(*id, log));
      }
    }
    let ctx = Ctx {
      start,
      end,
      top: None,
      depth: 0,
    };
    let log = self.log;
    let r = self.exec(self.ar.root, ctx, 0, log)?;
    Ok(self.tokenize(r))
  }

  // What a caller of the tokenizer gets for the result of the root matcher
  fn tokenize(&mut self, r: R) -> R {
    match r {
      R::Tok(t) | R::Proxy(t) => {
        self.hoist_root(&t);
        R::Tok(t)
      }
      R::Jump(_, _, p) => match *p {
        R::Tok(t) => {
          self.hoist_root(&t);
          R::Tok(t)
        }
        _ => R::Fail,
      },
      R::Err(m, r) => R::Err(m, r),
      _ => R::Fail,
    }
  }

  fn hoist_root(&mut self, root: &Tok) {
    let kids = root.borrow().kids.clone();
    let mut errors = Vec::new();
    for k in kids {
      hoist(&k, &mut errors);
    }
    let id = root.borrow().id;
    for e in errors {
      e.borrow_mut().parent = Some(id);
      root.borrow_mut().kids.push(e);
    }
  }

  fn tok(&mut self, name: &str, cap: (usize, usize), mat: (usize, usize)) -> Tok {
    self.next_id += 1;
    Rc::new(RefCell::new(MTok {
      id: self.next_id,
      name: name.to_string(),
      cap,
      mat,
      attrs: BTreeMap::new(),
      err: false,
      pin: false,
      kids: Vec::new(),
      parent: None,
      src: self.src.clone(),
    }))
  }

  fn error_tok(&mut self, msg: &str, range: (usize, usize)) -> Tok {
    let t = self.tok("Error", range, range);
    t.borrow_mut().err = true;
    t.borrow_mut()
      .attrs
      .insert("__message".to_string(), self.message(msg, range));
    t
  }

  fn message(&self, msg: &str, range: (usize, usize)) -> Expect {
    messages(&self.src, &self.file, range, msg)
  }

  fn chunk(&self, ctx: &Ctx) -> Result<&str, Undef> {
    self.src.get(ctx.start..ctx.end).ok_or(Undef::Offsets)
  }

  /// The value of a string; `Err(None)` when it names a matcher
  fn fetch(&self, s: &Src, scope: usize) -> Result<Result<String, (usize, bool)>, Undef> {
    let path = match s {
      Src::Str(s) => return Ok(Ok(s.clone())),
      Src::Fetch(path) => path,
    };
    let parts: Vec<&str> = path.split('.').collect();
    match self.scopes[scope].get(parts[0]) {
      None => Err(Undef::NoVariable),
      Some(Var::Str(s)) => {
        if parts.len() > 1 {
          Err(Undef::NoVariable)
        } else {
          Ok(Ok(s))
        }
      }
      Some(Var::Mat(id, log)) => Ok(Err((id, log))),
      Some(Var::Tok(t)) => {
        if parts.len() != 2 {
          return Err(Undef::NoVariable);
        }
        let t = t.borrow();
        Ok(Ok(match parts[1] {
          "captured_value" => t.value(),
          "matched_value" => t.text(t.mat),
          "start" => format!("{}", t.mat.0),
          "end" => format!("{}", t.mat.1),
          "captured_start" => format!("{}", t.cap.0),
          "captured_end" => format!("{}", t.cap.1),
          "range" => format!("{}..{}", t.mat.0, t.mat.1),
          "captured_range" => format!("{}..{}", t.cap.0, t.cap.1),
          _ => return Err(Undef::NoVariable),
        }))
      }
    }
  }

  fn exec(&mut self, id: usize, ctx: Ctx, scope: usize, log: bool) -> Result<R, Undef> {
    self.steps += 1;
    if self.steps > self.limits.steps {
      return Err(Undef::Steps);
    }
    if ctx.depth > self.limits.depth {
      return Err(Undef::Depth);
    }
    let ctx = Ctx {
      depth: ctx.depth + 1,
      ..ctx
    };
    let log = log && self.log;
    if log {
      self.events.push(Ev::Enter(id, ctx.start, ctx.end));
    }
    let ar = self.ar;
    let (name, custom) = ar.matcher_name(id);
    if custom {
      // What is remembered is the matcher itself, which is not observed
      self.scopes[scope].set_implicit(&name, Var::Mat(id, false));
    }
    let r = self.step(id, &name, ctx, scope)?;
    if log {
      let s = snap_r(&r, self.limits.snap);
      self.events.push(Ev::Exit(id, Rc::new(s)));
    }
    Ok(r)
  }

  fn kid(&mut self, id: usize, i: usize, ctx: Ctx, scope: usize) -> Result<R, Undef> {
    let ar = self.ar;
    let kid = ar.nodes[id].kids[i];
    self.exec(kid, ctx, scope, true)
  }

  fn step(&mut self, id: usize, name: &str, ctx: Ctx, scope: usize) -> Result<R, Undef> {
    let ar = self.ar;
    match &ar.nodes[id].k {
      K::Equals(s) => {
        let pattern = match self.fetch(s, scope)? {
          Ok(p) => p,
          Err(_) => {
            return Ok(R::Err(
              Expect::is(&format!("`Equals` ({}) matcher received another matcher as a pattern... this makes no sense... aborting...", name)),
              None,
            ))
          }
        };
        let chunk = self.chunk(&ctx)?;
        if !pattern.is_empty() && chunk.starts_with(&pattern) {
          let range = (ctx.start, ctx.start + pattern.len());
          Ok(R::Tok(self.tok(name, range, range)))
        } else {
          Ok(R::Fail)
        }
      }
      K::Matches(rx, flags) => {
        let chunk = self.chunk(&ctx)?;
        match rx.match_prefix(chunk, *flags).map_err(|_| Undef::Regex)? {
          None => Ok(R::Fail),
          Some(0) => Ok(R::Skip(0)),
          Some(len) => {
            let range = (ctx.start, ctx.start + len);
            Ok(R::Tok(self.tok(name, range, range)))
          }
        }
      }
      K::Sequence(a, b, c) => self.sequence(name, [a, b, c], ctx, scope),
      K::Program | K::Loop(..) | K::Switch => self.program(id, name, ctx, scope),
      K::Not => match self.kid(id, 0, ctx, scope)? {
        R::Tok(_) | R::Proxy(_) => Ok(R::Fail),
        R::Skip(n) if n != 0 => Ok(R::Fail),
        R::Fail => Ok(R::Skip(0)),
        other => Ok(other),
      },
      K::Optional => match self.kid(id, 0, ctx, scope)? {
        R::Fail => Ok(R::Skip(0)),
        other => Ok(other),
      },
      K::Discard => match self.kid(id, 0, ctx, scope)? {
        R::Tok(t) | R::Proxy(t) => Ok(self.discard(&ctx, t)),
        R::Jump(j, n, p) => {
          let p = match *p {
            R::Tok(t) | R::Proxy(t) => self.discard(&ctx, t),
            other => other,
          };
          Ok(R::Jump(j, n, Box::new(p)))
        }
        other => Ok(other),
      },
      K::Proxy => match self.kid(id, 0, ctx, scope)? {
        R::Tok(t) => Ok(R::Proxy(t)),
        R::Jump(j, n, p) => Ok(R::Jump(
          j,
          n,
          Box::new(match *p {
            R::Tok(t) => R::Proxy(t),
            other => other,
          }),
        )),
        other => Ok(other),
      },
      K::Expand => match self.kid(id, 0, ctx, scope)? {
        R::Tok(t) => {
          let mat = t.borrow().mat;
          let w = self.tok("ExpandRange", mat, mat);
          t.borrow_mut().parent = Some(w.borrow().id);
          w.borrow_mut().kids.push(t);
          Ok(R::Proxy(w))
        }
        R::Proxy(t) => {
          let mat = t.borrow().mat;
          t.borrow_mut().cap = mat;
          Ok(R::Proxy(t))
        }
        other => Ok(other),
      },
      K::Pin(s) => {
        let offset = match self.fetch(s, scope)? {
          Ok(o) => o,
          Err(_) => {
            return Ok(R::Err(
              Expect::is("`Pin` matcher received another matcher as an offset... this makes no sense... aborting..."),
              None,
            ))
          }
        };
        let parts: Vec<&str> = offset.split("..").collect();
        let mut sub = ctx;
        match pin_offset(ctx.start, ctx.start, parts[0]) {
          Ok(Some(n)) => sub.start = n,
          Ok(None) => return Ok(R::Fail),
          Err(e) => return Ok(R::Err(Expect::is(&e), None)),
        }
        if parts.len() > 1 {
          match pin_offset(sub.start, ctx.end, parts[1]) {
            Ok(Some(n)) => sub.end = n,
            Ok(None) => return Ok(R::Fail),
            Err(e) => return Ok(R::Err(Expect::is(&e), None)),
          }
        }
        if sub.start > sub.end || self.chunk(&sub).is_err() {
          return Ok(R::Fail);
        }
        if ar.nodes[id].kids.is_empty() {
          let t = self.tok(name, (sub.start, sub.end), (sub.start, sub.end));
          t.borrow_mut().pin = true;
          Ok(R::Tok(t))
        } else {
          self.kid(id, 0, sub, scope)
        }
      }
      K::Store(var) => {
        let r = self.kid(id, 0, ctx, scope)?;
        if let R::Tok(t) = &r {
          self.scopes[scope].set(var, Var::Tok(t.clone()));
        }
        Ok(r)
      }
      K::StoreStr(var, value) => {
        self.scopes[scope].set(var, Var::Str(value.clone()));
        Ok(R::Skip(0))
      }
      K::Ref(s) => match self.fetch(s, scope)? {
        Ok(target) => match self.scopes[scope].get(&target) {
          Some(Var::Mat(node, log)) => self.exec(node, ctx, scope, log),
          _ => Ok(R::Err(
            Expect::is(&format!(
              "`Ref` matcher unable to locate target reference `{}`",
              target
            )),
            None,
          )),
        },
        Err((node, log)) => self.exec(node, ctx, scope, log),
      },
      K::RefDirect => self.kid(id, 0, ctx, scope),
      K::Register => {
        for kid in &ar.nodes[id].kids {
          let (name, _) = ar.matcher_name(*kid);
          let log = self.log;
          self.scopes[scope].set(&name, Var::Mat(*kid, log));
        }
        Ok(R::Skip(0))
      }
      K::SetScope => {
        self.scopes[scope].stack.push(Scope::default());
        let r = self.kid(id, 0, ctx, scope);
        self.scopes[scope].stack.pop();
        r
      }
      K::SetScopeX(i) => self.kid(id, 0, ctx, i + 1),
      K::Break(n) => Ok(R::Jump(Jump::Break, n.clone(), Box::new(R::None))),
      K::Error(msg) => Ok(R::Tok(self.error_tok(msg, (ctx.start, ctx.start)))),
      K::Panic(msg) => {
        let range = (ctx.top.unwrap_or(ctx.start), ctx.start);
        Ok(R::Err(self.message(msg, range), Some(range)))
      }
      K::AssertIf(msg) => match self.kid(id, 0, ctx, scope)? {
        R::Tok(t) | R::Proxy(t) => {
          let mat = t.borrow().mat;
          Ok(R::Tok(self.error_tok(msg, mat)))
        }
        R::Fail => Ok(R::Skip(0)),
        other => Ok(other),
      },
      K::AssertIfNot(msg) => match self.kid(id, 0, ctx, scope)? {
        R::Tok(_) | R::Proxy(_) => Ok(R::Skip(0)),
        R::Fail => Ok(R::Tok(self.error_tok(msg, (ctx.start, ctx.start)))),
        other => Ok(other),
      },
      K::FatalIf(msg) => match self.kid(id, 0, ctx, scope)? {
        R::Tok(t) | R::Proxy(t) => {
          let mat = t.borrow().mat;
          Ok(R::Err(self.message(msg, mat), Some(mat)))
        }
        R::Fail => Ok(R::Skip(0)),
        other => Ok(other),
      },
      K::FatalIfNot(msg) => match self.kid(id, 0, ctx, scope)? {
        R::Tok(_) | R::Proxy(_) => Ok(R::Skip(0)),
        R::Fail => {
          let range = (ctx.start, ctx.end);
          Ok(R::Err(self.message(msg, range), Some(range)))
        }
        other => Ok(other),
      },
      K::Null => Ok(R::Skip(0)),
      K::Debug(_) => {
        if ar.nodes[id].kids.is_empty() {
          Ok(R::Skip(0))
        } else {
          self.kid(id, 0, ctx, scope)
        }
      }
      K::MapAttrs(attrs) => match self.kid(id, 0, ctx, scope)? {
        R::Tok(t) | R::Proxy(t) => {
          for (k, v) in attrs {
            let mut b = t.borrow_mut();
            if !b.attrs.contains_key(k) {
              b.attrs.insert(k.clone(), Expect::is(v));
            }
          }
          Ok(R::Tok(t))
        }
        other => Ok(other),
      },
      K::MapRename(to) => match self.kid(id, 0, ctx, scope)? {
        R::Tok(t) | R::Proxy(t) => {
          t.borrow_mut().name = to.clone();
          Ok(R::Tok(t))
        }
        other => Ok(other),
      },
      K::Map(mode) => match self.kid(id, 0, ctx, scope)? {
        R::Tok(t) | R::Proxy(t) => Ok(match mode {
          MapMode::Same
          | MapMode::SameOrSkip
          | MapMode::SameOrSwallow
          | MapMode::SameOrFail
          | MapMode::SameOrFatal => R::Tok(t),
          MapMode::Bare => R::Err(Expect::is(""), None),
          MapMode::Trim => {
            let cap = t.borrow().cap;
            t.borrow_mut().mat = cap;
            R::Tok(t)
          }
          MapMode::Value => {
            if t.borrow().pin {
              return Err(Undef::PinToken);
            }
            t.borrow_mut().attrs.insert("__value".to_string(), Expect::is("va日ue"));
            R::Tok(t)
          }
          MapMode::Fail => R::Fail,
          MapMode::Skip => R::Skip(0),
          MapMode::Over => R::Skip(t.borrow().mat.1 as isize - ctx.start as isize),
          MapMode::Step => R::Skip(step(&self.src, ctx.start, t.borrow().mat.1)),
          MapMode::Back => R::Skip(back(&self.src, ctx.start)),
          MapMode::Proxy => R::Proxy(t),
          MapMode::Mark => {
            let old = match t.borrow().attrs.get("mark") {
              Some(Expect::OneOf(v)) => v[0].clone(),
              _ => String::new(),
            };
            let new = Expect::is(&(old + "x"));
            t.borrow_mut().attrs.insert("mark".to_string(), new);
            R::Tok(t)
          }
          MapMode::Replace => {
            let (cap, mat) = (t.borrow().cap, t.borrow().mat);
            R::Tok(self.tok("Replaced", cap, mat))
          }
          MapMode::Fatal => {
            let mat = t.borrow().mat;
            R::Err(self.message("mapped", mat), Some(mat))
          }
          MapMode::Jump(jump, to, load) => {
            let n = t.borrow().mat.1 as isize - ctx.start as isize;
            // (what comes with a jump is collected, the token of a pin is not)
            if t.borrow().pin && matches!(load, Load::Token | Load::Children) {
              return Err(Undef::PinToken);
            }
            let load = match load {
              Load::Nothing => R::None,
              Load::Token => R::Tok(t),
              Load::Children => R::Proxy(t),
              Load::Skip => R::Skip(n),
            };
            R::Jump(*jump, to.to_string(), Box::new(load))
          }
          MapMode::Set => {
            let cap = t.borrow().cap;
            let text = self.src.get(cap.0..cap.1).ok_or(Undef::Offsets)?.to_string();
            self.scopes[scope].set("v1", Var::Str(text));
            R::Tok(t)
          }
        }),
        R::Fail if matches!(mode, MapMode::SameOrSkip | MapMode::SameOrSwallow) => Ok(R::Skip(0)),
        R::Err(..) if *mode == MapMode::SameOrSwallow => Ok(R::Skip(0)),
        R::Err(..) if *mode == MapMode::SameOrFail => Ok(R::Fail),
        R::Fail if *mode == MapMode::SameOrFatal => {
          let range = (ctx.start, ctx.end);
          Ok(R::Err(self.message("mapped", range), Some(range)))
        }
        other => Ok(other),
      },
      K::Catch(mode) => match self.kid(id, 0, ctx, scope)? {
        R::Fail => Ok(match mode {
          CatchMode::Pass | CatchMode::ErrorToFail => R::Fail,
          CatchMode::Swallow | CatchMode::SwallowFail => R::Skip(0),
          CatchMode::FailToError => R::Tok(self.error_tok("caught", (ctx.start, ctx.start))),
          CatchMode::Describe => R::Tok(self.error_tok("caught failure", (ctx.start, ctx.end))),
          CatchMode::Rest => R::Tok(self.tok("Rest", (ctx.start, ctx.end), (ctx.start, ctx.end))),
          CatchMode::Jump(jump, to) => R::Jump(*jump, to.to_string(), Box::new(R::None)),
          CatchMode::Bare => R::Err(Expect::is(""), Some((ctx.start, ctx.end))),
          CatchMode::Fatal => {
            let range = (ctx.start, ctx.start);
            R::Err(self.message("caught", range), Some(range))
          }
        }),
        R::Err(m, range) => Ok(match mode {
          CatchMode::Pass | CatchMode::SwallowFail | CatchMode::FailToError | CatchMode::Fatal => {
            R::Err(m, range)
          }
          CatchMode::Bare => R::Err(Expect::is(""), Some((ctx.start, ctx.end))),
          CatchMode::Swallow => R::Skip(0),
          CatchMode::ErrorToFail => R::Fail,
          CatchMode::Describe => {
            R::Tok(self.error_tok("caught error", range.unwrap_or((ctx.start, ctx.end))))
          }
          CatchMode::Rest => R::Tok(self.tok("Rest", (ctx.start, ctx.end), (ctx.start, ctx.end))),
          CatchMode::Jump(jump, to) => R::Jump(*jump, to.to_string(), Box::new(R::None)),
        }),
        other => Ok(other),
      },
    }
  }

  fn sequence(
    &mut self,
    name: &str,
    parts: [&Src; 3],
    ctx: Ctx,
    scope: usize,
  ) -> Result<R, Undef> {
    let mut p = Vec::new();
    for (i, s) in parts.iter().enumerate() {
      match self.fetch(s, scope)? {
        Ok(v) => p.push(v),
        Err(_) => {
          return Ok(R::Err(
            Expect::is(&format!(
              "`Sequence` ({}) matcher received another matcher as a `{}`... this makes no sense... aborting...",
              name,
              if i == 0 { "start_pattern" } else { "end_pattern" }
            )),
            None,
          ))
        }
      }
    }
    if p[0].is_empty() || p[1].is_empty() {
      return Err(Undef::NoVariable);
    }
    let text = self.chunk(&ctx)?.as_bytes().to_vec();
    if !text.starts_with(p[0].as_bytes()) {
      return Ok(R::Fail);
    }
    let mut at = p[0].len();
    let mut value: Vec<u8> = Vec::new();
    while at < text.len() {
      if text[at..].starts_with(p[1].as_bytes()) {
        let t = self.tok(
          name,
          (ctx.start + p[0].len(), ctx.start + at),
          (ctx.start, ctx.start + at + p[1].len()),
        );
        let value = String::from_utf8(value).map_err(|_| Undef::Offsets)?;
        t.borrow_mut()
          .attrs
          .insert("__value".to_string(), Expect::is(&value));
        return Ok(R::Tok(t));
      }
      if !p[2].is_empty() && text[at..].starts_with(p[2].as_bytes()) {
        at += p[2].len();
        if at >= text.len() {
          break;
        }
      }
      value.push(text[at]);
      at += 1;
    }
    Ok(R::Fail)
  }

  // A discarded token leaves only its errors behind
  fn discard(&mut self, ctx: &Ctx, t: Tok) -> R {
    let end = t.borrow().mat.1;
    let mut errors = Vec::new();
    gather(&t, &mut errors);
    if errors.is_empty() {
      return R::Skip(end as isize - ctx.start as isize);
    }
    let w = self.tok("Error", (ctx.start, end), (ctx.start, end));
    let id = w.borrow().id;
    for e in errors {
      let m = e.borrow().mat;
      let mut b = w.borrow_mut();
      b.mat = (b.mat.0.min(m.0), b.mat.1.max(m.1));
      e.borrow_mut().parent = Some(id);
      b.kids.push(e.clone());
    }
    R::Proxy(w)
  }

  fn program(&mut self, id: usize, name: &str, ctx: Ctx, scope: usize) -> Result<R, Undef> {
    let ar = self.ar;
    let node = &ar.nodes[id];
    let (min, max, is_loop, is_switch) = match node.k {
      K::Loop(min, max) => (min, max, true, false),
      K::Switch => (0, 1, false, true),
      _ => (0, 1, false, false),
    };
    let token = self.tok(name, (ctx.start, ctx.start), (ctx.start, ctx.start));
    let mut st = Collect {
      token: token.clone(),
      begin: ctx.start,
      cursor: ctx.start,
      cap: None,
      mat: None,
      kids: Vec::new(),
    };
    let mut count = 0;

    while count < max {
      let iteration_start = st.cursor;
      for i in 0..node.kids.len() {
        // (possible only after a Pin inside another matcher)
        if st.cursor > ctx.end || !self.src.is_char_boundary(st.cursor) {
          return Err(Undef::Offsets);
        }
        let sub = Ctx {
          start: st.cursor,
          top: Some(ctx.start),
          ..ctx
        };
        let consuming = ar.is_consuming(node.kids[i]);
        match self.kid(id, i, sub, scope)? {
          R::Tok(t) => {
            if t.borrow().pin {
              continue;
            }
            if is_switch {
              return Ok(R::Tok(t));
            }
            st.add(&t, consuming);
          }
          R::Proxy(t) => {
            if t.borrow().pin {
              continue;
            }
            if is_switch {
              return Ok(R::Proxy(t));
            }
            st.extract(&t, consuming);
          }
          R::Skip(n) => {
            if is_switch && n > 0 {
              return Ok(R::Skip(n));
            }
            if consuming {
              st.skip(n)?;
            }
          }
          R::Jump(jump, to, payload) => {
            if is_switch {
              return Ok(R::Jump(jump, to, payload));
            }
            match *payload {
              R::Tok(t) => st.add(&t, true),
              R::Proxy(t) => st.extract(&t, true),
              R::Skip(n) => st.skip(n)?,
              _ => {}
            }
            if st.cursor > ctx.end {
              return Err(Undef::Offsets);
            }
            let here = is_loop && (to == name || to.is_empty());
            if here && jump == Jump::Continue {
              break;
            }
            let skipped = st.cursor as isize - ctx.start as isize;
            let r = st.finish();
            if here {
              return Ok(r);
            }
            return Ok(R::Jump(
              jump,
              to,
              Box::new(match r {
                // Nothing was collected: the text that was skipped goes along
                R::Fail => R::Skip(skipped),
                r => r,
              }),
            ));
          }
          R::None => return Err(Undef::NoVariable),
          R::Fail => {
            if is_switch {
              continue;
            }
            if is_loop {
              return Ok(st.finish_loop(min, count));
            }
            return Ok(R::Fail);
          }
          R::Err(m, r) => return Ok(R::Err(m, r)),
        }
      }
      if is_loop && st.cursor <= iteration_start {
        count = count.max(min);
        break;
      }
      count += 1;
    }
    if st.cursor > ctx.end {
      return Err(Undef::Offsets);
    }
    Ok(if is_loop {
      st.finish_loop(min, count)
    } else {
      st.finish()
    })
  }
}

/// The offset that a text gives: none if it is out of all numbers
fn pin_offset(base: usize, default: usize, text: &str) -> Result<Option<usize>, String> {
  if matches!(text, "" | "+" | "-" | "+0" | "-0") {
    return Ok(Some(default));
  }
  let parse = |s: &str| {
    s.parse::<usize>().map_err(|e| {
      format!("Error while attempting to parse `Pin` start offset [{}]: {}", text, e)
    })
  };
  if let Some(n) = text.strip_prefix('+') {
    Ok(base.checked_add(parse(n)?))
  } else if let Some(n) = text.strip_prefix('-') {
    Ok(base.checked_sub(parse(n)?))
  } else {
    Ok(Some(parse(text)?))
  }
}

/// A skip over half of what lies between two places
pub fn step(source: &str, start: usize, end: usize) -> isize {
  if end <= start {
    return 0;
  }
  let mut to = start + (end - start) / 2;
  while !source.is_char_boundary(to) {
    to -= 1;
  }
  to as isize - start as isize
}

/// A skip back over the character before a place
pub fn back(source: &str, start: usize) -> isize {
  let size = source[..start].chars().next_back().map_or(0, |c| c.len_utf8());
  -(size as isize)
}

fn hoist(t: &Tok, out: &mut Vec<Tok>) {
  let kids = t.borrow().kids.clone();
  for k in &kids {
    hoist(k, out);
  }
  let mut keep = Vec::new();
  for k in kids {
    if k.borrow().err {
      out.push(k);
    } else {
      keep.push(k);
    }
  }
  t.borrow_mut().kids = keep;
}

fn gather(t: &Tok, out: &mut Vec<Tok>) {
  if t.borrow().err {
    out.push(t.clone());
  }
  let kids = t.borrow().kids.clone();
  for k in &kids {
    gather(k, out);
  }
}

struct Collect {
  token: Tok,
  begin: usize,
  cursor: usize,
  cap: Option<(usize, usize)>,
  mat: Option<(usize, usize)>,
  kids: Vec<Tok>,
}

fn hull(a: &mut Option<(usize, usize)>, b: (usize, usize)) {
  *a = Some(match *a {
    None => b,
    Some(a) => (a.0.min(b.0), a.1.max(b.1)),
  });
}

impl Collect {
  fn add(&mut self, t: &Tok, consume: bool) {
    if t.borrow().err {
      // An empty error is about everything since its Program began
      let (a, b) = t.borrow().mat;
      if a == b {
        if let Some((start, _)) = self.mat {
          t.borrow_mut().mat = (start, b);
          t.borrow_mut().cap = (start, b);
        }
      }
    }
    if consume {
      hull(&mut self.cap, t.borrow().cap);
      hull(&mut self.mat, t.borrow().mat);
      self.cursor = t.borrow().mat.1;
    }
    t.borrow_mut().parent = Some(self.token.borrow().id);
    self.kids.push(t.clone());
  }

  fn extract(&mut self, p: &Tok, consume: bool) {
    let (cap, mat) = (p.borrow().cap, p.borrow().mat);
    if consume {
      hull(&mut self.cap, cap);
      hull(&mut self.mat, mat);
      self.cursor = mat.1;
    }
    let kids = p.borrow().kids.clone();
    for k in kids {
      if k.borrow().pin {
        continue;
      }
      self.add(&k, consume);
    }
    if consume {
      self.cursor = mat.1;
    }
  }

  fn skip(&mut self, n: isize) -> Result<(), Undef> {
    // (back, after a Pin that was discarded)
    let to = self.cursor as isize + n;
    if to < self.begin as isize {
      return Err(Undef::Offsets);
    }
    self.cursor = to as usize;
    hull(&mut self.mat, (self.begin, self.cursor));
    Ok(())
  }

  fn finish(self) -> R {
    match (self.cap, self.mat) {
      (Some(cap), Some(mat)) if !self.kids.is_empty() => {
        {
          let mut t = self.token.borrow_mut();
          t.cap = cap;
          t.mat = mat;
          t.kids = self.kids;
        }
        R::Tok(self.token)
      }
      _ => R::Fail,
    }
  }

  fn finish_loop(self, min: usize, count: usize) -> R {
    if min == 0 && count == 0 && self.kids.is_empty() {
      return R::Skip(0);
    }
    if count < min {
      return R::Fail;
    }
    self.finish()
  }
}
