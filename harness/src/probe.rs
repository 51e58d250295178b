//! Building real matchers from expressions, and observing them: every matcher
//! is wrapped in a probe that reports to the monitor what is executed, where,
//! and with which result. The monitor compares that online with the trace the
//! reference model expects.

use crate::expr::*;
use crate::forms;
use crate::linecol::Expect;
use crate::model::*;
use adextopa_core::matcher::{Matcher, MatcherFailure, MatcherRef, MatcherSuccess};
use adextopa_core::matchers::fetch::FetchPattern;
use adextopa_core::matchers::program::{MatchAction, ProgramPattern};
use adextopa_core::parser_context::ParserContextRef;
use adextopa_core::scope::VariableType;
use adextopa_core::scope_context::{ScopeContext, ScopeContextRef};
use adextopa_core::source_range::SourceRange;
use adextopa_core::parse_error::ParseError;
use adextopa_core::token::{StandardToken, TokenRef, IS_ERROR};
use adextopa_core::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};

/// What of an observation differs from what has to be
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Aspect {
  Name,
  Flags,
  Matched,
  Captured,
  Text,
  Attrs,
  Children,
  Parent,
  Class,
  SkipLen,
  BreakName,
  Message,
  ErrorRange,
  /// Another matcher was executed than the one that is due
  Executed,
  /// A matcher was executed at another place, or with another end
  Place,
  /// The code panicked where it has to return
  Panic,
  /// The code did not return
  Hang,
  /// The process died
  Crash,
  Scope,
  /// A token is in the result more than once, or is its own ancestor
  Shared,
  /// The result of a parse that is not observed is another one
  Unobserved,
  /// Other behaviours, of checks that are not about expressions
  Other,
}

#[derive(Clone, Debug)]
pub struct Div {
  pub aspect: Aspect,
  /// Index in KINDS of the matcher that did something else than it has to
  pub kind: usize,
  /// What the children of that matcher had returned up to there
  pub child_tags: u32,
  /// What that matcher should return, and what it did return
  pub exp_tags: u32,
  pub act_tags: u32,
  /// That matcher fetches what it matches from a variable
  pub fetch: bool,
  /// The kinds in the expression (bits), when no single matcher can be blamed
  pub within: u64,
  pub detail: String,
}

pub const KIND_ROOT: usize = 99;
pub const KIND_NONE: usize = 98;

pub fn kind_name(k: usize) -> &'static str {
  match k {
    KIND_ROOT => "tokenize",
    KIND_NONE => "-",
    k => KINDS[k],
  }
}

/// The kind of the matcher that is being executed, for the watchdog
pub static CURRENT_KIND: AtomicUsize = AtomicUsize::new(KIND_NONE);

/// Where the kind is also written to, to know it of a process that dies
static TRACE: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

pub fn trace_kinds(path: &str) {
  if let Ok(f) = std::fs::File::create(path) {
    let _ = TRACE.set(f);
  }
}

fn set_kind(k: usize) {
  CURRENT_KIND.store(k, Ordering::Relaxed);
  if let Some(f) = TRACE.get() {
    use std::os::unix::fs::FileExt;
    let _ = f.write_all_at(&(k as u64).to_le_bytes(), 0);
  }
}

pub struct Diverged;

struct Frame {
  node: usize,
  child_tags: u32,
}

pub struct Mon {
  kinds: Vec<usize>,
  fetches: Vec<bool>,
  exp: Vec<Ev>,
  pos: usize,
  stack: Vec<Frame>,
  pub div: Option<Div>,
  src: Rc<str>,
  deep_text: bool,
}

pub type MonRef = Rc<RefCell<Mon>>;

impl Mon {
  pub fn new(ar: &Arena) -> MonRef {
    Rc::new(RefCell::new(Mon {
      kinds: ar.nodes.iter().map(|n| n.k.index()).collect(),
      fetches: ar.nodes.iter().map(|n| n.k.fetches()).collect(),
      exp: Vec::new(),
      pos: 0,
      stack: Vec::new(),
      div: None,
      src: "".into(),
      deep_text: true,
    }))
  }

  pub fn arm(&mut self, events: Vec<Ev>, src: &str, deep_text: bool) {
    self.exp = events;
    self.pos = 0;
    self.stack.clear();
    self.div = None;
    self.src = src.into();
    self.deep_text = deep_text;
  }

  pub fn observed(&self) -> usize {
    self.pos
  }

  pub fn complete(&self) -> bool {
    self.pos == self.exp.len()
  }

  /// The matcher that is executing
  pub fn culprit(&self) -> (usize, u32) {
    match self.stack.last() {
      Some(f) => (self.kinds[f.node], f.child_tags),
      None => (KIND_ROOT, 0),
    }
  }

  pub fn culprit_fetches(&self) -> bool {
    self.stack.last().map_or(false, |f| self.fetches[f.node])
  }

  fn expected_exit_tags(&self) -> u32 {
    // What the matcher on top of the stack has to return
    let node = match self.stack.last() {
      Some(f) => f.node,
      None => return 0,
    };
    let mut depth = 0;
    for e in &self.exp[self.pos..] {
      match e {
        Ev::Enter(..) => depth += 1,
        Ev::Exit(n, r) => {
          if depth == 0 {
            return if *n == node { r.tags() } else { 0 };
          }
          depth -= 1;
        }
      }
    }
    0
  }

  pub fn due_tags(&self) -> u32 {
    self.expected_exit_tags()
  }

  /// Count what was observed: every matcher kind, with what it returned
  pub fn tally(&self, cov: &mut crate::case::Cov) {
    for e in &self.exp[..self.pos] {
      if let Ev::Exit(n, r) = e {
        let k = self.kinds[*n];
        *cov.seen.entry((k, r.class())).or_insert(0) += 1;
      }
    }
  }

  fn diverge(&mut self, aspect: Aspect, act_tags: u32, detail: String) {
    if self.div.is_none() {
      let (kind, child_tags) = self.culprit();
      self.div = Some(Div {
        aspect,
        kind,
        child_tags,
        exp_tags: self.expected_exit_tags(),
        act_tags,
        fetch: self.culprit_fetches(),
        within: 0,
        detail,
      });
    }
  }

  fn next_text(&self) -> String {
    match self.exp.get(self.pos) {
      None => "the end".to_string(),
      Some(Ev::Enter(n, a, b)) => format!(
        "matcher #{} ({}) executing at {}..{}",
        n,
        kind_name(self.kinds[*n]),
        a,
        b
      ),
      Some(Ev::Exit(n, r)) => format!(
        "matcher #{} ({}) returning {}",
        n,
        kind_name(self.kinds[*n]),
        r.show()
      ),
    }
  }

  fn enter(&mut self, node: usize, start: usize, end: usize) -> bool {
    let ok = match self.exp.get(self.pos) {
      Some(Ev::Enter(n, a, b)) if *n == node => {
        if *a != start || *b != end {
          let d = format!(
            "matcher #{} ({}) executed at {}..{} instead of {}..{}",
            node,
            kind_name(self.kinds[node]),
            start,
            end,
            a,
            b
          );
          self.diverge(Aspect::Place, 0, d);
          false
        } else {
          true
        }
      }
      _ => {
        let d = format!(
          "matcher #{} ({}) executed at {}..{}, expected was {}",
          node,
          kind_name(self.kinds[node]),
          start,
          end,
          self.next_text()
        );
        self.diverge(Aspect::Executed, 0, d);
        false
      }
    };
    if ok {
      self.pos += 1;
      self.stack.push(Frame {
        node,
        child_tags: 0,
      });
      set_kind(self.kinds[node]);
    }
    ok
  }

  fn exit(&mut self, node: usize, r: &Result<MatcherSuccess, MatcherFailure>) -> bool {
    let exp = match self.exp.get(self.pos) {
      Some(Ev::Exit(n, exp)) if *n == node => exp.clone(),
      _ => {
        let d = format!(
          "matcher #{} ({}) returned {}, expected was {}",
          node,
          kind_name(self.kinds[node]),
          show_result(r),
          self.next_text()
        );
        self.diverge(Aspect::Executed, result_tags(r), d);
        return false;
      }
    };
    if let Some((aspect, d)) = cmp_result(&exp, r, &self.src, self.deep_text) {
      let d = format!(
        "matcher #{} ({}): {}; returned {}, expected {}",
        node,
        kind_name(self.kinds[node]),
        d,
        show_result(r),
        exp.show()
      );
      self.diverge(aspect, result_tags(r), d);
      return false;
    }
    self.pos += 1;
    self.stack.pop();
    if let Some(f) = self.stack.last_mut() {
      f.child_tags |= exp.tags();
      set_kind(self.kinds[f.node]);
    }
    true
  }
}

struct Probe {
  inner: MatcherRef,
  name: String,
  node: usize,
  mon: MonRef,
}

impl Matcher for Probe {
  fn exec(
    &self,
    _: MatcherRef,
    context: ParserContextRef,
    scope: ScopeContextRef,
  ) -> Result<MatcherSuccess, MatcherFailure> {
    let offset = context.borrow().offset;
    let ok = self.mon.borrow_mut().enter(self.node, offset.start, offset.end);
    if !ok {
      std::panic::panic_any(Diverged);
    }
    let result = self.inner.borrow().exec(self.inner.clone(), context, scope);
    let ok = self.mon.borrow_mut().exit(self.node, &result);
    if !ok {
      std::panic::panic_any(Diverged);
    }
    result
  }

  fn get_name(&self) -> &str {
    &self.name
  }

  fn set_name(&mut self, name: &str) {
    self.inner.borrow_mut().set_name(name);
    self.name = self.inner.borrow().get_name().to_string();
  }

  fn add_pattern(&mut self, pattern: MatcherRef) {
    self.inner.borrow_mut().add_pattern(pattern);
  }

  fn get_children(&self) -> Option<Vec<MatcherRef>> {
    self.inner.borrow().get_children()
  }

  fn set_child(&mut self, index: usize, matcher: MatcherRef) {
    self.inner.borrow_mut().set_child(index, matcher);
  }

  fn to_string(&self) -> String {
    self.inner.borrow().to_string()
  }

  fn has_custom_name(&self) -> bool {
    self.inner.borrow().has_custom_name()
  }

  fn is_consuming(&self) -> bool {
    self.inner.borrow().is_consuming()
  }
}

pub fn result_tags(r: &Result<MatcherSuccess, MatcherFailure>) -> u32 {
  match r {
    Ok(s) => success_tags(s),
    Err(MatcherFailure::Fail) => T_FAIL,
    Err(MatcherFailure::Error(_)) => T_ERR,
  }
}

fn success_tags(s: &MatcherSuccess) -> u32 {
  fn has_err(t: &TokenRef, depth: usize) -> bool {
    let t = t.borrow();
    t.flags_enabled(IS_ERROR)
      || (depth < 50 && t.get_children().iter().any(|k| has_err(k, depth + 1)))
  }
  match s {
    MatcherSuccess::Token(t) => T_TOK | if has_err(t, 0) { T_ERRTOK } else { 0 },
    MatcherSuccess::ProxyChildren(t) => T_PROXY | if has_err(t, 0) { T_ERRTOK } else { 0 },
    MatcherSuccess::Skip(0) => T_SKIP0,
    MatcherSuccess::Skip(_) => T_SKIP,
    MatcherSuccess::Break((_, p)) => T_BRK | (success_tags(p) & T_ERRTOK),
    MatcherSuccess::Continue((_, p)) => T_CONT | (success_tags(p) & T_ERRTOK),
    _ => 0,
  }
}

pub fn show_token(t: &TokenRef, depth: usize) -> String {
  let t = t.borrow();
  let mut s = format!(
    "{}{}{{captured {}..{} matched {}..{}",
    t.get_name(),
    if t.flags_enabled(IS_ERROR) { "!" } else { "" },
    t.get_captured_range().start,
    t.get_captured_range().end,
    t.get_matched_range().start,
    t.get_matched_range().end
  );
  for (i, k) in t.get_children().iter().enumerate() {
    if i == 6 || depth > 6 || s.len() > 1500 {
      s.push_str(", ...");
      break;
    }
    s.push_str(", ");
    s.push_str(&show_token(k, depth + 1));
  }
  s.push('}');
  s
}

pub fn show_result(r: &Result<MatcherSuccess, MatcherFailure>) -> String {
  match r {
    Ok(s) => show_success(s),
    Err(MatcherFailure::Fail) => "Fail".to_string(),
    Err(MatcherFailure::Error(e)) => format!("Error({:?}, {:?})", e.message, e.range),
  }
}

fn leap(jump: Jump, to: &str, load: MatcherSuccess) -> MatcherSuccess {
  match jump {
    Jump::Break => MatcherSuccess::Break((to.to_string(), Box::new(load))),
    Jump::Continue => MatcherSuccess::Continue((to.to_string(), Box::new(load))),
  }
}

fn show_success(s: &MatcherSuccess) -> String {
  match s {
    MatcherSuccess::Token(t) => format!("Token {}", show_token(t, 0)),
    MatcherSuccess::ProxyChildren(t) => format!("ProxyChildren {}", show_token(t, 0)),
    MatcherSuccess::Skip(n) => format!("Skip({})", n),
    MatcherSuccess::Break((n, p)) => format!("Break({:?}, {})", n, show_success(p)),
    MatcherSuccess::Continue((n, p)) => format!("Continue({:?}, {})", n, show_success(p)),
    MatcherSuccess::None => "None".to_string(),
    MatcherSuccess::Stop => "Stop".to_string(),
  }
}

pub fn cmp_result(
  exp: &SnapR,
  r: &Result<MatcherSuccess, MatcherFailure>,
  src: &str,
  deep: bool,
) -> Option<(Aspect, String)> {
  match (exp, r) {
    (SnapR::Fail, Err(MatcherFailure::Fail)) => None,
    (SnapR::Err(m, range), Err(MatcherFailure::Error(e))) => cmp_error(m, range, e),
    (exp, Ok(s)) => cmp_success(exp, s, src, deep),
    _ => Some((Aspect::Class, "another kind of result".to_string())),
  }
}

fn cmp_error(
  m: &Expect,
  range: &Option<(usize, usize)>,
  e: &adextopa_core::parse_error::ParseError,
) -> Option<(Aspect, String)> {
  let actual = e.range.map(|r| (r.start, r.end));
  if actual != *range {
    return Some((
      Aspect::ErrorRange,
      format!("error is about {:?} instead of {:?}", actual, range),
    ));
  }
  if !m.accepts(&e.message) {
    return Some((
      Aspect::Message,
      format!("error message is {:?} instead of {}", e.message, m.show()),
    ));
  }
  None
}

fn cmp_success(
  exp: &SnapR,
  s: &MatcherSuccess,
  src: &str,
  deep: bool,
) -> Option<(Aspect, String)> {
  match (exp, s) {
    (SnapR::Tok(a), MatcherSuccess::Token(b)) => cmp_tok(a, b, src, deep),
    (SnapR::Proxy(a), MatcherSuccess::ProxyChildren(b)) => cmp_tok(a, b, src, deep),
    (SnapR::Skip(a), MatcherSuccess::Skip(b)) => {
      if a == b {
        None
      } else {
        Some((Aspect::SkipLen, format!("skips {} instead of {}", b, a)))
      }
    }
    (SnapR::Jump(Jump::Break, n, a), MatcherSuccess::Break((m, b)))
    | (SnapR::Jump(Jump::Continue, n, a), MatcherSuccess::Continue((m, b))) => {
      if n != m {
        return Some((Aspect::BreakName, format!("names the loop {:?} instead of {:?}", m, n)));
      }
      cmp_success(a, b, src, deep)
    }
    (SnapR::None, MatcherSuccess::None) => None,
    _ => Some((Aspect::Class, "another kind of result".to_string())),
  }
}

pub fn cmp_tok(exp: &Snap, t: &TokenRef, src: &str, deep: bool) -> Option<(Aspect, String)> {
  let act = t.borrow();
  let name = act.get_name().clone();
  if name != exp.name {
    return Some((
      Aspect::Name,
      format!("token is named {:?} instead of {:?}", name, exp.name),
    ));
  }
  if act.flags_enabled(IS_ERROR) != exp.err {
    return Some((Aspect::Flags, format!("error flag of token {}", name)));
  }
  if act.should_discard() != exp.pin {
    return Some((Aspect::Flags, format!("discard flag of token {}", name)));
  }
  let mat = (act.get_matched_range().start, act.get_matched_range().end);
  if mat != exp.mat {
    return Some((
      Aspect::Matched,
      format!("token {} matched {:?} instead of {:?}", name, mat, exp.mat),
    ));
  }
  let cap = (act.get_captured_range().start, act.get_captured_range().end);
  if cap != exp.cap {
    return Some((
      Aspect::Captured,
      format!("token {} captured {:?} instead of {:?}", name, cap, exp.cap),
    ));
  }
  if deep || mat.1.saturating_sub(mat.0) < 400 {
    let mat_text = src.get(mat.0..mat.1).unwrap_or("");
    let cap_text = src.get(cap.0..cap.1).unwrap_or("");
    if act.get_matched_value() != mat_text {
      return Some((
        Aspect::Text,
        format!(
          "matched text of token {} at {:?} is {:?} instead of {:?}",
          name,
          mat,
          act.get_matched_value(),
          mat_text
        ),
      ));
    }
    let override_value = match exp.attrs.get("__value") {
      Some(Expect::OneOf(v)) => Some(v[0].clone()),
      _ => None,
    };
    let cap_exp: &str = match (&override_value, exp.pin) {
      (Some(v), true) => v,
      _ => cap_text,
    };
    if act.get_captured_value() != cap_exp {
      return Some((
        Aspect::Text,
        format!(
          "captured text of token {} at {:?} is {:?} instead of {:?}",
          name,
          cap,
          act.get_captured_value(),
          cap_exp
        ),
      ));
    }
    let value = override_value.as_deref().unwrap_or(cap_text);
    if act.get_value() != value {
      return Some((
        Aspect::Text,
        format!(
          "value of token {} at {:?} is {:?} instead of {:?}",
          name,
          cap,
          act.get_value(),
          value
        ),
      ));
    }
  }
  let attrs = act.get_attributes();
  for (k, v) in &exp.attrs {
    match attrs.get(k) {
      Some(a) if v.accepts(a) => {
        if !act.attribute_equals(k, a) || act.get_attribute(k) != Some(a) || !act.has_attribute(k)
        {
          return Some((Aspect::Attrs, format!("lookup of attribute {:?} of token {}", k, name)));
        }
      }
      other => {
        return Some((
          if k == "__message" {
            Aspect::Message
          } else {
            Aspect::Attrs
          },
          format!(
            "attribute {:?} of token {} is {:?} instead of {}",
            k,
            name,
            other,
            v.show()
          ),
        ))
      }
    }
  }
  for k in attrs.keys() {
    if !exp.attrs.contains_key(k) {
      return Some((Aspect::Attrs, format!("token {} has an attribute {:?}", name, k)));
    }
  }
  let kids = act.get_children();
  if kids.len() != exp.count {
    let names: Vec<String> = kids
      .iter()
      .take(12)
      .map(|k| k.borrow().get_name().clone())
      .collect();
    let exp_names: Vec<&String> = exp.kids.iter().take(12).map(|k| &k.name).collect();
    return Some((
      Aspect::Children,
      format!(
        "token {} has {} children {:?} instead of {} {:?}",
        name,
        kids.len(),
        names,
        exp.count,
        exp_names
      ),
    ));
  }
  for (i, e) in exp.kids.iter().enumerate() {
    if let Some(d) = cmp_tok(e, &kids[i], src, deep) {
      return Some(d);
    }
    let parent = kids[i].borrow().get_parent();
    let is_parent = match &parent {
      Some(p) => Rc::ptr_eq(p, t),
      None => false,
    };
    if is_parent != exp.parents[i] {
      return Some((
        Aspect::Parent,
        format!(
          "parent of token {} (child {} of {}) {}",
          e.name,
          i,
          name,
          if is_parent {
            "is the token that holds it"
          } else {
            "is not the token that holds it"
          }
        ),
      ));
    }
  }
  None
}

/// A real matcher, and everything of it that can be compared
pub struct Built {
  pub root: MatcherRef,
  pub scopes: Vec<ScopeContextRef>,
  pub registered: Vec<(String, MatcherRef)>,
  /// The matcher of a node, and its probe
  pub refs: HashMap<usize, (MatcherRef, MatcherRef)>,
  /// Names have to live as long as the macros want them to
  register_via: u8,
}

struct Builder<'a> {
  ar: &'a Arena,
  mon: Option<MonRef>,
  scopes: Vec<ScopeContextRef>,
  refs: HashMap<usize, (MatcherRef, MatcherRef)>,
}

pub fn build(ar: &Arena, mon: Option<MonRef>) -> Built {
  let mut b = Builder {
    ar,
    mon,
    scopes: ar.scopes.iter().map(|_| ScopeContext::new()).collect(),
    refs: HashMap::new(),
  };
  let root = b.node(ar.root);
  for (i, s) in ar.scopes.iter().enumerate() {
    for (name, id) in s {
      let m = b.node(*id);
      b.scopes[i].borrow_mut().set(name, VariableType::Matcher(m));
    }
  }
  let mut registered = Vec::new();
  for (name, id) in &ar.registered {
    let m = b.node(*id);
    registered.push((name.clone(), m));
  }
  Built {
    root,
    scopes: b.scopes,
    registered,
    refs: b.refs,
    register_via: ar.nodes[ar.root].via,
  }
}

/// Message texts have to be static: every distinct one is kept once
pub fn leak(s: &str) -> &'static str {
  thread_local! {
    static POOL: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new());
  }
  POOL.with(|p| {
    let mut p = p.borrow_mut();
    if let Some(s) = p.get(s) {
      return *s;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    p.insert(s.to_string(), l);
    l
  })
}

impl<'a> Builder<'a> {
  fn node(&mut self, id: usize) -> MatcherRef {
    if let Some((_, p)) = self.refs.get(&id) {
      return p.clone();
    }
    let inner = self.raw(id);
    let probe: MatcherRef = match &self.mon {
      None => inner.clone(),
      Some(mon) => Rc::new(RefCell::new(Box::new(Probe {
        name: inner.borrow().get_name().to_string(),
        inner: inner.clone(),
        node: id,
        mon: mon.clone(),
      }))),
    };
    self.refs.insert(id, (inner, probe.clone()));
    probe
  }

  fn program(&mut self, id: usize, kids: Vec<MatcherRef>) -> MatcherRef {
    let n = &self.ar.nodes[id];
    let add = |m: &MatcherRef, kids: &Vec<MatcherRef>| {
      for k in kids {
        m.borrow_mut().add_pattern(k.clone());
      }
    };
    if n.via >= 12 {
      let name = n.name.as_deref();
      let written = match &n.k {
        K::Program => forms::program(name, &kids),
        K::Switch => forms::switch(name, &kids),
        K::Loop(min, max) => forms::looped(name, &kids, *min, if *max == UNBOUNDED { None } else { Some(*max) }),
        _ => None,
      };
      if let Some(m) = written {
        return m;
      }
    }
    let blank = match &n.k {
      K::Program => {
        if n.via % 3 == 0 {
          return match &n.name {
            Some(name) => {
              ProgramPattern::new_program_with_name(kids, name.clone(), MatchAction::Continue)
            }
            None => ProgramPattern::new_program(kids, MatchAction::Continue),
          };
        }
        if n.via % 3 == 1 && n.name.is_none() {
          match kids.len() {
            1 => return Program!(kids[0].clone()),
            2 => return Program!(kids[0].clone(), kids[1].clone()),
            3 => return Program!(kids[0].clone(), kids[1].clone(), kids[2].clone()),
            _ => {}
          }
        }
        Program!()
      }
      K::Switch => {
        if n.via % 3 == 0 {
          return match &n.name {
            Some(name) => {
              ProgramPattern::new_program_with_name(kids, name.clone(), MatchAction::Stop)
            }
            None => ProgramPattern::new_program(kids, MatchAction::Stop),
          };
        }
        if n.via % 3 == 1 && n.name.is_none() {
          match kids.len() {
            1 => return Switch!(kids[0].clone()),
            2 => return Switch!(kids[0].clone(), kids[1].clone()),
            3 => return Switch!(kids[0].clone(), kids[1].clone(), kids[2].clone()),
            _ => {}
          }
        }
        Switch!()
      }
      K::Loop(min, max) => {
        let (min, max) = (*min, *max);
        match (max == UNBOUNDED, n.via % 4) {
          (true, 0) => {
            return match &n.name {
              Some(name) => ProgramPattern::new_loop_with_name_and_range(kids, name.clone(), min..),
              None => ProgramPattern::new_loop(kids, min..),
            }
          }
          (true, 1) => ProgramPattern::new_blank_loop(min..usize::MAX),
          (true, 2) if n.name.is_none() && kids.len() == 1 => {
            return if min == 0 {
              Loop!(kids[0].clone())
            } else {
              Loop!(min..; kids[0].clone())
            }
          }
          (true, 3) if min == 0 => ProgramPattern::new_blank_loop(..),
          (true, _) => ProgramPattern::new_blank_loop(min..),
          (false, 0) => {
            return match &n.name {
              Some(name) => {
                ProgramPattern::new_loop_with_name_and_range(kids, name.clone(), min..=max)
              }
              None => ProgramPattern::new_loop(kids, min..max),
            }
          }
          (false, 1) => ProgramPattern::new_blank_loop(min..=max),
          (false, 2) if n.name.is_none() && kids.len() == 1 => {
            return Loop!(min..=max; kids[0].clone())
          }
          (false, 3) if min == 0 => ProgramPattern::new_blank_loop(..=max),
          (false, _) => ProgramPattern::new_blank_loop(min..max),
        }
      }
      _ => unreachable!(),
    };
    if n.via % 2 == 0 {
      add(&blank, &kids);
      if let Some(name) = &n.name {
        blank.borrow_mut().set_name(name);
      }
    } else {
      if let Some(name) = &n.name {
        blank.borrow_mut().set_name(name);
      }
      add(&blank, &kids);
    }
    blank
  }

  fn raw(&mut self, id: usize) -> MatcherRef {
    let ar = self.ar;
    let kids: Vec<MatcherRef> = ar.nodes[id].kids.iter().map(|k| self.node(*k)).collect();
    let n = &ar.nodes[id];
    let name = n.name.clone();
    let named = |m: MatcherRef| {
      if let Some(name) = &name {
        m.borrow_mut().set_name(name);
      }
      m
    };
    match &n.k {
      K::Equals(Src::Str(s)) => match (&name, n.via % 3) {
        (Some(name), 0) => Equals!(name; s),
        (None, 1) => Equals!(leak(s)),
        _ => named(Equals!(s.clone())),
      },
      K::Equals(Src::Fetch(p)) => named(Equals!(FetchPattern::new(p))),
      K::Matches(rx, flags) => {
        let f = flags.text();
        let text = if f.is_empty() {
          rx.print()
        } else {
          format!("(?{}){}", f, rx.print())
        };
        match &name {
          Some(name) if n.via % 2 == 0 => Matches!(name; &text),
          _ => named(Matches!(&text)),
        }
      }
      K::Sequence(a, b, c) => match (a, b, c) {
        (Src::Str(a), Src::Str(b), Src::Str(c)) => match (&name, n.via % 2) {
          (Some(name), 0) => Sequence!(name; a.clone(), b.clone(), c.clone()),
          (None, 1) => Sequence!(leak(a), leak(b), leak(c)),
          _ => named(Sequence!(a.clone(), b.clone(), c.clone())),
        },
        (Src::Fetch(a), Src::Fetch(b), Src::Fetch(c)) => named(Sequence!(
          FetchPattern::new(a),
          FetchPattern::new(b),
          FetchPattern::new(c)
        )),
        _ => unreachable!(),
      },
      K::Program | K::Loop(..) | K::Switch => self.program(id, kids),
      K::Not => Not!(kids[0].clone()),
      K::Optional => Optional!(kids[0].clone()),
      K::Discard => Discard!(kids[0].clone()),
      K::Proxy => match &name {
        Some(name) => {
          if let (true, Some(m)) = (n.via >= 12, forms::proxy(name, &kids[0])) {
            return m;
          }
          matchers::proxy_children::ProxyChildrenPattern::new_with_name(kids[0].clone(), name)
        }
        None => ProxyChildren!(kids[0].clone()),
      },
      K::Expand => ExpandRange!(kids[0].clone()),
      K::Pin(s) => {
        let kid = kids.get(0).cloned();
        match (s, &name) {
          (Src::Str(s), Some(name)) if n.via >= 12 => match (kid, s.is_empty()) {
            (Some(kid), true) => Pin!(name; kid),
            (Some(kid), false) => Pin!(name, s.clone(); kid),
            (None, true) => Pin!(name;),
            (None, false) => Pin!(name, s.clone();),
          },
          (Src::Fetch(p), Some(name)) if n.via >= 12 => match kid {
            Some(kid) => Pin!(name, FetchPattern::new(p); kid),
            None => Pin!(name, FetchPattern::new(p);),
          },
          (Src::Str(s), Some(name)) => matchers::pin::PinPattern::new_with_name(kid, name, s.clone()),
          (Src::Str(s), None) => {
            if s.is_empty() && n.via % 2 == 0 {
              match kid {
                Some(kid) => Pin!(kid),
                None => Pin!(),
              }
            } else {
              matchers::pin::PinPattern::new(kid, s.clone())
            }
          }
          (Src::Fetch(p), Some(name)) => {
            matchers::pin::PinPattern::new_with_name(kid, name, FetchPattern::new(p))
          }
          (Src::Fetch(p), None) => matchers::pin::PinPattern::new(kid, FetchPattern::new(p)),
        }
      }
      K::Store(var) if n.via >= 12 => Store!(var; kids[0].clone()),
      K::StoreStr(var, value) if n.via >= 12 && forms::store_string(var, value).is_some() => {
        forms::store_string(var, value).unwrap()
      }
      K::Store(var) => matchers::store::StorePattern::new_as_matcher_type(var, kids[0].clone()),
      K::StoreStr(var, value) => matchers::store::StorePattern::new_as_string_type(var, value),
      K::Ref(Src::Str(s)) => match &name {
        Some(name) if n.via % 2 == 0 => Ref!(name.clone(); s.clone()),
        _ => named(Ref!(s.clone())),
      },
      K::Ref(Src::Fetch(p)) => named(Ref!(FetchPattern::new(p))),
      K::RefDirect => named(Ref!(kids[0].clone())),
      K::Register => {
        if let (true, Some(m)) = (n.via >= 12, forms::register(&kids)) {
          return m;
        }
        let r = matchers::register::RegisterPattern::new_blank();
        for k in kids {
          r.borrow_mut().add_pattern(k);
        }
        r
      }
      K::SetScope => SetScope!(kids[0].clone()),
      K::SetScopeX(i) => SetScope!(self.scopes[*i].clone(), kids[0].clone()),
      K::Break(s) => {
        if s.is_empty() && n.via % 2 == 0 {
          Break!()
        } else {
          Break!(s)
        }
      }
      K::Error(s) => Error!(s),
      K::Panic(s) => Panic!(s),
      K::AssertIf(s) => {
        let s = leak(s);
        AssertIf!(kids[0].clone(), s)
      }
      K::AssertIfNot(s) => {
        let s = leak(s);
        assert_if_not(kids[0].clone(), s)
      }
      K::FatalIf(s) => {
        let s = leak(s);
        FatalIf!(kids[0].clone(), s)
      }
      K::FatalIfNot(s) => {
        let s = leak(s);
        fatal_if_not(kids[0].clone(), s)
      }
      K::Null => Null!(),
      K::Debug(mode) => {
        if let (true, Some(m)) = (n.via >= 12, forms::debug(*mode, kids.get(0))) {
          return m;
        }
        matchers::debug::DebugPattern::new_with_debug_mode(kids.get(0).cloned(), *mode)
      }
      K::MapAttrs(attrs) => {
        let attrs = attrs.clone();
        Map!(kids[0].clone(), move |token, _, __| {
          for (k, v) in &attrs {
            if token.borrow().has_attribute(k) {
              continue;
            }
            token.borrow_mut().set_attribute(k, v);
          }
          TokenResult!(token.clone())
        })
      }
      K::MapRename(to) => {
        let to = to.clone();
        Map!(kids[0].clone(), move |token, _, __| {
          token.borrow_mut().set_name(&to);
          TokenResult!(token.clone())
        })
      }
      K::Map(mode) => {
        let mode = *mode;
        let success = move |token: TokenRef, context: ParserContextRef, scope: ScopeContextRef| match mode {
          MapMode::Same
          | MapMode::SameOrSkip
          | MapMode::SameOrSwallow
          | MapMode::SameOrFail
          | MapMode::SameOrFatal => TokenResult!(token),
          MapMode::Bare => Err(MatcherFailure::Error(ParseError::new(""))),
          MapMode::Trim => {
            let range = *token.borrow().get_captured_range();
            token.borrow_mut().set_matched_range(range);
            TokenResult!(token)
          }
          MapMode::Value => {
            token.borrow_mut().set_attribute("__value", "va日ue");
            TokenResult!(token)
          }
          MapMode::Fail => Err(MatcherFailure::Fail),
          MapMode::Skip => Ok(MatcherSuccess::Skip(0)),
          MapMode::Over | MapMode::Step | MapMode::Back => {
            let start = context.borrow().offset.start;
            let end = token.borrow().get_matched_range().end;
            let parser = context.borrow().get_parser();
            let parser = parser.borrow();
            Ok(MatcherSuccess::Skip(match mode {
              MapMode::Over => end as isize - start as isize,
              MapMode::Step => step(parser.get_source(), start, end),
              _ => back(parser.get_source(), start),
            }))
          }
          MapMode::Proxy => Ok(MatcherSuccess::ProxyChildren(token)),
          MapMode::Mark => {
            let old = token.borrow().get_attribute("mark").cloned().unwrap_or_default();
            token.borrow_mut().set_attribute("mark", &(old + "x"));
            TokenResult!(token)
          }
          MapMode::Replace => {
            let parser = context.borrow().get_parser();
            let t = token.borrow();
            TokenResult!(StandardToken::new_with_matched_range(
              &parser,
              "Replaced".to_string(),
              *t.get_captured_range(),
              *t.get_matched_range()
            ))
          }
          MapMode::Fatal => {
            let range = *token.borrow().get_matched_range();
            let message = context.borrow().get_error_as_string("mapped", &range);
            Err(MatcherFailure::Error(ParseError::new_with_range(&message, range)))
          }
          MapMode::Jump(jump, to, load) => {
            let start = context.borrow().offset.start;
            let load = match load {
              Load::Nothing => MatcherSuccess::None,
              Load::Token => MatcherSuccess::Token(token),
              Load::Children => MatcherSuccess::ProxyChildren(token),
              Load::Skip => {
                let end = token.borrow().get_matched_range().end;
                MatcherSuccess::Skip(end as isize - start as isize)
              }
            };
            Ok(leap(jump, to, load))
          }
          MapMode::Set => {
            let text = token.borrow().get_captured_value().to_string();
            scope.borrow_mut().set("v1", VariableType::String(text));
            TokenResult!(token)
          }
        };
        if matches!(
          mode,
          MapMode::SameOrSkip | MapMode::SameOrSwallow | MapMode::SameOrFail | MapMode::SameOrFatal
        ) {
          Map!(kids[0].clone(), success, move |failure, context: ParserContextRef, _| match (mode, failure) {
            (MapMode::SameOrSkip, MatcherFailure::Fail) => Ok(MatcherSuccess::Skip(0)),
            (MapMode::SameOrSwallow, _) => Ok(MatcherSuccess::Skip(0)),
            (MapMode::SameOrFail, _) => Err(MatcherFailure::Fail),
            (MapMode::SameOrFatal, MatcherFailure::Fail) => {
              let context = context.borrow();
              let message = context.get_error_as_string("mapped", &context.offset);
              Err(MatcherFailure::Error(ParseError::new_with_range(&message, context.offset)))
            }
            (_, e) => Err(e),
          })
        } else {
          Map!(kids[0].clone(), success)
        }
      }
      K::Catch(mode) => {
        let mode = *mode;
        Catch!(
          kids[0].clone(),
          move |context: ParserContextRef, failure: MatcherFailure| match (mode, failure) {
            (CatchMode::Pass, f) => Err(f),
            (CatchMode::Swallow, _) => Ok(MatcherSuccess::Skip(0)),
            (CatchMode::SwallowFail, MatcherFailure::Fail) => Ok(MatcherSuccess::Skip(0)),
            (CatchMode::FailToError, MatcherFailure::Fail) => {
              ErrorTokenResult!(context.clone(), "caught")
            }
            (CatchMode::Bare, _) => {
              let offset = context.borrow().offset;
              Err(MatcherFailure::Error(ParseError::new_with_range("", offset)))
            }
            (CatchMode::ErrorToFail, _) => Err(MatcherFailure::Fail),
            (CatchMode::Describe, f) => {
              let offset = context.borrow().offset;
              match f {
                MatcherFailure::Fail => {
                  ErrorTokenResult!(context.clone(), "caught failure", &offset)
                }
                MatcherFailure::Error(e) => {
                  let range = e.range.unwrap_or(offset);
                  ErrorTokenResult!(context.clone(), "caught error", &range)
                }
              }
            }
            (CatchMode::Rest, _) => {
              let context = context.borrow();
              let parser = context.get_parser();
              TokenResult!(StandardToken::new(&parser, "Rest".to_string(), context.offset))
            }
            (CatchMode::Jump(jump, to), _) => Ok(leap(jump, to, MatcherSuccess::None)),
            (CatchMode::Fatal, MatcherFailure::Fail) => {
              let context = context.borrow();
              let range = SourceRange::new(context.offset.start, context.offset.start);
              let message = context.get_error_as_string("caught", &range);
              Err(MatcherFailure::Error(ParseError::new_with_range(&message, range)))
            }
            (_, f) => Err(f),
          }
        )
      }
    }
  }
}

#[allow(unused_variables)]
fn assert_if_not(m: MatcherRef, s: &'static str) -> MatcherRef {
  AssertIfNot!(m, s)
}

#[allow(unused_variables)]
fn fatal_if_not(m: MatcherRef, s: &'static str) -> MatcherRef {
  FatalIfNot!(m, s)
}

impl Built {
  /// The matcher of a node that the expression got after this was built
  pub fn grow(&mut self, ar: &Arena, id: usize) -> MatcherRef {
    let mut b = Builder {
      ar,
      mon: None,
      scopes: self.scopes.clone(),
      refs: std::mem::take(&mut self.refs),
    };
    let m = b.node(id);
    self.refs = b.refs;
    m
  }

  /// What a new parser context has to know before it is used
  pub fn prepare(&self, context: &ParserContextRef) {
    match self.register_via % 5 {
      3 => {
        // (those that go by their own name)
        let mut own: Vec<MatcherRef> = Vec::new();
        for (name, m) in &self.registered {
          if m.borrow().get_name() == name {
            own.push(m.clone());
          } else {
            context.borrow().register_matcher_with_name(name, m.clone());
          }
        }
        context.borrow().register_matchers(own);
      }
      4 => {
        for (name, m) in &self.registered {
          if m.borrow().get_name() == name {
            context.borrow().register_matcher(m.clone());
          } else {
            context.borrow().register_matcher_with_name(name, m.clone());
          }
        }
      }
      0 => {
        for (name, m) in &self.registered {
          context.borrow().register_matcher_with_name(name, m.clone());
        }
      }
      1 => {
        let mut map: HashMap<&str, MatcherRef> = HashMap::new();
        for (name, m) in &self.registered {
          map.insert(name.as_str(), m.clone());
        }
        context.borrow().register_matchers_with_names(map);
      }
      _ => {
        for (name, m) in &self.registered {
          context
            .borrow_mut()
            .set_scope_variable(name, VariableType::Matcher(m.clone()));
        }
      }
    }
  }

  /// Compare what the variables of a finished parse are
  pub fn cmp_scope(
    &self,
    exp: &ScopeStack,
    get: &dyn Fn(&str) -> Option<VariableType>,
    names: &[String],
    src_of: &dyn Fn(&Tok) -> bool,
  ) -> Option<(Aspect, String)> {
    for name in names {
      let e = exp.get(name);
      let a = get(name);
      let ok = match (&e, &a) {
        (None, None) => true,
        (Some(Var::Str(x)), Some(VariableType::String(y))) => x == y,
        (Some(Var::Tok(x)), Some(VariableType::Token(y))) => {
          if src_of(x) {
            let mut budget = 3;
            let s = snap(x, &mut budget);
            let src: Rc<str> = x.borrow().src.clone();
            match cmp_tok(&s, y, &src, false) {
              None => true,
              Some((_, d)) => {
                return Some((Aspect::Scope, format!("variable {:?}: {}", name, d)));
              }
            }
          } else {
            true
          }
        }
        (Some(Var::Mat(id, _)), Some(VariableType::Matcher(m))) => match self.refs.get(id) {
          Some((inner, probe)) => Rc::ptr_eq(inner, m) || Rc::ptr_eq(probe, m),
          None => true,
        },
        _ => false,
      };
      if !ok {
        let show = |v: &Option<Var>| match v {
          None => "not set".to_string(),
          Some(Var::Str(s)) => format!("the string {:?}", s),
          Some(Var::Tok(t)) => format!("a token {}", t.borrow().name),
          Some(Var::Mat(id, _)) => format!("the matcher #{}", id),
        };
        let got = match &a {
          None => "not set".to_string(),
          Some(VariableType::String(s)) => format!("the string {:?}", s),
          Some(VariableType::Token(t)) => format!("a token {}", t.borrow().get_name()),
          Some(VariableType::Matcher(m)) => {
            let id = self
              .refs
              .iter()
              .find(|(_, (i, p))| Rc::ptr_eq(i, m) || Rc::ptr_eq(p, m))
              .map(|(id, _)| *id);
            format!("the matcher #{:?}", id)
          }
        };
        return Some((
          Aspect::Scope,
          format!("variable {:?} is {} instead of {}", name, got, show(&e)),
        ));
      }
    }
    None
  }
}

#[allow(dead_code)]
fn _unused(_: SourceRange) {}
