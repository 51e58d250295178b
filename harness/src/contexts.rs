//! Contexts: windows onto a source that share variables and nothing else
use std::collections::HashMap;
use std::rc::Rc;

use adextopa_core::{
  matcher::MatcherRef,
  parser::{Parser, ParserRef},
  parser_context::{ParserContext, ParserContextRef},
  scope::{Scope, VariableType},
  source_range::SourceRange,
  token::{StandardToken, TokenRef},
  *,
};

use crate::case::{str_hash, unlink, Cov, Found};
use crate::families::{found, guarded, parse, same_outcome, same_variable, show_outcome, show_variable};
use crate::probe::Aspect;
use crate::rng::Rng;

const NAMES: [&str; 6] = ["a", "b", "A", "é", "", "r"];

/// What a context has to say about itself
#[derive(Clone)]
struct Face {
  real: ParserContextRef,
  parser: usize,
  name: String,
  window: (usize, usize),
  debug: usize,
  stack: Vec<TokenRef>,
  /// Index of the variables that it shares with its copies
  vars: usize,
}

/// Levels of variables, the innermost last
type Vars = Vec<HashMap<String, VariableType>>;

fn copy(v: &VariableType) -> VariableType {
  match v {
    VariableType::String(s) => VariableType::String(s.clone()),
    VariableType::Token(t) => VariableType::Token(t.clone()),
    VariableType::Matcher(m) => VariableType::Matcher(m.clone()),
  }
}

fn look(vars: &Vars, name: &str) -> Option<VariableType> {
  vars.iter().rev().find_map(|l| l.get(name)).map(copy)
}

/// The very same value, not only one that looks like it
fn identical(a: &Option<VariableType>, b: &Option<VariableType>) -> bool {
  match (a, b) {
    (None, None) => true,
    (Some(VariableType::String(x)), Some(VariableType::String(y))) => x == y,
    (Some(VariableType::Token(x)), Some(VariableType::Token(y))) => Rc::ptr_eq(x, y),
    (Some(VariableType::Matcher(x)), Some(VariableType::Matcher(y))) => Rc::ptr_eq(x, y),
    _ => false,
  }
}

/// The first thing that a context says and that is not so
fn wrong(f: &Face, parsers: &[ParserRef], all: &[Vars]) -> Option<String> {
  let c = f.real.borrow();
  if (c.offset.start, c.offset.end) != f.window {
    return Some(format!("the window is {} instead of {:?}", c.offset, f.window));
  }
  if c.name != f.name {
    return Some(format!("the name is {:?} instead of {:?}", c.name, f.name));
  }
  if c.debug_mode_level() != f.debug || c.is_debug_mode() != (f.debug > 0) {
    return Some(format!("the debug level is {} instead of {}", c.debug_mode_level(), f.debug));
  }
  if !Rc::ptr_eq(&c.get_parser(), &parsers[f.parser]) {
    return Some("it has another source".to_string());
  }
  let top = c.get_top_token_from_stack();
  let same = match (&top, f.stack.last()) {
    (None, None) => true,
    (Some(x), Some(y)) => Rc::ptr_eq(x, y),
    _ => false,
  };
  if !same {
    return Some(format!("the token on top of its stack of {} is another one", f.stack.len()));
  }
  let scope = c.get_scope();
  for name in NAMES {
    let want = look(&all[f.vars], name);
    let a = c.get_scope_variable(name);
    if !identical(&a, &want) {
      return Some(format!("variable {:?} is {} instead of {}", name, show_variable(&a), show_variable(&want)));
    }
    if !identical(&scope.borrow().get(name), &want) {
      return Some(format!("variable {:?} of its scope is another one", name));
    }
    let same = match (c.get_registered_matcher(name), &want) {
      (Some(x), Some(VariableType::Matcher(y))) => Rc::ptr_eq(&x, y),
      (None, Some(VariableType::Matcher(_))) => false,
      (None, _) => true,
      _ => false,
    };
    if !same {
      return Some(format!("registered matcher {:?} is another one", name));
    }
  }
  None
}

/// A small matcher whose result depends on the context
fn small(rng: &mut Rng, src: &str, spots: &[usize], from: usize, vars: &Vars) -> (MatcherRef, String) {
  let piece = |rng: &mut Rng, from: usize| -> String {
    let n = rng.range(1, 3);
    src.get(from..).unwrap_or("").chars().take(n).collect()
  };
  let here = piece(rng, from);
  let at = *rng.pick(spots);
  let there = piece(rng, at);
  let s = if rng.pct(70) { here } else { there.clone() };
  let s = if s.is_empty() { "x".to_string() } else { s };
  match rng.below(13) {
    0 => (Equals!(s.clone()), format!("Equals({:?})", s)),
    1 => (
      Program!(Equals!(s.clone()), Optional!(Equals!(there.clone()))),
      format!("Program(Equals({:?}), Optional(Equals({:?})))", s, there),
    ),
    2 => (
      SetScope!(Program!(Store!("a"; Equals!(s.clone())), Store!("b"; "inner"))),
      format!("SetScope(Program(Store(a, Equals({:?})), Store(b, \"inner\")))", s),
    ),
    3 => (Store!("a"; Equals!(s.clone())), format!("Store(a, Equals({:?}))", s)),
    4 => (Panic!("at once"), "Panic".to_string()),
    5 => (Loop!(0..5; Matches!(r"(?s).")), "Loop(0..5; /./s)".to_string()),
    6 => {
      let level = rng.below(4);
      let m = Equals!(s.clone());
      let m = adextopa_core::matchers::debug::DebugPattern::new_with_debug_mode(Some(m), level);
      (m, format!("Debug({}, Equals({:?}))", level, s))
    }
    7 => match look(vars, "a") {
      Some(VariableType::String(_)) => (Equals!(Fetch!("a")), "Equals(Fetch(a))".to_string()),
      Some(VariableType::Token(_)) => (
        Program!(Equals!(s), Optional!(Equals!(Fetch!("a.captured_value")))),
        "Program(.., Optional(Equals(Fetch(a.captured_value))))".to_string(),
      ),
      _ => (Ref!("a"), "Ref(a)".to_string()),
    },
    8 => (
      Program!(Equals!(s.clone()), Panic!("later")),
      format!("Program(Equals({:?}), Panic)", s),
    ),
    9 => (
      Program!(Pin!("+0"; Equals!(s.clone())), Equals!(s.clone())),
      format!("Program(Pin(+0, Equals({:?})), Equals({:?}))", s, s),
    ),
    10 => (Ref!("r"), "Ref(r)".to_string()),
    11 => (
      Program!(Equals!(s.clone()), Error!("oh"), Break!("")),
      format!("Program(Equals({:?}), Error, Break)", s),
    ),
    _ => (
      Switch!(Program!(Equals!(s.clone()), Equals!("\u{1}")), Matches!(r"(?s).*")),
      format!("Switch(Program(Equals({:?}), ..), /.*/s)", s),
    ),
  }
}

pub fn contexts_case(rng: &mut Rng, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let mut sources: Vec<(String, String)> = Vec::new();
  for _ in 0..rng.range(1, 2) {
    let mut src = String::new();
    for _ in 0..rng.range(0, 14) {
      src.push_str(*rng.pick(&["a", "b", "é", "日", "\n", "aa", "\r\n", "1", "😀", "ab"]));
    }
    let file = rng.pick(&["", "f.txt", "é/x"]).to_string();
    sources.push((src, file));
  }
  let make = |s: &(String, String)| {
    if s.1.is_empty() {
      Parser::new(&s.0)
    } else {
      Parser::new_with_file_name(&s.0, &s.1)
    }
  };
  let parsers: Vec<ParserRef> = sources.iter().map(make).collect();
  let spots: Vec<Vec<usize>> = sources
    .iter()
    .map(|(s, _)| (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect())
    .collect();
  let window = |rng: &mut Rng, p: usize| {
    let a = *rng.pick(&spots[p]);
    let b = *rng.pick(&spots[p]);
    (a.min(b), a.max(b))
  };
  let mut faces: Vec<Face> = Vec::new();
  let mut vars: Vec<Vars> = Vec::new();
  let mut trash: Vec<TokenRef> = Vec::new();
  let mut log = format!("sources {:?}\n", sources);
  let mut bad: Option<(Aspect, String)> = None;
  let steps = if rng.pct(5) { 120 } else { rng.range(4, 30) };
  for _ in 0..steps {
    cov.events += 1;
    let make_new = faces.is_empty() || faces.len() < 5 && rng.pct(15);
    if make_new {
      let name = rng.pick(&["Test", "", "é", "Other"]).to_string();
      if faces.is_empty() || rng.pct(35) {
        let p = rng.below(parsers.len());
        let (real, w) = if rng.pct(50) {
          (ParserContext::new(&parsers[p], &name), (0, sources[p].0.len()))
        } else {
          let w = window(rng, p);
          (ParserContext::new_with_offset(&parsers[p], SourceRange::new(w.0, w.1), &name), w)
        };
        log.push_str(&format!("context {} = new, source {}, {:?}, name {:?}\n", faces.len(), p, w, name));
        vars.push(Vec::new());
        let face = Face { real, parser: p, name, window: w, debug: 0, stack: Vec::new(), vars: vars.len() - 1 };
        faces.push(face);
        cov.count("new context");
      } else {
        let from = rng.below(faces.len());
        let mut face = faces[from].clone();
        face.real = if rng.pct(70) {
          face.name = name.clone();
          let c = faces[from].real.borrow().clone_with_name(&name);
          c
        } else {
          let c = faces[from].real.borrow().clone();
          Rc::new(std::cell::RefCell::new(c))
        };
        log.push_str(&format!("context {} = copy of {}, name {:?}\n", faces.len(), from, face.name));
        faces.push(face);
        cov.count("copied context");
      }
    } else {
      let i = rng.below(faces.len());
      let p = faces[i].parser;
      let real = faces[i].real.clone();
      let name = *rng.pick(&NAMES);
      match rng.below(15) {
        14 => {
          // One end after the other: in between, the window can be upside down
          let w = window(rng, p);
          let start_first = rng.pct(50);
          if start_first {
            real.borrow_mut().set_start(w.0);
          }
          real.borrow_mut().set_end(w.1);
          if !start_first {
            real.borrow_mut().set_start(w.0);
          }
          faces[i].window = w;
          log.push_str(&format!("{}: window {:?} ({} first)\n", i, w, if start_first { "start" } else { "end" }));
        }
        0 => {
          let w = window(rng, p);
          real.borrow_mut().set_offset(SourceRange::new(w.0, w.1));
          faces[i].window = w;
          log.push_str(&format!("{}: set_offset {:?}\n", i, w));
        }
        1 => {
          let options: Vec<usize> = spots[p].iter().cloned().filter(|x| *x <= faces[i].window.1).collect();
          let a = *rng.pick(&options);
          real.borrow_mut().set_start(a);
          faces[i].window.0 = a;
          log.push_str(&format!("{}: set_start {}\n", i, a));
        }
        2 => {
          let options: Vec<usize> = spots[p].iter().cloned().filter(|x| *x >= faces[i].window.0).collect();
          let b = *rng.pick(&options);
          real.borrow_mut().set_end(b);
          faces[i].window.1 = b;
          log.push_str(&format!("{}: set_end {}\n", i, b));
        }
        3 => {
          let level = rng.below(4);
          real.borrow_mut().set_debug_mode(level);
          faces[i].debug = level;
          log.push_str(&format!("{}: set_debug_mode {}\n", i, level));
        }
        4 => {
          let w = window(rng, p);
          let t = StandardToken::new(&parsers[p], "Stacked".to_string(), SourceRange::new(w.0, w.1));
          real.borrow_mut().push_token_to_stack(t.clone());
          faces[i].stack.push(t);
          log.push_str(&format!("{}: push token at {:?}\n", i, w));
        }
        5 => {
          real.borrow_mut().pop_token_from_stack();
          faces[i].stack.pop();
          log.push_str(&format!("{}: pop token\n", i));
        }
        6 | 7 => {
          let value = match rng.below(3) {
            0 => VariableType::Token(StandardToken::new(&parsers[p], "V".to_string(), SourceRange::new(0, 0))),
            1 => VariableType::Matcher(Equals!("a")),
            _ => VariableType::String(rng.pick(&["a", "b", "é", "ab"]).to_string()),
          };
          // (names without a value for any source)
          let value = match (name, value) {
            ("r", VariableType::Matcher(m)) => VariableType::Matcher(m),
            ("r", _) => VariableType::Matcher(Equals!("b")),
            (_, v) => v,
          };
          let levels = &mut vars[faces[i].vars];
          if levels.is_empty() {
            levels.push(HashMap::new());
          }
          let old = levels.last_mut().unwrap().insert(name.to_string(), copy(&value));
          log.push_str(&format!("{}: set {:?} to {}\n", i, name, show_variable(&Some(copy(&value)))));
          let was = match rng.below(2) {
            0 => real.borrow_mut().set_scope_variable(name, value),
            _ => {
              let scope = real.borrow().get_scope();
              let mut scope = scope.borrow_mut();
              scope.set(name, value)
            }
          };
          if !identical(&was, &old) {
            bad = Some((Aspect::Scope, format!("the old value is {} instead of {}", show_variable(&was), show_variable(&old))));
          }
        }
        8 => {
          let m: MatcherRef = match rng.below(3) {
            0 => Equals!("r"; "a"),
            1 => Matches!("r"; r"\w"),
            _ => Program!("r"; Equals!("é")),
          };
          let how = rng.below(4);
          log.push_str(&format!("{}: register {}\n", i, how));
          let c = real.borrow();
          let as_name = match how {
            0 => {
              c.register_matcher(m.clone());
              "r"
            }
            1 => {
              c.register_matchers(vec![m.clone()]);
              "r"
            }
            2 => {
              c.register_matcher_with_name(name, m.clone());
              name
            }
            _ => {
              c.register_matchers_with_names(HashMap::from([(name, m.clone())]));
              name
            }
          };
          let levels = &mut vars[faces[i].vars];
          if levels.is_empty() {
            levels.push(HashMap::new());
          }
          levels.last_mut().unwrap().insert(as_name.to_string(), VariableType::Matcher(m));
        }
        9 => {
          let scope = real.borrow().get_scope();
          if rng.pct(50) {
            scope.borrow_mut().push(Scope::new());
            vars[faces[i].vars].push(HashMap::new());
            log.push_str(&format!("{}: push scope\n", i));
          } else {
            scope.borrow_mut().pop();
            vars[faces[i].vars].pop();
            log.push_str(&format!("{}: pop scope\n", i));
          }
        }
        _ => {
          // A parse, and the same in a context that has only just been made
          let f = faces[i].clone();
          let levels = &vars[f.vars];
          let (m, what) = small(rng, &sources[p].0, &spots[p], f.window.0, levels);
          log.push_str(&format!("{}: parse {}\n", i, what));
          let parser = make(&sources[p]);
          let fresh = ParserContext::new_with_offset(&parser, SourceRange::new(f.window.0, f.window.1), "Fresh");
          for level in levels {
            fresh.borrow().get_scope().borrow_mut().push(Scope::new());
            for (name, v) in level {
              fresh.borrow_mut().set_scope_variable(name, copy(v));
            }
          }
          for t in &f.stack {
            fresh.borrow_mut().push_token_to_stack(t.clone());
          }
          cov.inputs += 1;
          let x = parse(&m, &fresh);
          let y = parse(&m, &real);
          match (&x, &y) {
            (Ok(x), Ok(y)) => {
              cov.count(match x {
                Ok(_) => "parsed: token",
                Err(adextopa_core::matcher::MatcherFailure::Fail) => "parsed: failure",
                Err(_) => "parsed: error",
              });
              if let Some(d) = same_outcome(x, y) {
                bad = Some((
                  Aspect::Other,
                  format!("in a new context: {}; here: {}; difference in {}", show_outcome(x), show_outcome(y), d),
                ));
              }
            }
            (Err(_), Err(_)) => {
              // (what both do is the business of other properties)
              cov.count("parsed: panic");
              return None;
            }
            (_, Err(d)) | (Err(d), _) => bad = Some((Aspect::Panic, format!("panic in one of two contexts: {}", d))),
          }
          // The variables may be others now, but they are the same in both
          for name in NAMES {
            let (a, b) = (fresh.borrow(), f.real.borrow());
            let (v, w) = (a.get_scope_variable(name), b.get_scope_variable(name));
            if !same_variable(&v, &w) && bad.is_none() {
              bad = Some((
                Aspect::Scope,
                format!("after it, variable {:?} is {} in a new context, and {} here", name, show_variable(&v), show_variable(&w)),
              ));
            }
          }
          if what.starts_with("Store") || what.starts_with("Ref") {
            // What a name of a matcher does to variables is left to another
            // property; here it is overwritten
            let levels = &mut vars[f.vars];
            if levels.is_empty() {
              levels.push(HashMap::new());
            }
            let top = levels.last_mut().unwrap();
            match &y {
              Ok(Ok(t)) if what.starts_with("Store") => {
                top.insert("a".to_string(), VariableType::Token(t.clone()));
              }
              _ => {
                for (name, value) in [("a", VariableType::String("a".to_string())), ("r", VariableType::Matcher(Equals!("b")))] {
                  real.borrow_mut().set_scope_variable(name, copy(&value));
                  top.insert(name.to_string(), value);
                }
              }
            }
          }
          for t in [x, y] {
            if let Ok(Ok(t)) = t {
              trash.push(t);
            }
          }
        }
      }
    }
    cov.hashes.insert(str_hash(&log));
    if bad.is_none() {
      for (i, f) in faces.iter().enumerate() {
        match guarded(|| wrong(f, &parsers, &vars)) {
          Ok(None) => {}
          Ok(Some(d)) => bad = Some((Aspect::Other, format!("context {}: {}", i, d))),
          Err(d) => bad = Some((Aspect::Panic, format!("context {}: panic: {}", i, d))),
        }
      }
    }
    if bad.is_some() {
      break;
    }
  }
  for t in &trash {
    unlink(t);
  }
  cov.sample(|| log.clone());
  match bad {
    Some((aspect, d)) => found(aspect, log, d),
    None => None,
  }
}
