//! One expression case: the model says what has to happen, the real matchers
//! are executed under observation, and everything is compared.

use crate::expr::*;
use crate::gen::*;
use crate::model::*;
use crate::probe::*;
use crate::rng::{mix, Rng};
use adextopa_core::matcher::MatcherFailure;
use adextopa_core::parser::Parser;
use adextopa_core::parser_context::{ParserContext, ParserContextRef};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::TokenRef;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Default)]
pub struct Cov {
  pub cases: u64,
  pub inputs: u64,
  pub events: u64,
  pub tokens: u64,
  pub counts: BTreeMap<String, u64>,
  pub seen: BTreeMap<(usize, &'static str), u64>,
  pub hashes: HashSet<u64>,
  pub samples: Vec<String>,
  pub others: Vec<String>,
}

impl Cov {
  pub fn count(&mut self, key: &str) {
    self.add(key, 1);
  }

  pub fn add(&mut self, key: &str, n: u64) {
    match self.counts.get_mut(key) {
      Some(c) => *c += n,
      None => {
        self.counts.insert(key.to_string(), n);
      }
    }
  }

  pub fn sample(&mut self, text: impl FnOnce() -> String) {
    if self.samples.len() < 6 {
      self.samples.push(text());
    }
  }
}

/// A difference, and how to describe where it was seen
pub struct Found {
  pub div: Div,
  pub text: String,
}

pub fn other_div(aspect: Aspect, detail: String) -> Div {
  Div {
    aspect,
    kind: KIND_NONE,
    child_tags: 0,
    exp_tags: 0,
    act_tags: 0,
    fetch: false,
    within: 0,
    detail,
  }
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> Option<String> {
  if p.downcast_ref::<Diverged>().is_some() {
    return None;
  }
  Some(if let Some(s) = p.downcast_ref::<&str>() {
    s.to_string()
  } else if let Some(s) = p.downcast_ref::<String>() {
    s.clone()
  } else {
    "panic".to_string()
  })
}

pub fn str_hash(s: &str) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325;
  for b in s.as_bytes() {
    h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
  }
  mix(h)
}

fn snap_hash(s: &Snap, h: &mut u64) {
  *h = mix(*h ^ str_hash(&s.name));
  *h = mix(*h ^ ((s.cap.0 as u64) << 32 | s.cap.1 as u64));
  *h = mix(*h ^ ((s.mat.0 as u64) << 32 | s.mat.1 as u64));
  for k in &s.kids {
    snap_hash(k, h);
  }
  *h = mix(*h ^ 0x55);
}

pub fn r_hash(r: &SnapR, h: &mut u64) {
  *h = mix(*h ^ r.tags() as u64);
  match r {
    SnapR::Tok(s) | SnapR::Proxy(s) => snap_hash(s, h),
    SnapR::Skip(n) => *h = mix(*h ^ *n as u64),
    SnapR::Jump(_, n, p) => {
      *h = mix(*h ^ str_hash(n));
      r_hash(p, h);
    }
    _ => {}
  }
}

/// The shape of a trace: which kinds were executed, where, and what came of it
fn trace_hash(ar: &Arena, events: &[Ev]) -> u64 {
  let mut h = 7u64;
  for e in events {
    match e {
      Ev::Enter(n, a, b) => {
        h = mix(h ^ (ar.nodes[*n].k.index() as u64) << 40 ^ (*a as u64) << 16 ^ *b as u64)
      }
      Ev::Exit(n, r) => {
        h = mix(h ^ (*n as u64) << 20 ^ r.tags() as u64);
        r_hash(r, &mut h);
      }
    }
  }
  h
}

pub fn context_for(src: &str, file: &str, start: usize, end: usize, whole: bool) -> ParserContextRef {
  let parser = if file.is_empty() {
    Parser::new(src)
  } else {
    Parser::new_with_file_name(src, file)
  };
  if whole {
    ParserContext::new(&parser, "Test")
  } else {
    ParserContext::new_with_offset(&parser, SourceRange::new(start, end), "Test")
  }
}

/// Walk a finished tree: no token is in it twice, and it ends
fn walk(t: &TokenRef, seen: &mut HashSet<usize>, left: &mut usize) -> Option<String> {
  if *left == 0 {
    return None;
  }
  *left -= 1;
  if !seen.insert(Rc::as_ptr(t) as *const u8 as usize) {
    return Some(format!("token {} is in the tree twice", t.borrow().get_name()));
  }
  let kids = t.borrow().get_children().clone();
  for k in &kids {
    if let Some(d) = walk(k, seen, left) {
      return Some(d);
    }
  }
  None
}

fn model_unique(t: &Tok, seen: &mut HashSet<usize>) -> bool {
  let b = t.borrow();
  seen.insert(b.id) && b.kids.iter().all(|k| model_unique(k, seen))
}

pub fn unlink(t: &TokenRef) {
  let kids = t.borrow().get_children().clone();
  if let Ok(mut b) = t.try_borrow_mut() {
    b.set_children(Vec::new());
    b.set_parent(None);
  }
  for k in &kids {
    unlink(k);
  }
}

type Outcome = Result<TokenRef, MatcherFailure>;

fn as_result(o: &Outcome) -> Result<adextopa_core::matcher::MatcherSuccess, MatcherFailure> {
  match o {
    Ok(t) => Ok(adextopa_core::matcher::MatcherSuccess::Token(t.clone())),
    Err(e) => Err(e.clone()),
  }
}

fn run_real(built: &Built, ctx: &ParserContextRef) -> Result<Outcome, Option<String>> {
  catch_unwind(AssertUnwindSafe(|| ParserContext::tokenize(ctx.clone(), built.root.clone())))
    .map_err(panic_text)
}

fn describe(ar: &Arena, inputs: &[Input], n: usize, note: &str) -> String {
  let mut s = format!("matcher: {}\n", ar.print());
  for (i, input) in inputs.iter().take(n + 1).enumerate() {
    s.push_str(&format!(
      "parse {}: source {:?} file {:?} from {} to {}\n",
      i + 1,
      input.src,
      input.file,
      input.start,
      input.end
    ));
  }
  s.push_str(note);
  s
}

pub struct RunOpts {
  pub limits: Limits,
  pub deep_text: bool,
  /// Also without observation, and again with what is already built
  pub again: bool,
}

fn root_tags(r: &R) -> u32 {
  snap_r(r, 40).tags()
}

/// Variables that are not as they have to be after a parse
fn scope_diff(
  built: &Built,
  ctx: &ParserContextRef,
  model: &Model,
  names: &[String],
  src: &str,
) -> Option<(Aspect, String)> {
  let mine = |t: &Tok| *t.borrow().src == *src;
  let c = ctx.borrow();
  let get = |name: &str| c.get_scope_variable(name);
  let mut bad = built.cmp_scope(&model.scopes[0], &get, names, &mine);
  for (i, s) in built.scopes.iter().enumerate() {
    if bad.is_none() {
      let s = s.borrow();
      let get = |name: &str| s.get(name);
      bad = built.cmp_scope(&model.scopes[i + 1], &get, names, &mine);
    }
  }
  bad
}

/// What is different without observation: the steps of a parse are nobody's
/// business, only what comes of them is
fn plain_diff(
  plain: &Built,
  input: &Input,
  exp: &SnapR,
  model: &Model,
  names: &[String],
  deep_text: bool,
  trash: &mut Vec<TokenRef>,
) -> Option<(Aspect, String)> {
  let ctx = context_for(&input.src, &input.file, input.start, input.end, input.whole);
  plain.prepare(&ctx);
  match run_real(plain, &ctx) {
    Err(t) => Some((Aspect::Panic, format!("panic: {}", t.unwrap_or_default()))),
    Ok(o) => {
      if let Ok(t) = &o {
        trash.push(t.clone());
      }
      let actual = as_result(&o);
      if let Some((_, d)) = cmp_result(exp, &actual, &input.src, deep_text) {
        return Some((
          Aspect::Unobserved,
          format!("{}; it is {}, expected {}", d, show_result(&actual), exp.show()),
        ));
      }
      scope_diff(plain, &ctx, model, names, &input.src)
        .map(|(a, d)| (a, format!("after the parse, {}", d)))
    }
  }
}

pub fn run_expr(ar: &Arena, inputs: &[Input], o: &RunOpts, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let mon = Mon::new(ar);
  let built = build(ar, Some(mon.clone()));
  let mut plain = if o.again { Some(build(ar, None)) } else { None };
  // The steps were others than those of the model: only results are compared
  let mut blind = false;
  let names = ar.names();
  let limits = || Limits { ..o.limits };
  let mut model = Model::new(ar, limits(), true);
  // The first result has to stay as it is whatever is parsed after it
  let mut kept: Option<(TokenRef, Snap, Rc<str>)> = None;
  let mut trash: Vec<TokenRef> = Vec::new();
  let mut found: Option<Found> = None;

  for (n, input) in inputs.iter().enumerate() {
    let fail = |div: Div, note: &str| {
      let note = format!("{}\ndifference: {}", note, div.detail);
      Some(Found {
        text: describe(ar, inputs, n, &note),
        div,
      })
    };
    let expected = match model.run(&input.src, &input.file, input.start, input.end, true) {
      Ok(r) => r,
      Err(u) => {
        cov.count(&format!("undefined:{:?}", u));
        break;
      }
    };
    let events = std::mem::take(&mut model.events);
    let total = events.len();
    let hash = trace_hash(ar, &events);
    let exp = snap_r(&expected, o.limits.snap * 4);
    if blind {
      cov.inputs += 1;
      if let Some(p) = &plain {
        if let Some((aspect, d)) =
          plain_diff(p, input, &exp, &model, &names, o.deep_text, &mut trash)
        {
          let d = Div {
            kind: KIND_ROOT,
            within: ar.kinds(),
            ..other_div(aspect, d)
          };
          found = fail(d, "");
          break;
        }
      }
      continue;
    }
    mon.borrow_mut().arm(events, &input.src, o.deep_text);
    let ctx = context_for(&input.src, &input.file, input.start, input.end, input.whole);
    built.prepare(&ctx);
    cov.inputs += 1;
    let outcome = run_real(&built, &ctx);
    {
      let m = mon.borrow();
      cov.events += m.observed() as u64;
      m.tally(cov);
    }
    let outcome = match outcome {
      Err(text) => {
        let m = mon.borrow();
        let div = match (&m.div, text) {
          (Some(d), _) => d.clone(),
          (None, text) => {
            let (kind, child_tags) = m.culprit();
            Div {
              aspect: Aspect::Panic,
              kind,
              child_tags,
              exp_tags: m.due_tags(),
              act_tags: 0,
              fetch: m.culprit_fetches(),
              within: 0,
              detail: format!(
                "panic in {}: {}",
                kind_name(kind),
                text.unwrap_or_default()
              ),
            }
          }
        };
        // Does it show from the outside?
        if plain.is_none() && n == 0 {
          plain = Some(build(ar, None));
        }
        if let Some(p) = &plain {
          match plain_diff(p, input, &exp, &model, &names, o.deep_text, &mut trash) {
            Some((_, d)) => {
              found = fail(div, &format!("\nfrom the outside: {}", d));
              break;
            }
            None => {
              cov.count("only the steps differ");
              if cov.others.len() < 3 {
                let note = format!("\nonly the steps differ: {}", div.detail);
                cov.others.push(describe(ar, inputs, n, &note));
              }
              blind = true;
              continue;
            }
          }
        }
        found = fail(div, "");
        break;
      }
      Ok(o) => o,
    };
    if let Ok(t) = &outcome {
      trash.push(t.clone());
    }
    if !mon.borrow().complete() {
      cov.count("only the steps differ");
      if cov.others.len() < 3 {
        let note = format!(
          "\nonly {} of {} steps were observed",
          mon.borrow().observed(),
          total
        );
        cov.others.push(describe(ar, inputs, n, &note));
      }
    }
    cov.hashes.insert(hash);
    cov.count(&format!("result:{}", exp.class()));
    let actual = as_result(&outcome);
    if let Some((aspect, d)) = cmp_result(&exp, &actual, &input.src, o.deep_text) {
      let d = Div {
        kind: KIND_ROOT,
        exp_tags: root_tags(&expected),
        act_tags: result_tags(&actual),
        child_tags: root_tags(&expected),
        ..other_div(
          aspect,
          format!(
            "result of the parse: {}; it is {}, expected {}",
            d,
            show_result(&actual),
            exp.show()
          ),
        )
      };
      if let Some(p) = &plain {
        if plain_diff(p, input, &exp, &model, &names, o.deep_text, &mut trash).is_none() {
          cov.count("only observed differences");
          blind = true;
          continue;
        }
      }
      found = fail(d, "");
      break;
    }
    if let Ok(t) = &outcome {
      let mut left = 3000;
      let mut seen = HashSet::new();
      if let Some(d) = walk(t, &mut seen, &mut left) {
        let ok = match &expected {
          R::Tok(m) => !model_unique(m, &mut HashSet::new()),
          _ => false,
        };
        if !ok {
          let d = Div {
            kind: KIND_ROOT,
            ..other_div(Aspect::Shared, d)
          };
          found = fail(d, "");
          break;
        }
      }
      cov.tokens += seen.len() as u64;
    }
    if let Some((aspect, d)) = scope_diff(&built, &ctx, &model, &names, &input.src) {
      let d = Div {
        kind: KIND_ROOT,
        ..other_div(aspect, format!("after the parse, {}", d))
      };
      if let Some(p) = &plain {
        if plain_diff(p, input, &exp, &model, &names, o.deep_text, &mut trash).is_none() {
          cov.count("only observed differences");
          blind = true;
          continue;
        }
      }
      found = fail(d, "");
      break;
    }
    if let (None, R::Tok(m), Ok(t)) = (&kept, &expected, &outcome) {
      let mut budget = 60;
      kept = Some((t.clone(), snap(m, &mut budget), input.src.as_str().into()));
    }
    cov.sample(|| {
      format!(
        "{} on {:?}[{}..{}] -> {} ({} events)",
        ar.print(),
        input.src,
        input.start,
        input.end,
        exp.show(),
        total
      )
    });

    if let Some(plain) = &plain {
      if let Some((aspect, d)) =
        plain_diff(plain, input, &exp, &model, &names, o.deep_text, &mut trash)
      {
        let d = Div {
          kind: KIND_ROOT,
          within: ar.kinds(),
          ..other_div(aspect, format!("the same parse with the same matcher, not observed: {}", d))
        };
        found = fail(d, "");
        break;
      }
    }
  }

  if found.is_none() {
    if let Some((t, s, src)) = &kept {
      if let Some((_, d)) = cmp_tok(s, t, src, o.deep_text) {
        let d = Div {
          kind: KIND_ROOT,
          ..other_div(
            Aspect::Unobserved,
            format!("the result of an earlier parse was changed by a later one: {}", d),
          )
        };
        found = Some(Found {
          text: describe(ar, inputs, inputs.len(), &format!("\ndifference: {}", d.detail)),
          div: d,
        });
      }
    }
  }
  // The same context a second time: what it knows is kept
  if found.is_none() && o.again && !inputs.is_empty() {
    let input = &inputs[0];
    let mut model = Model::new(ar, limits(), false);
    let fresh = build(ar, None);
    let ctx = context_for(&input.src, &input.file, input.start, input.end, input.whole);
    fresh.prepare(&ctx);
    for round in 0..2 {
      let expected = match model.run(&input.src, &input.file, input.start, input.end, round == 0) {
        Ok(r) => r,
        Err(_) => break,
      };
      let exp = snap_r(&expected, o.limits.snap * 4);
      let outcome = run_real(&fresh, &ctx);
      let bad = match &outcome {
        Err(t) => Some(format!("panic: {}", t.clone().unwrap_or_default())),
        Ok(a) => {
          if let Ok(t) = a {
            trash.push(t.clone());
          }
          cmp_result(&exp, &as_result(a), &input.src, o.deep_text).map(|(_, d)| {
            format!("{}; it is {}, expected {}", d, show_result(&as_result(a)), exp.show())
          })
        }
      };
      cov.count("repeated parses");
      if let Some(d) = bad {
        let d = Div {
          kind: KIND_ROOT,
          within: ar.kinds(),
          ..other_div(
            Aspect::Unobserved,
            format!("a new matcher, parse {} with one context: {}", round + 1, d),
          )
        };
        found = Some(Found {
          text: describe(ar, inputs, 0, &format!("\ndifference: {}", d.detail)),
          div: d,
        });
        break;
      }
    }
    for s in &fresh.scopes {
      while s.borrow_mut().pop().is_some() {}
    }
  }
  if let Some((t, _, _)) = kept {
    trash.push(t);
  }
  if found.is_none() {
    for t in &trash {
      unlink(t);
    }
    for b in [Some(&built), plain.as_ref()].iter().flatten() {
      for s in &b.scopes {
        while s.borrow_mut().pop().is_some() {}
      }
    }
  }
  found
}

pub fn expr_case(rng: &mut Rng, p: &Profile, cov: &mut Cov) -> Option<Found> {
  let ar = gen_expr(rng, p);
  let n = rng.range(3, 6);
  let mut inputs = Vec::new();
  for _ in 0..n {
    inputs.push(gen_input(rng, &ar, p));
  }
  run_expr(
    &ar,
    &inputs,
    &RunOpts {
      limits: Limits::NORMAL,
      deep_text: true,
      again: true,
    },
    cov,
  )
}

enum Edit {
  SetChild(usize, usize, usize),
  AddPattern(usize, usize),
  SetName(usize, String),
}

/// Where a name goes that a matcher is given
fn name_target(ar: &Arena, mut id: usize) -> Option<usize> {
  loop {
    let n = &ar.nodes[id];
    match n.k {
      K::Equals(..)
      | K::Matches(..)
      | K::Sequence(..)
      | K::Program
      | K::Loop(..)
      | K::Switch
      | K::Proxy
      | K::Pin(..)
      | K::Store(..)
      | K::StoreStr(..)
      | K::Ref(..)
      | K::RefDirect => return Some(id),
      K::Break(..) | K::Error(..) | K::Panic(..) | K::Null | K::Register => return None,
      _ => match n.kids.first() {
        Some(k) => id = *k,
        None => return None,
      },
    }
  }
}

fn reaches(ar: &Arena, from: usize, to: usize) -> bool {
  from == to || ar.nodes[from].kids.iter().any(|k| reaches(ar, *k, to))
}

/// What a matcher tells about itself
fn cmp_face(ar: &Arena, b: &Built) -> Option<String> {
  let mut ids: Vec<usize> = b.refs.keys().cloned().collect();
  ids.sort();
  for id in ids {
    let n = &ar.nodes[id];
    let m = b.refs[&id].0.borrow();
    let (name, custom) = ar.matcher_name(id);
    if m.get_name() != name {
      return Some(format!("the name of a {} is {:?} instead of {:?}", n.k.name(), m.get_name(), name));
    }
    if m.has_custom_name() != custom {
      return Some(format!(
        "a {} says that its name was {}given to it",
        n.k.name(),
        if custom { "not " } else { "" }
      ));
    }
    if m.is_consuming() != ar.is_consuming(id) {
      return Some(format!("a {} says that it is {}consuming", n.k.name(), if ar.is_consuming(id) { "not " } else { "" }));
    }
    let none = matches!(n.k, K::Ref(..) | K::RefDirect) || n.kids.is_empty();
    let kids = m.get_children().unwrap_or_default();
    let want = if none { 0 } else { n.kids.len() };
    if kids.len() != want {
      return Some(format!("a {} has {} children instead of {}", n.k.name(), kids.len(), want));
    }
    for (i, k) in kids.iter().enumerate() {
      if !Rc::ptr_eq(k, &b.refs[&n.kids[i]].0) {
        return Some(format!("child {} of a {} is another matcher than the one it was given", i, n.k.name()));
      }
    }
  }
  None
}

/// Try a change that the matcher has no place for: it has to be refused.
/// Gives what was tried, if there is one
fn refused(rng: &mut Rng, ar: &Arena, built: &mut Built, at: usize) -> Result<Option<String>, String> {
  let n = &ar.nodes[at];
  let grows = matches!(n.k, K::Program | K::Loop(..) | K::Switch | K::Register);
  let takes = matches!(
    n.k,
    K::Program
      | K::Loop(..)
      | K::Switch
      | K::Not
      | K::Optional
      | K::Discard
      | K::Proxy
      | K::Expand
      | K::SetScope
      | K::SetScopeX(_)
      | K::AssertIf(_)
      | K::AssertIfNot(_)
      | K::FatalIf(_)
      | K::FatalIfNot(_)
      | K::MapAttrs(_)
      | K::MapRename(_)
      | K::Map(_)
      | K::Catch(_)
      | K::Debug(_)
  );
  let other = built.refs[&at].0.clone();
  let new: adextopa_core::matcher::MatcherRef = adextopa_core::Equals!("new");
  let (what, done) = if !grows && rng.pct(50) {
    (
      format!("add_pattern(..) of {}", n.k.name()),
      catch_unwind(AssertUnwindSafe(|| other.borrow_mut().add_pattern(new))),
    )
  } else {
    let room = match n.k {
      _ if !takes => 0,
      K::Debug(_) => 1,
      _ => n.kids.len(),
    };
    if takes && room == 0 && !grows {
      return Ok(None);
    }
    let i = room.saturating_add(*rng.pick(&[0, 0, 0, 1, 2, 7, usize::MAX]));
    (
      format!("set_child({}, ..) of {} with {} children", i, n.k.name(), n.kids.len()),
      catch_unwind(AssertUnwindSafe(|| other.borrow_mut().set_child(i, new))),
    )
  };
  match done {
    Err(_) => Ok(Some(format!("refused: {}", what))),
    Ok(()) => Err(format!("{} was not refused", what)),
  }
}

/// Matchers that are changed after they were made, with parses in between:
/// they have to do what matchers do that are made like that at once
pub fn edit_case(rng: &mut Rng, p: &Profile, cov: &mut Cov) -> Option<Found> {
  let mut ar = gen_expr(rng, p);
  let mut built = build(&ar, None);
  let first = ar.print();
  let mut log = String::new();
  let mut trash: Vec<TokenRef> = Vec::new();
  let mut found = None;
  cov.cases += 1;
  let rounds = rng.range(1, 4);
  'rounds: for _ in 0..rounds {
    for _ in 0..rng.range(1, 3) {
      let live: Vec<usize> = built.refs.keys().cloned().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
      let mut at = *rng.pick(&live);
      for _ in 0..2 {
        if ar.nodes[at].kids.is_empty() {
          at = *rng.pick(&live);
        }
      }
      if rng.pct(10) {
        // A change that this matcher can not take
        let what = match refused(rng, &ar, &mut built, at) {
          Ok(Some(what)) => what,
          Ok(None) => continue,
          Err(d) => {
            found = Some(Found {
              text: format!("matcher: {}\nedits:\n{}is then: {}\ndifference: {}", first, log, ar.print(), d),
              div: other_div(Aspect::Class, d),
            });
            break 'rounds;
          }
        };
        cov.count("edit:refused");
        log.push_str(&what);
        log.push('\n');
        if let Some(d) = cmp_face(&ar, &built) {
          let d = format!("after {}, {}", what, d);
          found = Some(Found {
            text: format!("matcher: {}\nedits:\n{}is then: {}\ndifference: {}", first, log, ar.print(), d),
            div: other_div(Aspect::Class, d),
          });
          break 'rounds;
        }
        continue;
      }
      let edit = match (rng.below(3), &ar.nodes[at].k) {
        (0, K::Program | K::Loop(..) | K::Switch | K::Register) => {
          Edit::AddPattern(at, 0)
        }
        (
          0 | 1,
          K::Program
          | K::Loop(..)
          | K::Switch
          | K::Not
          | K::Optional
          | K::Discard
          | K::Proxy
          | K::Expand
          | K::SetScope
          | K::SetScopeX(_)
          | K::AssertIf(_)
          | K::AssertIfNot(_)
          | K::FatalIf(_)
          | K::FatalIfNot(_)
          | K::MapAttrs(_)
          | K::MapRename(_)
          | K::Map(_)
          | K::Catch(_),
        ) if !ar.nodes[at].kids.is_empty() => {
          let i = rng.below(ar.nodes[at].kids.len());
          Edit::SetChild(at, i, 0)
        }
        (0 | 1, K::Debug(_)) => Edit::SetChild(at, 0, 0),
        _ => Edit::SetName(at, gen_name(rng)),
      };
      // (the new matchers are something new, or something that is there)
      let edit = match edit {
        Edit::SetName(at, name) => match name_target(&ar, at) {
          // (whether the name that a matcher has by default is a custom one)
          Some(to) if name == ar.nodes[to].k.name() => continue,
          // (a variable's name has no dots)
          Some(to) if matches!(ar.nodes[to].k, K::Store(_) | K::StoreStr(..)) && name.contains('.') => continue,
          _ => Edit::SetName(at, name),
        },
        Edit::SetChild(at, i, _) => {
          let new = match rng.pct(30) {
            true => *rng.pick(&live),
            false => at,
          };
          let new = if new == at || reaches(&ar, new, at) {
            let d = rng.range(0, 2);
            gen_more(rng, p, &mut ar, d)
          } else {
            new
          };
          Edit::SetChild(at, i, new)
        }
        Edit::AddPattern(at, _) => {
          let new = if rng.pct(30) { *rng.pick(&live) } else { at };
          let new = if new == at || reaches(&ar, new, at) {
            let d = rng.range(0, 2);
            gen_more(rng, p, &mut ar, d)
          } else {
            new
          };
          Edit::AddPattern(at, new)
        }
      };
      let what = match &edit {
        Edit::SetChild(at, i, _) => format!("set_child({}, ..) of {}", i, ar.nodes[*at].k.name()),
        Edit::AddPattern(at, _) => format!("add_pattern(..) of {}", ar.nodes[*at].k.name()),
        Edit::SetName(at, name) => format!("set_name({:?}) of {}", name, ar.nodes[*at].k.name()),
      };
      cov.count(&format!("edit:{}", what.split('(').next().unwrap_or("")));
      log.push_str(&what);
      log.push('\n');
      let done = catch_unwind(AssertUnwindSafe(|| match &edit {
        Edit::SetChild(at, i, new) => {
          let m = built.grow(&ar, *new);
          built.refs[at].0.borrow_mut().set_child(*i, m);
        }
        Edit::AddPattern(at, new) => {
          let m = built.grow(&ar, *new);
          built.refs[at].0.borrow_mut().add_pattern(m);
        }
        Edit::SetName(at, name) => built.refs[at].0.borrow_mut().set_name(name),
      }));
      match edit {
        Edit::SetChild(at, i, new) => {
          if i < ar.nodes[at].kids.len() {
            ar.nodes[at].kids[i] = new;
          } else {
            ar.nodes[at].kids.push(new);
          }
        }
        Edit::AddPattern(at, new) => ar.nodes[at].kids.push(new),
        Edit::SetName(at, name) => {
          if let Some(to) = name_target(&ar, at) {
            let n = &mut ar.nodes[to];
            match &mut n.k {
              K::Store(v) | K::StoreStr(v, _) => *v = name,
              _ => n.name = Some(name),
            }
          }
        }
      }
      let bad = match done {
        Err(e) => Some(format!("{} panicked: {}", what, panic_text(e).unwrap_or_default())),
        Ok(()) => cmp_face(&ar, &built).map(|d| format!("after {}, {}", what, d)),
      };
      if let Some(d) = bad {
        found = Some(Found {
          text: format!("matcher: {}\nedits:\n{}is then: {}\ndifference: {}", first, log, ar.print(), d),
          div: other_div(Aspect::Class, d),
        });
        break 'rounds;
      }
    }
    let names = ar.names();
    for _ in 0..rng.range(1, 3) {
      let input = gen_input(rng, &ar, p);
      let mut model = Model::new(&ar, Limits { ..Limits::NORMAL }, true);
      let expected = match model.run(&input.src, &input.file, input.start, input.end, true) {
        Ok(r) => r,
        Err(u) => {
          cov.count(&format!("undefined:{:?}", u));
          continue;
        }
      };
      let exp = snap_r(&expected, Limits::NORMAL.snap * 4);
      cov.inputs += 1;
      cov.events += model.events.len() as u64;
      let mut h = trace_hash(&ar, &model.events);
      r_hash(&exp, &mut h);
      cov.hashes.insert(h);
      cov.count(&format!("result:{}", exp.class()));
      log.push_str(&format!("parse {:?}\n", input.src));
      if let Some((aspect, d)) = plain_diff(&built, &input, &exp, &model, &names, true, &mut trash) {
        let fresh = build(&ar, None);
        if plain_diff(&fresh, &input, &exp, &model, &names, true, &mut trash).is_some() {
          // It is not the changes that make the difference
          cov.count("differs without changes too");
          break 'rounds;
        }
        found = Some(Found {
          text: format!(
            "matcher: {}\nedits and parses:\n{}is then: {}\ninput: {:?}[{}..{}]\ndifference to a matcher that is made like that at once: {}",
            first, log, ar.print(), input.src, input.start, input.end, d
          ),
          div: other_div(aspect, d),
        });
        break 'rounds;
      }
      cov.sample(|| format!("{} | {} | {:?} -> {}", first, log.replace('\n', "; "), input.src, exp.show()));
    }
  }
  for t in &trash {
    unlink(t);
  }
  found
}
