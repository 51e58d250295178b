//! Printing: what a token, a matcher or a result shows of itself.

use crate::case::*;
use crate::expr::*;
use crate::families::*;
use crate::gen::*;
use crate::model::*;
use crate::probe::*;
use crate::rng::Rng;
use adextopa_core::matcher::{MatcherFailure, MatcherRef, MatcherSuccess};
use adextopa_core::matchers::pin::PinToken;
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::Parser;
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef, IS_ERROR};

/// How a printed text is laid out is no matter
fn bare(s: &str) -> String {
  s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// What a printed token has to say, in this order
fn token_text(t: &TokenRef, out: &mut String, n: &mut u64) {
  *n += 1;
  let b = t.borrow();
  let parent = match b.get_parent() {
    Some(p) => p.borrow().get_name().clone(),
    None => "None".to_string(),
  };
  let (c, m) = (*b.get_captured_range(), *b.get_matched_range());
  out.push_str(&bare(&format!(
    "{}(ValueRange({},{}),RawRange({},{}),Value({}),RawValue({}),Parent({}),Attributes{:?}Children[",
    b.get_name(),
    c.start,
    c.end,
    m.start,
    m.end,
    b.get_value(),
    b.get_matched_value(),
    parent,
    b.get_attributes()
  )));
  for kid in b.get_children() {
    token_text(kid, out, n);
    out.push_str("),");
  }
  out.push_str("],");
}

fn first_difference(a: &str, b: &str) -> String {
  let at = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
  let from = at.saturating_sub(30);
  let cut = |s: &str| s.chars().skip(from).take(80).collect::<String>();
  format!("after {} characters: ...{} instead of ...{}", at, cut(a), cut(b))
}

pub fn check_token(t: &TokenRef, cov: &mut Cov) -> Result<(), (Aspect, String)> {
  let mut want = String::new();
  let mut n = 0;
  token_text(t, &mut want, &mut n);
  cov.events += n;
  let before = show_token(t, 0);
  let got = guarded(|| {
    let b = t.borrow();
    let shown = format!("{}", &**b);
    let debug = format!("{:?}", &**b);
    let result = format!("{:?}", MatcherSuccess::Token(t.clone()));
    (shown, debug, result)
  });
  let (shown, debug, result) = match got {
    Ok(x) => x,
    Err(p) => return Err((Aspect::Panic, format!("printing a token: panic: {}", p))),
  };
  if bare(&debug) != want {
    return Err((Aspect::Other, format!("a printed token: {}", first_difference(&bare(&debug), &want))));
  }
  if shown != debug {
    return Err((Aspect::Other, format!("a displayed token: {}", first_difference(&shown, &debug))));
  }
  if !bare(&result).contains(&want) {
    return Err((Aspect::Other, format!("a printed result does not show its token: {}", result)));
  }
  if show_token(t, 0) != before {
    return Err((Aspect::Other, "printing a token changed it".to_string()));
  }
  Ok(())
}

/// Whether the printed text has these parts, one after the other
fn in_order(text: &str, parts: &[String]) -> Option<String> {
  let mut rest = text;
  for p in parts {
    match rest.find(p.as_str()) {
      Some(at) => rest = &rest[at + p.len()..],
      None => return Some(p.clone()),
    }
  }
  None
}

fn src_text(s: &Src) -> String {
  match s {
    Src::Str(s) => format!("{:?}", s),
    Src::Fetch(p) => format!("{:?}", p),
  }
}

/// A matcher shows the texts it is made of, its name, and its matchers
fn check_matcher(ar: &Arena, id: usize, m: &MatcherRef, cov: &mut Cov) -> Result<(), (Aspect, String)> {
  let n = &ar.nodes[id];
  cov.events += 1;
  let kids = m.borrow().get_children().unwrap_or_default();
  let got = guarded(|| {
    let b = m.borrow();
    let text = b.to_string();
    let debug = format!("{:?}", &**b);
    let again = b.to_string();
    let kids: Vec<String> = kids.iter().map(|k| k.borrow().to_string()).collect();
    (text, debug, again, kids)
  });
  let (text, debug, again, kids) = match got {
    Ok(x) => x,
    Err(p) => return Err((Aspect::Panic, format!("printing a {}: panic: {}", n.k.name(), p))),
  };
  if text != debug || text != again {
    return Err((
      Aspect::Other,
      format!("a {} prints as {}, and as {}, and then as {}", n.k.name(), text, debug, again),
    ));
  }
  if let Some(p) = in_order(&text, &kids) {
    return Err((Aspect::Other, format!("a printed {} does not show its matcher {}: {}", n.k.name(), p, text)));
  }
  let own: Vec<String> = match &n.k {
    K::Equals(s) => vec![src_text(s)],
    K::Matches(rx, flags) => {
      let f = flags.text();
      vec![if f.is_empty() { rx.print() } else { format!("(?{}){}", f, rx.print()) }]
    }
    K::Sequence(a, b, c) => vec![src_text(a), src_text(b), src_text(c)],
    K::Pin(s) => vec![src_text(s)],
    K::Ref(s) => vec![src_text(s)],
    K::StoreStr(_, v) => vec![format!("{:?}", v)],
    K::Break(s) | K::Error(s) | K::Panic(s) => vec![format!("{:?}", s)],
    K::Loop(min, max) if *max != UNBOUNDED => vec![min.to_string(), max.to_string()],
    K::Loop(min, _) => vec![min.to_string()],
    K::Debug(mode) => vec![mode.to_string()],
    _ => vec![],
  };
  // (with the matchers that are inside left out, where those come first)
  let mut outer = text.clone();
  for k in &kids {
    if let Some(at) = outer.find(k.as_str()) {
      outer.replace_range(at..at + k.len(), "");
    }
  }
  if let Some(p) = in_order(&outer, &own) {
    return Err((Aspect::Other, format!("a printed {} does not show its {}: {}", n.k.name(), p, text)));
  }
  let (name, custom) = ar.matcher_name(id);
  let own_name = matches!(
    n.k,
    K::Equals(..)
      | K::Matches(..)
      | K::Sequence(..)
      | K::Program
      | K::Loop(..)
      | K::Switch
      | K::Proxy
      | K::Pin(..)
      | K::Store(..)
      | K::StoreStr(..)
      | K::Ref(..)
      | K::RefDirect
  );
  if own_name && custom && !outer.contains(&format!("{:?}", name)) {
    return Err((Aspect::Other, format!("a printed {} does not show its name {:?}: {}", n.k.name(), name, text)));
  }
  if let K::Program | K::Loop(..) | K::Switch = n.k {
    if !text.starts_with(n.k.name()) {
      return Err((Aspect::Other, format!("a {} prints as {}", n.k.name(), text)));
    }
  }
  Ok(())
}

/// Random matchers, what they return, and random trees, printed
pub fn print_case(rng: &mut Rng, p: &Profile, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  if rng.pct(40) {
    return print_tree(rng, cov);
  }
  let ar = gen_expr(rng, p);
  let built = build(&ar, None);
  let mut ids: Vec<usize> = built.refs.keys().cloned().collect();
  ids.sort();
  let text = ar.print();
  cov.hashes.insert(str_hash(&text));
  let all = |cov: &mut Cov| {
    for id in &ids {
      if let Err((a, d)) = check_matcher(&ar, *id, &built.refs[id].0, cov) {
        return found(a, format!("matcher: {}", text), d);
      }
      cov.count(&format!("printed:{}", ar.nodes[*id].k.name()));
    }
    None
  };
  if let Some(f) = all(cov) {
    return Some(f);
  }
  let root = built.root.borrow().to_string();
  let names = ar.names();
  let mut model = Model::new(&ar, Limits::NORMAL, false);
  for _ in 0..3 {
    let input = gen_input(rng, &ar, p);
    let exp = match model.run(&input.src, &input.file, input.start, input.end, true) {
      Ok(r) => r,
      Err(_) => break,
    };
    cov.inputs += 1;
    let ctx = context_for(&input.src, &input.file, input.start, input.end, input.whole);
    built.prepare(&ctx);
    let result = match parse(&built.root, &ctx) {
      Ok(r) => r,
      Err(_) => break,
    };
    let text = format!("matcher: {}\nsource {:?} from {} to {}", text, input.src, input.start, input.end);
    cov.hashes.insert(str_hash(&text));
    match &result {
      Ok(t) => {
        // (trees in which a token has two places are no trees)
        if snap_r(&exp, Limits::NORMAL.snap * 4).class() == "Token" && plain_tree(t) {
          cov.count("printed:result");
          if let Err((a, d)) = check_token(t, cov) {
            return found(a, text, d);
          }
        }
      }
      Err(e) => {
        cov.count("printed:failure");
        match guarded(|| format!("{:?}", e)) {
          Ok(s) => {
            if let MatcherFailure::Error(e) = e {
              if !s.contains(&format!("{:?}", e.message)) {
                return found(Aspect::Other, text, format!("a printed error does not show its message: {}", s));
              }
            }
          }
          Err(p) => return found(Aspect::Panic, text, format!("printing {}: panic: {}", e_kind(e), p)),
        }
      }
    }
    // What variables hold can be printed as well
    for name in &names {
      let v = ctx.borrow().get_scope_variable(name);
      if let Err(p) = guarded(|| format!("{:?}", v).len()) {
        return found(Aspect::Panic, text, format!("printing variable {:?}: panic: {}", name, p));
      }
    }
    if let Ok(t) = &result {
      unlink(t);
    }
  }
  {
    // (an explicit scope shows what is bound in it)
    let bound = !ar.scopes.is_empty();
    match guarded(|| built.root.borrow().to_string()) {
      Ok(s) if s == root || bound => {}
      other => {
        return found(
          Aspect::Other,
          format!("matcher: {}", text),
          format!("after parsing it prints as {:?} instead of {:?}", other, root),
        )
      }
    }
  }
  cov.sample(|| format!("{} prints {} characters", text, root.len()));
  None
}

fn e_kind(e: &MatcherFailure) -> &'static str {
  match e {
    MatcherFailure::Fail => "a failure",
    MatcherFailure::Error(_) => "an error",
  }
}

/// Every token is a child of its parent only
fn plain_tree(t: &TokenRef) -> bool {
  fn walk(t: &TokenRef, depth: usize, seen: &mut std::collections::HashSet<usize>) -> bool {
    if depth > 300 || !seen.insert(std::rc::Rc::as_ptr(t) as *const u8 as usize) {
      return false;
    }
    let b = t.borrow();
    b.get_children().iter().all(|k| walk(k, depth + 1, seen))
  }
  walk(t, 0, &mut std::collections::HashSet::new())
}

fn print_tree(rng: &mut Rng, cov: &mut Cov) -> Option<Found> {
  let src: String = (0..rng.range(1, 12))
    .map(|_| *rng.pick(&["some", " ", "é", "\n", "日本", "\r\n", "\t", "(", "],", "\"", "\\", "😀", "{}", "Value(x)"]))
    .collect();
  let parser = Parser::new(&src);
  let spots: Vec<usize> = (0..=src.len()).filter(|i| src.is_char_boundary(*i)).collect();
  let names = ["A", "B", "Error", "é", "", "A B", "None", "a\nb", "Children [", "日本"];
  let keys = ["k", "é", "x", "", "__message", "a b"];
  let (n, chain) = match rng.below(30) {
    0 => (rng.range(40, 300), 20),
    1 => (rng.range(20, 90), 100),
    2 => (rng.range(40, 300), 0),
    _ => (rng.range(1, 20), 40),
  };
  let mut tokens: Vec<TokenRef> = Vec::new();
  for i in 0..n {
    let mut range = || {
      let a = *rng.pick(&spots);
      let b = *rng.pick(&spots);
      SourceRange::new(a.min(b), a.max(b))
    };
    let (c, m) = (range(), range());
    let name = rng.pick(&names).to_string();
    let t = match rng.below(4) {
      0 => PinToken::new(&parser, name, c),
      1 => PinToken::new_with_matched_range(&parser, name, c, m),
      2 => StandardToken::new(&parser, name, c),
      _ => StandardToken::new_with_matched_range(&parser, name, c, m),
    };
    for _ in 0..rng.weighted(&[5, 3, 1, 1]) {
      t.borrow_mut().set_attribute(*rng.pick(&keys), *rng.pick(&["", "1", "é", "a \"b\"", "\n", "}"]));
    }
    if rng.pct(20) {
      t.borrow_mut().set_value(*rng.pick(&["v", "é日", " ", "two\nlines", "Value(v)"]));
    }
    if rng.pct(10) {
      t.borrow_mut().set_matched_value(*rng.pick(&["raw", "é日", "two\nlines"]));
    }
    if rng.pct(10) {
      t.borrow_mut().enable_flags(IS_ERROR);
    }
    if i > 0 {
      let p = if rng.pct(chain) { i - 1 } else { rng.below(i) };
      let p = if chain == 0 { 0 } else { p };
      t.borrow_mut().set_parent(Some(tokens[p].clone()));
      tokens[p].borrow_mut().add_child(t.clone());
    }
    tokens.push(t);
  }
  cov.inputs += 1;
  cov.count("printed:tree");
  // The whole, and a part of it
  let mut bad = None;
  for t in [tokens[0].clone(), rng.pick(&tokens).clone()] {
    let mut want = String::new();
    token_text(&t, &mut want, &mut 0);
    cov.hashes.insert(str_hash(&want));
    if let Err((a, d)) = check_token(&t, cov) {
      bad = found(a, format!("source {:?}\ntree {}", src, show_token(&tokens[0], 0)), d);
      break;
    }
  }
  if bad.is_none() {
    // Ranges and errors
    let r = SourceRange::new(*rng.pick(&spots), rng.below(5000));
    let e = match rng.below(2) {
      0 => ParseError::new("no é\n"),
      _ => ParseError::new_with_range("no é\n", r),
    };
    match guarded(|| (format!("{}", r), format!("{:?}", e), format!("{:?}", r))) {
      Ok((shown, error, debug)) => {
        let both = |s: &str| in_order(s, &[r.start.to_string(), r.end.to_string()]).is_none();
        let place = e.range.is_none() || both(&error);
        if shown != format!("[{}-{}]", r.start, r.end) || !both(&debug) || !error.contains("no é\\n") || !place {
          bad = found(
            Aspect::Other,
            format!("range from {} to {}", r.start, r.end),
            format!("prints as {} and {}, the error as {}", shown, debug, error),
          );
        }
      }
      Err(p) => bad = found(Aspect::Panic, format!("range from {} to {}", r.start, r.end), format!("panic: {}", p)),
    }
  }
  for t in &tokens {
    t.borrow_mut().set_parent(None);
    t.borrow_mut().set_children(Vec::new());
  }
  bad
}
