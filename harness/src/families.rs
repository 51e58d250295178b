//! The other kinds of cases: large inputs, direct use of parts of the library,
//! and comparisons of two runs of the real code.

use crate::case::*;
use crate::expr::*;
use crate::gen::*;
use crate::linecol::*;
use crate::model::*;
use crate::probe::*;
use crate::rng::Rng;
use crate::rx::{gen_rx, Flags, Rx, RxProfile};
use adextopa_core::matcher::{MatcherFailure, MatcherRef};
use adextopa_core::matchers::pin::PinToken;
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::Parser;
use adextopa_core::parser_context::{ParserContext, ParserContextRef};
use adextopa_core::scope::{Scope, VariableType};
use adextopa_core::scope_context::ScopeContext;
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef, IS_ERROR, IS_FAILURE, IS_WARNING};
use adextopa_core::token_visitor::TokenVisitor;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub fn found(aspect: Aspect, text: String, detail: String) -> Option<Found> {
  Some(Found {
    text: format!("{}\ndifference: {}", text, detail),
    div: other_div(aspect, detail),
  })
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|p| panic_text(p).unwrap_or("diverged".to_string()))
}

// ---------------------------------------------------------------- large inputs

/// Thousands of iterations, deep nesting, many alternatives, long values
pub fn scale_case(rng: &mut Rng, cov: &mut Cov, thorough: bool) -> Option<Found> {
  let mut ar = Arena::default();
  let mut text = String::new();
  let top = if thorough { 12000 } else { 5000 };
  let n = match rng.below(4) {
    0 => rng.range(50, 300),
    1 => rng.range(300, 2000),
    _ => rng.range(1000, top),
  };
  let eq = |ar: &mut Arena, s: &str| ar.add(K::Equals(Src::Str(s.to_string())), vec![]);
  let multibyte = rng.pct(40);
  let item = if multibyte { "日é" } else { "ab" };
  let what = rng.below(16);
  // A few are much longer still
  let n = match what {
    0 | 2 | 5 | 14 if rng.pct(25) => rng.range(9_000, if thorough { 300_000 } else { 70_000 }),
    _ => n,
  };
  match what {
    0 => {
      // Many iterations, with bounds around the number of them
      let e = eq(&mut ar, item);
      let (lo, hi) = *rng.pick(&[(0, UNBOUNDED), (1, UNBOUNDED), (n, n), (n - 3, n + 3), (n + 1, UNBOUNDED), (0, n - 2), (2, n / 2)]);
      let l = ar.add_named(K::Loop(lo, hi), vec![e], None, rng.below(12) as u8);
      let z = eq(&mut ar, "z");
      let z = ar.add(K::Optional, vec![z]);
      ar.root = ar.add(K::Program, vec![l, z]);
      for _ in 0..n {
        text.push_str(item);
      }
      text.push_str(*rng.pick(&["", "z", "a", "日"]));
    }
    1 => {
      // Rows of values
      let digits = Rx::Rep(Box::new(Rx::Set(false, vec![('0', '9')])), 1, None, true);
      let m = ar.add(K::Matches(digits, Flags::default()), vec![]);
      let s = Src::Str;
      let q = ar.add(
        K::Sequence(s("'".to_string()), s("'".to_string()), s("\\".to_string())),
        vec![],
      );
      let v = ar.add(K::Switch, vec![m, q]);
      let c = eq(&mut ar, ",");
      let c = ar.add(K::Discard, vec![c]);
      let c = ar.add(K::Optional, vec![c]);
      let row = ar.add(K::Program, vec![v, c]);
      let row = if rng.pct(50) { ar.add(K::Proxy, vec![row]) } else { row };
      let cells = ar.add(K::Loop(0, UNBOUNDED), vec![row]);
      let nl = eq(&mut ar, "\n");
      let nl = ar.add(K::Discard, vec![nl]);
      ar.root = ar.add(K::Loop(0, UNBOUNDED), vec![cells, nl]);
      let rows = n / 10 + 1;
      for _ in 0..rows {
        for _ in 0..rng.range(1, 6) {
          if rng.pct(50) {
            text.push_str(&rng.below(10000).to_string());
          } else {
            text.push_str(*rng.pick(&["'a'", "'\\''", "'é,\n'", "'日\\\\'", "''"]));
          }
          text.push(',');
        }
        text.push('\n');
      }
    }
    2 => {
      // A break ends the loop it names, after many iterations
      let e = eq(&mut ar, item);
      let stop = eq(&mut ar, ";");
      let deep = rng.range(0, 6);
      let (inner_name, outer_name) =
        *rng.pick(&[("Inner", "Outer"), ("Row", "Rows"), ("Rows", "Row"), ("row", "Row"), ("Loop", "L")]);
      let target = *rng.pick(&[outer_name, outer_name, inner_name, "", "Other"]);
      let mut b = ar.add(K::Break(target.to_string()), vec![]);
      b = ar.add(K::Program, vec![stop, b]);
      for _ in 0..deep {
        let k = match rng.below(5) {
          0 => K::Switch,
          1 => K::Program,
          2 => K::Optional,
          3 => K::SetScope,
          _ => K::RefDirect,
        };
        b = ar.add(k, vec![b]);
      }
      let sw = ar.add(K::Switch, vec![b, e]);
      let inner = ar.add_named(K::Loop(0, UNBOUNDED), vec![sw], Some(inner_name.to_string()), 1);
      let bar = eq(&mut ar, "|");
      let outer = ar.add_named(
        K::Loop(0, UNBOUNDED),
        vec![inner, bar],
        Some(outer_name.to_string()),
        2,
      );
      let rest = eq(&mut ar, item);
      let rest = ar.add(K::Optional, vec![rest]);
      ar.root = ar.add(K::Program, vec![outer, rest]);
      for _ in 0..rng.range(1, 5) {
        for _ in 0..n / 5 {
          text.push_str(item);
        }
        text.push_str(*rng.pick(&[";|", "|", ";"]));
      }
    }
    3 => {
      // Deep recursion through a reference
      let depth = rng.range(5, 90);
      let o = eq(&mut ar, "(");
      let c = eq(&mut ar, ")");
      let r = ar.add(K::Ref(Src::Str("R1".to_string())), vec![]);
      let leaf = eq(&mut ar, item);
      let sw = ar.add(K::Switch, vec![r, leaf]);
      let body = if rng.pct(50) {
        ar.add(K::Loop(1, UNBOUNDED), vec![sw])
      } else {
        sw
      };
      let body = ar.add(K::Optional, vec![body]);
      let p = ar.add(K::Program, vec![o, body, c]);
      ar.registered.push(("R1".to_string(), p));
      ar.root = ar.add(K::Ref(Src::Str("R1".to_string())), vec![]);
      for _ in 0..depth {
        text.push('(');
      }
      text.push_str(item);
      let close = if rng.pct(80) { depth } else { depth - 1 };
      for _ in 0..close {
        text.push(')');
      }
    }
    4 => {
      // Many alternatives
      let k = rng.range(50, 400);
      let mut kids = Vec::new();
      for i in 0..k {
        kids.push(eq(&mut ar, &format!("k{};", i)));
      }
      let sw = ar.add(K::Switch, kids);
      ar.root = ar.add(K::Loop(0, UNBOUNDED), vec![sw]);
      for _ in 0..rng.range(20, 150) {
        text.push_str(&format!("k{};", rng.below(k + 1)));
      }
    }
    5 => {
      // A long value with escapes
      let s = |x: &str| Src::Str(x.to_string());
      let (a, b, e) = *rng.pick(&[
        ("'", "'", "\\"),
        ("<!--", "-->", ""),
        ("«", "»", "é"),
        ("[[", "]]", "^^"),
      ]);
      let q = ar.add(K::Sequence(s(a), s(b), s(e)), vec![]);
      let z = eq(&mut ar, "z");
      let z = ar.add(K::Optional, vec![z]);
      ar.root = ar.add(K::Program, vec![q, z]);
      text.push_str(a);
      for _ in 0..n {
        match rng.below(6) {
          0 => {
            text.push_str(e);
            text.push_str(if e.is_empty() { "x" } else { b });
          }
          1 => text.push_str(item),
          2 => text.push_str("-"),
          3 => text.push('\n'),
          _ => text.push('日'),
        }
      }
      if rng.pct(85) {
        text.push_str(b);
      }
      text.push_str(*rng.pick(&["", "z", "é"]));
    }
    6 => {
      // A long Program
      let mut kids = Vec::new();
      for i in 0..rng.range(50, 400) {
        let s = format!("{}{}", item, i % 7);
        let e = eq(&mut ar, &s);
        let e = match rng.below(5) {
          0 => ar.add(K::Discard, vec![e]),
          1 => ar.add(K::Optional, vec![e]),
          2 => ar.add(K::Store("v".to_string()), vec![e]),
          _ => e,
        };
        kids.push(e);
        text.push_str(&s);
      }
      ar.root = ar.add(K::Program, kids);
    }
    7 => {
      // Deep wrappers
      let mut id = eq(&mut ar, item);
      for _ in 0..rng.range(20, 180) {
        let k = match rng.below(9) {
          0 => K::Program,
          1 => K::Switch,
          2 => K::Optional,
          3 => K::SetScope,
          4 => K::RefDirect,
          5 => K::Loop(1, 1),
          6 => K::Catch(CatchMode::Pass),
          7 => K::Pin(Src::Str(String::new())),
          _ => K::Map(MapMode::Same),
        };
        id = ar.add(k, vec![id]);
      }
      // A Pin that is last would leave nothing to be matched
      let e = eq(&mut ar, item);
      ar.root = ar.add(K::Program, vec![id, e]);
      text.push_str(item);
      text.push_str(item);
    }
    8 => {
      // Loops in loops that may match nothing
      let e = eq(&mut ar, "a");
      let f = eq(&mut ar, "b");
      let l1 = ar.add(K::Loop(0, UNBOUNDED), vec![e]);
      let l2 = ar.add(K::Loop(0, UNBOUNDED), vec![f]);
      let o = ar.add(K::Optional, vec![l2]);
      let d = if rng.pct(50) { ar.add(K::Discard, vec![l1]) } else { l1 };
      ar.root = ar.add(K::Loop(0, UNBOUNDED), vec![d, o]);
      for _ in 0..n / 4 {
        text.push_str(*rng.pick(&["a", "b", "aa", "bb", "ab"]));
      }
    }
    9 => {
      // Many recoverable errors, at several depths
      let bad = eq(&mut ar, "!");
      let assert = ar.add(K::AssertIf("bad".to_string()), vec![bad]);
      let e = eq(&mut ar, item);
      let p = ar.add(K::Program, vec![e]);
      let sw = ar.add(K::Switch, vec![assert, p]);
      let inner = ar.add(K::Loop(1, UNBOUNDED), vec![sw]);
      let inner = if rng.pct(50) { ar.add(K::Discard, vec![inner]) } else { inner };
      let nl = eq(&mut ar, "\n");
      ar.root = ar.add(K::Loop(0, UNBOUNDED), vec![inner, nl]);
      for _ in 0..n / 60 + 2 {
        for _ in 0..rng.range(1, 12) {
          text.push_str(if rng.pct(30) { "!" } else { item });
        }
        text.push('\n');
      }
    }
    10 => {
      // A lookahead before each of many
      let end = eq(&mut ar, "]]");
      let not = ar.add(K::Not, vec![end]);
      let dot = ar.add(K::Matches(Rx::Dot, Flags { s: true, ..Flags::default() }), vec![]);
      let l = ar.add(K::Loop(0, UNBOUNDED), vec![not, dot]);
      let end = eq(&mut ar, "]]");
      ar.root = ar.add(K::Program, vec![l, end]);
      for _ in 0..n / 2 {
        text.push_str(*rng.pick(&["a", "日", "]", "\n", "é"]));
        if text.ends_with("]]") {
          text.push('x');
        }
      }
      text.push_str("]]");
    }
    11 | 12 => {
      // One value that is very long
      let size = *rng.pick(&[4090, 32760, 65530, 65536, 70000, 131072, 200000]) + rng.below(12);
      let set = vec![('a', 'c'), ('日', '日'), ('é', 'é')];
      let mut long = String::new();
      while long.len() < size {
        long.push_str(*rng.pick(&["abcabcab", "a", "日", "é", "cab", "ccccccccccccccccccccccc"]));
      }
      let s = |x: &str| Src::Str(x.to_string());
      let how = rng.below(5);
      let greedy = how != 1;
      let rep = Rx::Rep(Box::new(Rx::Set(false, set)), 1, None, greedy);
      let e = match how {
        0 => ar.add(K::Matches(rep, Flags::default()), vec![]),
        1 => ar.add(K::Matches(Rx::Cat(vec![rep, Rx::Lit('z')]), Flags::default()), vec![]),
        2 => eq(&mut ar, &long),
        3 => ar.add(K::Sequence(s("a"), s("z"), s("\\")), vec![]),
        _ => {
          let e = eq(&mut ar, "ab");
          let m = ar.add(K::Matches(rep, Flags::default()), vec![]);
          ar.add(K::Program, vec![e, m])
        }
      };
      let z = eq(&mut ar, "z");
      let z = ar.add(K::Optional, vec![z]);
      let y = eq(&mut ar, "y");
      let y = ar.add(K::Optional, vec![y]);
      ar.root = ar.add(K::Program, vec![e, z, y]);
      if how == 3 || how == 4 {
        text.push_str("ab");
      }
      text.push_str(&long);
      text.push_str(*rng.pick(&["z", "zy", "y", "", "日", "zzz"]));
    }
    14 | 15 => {
      // Pins to places that are far away
      let mark = *rng.pick(&["<m>", "日", "z"]);
      let e = eq(&mut ar, item);
      let l = ar.add(K::Loop(0, UNBOUNDED), vec![e]);
      let m = eq(&mut ar, mark);
      let s = ar.add(K::Store("v".to_string()), vec![m]);
      let after = eq(&mut ar, "b");
      let again = eq(&mut ar, mark);
      let far = n * item.len();
      let at = match rng.below(8) {
        0 | 1 => Src::Fetch("v.range".to_string()),
        2 => Src::Fetch("v.start".to_string()),
        3 => Src::Str(format!("{}", far)),
        4 => Src::Str(format!("{}..{}", far, far + mark.len())),
        5 => Src::Str(format!("-{}", far + mark.len())),
        6 => Src::Str(format!("-{}..+{}", mark.len(), mark.len())),
        _ => Src::Str("0".to_string()),
      };
      let back = rng.pct(50);
      let pin = ar.add(K::Pin(at), vec![again]);
      let pin = if rng.pct(50) { ar.add(K::Optional, vec![pin]) } else { pin };
      let first = if back { l } else { pin };
      let mut kids = vec![first];
      if back {
        kids.extend([s, pin, after]);
      } else {
        kids.extend([l, s, after]);
      }
      ar.root = ar.add(K::Program, kids);
      for _ in 0..n {
        text.push_str(item);
      }
      text.push_str(mark);
      text.push_str(*rng.pick(&["b", "b", "b日", "", mark]));
    }
    _ => {
      // Many variables, and back references to them
      let digits = Rx::Rep(Box::new(Rx::Set(false, vec![('0', '9')])), 1, Some(4), true);
      let m = ar.add(K::Matches(digits, Flags::default()), vec![]);
      let st = ar.add(K::Store("v".to_string()), vec![m]);
      let sep = eq(&mut ar, "=");
      let sep = ar.add(K::Discard, vec![sep]);
      let back = ar.add(K::Equals(Src::Fetch("v.captured_value".to_string())), vec![]);
      let semi = eq(&mut ar, ";");
      let p = ar.add(K::Program, vec![st, sep, back, semi]);
      let p = if rng.pct(50) { ar.add(K::SetScope, vec![p]) } else { p };
      ar.root = ar.add(K::Loop(0, UNBOUNDED), vec![p]);
      for _ in 0..n / 8 + 2 {
        let k = rng.below(9999);
        text.push_str(&format!("{}={};", k, k));
      }
    }
  }
  cov.count(&format!("large:{}", what));
  let pre = rng.pick(&["", "", "é\n"]).to_string();
  let input = Input {
    start: pre.len(),
    end: pre.len() + text.len(),
    whole: pre.is_empty(),
    src: format!("{}{}", pre, text),
    file: "large".to_string(),
  };
  let r = run_expr(
    &ar,
    &[input],
    &RunOpts {
      limits: Limits::SCALE,
      deep_text: false,
      again: rng.pct(15),
    },
    cov,
  );
  r.map(|mut f| {
    if f.text.len() > 9000 {
      let mut at = 9000;
      while !f.text.is_char_boundary(at) {
        at -= 1;
      }
      f.text.truncate(at);
      f.text.push_str(" ...");
      f.text.push_str(&format!("\ndifference: {}", f.div.detail));
    }
    f
  })
}

// --------------------------------------------------------------- lines, columns

/// A parser of a file with this text, and of files that can not be read
fn from_file(rng: &mut Rng, src: &str) -> Result<(adextopa_core::parser::ParserRef, String), String> {
  let dir = crate::scripts::scratch();
  let path = dir.0.join(*rng.pick(&["a.txt", "é.txt", "a b", ".x"]));
  std::fs::write(&path, src).map_err(|e| e.to_string())?;
  let name = path.to_str().unwrap_or("").to_string();
  let parser = match guarded(|| Parser::new_from_file(&name)) {
    Ok(Ok(p)) => p,
    other => return Err(format!("the file can not be read: {:?}", other.map(|r| r.is_ok()))),
  };
  if parser.borrow().get_source() != src {
    return Err("the parser has another source than the file".to_string());
  }
  let bad = dir.0.join("bad");
  let mut bytes = src.as_bytes().to_vec();
  bytes.insert(rng.below(bytes.len() + 1), 0xff);
  std::fs::write(&bad, bytes).map_err(|e| e.to_string())?;
  for p in [bad, dir.0.join("missing"), dir.0.clone()] {
    match guarded(|| Parser::new_from_file(p.to_str().unwrap_or("")).is_ok()) {
      Ok(false) => {}
      other => return Err(format!("reading a file that has no text: {:?}", other)),
    }
  }
  Ok((parser, name))
}

pub fn linecol_case(rng: &mut Rng, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let mut src = String::new();
  let n = match rng.below(20) {
    // More lines or columns than 16 bits can count
    0 if rng.pct(1) => rng.range(60_000, 150_000),
    0 => rng.range(60, 1500),
    _ => rng.below(60),
  };
  let huge = n >= 60_000;
  if huge {
    cov.count("more than 60 000 parts");
  }
  // Long lines, or many short ones
  let ends = rng.pct(if n > 60 { 50 } else { 90 });
  for _ in 0..n {
    if !ends && rng.pct(98) {
      src.push_str(*rng.pick(&["a", "é", "日", "😀", "\t", " ", "ab cd", "\u{b}", "\u{c}", "\u{0}", "\u{feff}"]));
      continue;
    }
    if huge && rng.pct(80) {
      src.push_str(*rng.pick(&["\n", "\r\n", "\r", "\n\n"]));
      continue;
    }
    src.push_str(*rng.pick(&[
      "a", "b", "é", "日", "😀", "\n", "\r\n", "\r", "\n\n", "\t", " ", "ab cd", "\r\n\r\n", "\n\r",
      "\u{85}", "\u{2028}", "\u{b}", "\u{c}", "\r\r\n", "\u{1e}", "\u{feff}",
    ]));
  }
  let file = rng
    .pick(&["", "x.txt", "dir/é.y", "a b.txt", "/abs/{}/f.x", "C:\\x@[1:2]: y"])
    .to_string();
  let file = if rng.pct(5) { crate::gen::long_name(rng) } else { file };
  let message = *rng.pick(&["Oh no: {}", "", "é\nx", "Error: x", " m "]);
  let mut file = file;
  let parser = if rng.pct(2) {
    match from_file(rng, &src) {
      Ok((p, name)) => {
        cov.count("source read from a file");
        file = name;
        p
      }
      Err(d) => return found(Aspect::Message, format!("source {:?} in a file", src), d),
    }
  } else if file.is_empty() {
    Parser::new(&src)
  } else {
    Parser::new_with_file_name(&src, &file)
  };
  let mut spots: Vec<usize> = (0..=src.len())
    .filter(|i| src.is_char_boundary(*i) && !splits_line_end(&src, *i))
    .collect();
  spots.dedup();
  let ctx = if rng.pct(50) {
    ParserContext::new(&parser, "Test")
  } else {
    let a = *rng.pick(&spots);
    ParserContext::new_with_offset(&parser, SourceRange::new(a, src.len()), "Test")
  };
  for _ in 0..12 {
    let mut a = *rng.pick(&spots);
    let mut b = *rng.pick(&spots);
    if a > b {
      std::mem::swap(&mut a, &mut b);
    }
    if rng.pct(25) {
      b = a;
    }
    let range = SourceRange::new(a, b);
    cov.inputs += 1;
    cov.events += 4;
    let text = if huge {
      format!("source of {} bytes, file {:?} range {}..{}", src.len(), file, a, b)
    } else {
      format!("source {:?} file {:?} range {}..{}", src, file, a, b)
    };
    let r = guarded(|| {
      let c = ctx.borrow();
      (
        c.get_lines(&range),
        c.get_columns(&range),
        c.get_lines_and_columns(&range),
        c.get_error_as_string(message, &range),
      )
    });
    let (lines, cols, both, msg) = match r {
      Ok(r) => r,
      Err(p) => return found(Aspect::Panic, text, format!("panic: {}", p)),
    };
    let (l0, c0) = line_col(&src, a);
    let (l1, c1) = line_col(&src, b);
    cov.hashes.insert(str_hash(&format!("{:?}", (l0, c0, l1, c1, src.len()))));
    cov.count(if l0 == l1 { "one line" } else { "several lines" });
    if lines != (l0, l1) {
      return found(
        Aspect::Message,
        text,
        format!("lines are {:?} instead of {:?}", lines, (l0, l1)),
      );
    }
    let ok = cols == (c0, c1) || (c1 < c0 && cols == (c0, c0));
    if !ok {
      return found(
        Aspect::Message,
        text,
        format!("columns are {:?} instead of {:?}", cols, (c0, c1)),
      );
    }
    if both != (lines, cols) {
      return found(Aspect::Message, text, format!("lines and columns are {:?}", both));
    }
    let exp = messages(&src, &file, (a, b), message);
    if !exp.accepts(&msg) {
      return found(
        Aspect::Message,
        text,
        format!("error text is {:?} instead of {}", msg, exp.show()),
      );
    }
    cov.sample(|| format!("{} -> {:?} {:?}", text, lines, cols));
  }
  None
}

// ------------------------------------------------------------- direct matching

/// What a context says about its text, and about the matchers it knows
pub fn context_case(rng: &mut Rng, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let mut src = String::new();
  let size = if rng.pct(3) { 400 } else { 25 };
  for _ in 0..rng.range(0, size) {
    src.push_str(*rng.pick(&[
      "a", "b", "é", "日", "ab", "\n", "\r\n", "aa", "1", " ", "😀", "A", "É", "\u{0}", "\u{feff}",
      "e\u{301}", "\t", "_", "Z", "\u{2028}",
    ]));
  }
  let spots: Vec<usize> = (0..=src.len()).filter(|i| src.is_char_boundary(*i)).collect();
  let mut a = *rng.pick(&spots);
  let mut b = *rng.pick(&spots);
  if a > b {
    std::mem::swap(&mut a, &mut b);
  }
  let parser = if rng.pct(2) {
    match from_file(rng, &src) {
      Ok((p, _)) => {
        cov.count("source read from a file");
        p
      }
      Err(d) => return found(Aspect::Text, format!("source {:?} in a file", src), d),
    }
  } else {
    Parser::new(&src)
  };
  if parser.borrow().get_source() != &src {
    return found(Aspect::Text, format!("source {:?}", src), "the parser has another source".to_string());
  }
  let ctx = if rng.pct(50) {
    ParserContext::new_with_offset(&parser, SourceRange::new(a, b), "Test")
  } else {
    let c = ParserContext::new(&parser, "Test");
    match rng.below(2) {
      0 => c.borrow_mut().set_offset(SourceRange::new(a, b)),
      _ => {
        c.borrow_mut().set_start(a);
        c.borrow_mut().set_end(b);
      }
    }
    c
  };
  let text = format!("source {:?} window {}..{}", src, a, b);
  let bytes = src.as_bytes();
  for _ in 0..8 {
    cov.inputs += 1;
    cov.events += 1;
    let pattern = if rng.pct(70) {
      let x = *rng.pick(&spots);
      let rest = &src[x..];
      let n = if rng.pct(5) { 40 } else { 3 };
      let chars: Vec<char> = rest.chars().take(rng.range(0, n)).collect();
      let text = chars.into_iter().collect::<String>();
      match rng.below(12) {
        0 => text.to_uppercase(),
        1 => text.to_lowercase(),
        _ => text,
      }
    } else {
      rng.pick(&["a", "é", "ab", "日", "", "aab"]).to_string()
    };
    let at = if rng.pct(50) { a } else { rng.range(0, src.len() + 2) };
    let r = guarded(|| {
      let c = ctx.borrow();
      (
        c.matches_str(&pattern).map(|r| (r.start, r.end)),
        if at >= a {
          c.matches_str_at_offset(&pattern, at).map(|r| (r.start, r.end))
        } else {
          None
        },
      )
    });
    let (m, n) = match r {
      Ok(r) => r,
      Err(p) => {
        return found(
          Aspect::Panic,
          text,
          format!("pattern {:?} at {}: panic: {}", pattern, at, p),
        )
      }
    };
    let hit = |x: usize| {
      if !pattern.is_empty() && x <= b && bytes[x..b].starts_with(pattern.as_bytes()) {
        Some((x, x + pattern.len()))
      } else {
        None
      }
    };
    cov.hashes.insert(str_hash(&format!("{}{}{}", text, pattern, at)));
    cov.count(if hit(a).is_some() { "string found" } else { "string not found" });
    if m != hit(a) {
      return found(
        Aspect::Other,
        text,
        format!("string {:?}: {:?} instead of {:?}", pattern, m, hit(a)),
      );
    }
    if at >= a {
      if n != hit(at) {
        return found(
          Aspect::Other,
          text,
          format!("string {:?} at {}: {:?} instead of {:?}", pattern, at, n, hit(at)),
        );
      }
    }
  }
  for _ in 0..4 {
    cov.inputs += 1;
    cov.events += 1;
    let rx = gen_rx(
      rng,
      &RxProfile {
        multibyte: true,
        newline: true,
      },
      2,
    );
    let flags = Flags {
      s: rng.pct(20),
      u: rng.pct(10),
      ..Flags::default()
    };
    let f = flags.text();
    let print = if f.is_empty() {
      rx.print()
    } else {
      format!("(?{}){}", f, rx.print())
    };
    let exp = match rx.match_prefix(&src[a..b], flags) {
      Ok(e) => e.map(|len| (a, a + len)),
      Err(_) => continue,
    };
    let regex = match regex::Regex::new(&print) {
      Ok(r) => r,
      Err(_) => continue,
    };
    let r = guarded(|| ctx.borrow().matches_regexp(&regex).map(|r| (r.start, r.end)));
    cov.count(if exp.is_some() { "regex found" } else { "regex not found" });
    cov.hashes.insert(str_hash(&format!("{}{}", text, print)));
    match r {
      Ok(r) if r == exp => {}
      other => {
        return found(
          Aspect::Other,
          text,
          format!("regex {}: {:?} instead of {:?}", print, other, exp),
        )
      }
    }
  }
  // Preview of what is next
  let max = if rng.pct(10) { *rng.pick(&[100, 1000, usize::MAX]) } else { rng.range(0, 12) };
  match guarded(|| ctx.borrow().debug_range(max)) {
    Ok(p) => {
      if !src[a..b].starts_with(&p) || p.len() > max {
        return found(Aspect::Other, text, format!("preview of {} is {:?}", max, p));
      }
    }
    Err(p) => return found(Aspect::Panic, text, format!("preview of {}: panic: {}", max, p)),
  }
  // Text of any range
  for _ in 0..6 {
    let mut x = *rng.pick(&spots);
    let mut y = *rng.pick(&spots);
    if x > y {
      std::mem::swap(&mut x, &mut y);
    }
    cov.events += 1;
    let r = SourceRange::new(x, y);
    match guarded(|| r.to_string(&parser)) {
      Ok(t) => {
        if t != src[x..y] {
          return found(
            Aspect::Text,
            text,
            format!("text of {}..{} is {:?} instead of {:?}", x, y, t, &src[x..y]),
          );
        }
      }
      Err(p) => return found(Aspect::Panic, text, format!("text of {}..{}: panic: {}", x, y, p)),
    }
    let mut z = *rng.pick(&spots);
    let mut w = *rng.pick(&spots);
    if z > w {
      std::mem::swap(&mut z, &mut w);
    }
    let t = StandardToken::new_with_matched_range(
      &parser,
      "T".to_string(),
      SourceRange::new(x, y),
      SourceRange::new(z, w),
    );
    let mut b = t.borrow_mut();
    let ok = b.get_captured_value() == &src[x..y]
      && b.get_matched_value() == &src[z..w]
      && b.get_value() == &src[x..y];
    b.set_captured_range(SourceRange::new(z, w));
    b.set_matched_range(SourceRange::new(x, y));
    let ok = ok
      && b.get_captured_value() == &src[z..w]
      && b.get_matched_value() == &src[x..y]
      && b.get_value() == &src[z..w];
    if !ok {
      return found(
        Aspect::Text,
        text,
        format!("text of a token at {}..{} and {}..{}", x, y, z, w),
      );
    }
  }
  cov.sample(|| text.clone());
  None
}

// --------------------------------------------------------------------- variables

/// Random operations on a stack of scopes, next to a simple model of it
pub fn scope_case(rng: &mut Rng, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let names = ["a", "b", "c", "A", "é", "", "a b"];
  let sc = ScopeContext::new();
  let mut model: Vec<HashMap<String, (String, bool)>> = Vec::new();
  let mut log = String::new();
  let show = |v: &Option<VariableType>| match v {
    Some(VariableType::String(s)) => Some(s.clone()),
    Some(_) => Some("?".to_string()),
    None => None,
  };
  let top = if rng.pct(5) { 200 } else { 40 };
  let n = rng.range(5, top);
  for i in 0..n {
    let name = *rng.pick(&names);
    let value = format!("v{}", i);
    cov.events += 1;
    let (what, exp, act) = match rng.below(7) {
      0 => {
        sc.borrow_mut().push(Scope::new());
        model.push(HashMap::new());
        log.push_str("push; ");
        ("push", None, None)
      }
      1 => {
        let act = sc.borrow_mut().pop().map(|_| "scope".to_string());
        let exp = model.pop().map(|_| "scope".to_string());
        log.push_str("pop; ");
        ("pop", exp, act)
      }
      2 | 3 => {
        let act = sc.borrow_mut().set(name, VariableType::String(value.clone()));
        if model.is_empty() {
          model.push(HashMap::new());
        }
        let exp = model
          .last_mut()
          .unwrap()
          .insert(name.to_string(), (value.clone(), false))
          .map(|(v, _)| v);
        log.push_str(&format!("set {} {}; ", name, value));
        ("set", exp, show(&act))
      }
      4 => {
        sc.borrow_mut()
          .set_implicit(name, VariableType::String(value.clone()));
        if model.is_empty() {
          model.push(HashMap::new());
        }
        let top = model.last_mut().unwrap();
        if !matches!(top.get(name), Some((_, false))) {
          top.insert(name.to_string(), (value.clone(), true));
        }
        log.push_str(&format!("set_implicit {} {}; ", name, value));
        ("set_implicit", None, None)
      }
      _ => ("get", None, None),
    };
    if exp != act {
      return found(
        Aspect::Scope,
        log,
        format!("{} returned {:?} instead of {:?}", what, act, exp),
      );
    }
    for name in names {
      let act = show(&sc.borrow().get(name));
      let exp = model
        .iter()
        .rev()
        .find_map(|s| s.get(name))
        .map(|(v, _)| v.clone());
      if act != exp {
        return found(
          Aspect::Scope,
          log,
          format!("{:?} is {:?} instead of {:?}", name, act, exp),
        );
      }
    }
    cov.hashes.insert(str_hash(&format!("{:?}", model.iter().map(|m| {
      let mut v: Vec<_> = m.keys().cloned().collect();
      v.sort();
      v
    }).collect::<Vec<_>>())));
  }
  // What a context registers can be found by its name
  let parser = Parser::new("a");
  let ctx = ParserContext::new(&parser, "Test");
  let mut last: HashMap<String, MatcherRef> = HashMap::new();
  for _ in 0..rng.range(1, 6) {
    let name = *rng.pick(&names);
    let m = adextopa_core::Equals!("a");
    m.borrow_mut().set_name(name);
    match rng.below(3) {
      0 => ctx.borrow().register_matcher(m.clone()),
      1 => ctx.borrow().register_matchers(vec![m.clone()]),
      _ => ctx.borrow().register_matcher_with_name(name, m.clone()),
    }
    last.insert(name.to_string(), m);
  }
  for name in names {
    let act = ctx.borrow().get_registered_matcher(name);
    let ok = match (last.get(name), &act) {
      (None, None) => true,
      (Some(a), Some(b)) => Rc::ptr_eq(a, b),
      _ => false,
    };
    if !ok {
      return found(
        Aspect::Scope,
        log,
        format!("matcher registered as {:?} is another one", name),
      );
    }
  }
  cov.inputs += 1;
  cov.sample(|| log.clone());
  None
}

// --------------------------------------------------------------- visiting tokens

struct TNode {
  name: String,
  kids: Vec<usize>,
}

pub fn visitor_case(rng: &mut Rng, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let all = ["A", "B", "C", "Error", "é", "AB", "a", "", "A B", "*", "Program", "BA"];
  let mut names: Vec<&'static str> = Vec::new();
  for _ in 0..rng.range(2, 7) {
    names.push(*rng.pick(&all));
  }
  let parser = Parser::new("some text é 日本");
  let spots: Vec<usize> = (0..=parser.borrow().get_source().len())
    .filter(|i| parser.borrow().get_source().is_char_boundary(*i))
    .collect();
  // A random tree
  let (n, chain) = match rng.below(30) {
    0 => (rng.range(40, 300), 30),
    1 => (rng.range(40, 150), 95),
    2 => (rng.range(40, 300), 2),
    _ => (rng.range(1, 40), 30),
  };
  let mut nodes: Vec<TNode> = Vec::new();
  let mut tokens: Vec<TokenRef> = Vec::new();
  for i in 0..n {
    let name = rng.pick(&names).to_string();
    let a = *rng.pick(&spots);
    let b = *rng.pick(&spots);
    let range = SourceRange::new(a.min(b), a.max(b));
    let t = if rng.pct(25) {
      PinToken::new(&parser, name.clone(), range)
    } else {
      StandardToken::new(&parser, name.clone(), range)
    };
    nodes.push(TNode {
      name,
      kids: Vec::new(),
    });
    if i > 0 {
      let p = if rng.pct(chain) { i - 1 } else { rng.below(i) };
      nodes[p].kids.push(i);
      t.borrow_mut().set_parent(Some(tokens[p].clone()));
      tokens[p].borrow_mut().add_child(t.clone());
    }
    tokens.push(t);
  }
  fn order(nodes: &[TNode], at: usize, out: &mut Vec<usize>) {
    out.push(at);
    for k in &nodes[at].kids {
      order(nodes, *k, out);
    }
  }
  let mut pre = Vec::new();
  order(&nodes, 0, &mut pre);
  // Hooks; the same name may be given twice: the first one counts
  let top = if rng.pct(5) { 12 } else { 4 };
  let k = rng.range(0, top);
  let mut hooks: Vec<&'static str> = Vec::new();
  for _ in 0..k {
    hooks.push(if rng.pct(30) { "*" } else { *rng.pick(&names) });
  }
  let stop_at = if rng.pct(30) { Some(rng.below(n + 1)) } else { None };
  let twice = stop_at.is_none() && rng.pct(20);
  let edit = if rng.pct(30) { rng.range(1, 5) } else { 0 };
  let edit = if twice && edit == 3 { 1 } else { edit };
  let complaint = match rng.below(6) {
    0 => ParseError::new(""),
    1 => ParseError::new_with_range("", SourceRange::new(0, 0)),
    2 => ParseError::new_with_range("no good: é 日本", SourceRange::new(3, 7)),
    3 => ParseError::new("  "),
    4 => ParseError::new(&"all is lost\n".repeat(rng.range(1, 200))),
    _ => ParseError::new(&format!("stop at {}", n)),
  };
  let mut exp: Vec<(usize, usize)> = Vec::new();
  let mut exp_err = false;
  for t in &pre {
    let hook = hooks
      .iter()
      .position(|h| *h == nodes[*t].name)
      .or_else(|| hooks.iter().position(|h| *h == "*"));
    if let Some(h) = hook {
      exp.push((h, *t));
      if stop_at == Some(exp.len()) {
        exp_err = true;
        break;
      }
    }
  }
  let seen: RefCell<Vec<(usize, usize)>> = RefCell::new(Vec::new());
  let names_of: Vec<&String> = nodes.iter().map(|n| &n.name).collect();
  let kids_of: Vec<&Vec<usize>> = nodes.iter().map(|n| &n.kids).collect();
  let text = format!("names {:?} children {:?} hooks {:?} error at {:?} {:?}", names_of, kids_of, hooks, stop_at, complaint);
  let result = guarded(|| {
    let mut v = TokenVisitor::new();
    for (h, name) in hooks.iter().enumerate() {
      let seen = &seen;
      let tokens = &tokens;
      let complaint = &complaint;
      v.add_visitor(
        name,
        Box::new(move |token: TokenRef| {
          let i = tokens.iter().position(|t| Rc::ptr_eq(t, &token)).unwrap_or(9999);
          // A hook may change the token it is given
          match edit {
            1 => {
              token.borrow_mut().set_attribute("seen", &i.to_string());
            }
            2 => token.borrow_mut().enable_flags(IS_WARNING),
            3 => token.borrow_mut().set_name("renamed"),
            4 => {
              token.borrow_mut().set_value("new value");
              token.borrow_mut().set_attribute("seen", "again");
            }
            5 => {
              // ... and what is around it
              if let Some(p) = token.borrow().get_parent() {
                p.borrow_mut().set_attribute("child", &i.to_string());
              }
              for c in token.borrow().get_children() {
                c.borrow_mut().set_attribute("parent", &i.to_string());
              }
            }
            _ => {}
          }
          // A hook may look at the token, its parent and its children
          let _ = token.borrow().get_value().len();
          if let Some(p) = token.borrow().get_parent() {
            let _ = p.borrow().get_name().len();
          }
          let mut s = seen.borrow_mut();
          s.push((h, i));
          if stop_at == Some(s.len()) {
            return Err(complaint.clone());
          }
          Ok(())
        }),
      );
    }
    let r = v.visit(tokens[0].clone());
    if twice {
      // Each visit starts over
      let _ = v.visit(tokens[0].clone());
    }
    r
  });
  if twice {
    let n = exp.len();
    exp.extend_from_within(0..n);
  }
  cov.inputs += 1;
  cov.events += exp.len() as u64;
  cov.hashes.insert(str_hash(&text));
  cov.count(if exp_err { "visit stopped by an error" } else { "complete visit" });
  let result = match result {
    Ok(r) => r,
    Err(p) => return found(Aspect::Panic, text, format!("panic: {}", p)),
  };
  if *seen.borrow() != exp {
    return found(
      Aspect::Other,
      text,
      format!("(hook, token) seen: {:?} instead of {:?}", seen.borrow(), exp),
    );
  }
  let ok = match (&result, exp_err) {
    (Ok(_), false) => true,
    (Err(e), true) => *e == complaint,
    _ => false,
  };
  if !ok {
    return found(Aspect::Other, text, format!("visit returned {:?}", result));
  }
  if edit > 0 {
    cov.count("visit that changes tokens");
    let mut called = vec![false; n];
    for (_, t) in &exp {
      called[*t] = true;
    }
    for (i, t) in tokens.iter().enumerate() {
      let mut t = t.borrow_mut();
      let at = |k: &str| t.get_attribute(k).cloned();
      let ok = match edit {
        1 => at("seen") == if called[i] { Some(i.to_string()) } else { None },
        2 => t.flags_enabled(IS_WARNING) == called[i],
        3 => (t.get_name() == "renamed") == called[i],
        4 => (at("seen").is_some() && t.get_value() == "new value") == called[i],
        _ => {
          let last = exp.iter().rev().map(|(_, k)| *k).find(|k| nodes[*k].kids.contains(&i));
          let up = nodes.iter().position(|m| m.kids.contains(&i));
          at("parent") == up.filter(|u| called[*u]).map(|u| u.to_string())
            && at("child") == exp.iter().rev().map(|(_, k)| *k).find(|k| nodes[i].kids.contains(k)).map(|k| k.to_string())
            && (last.is_some() == at("parent").is_some())
        }
      };
      if !ok {
        return found(Aspect::Other, text, format!("token {} after a visit that changes it ({}): {:?}", i, edit, t.get_attributes()));
      }
      t.set_name(&nodes[i].name);
      t.set_flags(0);
      t.set_value("");
    }
  }
  // Finding children
  for (i, t) in tokens.iter().enumerate() {
    let t = t.borrow();
    for name in &all {
      cov.events += 1;
      let exp = nodes[i].kids.iter().find(|k| nodes[**k].name == *name);
      let act = t.find_child(name);
      let ok = match (exp, &act) {
        (None, None) => true,
        (Some(e), Some(a)) => Rc::ptr_eq(&tokens[*e], a),
        _ => false,
      };
      if !ok || t.has_child(name) != exp.is_some() {
        return found(Aspect::Other, text, format!("child {:?} of token {}", name, i));
      }
    }
    let (print, fits): (&str, fn(&str) -> bool) = *rng.pick(&[
      ("^(A|C)", (|n: &str| n.starts_with('A') || n.starts_with('C')) as fn(&str) -> bool),
      ("B", |n: &str| n.contains('B')),
      ("^$", |n: &str| n.is_empty()),
      ("", |_: &str| true),
      ("(?i)^a$", |n: &str| n == "a" || n == "A"),
      ("é|Err", |n: &str| n.contains('é') || n.contains("Err")),
      ("B$", |n: &str| n.ends_with('B')),
    ]);
    let rx = regex::Regex::new(print).unwrap();
    let exp = nodes[i].kids.iter().find(|k| fits(&nodes[**k].name));
    let act = t.find_child_fuzzy(&rx);
    let ok = match (exp, &act) {
      (None, None) => true,
      (Some(e), Some(a)) => Rc::ptr_eq(&tokens[*e], a),
      _ => false,
    };
    if !ok {
      return found(Aspect::Other, text, format!("child that matches of token {}", i));
    }
  }
  // Equal are tokens of the same name at the same place
  for _ in 0..10 {
    let i = rng.below(tokens.len());
    let j = rng.below(tokens.len());
    let (x, y) = (tokens[i].borrow(), tokens[j].borrow());
    let exp = nodes[i].name == nodes[j].name
      && x.get_captured_range() == y.get_captured_range()
      && x.get_matched_range() == y.get_matched_range();
    cov.events += 1;
    if (**x == **y) != exp {
      return found(Aspect::Other, text, format!("equality of tokens {} and {}", i, j));
    }
  }
  for _ in 0..6 {
    let make = |p: (usize, (usize, usize), (usize, usize)), pin: bool| {
      let name = all[p.0].to_string();
      let (c, m) = (SourceRange::new((p.1).0, (p.1).1), SourceRange::new((p.2).0, (p.2).1));
      if pin {
        let t = PinToken::new(&parser, name, c);
        t.borrow_mut().set_matched_range(m);
        t
      } else {
        StandardToken::new_with_matched_range(&parser, name, c, m)
      }
    };
    let range = |rng: &mut Rng| {
      let a = *rng.pick(&spots);
      let b = *rng.pick(&spots);
      (a.min(b), a.max(b))
    };
    let mat = range(rng);
    let cap = if rng.pct(40) { mat } else { range(rng) };
    let x = (rng.below(all.len()), cap, mat);
    let mut y = x;
    // Almost, or really, the same
    for _ in 0..rng.weighted(&[4, 6, 1]) {
      match rng.below(5) {
        0 => y.0 = rng.below(all.len()),
        1 => (y.1).0 = *rng.pick(&spots),
        2 => (y.1).1 = *rng.pick(&spots),
        3 => (y.2).0 = *rng.pick(&spots),
        _ => (y.2).1 = *rng.pick(&spots),
      }
    }
    if (y.1).0 > (y.1).1 || (y.2).0 > (y.2).1 {
      continue;
    }
    let (a, b) = (make(x, rng.pct(20)), make(y, rng.pct(20)));
    cov.events += 2;
    let same = **a.borrow() == **b.borrow();
    let back = **b.borrow() == **a.borrow();
    if same != (x == y) || back != same {
      return found(
        Aspect::Other,
        text,
        format!("tokens (name, captured, matched) {:?} and {:?} are equal: {} and {}", x, y, same, back),
      );
    }
  }
  if let Some(d) = token_ops(rng, cov, &parser, &spots, &tokens) {
    return found(Aspect::Other, text, d);
  }
  cov.sample(|| text.clone());
  for t in &tokens {
    t.borrow_mut().set_parent(None);
    t.borrow_mut().set_children(Vec::new());
  }
  None
}

/// Whatever is set reads back, and nothing else changes
fn token_ops(
  rng: &mut Rng,
  cov: &mut Cov,
  parser: &adextopa_core::parser::ParserRef,
  spots: &[usize],
  tokens: &[TokenRef],
) -> Option<String> {
  let t = rng.pick(tokens).clone();
  let src = parser.borrow().get_source().clone();
  let range = |rng: &mut Rng| {
    let a = *rng.pick(spots);
    let b = *rng.pick(spots);
    (a.min(b), a.max(b))
  };
  // (sometimes the range that the token has already)
  let range = |rng: &mut Rng, one: (usize, usize), other: (usize, usize)| match rng.below(8) {
    0 => one,
    1 | 2 => other,
    3 => (one.0, one.0),
    _ => range(rng),
  };
  let keys = ["k", "é", "x", "", "K", "__x", "__value"];
  let texts = ["", "1", "é", "a b", "\n", "true", "K"];
  let mut attrs: HashMap<String, String> = t.borrow().get_attributes().clone();
  let mut flags = 0u8;
  let mut name = t.borrow().get_name().clone();
  let mut cap = (t.borrow().get_captured_range().start, t.borrow().get_captured_range().end);
  let mut mat = (t.borrow().get_matched_range().start, t.borrow().get_matched_range().end);
  let mut cap_text = src[cap.0..cap.1].to_string();
  let mut mat_text = src[mat.0..mat.1].to_string();
  let mut value: Option<String> = None;
  let mut kids: Vec<TokenRef> = t.borrow().get_children().clone();
  let mut parent: Option<TokenRef> = t.borrow().get_parent();
  let discard = t.borrow().should_discard();
  let mut log = String::new();
  for _ in 0..rng.range(0, 16) {
    cov.events += 1;
    match rng.below(12) {
      0 | 1 => {
        let k = *rng.pick(&keys);
        // (the text of a pin's marker is another matter)
        let k = if discard && k == "__value" { "k" } else { k };
        let v = *rng.pick(&texts);
        log.push_str(&format!("set_attribute {:?} {:?}; ", k, v));
        let old = t.borrow_mut().set_attribute(k, v);
        if old != attrs.insert(k.to_string(), v.to_string()) {
          return Some(format!("{}: old value of an attribute", log));
        }
      }
      2 => {
        let f = *rng.pick(&[IS_FAILURE, IS_ERROR, IS_WARNING]);
        log.push_str(&format!("enable_flags {}; ", f));
        t.borrow_mut().enable_flags(f);
        flags |= f;
      }
      3 => {
        let f = *rng.pick(&[IS_FAILURE, IS_ERROR, IS_WARNING]);
        log.push_str(&format!("disable_flags {}; ", f));
        t.borrow_mut().disable_flags(f);
        flags &= !f;
      }
      4 => {
        let f = rng.below(8) as u8;
        log.push_str(&format!("set_flags {}; ", f));
        t.borrow_mut().set_flags(f);
        flags = f;
      }
      5 => {
        let n = *rng.pick(&["A", "N", "é", "", "Two words"]);
        log.push_str(&format!("set_name {:?}; ", n));
        t.borrow_mut().set_name(n);
        name = n.to_string();
      }
      6 => {
        let r = range(rng, cap, mat);
        log.push_str(&format!("set_captured_range {:?}; ", r));
        t.borrow_mut().set_captured_range(SourceRange::new(r.0, r.1));
        cap = r;
        cap_text = src[r.0..r.1].to_string();
      }
      7 => {
        let r = range(rng, mat, cap);
        log.push_str(&format!("set_matched_range {:?}; ", r));
        t.borrow_mut().set_matched_range(SourceRange::new(r.0, r.1));
        mat = r;
        mat_text = src[r.0..r.1].to_string();
      }
      8 => {
        let v = *rng.pick(&["v", "é日", " ", "other", ""]);
        match rng.below(3) {
          0 => {
            log.push_str(&format!("set_value {:?}; ", v));
            t.borrow_mut().set_value(v);
            value = Some(v.to_string()).filter(|v| !v.is_empty());
          }
          1 => {
            log.push_str(&format!("set_captured_value {:?}; ", v));
            t.borrow_mut().set_captured_value(v);
            cap_text = v.to_string();
          }
          _ => {
            log.push_str(&format!("set_matched_value {:?}; ", v));
            t.borrow_mut().set_matched_value(v);
            mat_text = v.to_string();
          }
        }
      }
      9 => {
        let child = StandardToken::new(parser, "New".to_string(), SourceRange::new(0, 1));
        if rng.pct(50) {
          log.push_str("add_child; ");
          t.borrow_mut().add_child(child.clone());
        } else {
          log.push_str("get_children_mut().push; ");
          t.borrow_mut().get_children_mut().push(child.clone());
        }
        kids.push(child);
      }
      10 => {
        log.push_str("set_children reversed; ");
        kids.reverse();
        t.borrow_mut().set_children(kids.clone());
      }
      _ => {
        if rng.pct(30) {
          log.push_str("set_parent none; ");
          parent = None;
          t.borrow_mut().set_parent(None);
        } else {
          log.push_str("set_parent; ");
          let p = StandardToken::new(parser, "P".to_string(), SourceRange::new(0, 1));
          parent = Some(p.clone());
          t.borrow_mut().set_parent(Some(p));
        }
      }
    }
    for f in [IS_FAILURE, IS_ERROR, IS_WARNING] {
      if t.borrow().flags_enabled(f) != (flags & f == f) {
        return Some(format!("{}: flag {}", log, f));
      }
    }
    if t.borrow_mut().get_flags() != flags {
      return Some(format!("{}: flags", log));
    }
    let b = t.borrow();
    if *b.get_name() != name {
      return Some(format!("{}: name is {:?}", log, b.get_name()));
    }
    let c = (b.get_captured_range().start, b.get_captured_range().end);
    let m = (b.get_matched_range().start, b.get_matched_range().end);
    if c != cap || m != mat {
      return Some(format!("{}: ranges are {:?} and {:?}", log, c, m));
    }
    if *b.get_captured_value() != cap_text || *b.get_matched_value() != mat_text {
      return Some(format!(
        "{}: texts are {:?} and {:?} instead of {:?} and {:?}",
        log,
        b.get_captured_value(),
        b.get_matched_value(),
        cap_text,
        mat_text
      ));
    }
    // (a value that was given as an attribute comes first)
    if b.get_value() != attrs.get("__value").or(value.as_ref()).unwrap_or(&cap_text) {
      return Some(format!("{}: value is {:?}", log, b.get_value()));
    }
    if b.should_discard() != discard {
      return Some(format!("{}: discard flag", log));
    }
    let same = kids.len() == b.get_children().len()
      && kids.iter().zip(b.get_children()).all(|(x, y)| Rc::ptr_eq(x, y));
    if !same {
      return Some(format!("{}: children", log));
    }
    let same = match (&parent, &b.get_parent()) {
      (None, None) => true,
      (Some(x), Some(y)) => Rc::ptr_eq(x, y),
      _ => false,
    };
    if !same {
      return Some(format!("{}: parent", log));
    }
    if *b.get_attributes() != attrs {
      return Some(format!("{}: attributes", log));
    }
    for name in keys {
      let exp = attrs.get(name);
      if b.get_attribute(name) != exp || b.has_attribute(name) != exp.is_some() {
        return Some(format!("{}: attribute {:?}", log, name));
      }
      for v in texts {
        if b.attribute_equals(name, v) != (exp.map(|e| e.as_str()) == Some(v)) {
          return Some(format!("{}: attribute {:?} compared with {:?}", log, name, v));
        }
      }
    }
  }
  None
}

// ------------------------------------------------------- comparing two real runs

pub type Outcome = Result<TokenRef, MatcherFailure>;

pub fn same_tree(a: &TokenRef, b: &TokenRef) -> Option<String> {
  let x = a.borrow();
  let y = b.borrow();
  if x.get_name() != y.get_name() {
    return Some(format!("names {:?} and {:?}", x.get_name(), y.get_name()));
  }
  if x.get_captured_range() != y.get_captured_range()
    || x.get_matched_range() != y.get_matched_range()
  {
    return Some(format!("ranges of {:?}", x.get_name()));
  }
  if x.get_value() != y.get_value()
    || x.get_captured_value() != y.get_captured_value()
    || x.get_matched_value() != y.get_matched_value()
  {
    return Some(format!("texts of {:?}", x.get_name()));
  }
  if x.get_attributes() != y.get_attributes() {
    return Some(format!("attributes of {:?}", x.get_name()));
  }
  if x.flags_enabled(IS_ERROR) != y.flags_enabled(IS_ERROR) {
    return Some(format!("flags of {:?}", x.get_name()));
  }
  if x.get_children().len() != y.get_children().len() {
    return Some(format!("number of children of {:?}", x.get_name()));
  }
  for (k, l) in x.get_children().iter().zip(y.get_children().iter()) {
    if let Some(d) = same_tree(k, l) {
      return Some(d);
    }
  }
  None
}

pub fn same_outcome(a: &Outcome, b: &Outcome) -> Option<String> {
  match (a, b) {
    (Ok(x), Ok(y)) => same_tree(x, y),
    (Err(MatcherFailure::Fail), Err(MatcherFailure::Fail)) => None,
    (Err(MatcherFailure::Error(x)), Err(MatcherFailure::Error(y))) => {
      if x == y {
        None
      } else {
        Some("errors".to_string())
      }
    }
    _ => Some("kinds of result".to_string()),
  }
}

pub fn show_outcome(a: &Outcome) -> String {
  match a {
    Ok(t) => format!("Token {}", show_token(t, 0)),
    Err(e) => format!("{:?}", e),
  }
}

pub fn parse(matcher: &MatcherRef, ctx: &ParserContextRef) -> Result<Outcome, String> {
  guarded(|| ParserContext::tokenize(ctx.clone(), matcher.clone()))
}

/// A matcher that is run very many times, on the same few sources
pub fn history_case(rng: &mut Rng, p: &Profile, cov: &mut Cov, thorough: bool) -> Option<Found> {
  cov.cases += 1;
  let p = Profile { depth: (2, 3), ..p.clone() };
  let ar = gen_expr(rng, &p);
  let m = build(&ar, None);
  let limits = Limits { steps: 60, depth: 20, snap: 80 };
  let mut model = Model::new(&ar, limits, false);
  let mut runs = Vec::new();
  for _ in 0..12 {
    let input = gen_input(rng, &ar, &p);
    if input.src.len() > 200
      || model.run(&input.src, &input.file, input.start, input.end, true).is_err()
    {
      continue;
    }
    let c = context_for(&input.src, &input.file, input.start, input.end, input.whole);
    m.prepare(&c);
    match parse(&m.root, &c) {
      Ok(o) => runs.push((input, o)),
      Err(_) => return None,
    }
  }
  // Some kept, in which each kind of result is
  runs.sort_by_key(|(_, o)| matches!(o, Ok(_)));
  if runs.is_empty() {
    return None;
  }
  let total = if thorough { 400_000 } else { 130_000 };
  let began = std::time::Instant::now();
  for i in 0..total {
    // Mostly the first one, which most often is a failure
    let (input, first) = &runs[if i % 4 < 3 { 0 } else { i / 4 % runs.len() }];
    if i % 256 == 0 && began.elapsed().as_secs() > if thorough { 40 } else { 12 } {
      break;
    }
    let c = context_for(&input.src, &input.file, input.start, input.end, input.whole);
    m.prepare(&c);
    cov.events += 1;
    let bad = match parse(&m.root, &c) {
      Err(p) => Some(format!("panic: {}", p)),
      Ok(o) => {
        let d = same_outcome(first, &o)
          .map(|d| format!("difference in {}: {} and {}", d, show_outcome(first), show_outcome(&o)));
        if let Ok(t) = &o {
          unlink(t);
        }
        d
      }
    };
    if let Some(d) = bad {
      return found(
        Aspect::Other,
        format!(
          "matcher: {}\nsource {:?} from {} to {}, run {}",
          ar.print(), input.src, input.start, input.end, i + 1
        ),
        d,
      );
    }
  }
  cov.inputs += runs.len() as u64;
  cov.count(if runs.iter().any(|(_, o)| o.is_err()) { "with failures" } else { "without failures" });
  cov.hashes.insert(str_hash(&ar.print()));
  for (_, o) in &runs {
    if let Ok(t) = o {
      unlink(t);
    }
  }
  None
}

/// The same matcher with and without Debug around its parts
pub fn same_variable(a: &Option<VariableType>, b: &Option<VariableType>) -> bool {
  match (a, b) {
    (None, None) => true,
    (Some(VariableType::String(x)), Some(VariableType::String(y))) => x == y,
    (Some(VariableType::Token(x)), Some(VariableType::Token(y))) => same_tree(x, y).is_none(),
    (Some(VariableType::Matcher(x)), Some(VariableType::Matcher(y))) => {
      // (what was given to a scope is itself within Debug)
      x.borrow().get_name() == y.borrow().get_name() || y.borrow().get_name() == "Debug"
    }
    _ => false,
  }
}

pub fn show_variable(v: &Option<VariableType>) -> String {
  match v {
    None => "not set".to_string(),
    Some(VariableType::String(s)) => format!("the string {:?}", s),
    Some(VariableType::Token(t)) => format!("the token {}", show_token(t, 0)),
    Some(VariableType::Matcher(m)) => format!("a matcher {:?}", m.borrow().get_name()),
  }
}

pub fn debug_case(rng: &mut Rng, p: &Profile, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let mut p = p.clone();
  p.w[27] = 0;
  p.wrap = 0;
  let ar = gen_expr(rng, &p);
  let mut with = ar.clone();
  let mut protected = vec![false; ar.nodes.len()];
  for n in &ar.nodes {
    if let K::Register = n.k {
      for k in &n.kids {
        protected[*k] = true;
      }
    }
  }
  // Every use of a node now goes through its Debug
  let mut wrapped: HashMap<usize, usize> = HashMap::new();
  for id in 0..ar.nodes.len() {
    if ar.is_consuming(id) && !protected[id] && rng.pct(40) {
      let mode = rng.below(5);
      wrapped.insert(id, with.add(K::Debug(mode), vec![id]));
    }
  }
  let is_pin: Vec<bool> = ar.nodes.iter().map(|n| matches!(n.k, K::Pin(..))).collect();
  for id in 0..ar.nodes.len() {
    // A Pin that is stored is still a Pin
    for k in 0..with.nodes[id].kids.len() {
      let kid = with.nodes[id].kids[k];
      if kid < is_pin.len() && is_pin[kid] {
        continue;
      }
      if let Some(w) = wrapped.get(&kid) {
        with.nodes[id].kids[k] = *w;
      }
    }
  }
  if let Some(w) = wrapped.get(&with.root) {
    with.root = *w;
  }
  for r in with.registered.iter_mut() {
    if let Some(w) = wrapped.get(&r.1) {
      r.1 = *w;
    }
  }
  if wrapped.is_empty() {
    return None;
  }
  let a = build(&ar, None);
  let b = build(&with, None);
  let mut model = Model::new(&ar, Limits::NORMAL, false);
  for _ in 0..4 {
    let input = gen_input(rng, &ar, &p);
    if model.run(&input.src, &input.file, input.start, input.end, true).is_err() {
      break;
    }
    let c1 = context_for(&input.src, &input.file, input.start, input.end, input.whole);
    let c2 = context_for(&input.src, &input.file, input.start, input.end, input.whole);
    a.prepare(&c1);
    b.prepare(&c2);
    if rng.pct(30) {
      let mode = rng.below(5);
      c2.borrow_mut().set_debug_mode(mode);
    }
    cov.inputs += 1;
    cov.events += 2;
    let x = parse(&a.root, &c1);
    let y = parse(&b.root, &c2);
    let text = format!(
      "matcher: {}\nwith Debug: {}\nsource {:?} from {} to {}",
      ar.print(),
      with.print(),
      input.src,
      input.start,
      input.end
    );
    cov.hashes.insert(str_hash(&text));
    let bad = match (&x, &y) {
      (Ok(x), Ok(y)) => {
        cov.count(match x {
          Ok(_) => "same token",
          Err(MatcherFailure::Fail) => "same failure",
          Err(_) => "same error",
        });
        same_outcome(x, y).map(|d| {
          format!("without Debug: {}; with Debug: {}; difference in {}", show_outcome(x), show_outcome(y), d)
        })
      }
      (Err(_), _) => break,
      (_, Err(p)) => Some(format!("with Debug: panic: {}", p)),
    };
    let mut names = with.names();
    names.push("Debug".to_string());
    let bad = bad.or_else(|| {
      names.iter().find_map(|name| {
        let (v, w) = (c1.borrow().get_scope_variable(name), c2.borrow().get_scope_variable(name));
        if same_variable(&v, &w) {
          None
        } else {
          Some(format!("without Debug, variable {:?} is {}, with Debug it is {}", name, show_variable(&v), show_variable(&w)))
        }
      })
    });
    if let Some(d) = bad {
      return found(Aspect::Other, text, d);
    }
    cov.sample(|| text.clone());
    for t in [x, y] {
      if let Ok(Ok(t)) = t {
        unlink(&t);
      }
    }
  }
  None
}
