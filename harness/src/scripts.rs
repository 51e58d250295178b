//! Cases that are about scripts.

use crate::case::*;
use crate::expr::*;
use crate::families::*;
use crate::gen::{mutate, Sampler};
use crate::model::*;
use crate::probe::*;
use crate::rng::Rng;
use crate::script::*;
use adextopa_core::matcher::{MatcherFailure, MatcherRef, MatcherSuccess};
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::Parser;
use adextopa_core::script::current::parser::{
  compile_script, compile_script_from_file, compile_script_from_str, FLAG_LOG_STDERR,
};
use std::path::{Path, PathBuf};

type Outcome = Result<adextopa_core::token::TokenRef, MatcherFailure>;
type Compiled = Result<MatcherRef, Vec<ParseError>>;

fn compile(text: &str, name: &str) -> Result<Compiled, String> {
  // By one of the ways there are; it makes no difference which one
  let n = str_hash(text) % 10;
  let flags = if n % 5 == 0 { FLAG_LOG_STDERR } else { 0 };
  guarded(|| match n {
    0 | 1 => compile_script(Parser::new(text), name.to_string(), None, flags).map(|r| r.1),
    _ => compile_script_from_str(text, name.to_string(), flags),
  })
}

fn compile_file(rng: &mut Rng, path: &str) -> Result<Compiled, String> {
  let flags = if rng.pct(20) { FLAG_LOG_STDERR } else { 0 };
  guarded(|| compile_script_from_file(path, flags))
}

fn show_errors(e: &[ParseError]) -> String {
  let all: Vec<String> = e
    .iter()
    .map(|e| format!("{:?} {:?}", e.message, e.range.map(|r| (r.start, r.end))))
    .collect();
  format!("[{}]", all.join(", "))
}

fn meaning(script: &Script, name: &str) -> Result<Arena, Bad> {
  let mut ar = Arena::default();
  let files = vec![Some(script.clone())];
  let (root, _) = link(&files, 0, name, &mut ar, &mut Vec::new())?;
  ar.root = root;
  Ok(ar)
}

fn inputs_for(rng: &mut Rng, ar: &Arena, n: usize) -> Vec<String> {
  (0..n)
    .map(|_| {
      let reps = if rng.pct(5) { rng.range(8, 14) } else { rng.range(1, 4) };
      let mut t = Sampler::new(ar, reps, 200).sample(rng);
      if t.len() > 300 {
        let mut at = 300;
        while !t.is_char_boundary(at) {
          at -= 1;
        }
        t.truncate(at);
      }
      if rng.pct(35) {
        t = mutate(rng, &t, false);
      }
      if rng.pct(20) {
        t.push_str(*rng.pick(&["a", "é", "\n", ")", " "]));
      }
      t
    })
    .collect()
}

/// Run a compiled script on inputs, next to the model. `None`: all as it has
/// to be; otherwise which input, what is expected, and what is the case.
fn compare(
  matcher: &MatcherRef,
  ar: &Arena,
  inputs: &[String],
  cov: &mut Cov,
) -> Option<(usize, Aspect, String)> {
  let mut model = Model::new(ar, Limits::NORMAL, false);
  for (i, src) in inputs.iter().enumerate() {
    let expected = match model.run(src, "", 0, src.len(), true) {
      Ok(r) => r,
      Err(u) => {
        cov.count(&format!("undefined:{:?}", u));
        return None;
      }
    };
    let exp = snap_r(&expected, 400);
    let ctx = context_for(src, "", 0, src.len(), true);
    let outcome = match parse(matcher, &ctx) {
      Ok(o) => o,
      Err(p) => return Some((i, Aspect::Panic, format!("panic: {}", p))),
    };
    cov.inputs += 1;
    cov.events += model.steps as u64;
    cov.count(&format!("result:{}", exp.class()));
    let mut h = str_hash(src);
    r_hash(&exp, &mut h);
    cov.hashes.insert(h);
    let actual = match &outcome {
      Ok(t) => Ok(MatcherSuccess::Token(t.clone())),
      Err(e) => Err(e.clone()),
    };
    if let Some((aspect, d)) = cmp_result(&exp, &actual, src, true) {
      return Some((
        i,
        aspect,
        format!("{}; it is {}, expected {}", d, show_result(&actual), exp.show()),
      ));
    }
    if let Ok(t) = &outcome {
      unlink(t);
    }
  }
  None
}

/// How many of the inputs, from the first, have a defined result
fn defined(ar: &Arena, inputs: &[String]) -> usize {
  let mut model = Model::new(ar, Limits::NORMAL, false);
  inputs
    .iter()
    .take_while(|src| model.run(src, "", 0, src.len(), true).is_ok())
    .count()
}

fn layout_text(script: &Script, rng: &mut Rng, free: usize, comments: bool) -> String {
  let mut l = Layout { rng, free, comments };
  script.print(&mut l)
}

pub fn script_case(rng: &mut Rng, p: &ScriptProfile, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let script = gen_script(rng, p, Vec::new());
  let free = *rng.pick(&[0, 20, 60]);
  let comments = rng.pct(50);
  let text = layout_text(&script, rng, free, comments);
  let head = format!("script:\n{}\n", text);
  let matcher = match compile(&text, "Script") {
    Err(p) => return found(Aspect::Panic, head, format!("compiling it panics: {}", p)),
    Ok(Err(e)) => {
      return found(
        Aspect::Other,
        head,
        format!("a valid script is rejected: {}", show_errors(&e)),
      )
    }
    Ok(Ok(m)) => m,
  };
  let ar = meaning(&script, "Script").expect("no imports");
  for n in &ar.nodes {
    cov.count(&format!("in scripts:{}", n.k.name()));
  }
  let n = rng.range(3, 6);
  let mut inputs = inputs_for(rng, &ar, n);
  // Known: whatever a capture is named, its matcher is named "Name"
  let today = {
    let mut today = script.clone();
    today.rename_captures("Name");
    meaning(&today, "Script").expect("no imports")
  };
  inputs.truncate(defined(&ar, &inputs).min(defined(&today, &inputs)));
  let bad = compare(&matcher, &ar, &inputs, cov);
  cov.sample(|| format!("{} -> {}", text, ar.print()));
  let (i, aspect, d) = match bad {
    None => return None,
    Some(b) => b,
  };
  if script.has_names() {
    if let Ok(Ok(m)) = compile(&text, "Script") {
      if compare(&m, &today, &inputs, cov).is_none() {
        cov.count("known:named-capture");
        return None;
      }
    }
  }
  let mut head = head;
  for s in inputs.iter().take(i + 1) {
    head.push_str(&format!("parse {:?}\n", s));
  }
  head.push_str(&format!("which means: {}", ar.print()));
  let aspect = if aspect == Aspect::Panic { aspect } else { Aspect::Other };
  found(aspect, head, d)
}

/// A compiled script, printed before, between and after its parses
pub fn printed_case(rng: &mut Rng, p: &ScriptProfile, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let script = gen_script(rng, p, Vec::new());
  let text = layout_text(&script, rng, 20, true);
  let head = format!("script:\n{}\n", text);
  let (printed, plain) = match (compile(&text, "Script"), compile(&text, "Script")) {
    (Ok(Ok(a)), Ok(Ok(b))) => (a, b),
    // (this is another check's matter)
    _ => return None,
  };
  let ar = meaning(&script, "Script").expect("no imports");
  let n = rng.range(2, 4);
  let mut inputs = inputs_for(rng, &ar, n);
  inputs.truncate(defined(&ar, &inputs));
  let print = |m: &MatcherRef| guarded(|| (format!("{:?}", m), m.borrow().to_string()));
  let mut first: Option<String> = None;
  for i in 0..=inputs.len() {
    let (debug, shown) = match print(&printed) {
      Ok(t) => t,
      Err(e) => return found(Aspect::Panic, head, format!("printing it after {} parses panics: {}", i, e)),
    };
    cov.events += 1;
    if !debug.contains(&shown) {
      return found(Aspect::Other, head, format!("after {} parses it prints as {} and as {}", i, debug, shown));
    }
    // What its scopes hold changes with a parse; the matchers of its root do not
    let kids = printed.borrow().get_children().map_or(0, |k| k.len());
    let now = format!("{} {}", printed.borrow().get_name(), kids);
    if *first.get_or_insert_with(|| now.clone()) != now {
      return found(Aspect::Other, head, format!("after {} parses it is {}", i, now));
    }
    let Some(src) = inputs.get(i) else { break };
    cov.inputs += 1;
    let a = parse(&printed, &context_for(src, "", 0, src.len(), true));
    let b = parse(&plain, &context_for(src, "", 0, src.len(), true));
    let d = match (&a, &b) {
      (Ok(a), Ok(b)) => same_outcome(a, b),
      (Err(p), _) | (_, Err(p)) => Some(format!("panic: {}", p)),
    };
    if let Some(d) = d {
      return found(Aspect::Other, format!("{}parse {:?}\n", head, src), format!("printed and unprinted: {}", d));
    }
    if let Ok(Ok(t)) = &a {
      cov.count("printed:result of a script");
      if let Err((aspect, d)) = crate::prints::check_token(t, cov) {
        return found(aspect, format!("{}parse {:?}\n", head, src), d);
      }
    }
  }
  cov.count("printed:script");
  cov.hashes.insert(str_hash(&text));
  None
}

/// The same script in several layouts
pub fn layout_case(rng: &mut Rng, p: &ScriptProfile, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let script = gen_script(rng, p, Vec::new());
  let mut texts = vec![layout_text(&script, rng, 0, false)];
  for free in [40, 90] {
    texts.push(layout_text(&script, rng, free, true));
  }
  let mut matchers = Vec::new();
  for t in &texts {
    cov.events += 1;
    match compile(t, "Script") {
      Err(p) => {
        return found(
          Aspect::Panic,
          format!("script:\n{}", t),
          format!("compiling it panics: {}", p),
        )
      }
      Ok(r) => matchers.push(r),
    }
  }
  let all: String = texts
    .iter()
    .enumerate()
    .map(|(i, t)| format!("layout {}:\n{}\n", i + 1, t))
    .collect();
  for (i, m) in matchers.iter().enumerate() {
    if let (Ok(_), Err(e)) | (Err(e), Ok(_)) = (&matchers[0], m) {
      return found(
        Aspect::Other,
        all,
        format!("only one of layout 1 and {} compiles: {}", i + 1, show_errors(e)),
      );
    }
  }
  if matchers[0].is_err() {
    cov.count("no layout compiles");
    return None;
  }
  let ar = meaning(&script, "Script").expect("no imports");
  let today = {
    let mut today = script.clone();
    today.rename_captures("Name");
    meaning(&today, "Script").expect("no imports")
  };
  let mut inputs = inputs_for(rng, &ar, 3);
  inputs.truncate(defined(&ar, &inputs).min(defined(&today, &inputs)));
  for src in &inputs {
    let mut first: Option<Outcome> = None;
    for (i, m) in matchers.iter().enumerate() {
      let m = m.as_ref().unwrap();
      let ctx = context_for(src, "", 0, src.len(), true);
      cov.events += 1;
      let o = match parse(m, &ctx) {
        Ok(o) => o,
        Err(p) => {
          if i == 0 {
            return None;
          }
          return found(
            Aspect::Other,
            all,
            format!("source {:?}: only layout {} panics: {}", src, i + 1, p),
          );
        }
      };
      match &first {
        None => first = Some(o),
        Some(f) => {
          if let Some(d) = same_outcome(f, &o) {
            return found(
              Aspect::Other,
              all,
              format!(
                "source {:?}: layout 1: {}; layout {}: {}; difference in {}",
                src,
                show_outcome(f),
                i + 1,
                show_outcome(&o),
                d
              ),
            );
          }
          if let Ok(t) = &o {
            unlink(t);
          }
        }
      }
    }
    cov.inputs += 1;
    if let Some(f) = first {
      cov.count(match &f {
        Ok(_) => "same token",
        Err(MatcherFailure::Fail) => "same failure",
        Err(_) => "same error",
      });
      if let Ok(t) = &f {
        unlink(t);
      }
    }
  }
  cov.hashes.insert(str_hash(&all));
  cov.sample(|| texts[2].clone());
  None
}

/// Any text at all
/// With other numbers
fn numbers(rng: &mut Rng, s: &str) -> String {
  let mut out = String::new();
  let mut chars = s.chars().peekable();
  while let Some(c) = chars.next() {
    if c.is_ascii_digit() && rng.pct(60) {
      while chars.peek().map_or(false, |c| c.is_ascii_digit()) {
        chars.next();
      }
      out.push_str(rng.pick(&[
        "0",
        "00000000000000000000000001",
        "65536",
        "4294967296",
        "9223372036854775808",
        "18446744073709551614",
        "18446744073709551615",
        "18446744073709551616",
        "99999999999999999999999999999999999999",
        "٣",
        "1e3",
      ]));
    } else {
      out.push(c);
    }
  }
  out
}

fn garbage(rng: &mut Rng, p: &ScriptProfile) -> String {
  match rng.below(5) {
    0 => {
      // Pieces of the syntax
      let pieces = [
        "<!--[adextopa", " version='1'", " name='N'", "]", "-->", "<", ">", "(", ")", "[", "]", "{",
        "}", "|", "?", "!", "*", "+", "{1,2}", "{", "1", ",", "=", "='a'", "/a/", "/", "\\", "'",
        "%'a','b','c'", "%", "Word", "A", "import ", "{ A as B }", " from 'x'", "# c\n", "\n", " ",
        "</\\w+/i", "a='b'", "_x='1'", "(?'n'", "é", "日", "?!", "!?", "<!", "<?", "\r", "\t", "0",
        "999999999999999999999999", "[a-", "(?", "*?", "\u{0}", "😀",
      ];
      let n = rng.range(0, 30);
      let mut s = String::new();
      for _ in 0..n {
        s.push_str(rng.pick(&pieces));
      }
      s
    }
    1 => {
      let mut s = String::new();
      for _ in 0..rng.below(40) {
        let c = match rng.below(10) {
          0 => char::from_u32(rng.below(0x2FFF) as u32).unwrap_or('a'),
          1 => '\n',
          _ => (32 + rng.below(95) as u8) as char,
        };
        s.push(c);
      }
      s
    }
    2 if rng.pct(60) => {
      // A defect in a long text: its message might be long, too
      let mut long = || -> String {
        let parts = *rng.pick(&[&["é", "日", "a", "😀"][..], &["日"], &["é", "a"], &["a", "b"], &["😀"]]);
        let n = *rng.pick(&[0, 1, 10, 60, 130, 300, 600]);
        (0..rng.range(n / 2, n)).map(|_| *rng.pick(parts)).collect()
      };
      let (a, b, c) = (long(), long(), long());
      let bad = *rng.pick(&[
        "(", "[", ")", "{3,2}", "**", "(?P<", "(?<1>", "\\p{X}", "\\", "[z-a]", "(?z)", "\\8", "a{99999}", "x{2", "(?=a)", "",
      ]);
      let defect = match rng.below(9) {
        0 => format!("<%'{}','','{}'>", a, b),
        1 => format!("<%'','{}','{}'>", a, b),
        2 => format!("<='{}'>{{3,1}}", a),
        3 => format!("<!--[adextopa version='1' {}]-->", a),
        4 => format!("(?'{}' <{}>)", a, b),
        5 => format!("<!--[adextopa version='1']\nimport {{ {} as {} }} from '{}'\n-->\n<a>", a, b, c),
        _ => format!("</{}{}{}/>", a, bad, b),
      };
      let script = gen_script(rng, p, Vec::new());
      let whole = layout_text(&script, rng, 10, true);
      match rng.below(5) {
        0 => defect,
        1 => format!("({})", defect),
        2 => format!("{}\n({})", whole, defect),
        3 => format!("{}\n{}", whole, defect),
        _ => format!("{}\n# {}\n(<[<{{({}) <='x'>}}>]>)", whole, c, defect),
      }
    }
    _ => {
      let script = gen_script(rng, p, Vec::new());
      let free = rng.below(80);
      let mut s = layout_text(&script, rng, free, true);
      for _ in 0..rng.range(1, 3) {
        s = match rng.below(9) {
          4 => numbers(rng, &s),
          7 => {
            // A part that is very long: a string, a regex, a name, a comment, white space
            let ends: Vec<usize> = s
              .char_indices()
              .filter(|(_, c)| "'/#<=%,\\ [{(]".contains(*c) || c.is_alphanumeric())
              .map(|(i, c)| i + c.len_utf8())
              .collect();
            if ends.is_empty() {
              s
            } else {
              let at = *rng.pick(&ends);
              let n = *rng.pick(&[20, 100, 300, 1200]);
              let parts = *rng.pick(&[&["é", "日", "a"][..], &["a", "b"], &["日"], &[" ", "\n", "\t"], &["a", "{", "%", "é", "\\d", "(a)"], &["1"]]);
              let long: String = (0..rng.range(n / 2, n)).map(|_| *rng.pick(parts)).collect();
              format!("{}{}{}", &s[..at], long, &s[at..])
            }
          }
          8 => {
            // Deep inside of others
            let (open, close) = *rng.pick(&[("(<{", "}>)"), ("<[", "]>"), ("(<[<{", "}>]>)"), ("<", ">"), ("(", ")"), ("<{", "}>*")]);
            let n = rng.range(2, 25);
            let m = if rng.pct(70) { n } else { rng.below(n + 3) };
            format!("{}{}{}", open.repeat(n), s, close.repeat(m))
          }
          5 => {
            // A repeat after a pattern
            let ends: Vec<usize> = s.match_indices('>').map(|(i, _)| i + 1).collect();
            if ends.is_empty() {
              s
            } else {
              let at = *rng.pick(&ends);
              let mut rep = rng
                .pick(&["{1,2}", "{0}", "{1,}", "{,1}", "{ 1 , 2 }", "{2,1}", "{1,1", "{a,b}", "{1.5}", "{-1,2}", "{1,2,3}", "*+", "??", "{+1,2}", "{0x1,2}"])
                .to_string();
              if rng.pct(60) {
                rep = numbers(rng, &rep);
              }
              format!("{}{}{}", &s[..at], rep, &s[at..])
            }
          }
          6 => {
            // A part twice
            let mut a = rng.below(s.len() + 1);
            let mut b = rng.below(s.len() + 1);
            while !s.is_char_boundary(a) {
              a -= 1;
            }
            while !s.is_char_boundary(b) {
              b -= 1;
            }
            let (a, b) = (a.min(b), a.max(b));
            format!("{}{}{}", &s[..b], &s[a..b], &s[b..])
          }
          0 => {
            let mut at = rng.below(s.len() + 1);
            while !s.is_char_boundary(at) {
              at -= 1;
            }
            s[..at].to_string()
          }
          1 => {
            let mut at = rng.below(s.len() + 1);
            while !s.is_char_boundary(at) {
              at -= 1;
            }
            let piece = *rng.pick(&["<", ">", "(", ")", "'", "\\", "/", "?", "!", "{", "}", "[", "]", "|", "é", "\n", "-->", "#", "%", "="]);
            format!("{}{}{}", &s[..at], piece, &s[at..])
          }
          2 => {
            // Without one character
            let chars: Vec<char> = s.chars().collect();
            if chars.is_empty() {
              s
            } else {
              let at = rng.below(chars.len());
              chars
                .iter()
                .enumerate()
                .filter(|(i, _)| *i != at)
                .map(|(_, c)| *c)
                .collect()
            }
          }
          _ => {
            // Two parts swapped
            let chars: Vec<char> = s.chars().collect();
            let mut chars = chars;
            if chars.len() > 3 {
              let a = rng.below(chars.len());
              let b = rng.below(chars.len());
              chars.swap(a, b);
            }
            chars.into_iter().collect()
          }
        };
      }
      s
    }
  }
}

pub fn garbage_case(rng: &mut Rng, p: &ScriptProfile, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let text = garbage(rng, p);
  let head = format!("script:\n{}\n({:?})", text, text);
  cov.hashes.insert(str_hash(&text));
  cov.sample(|| format!("{:?}", text));
  ends(head, || compile(&text, "Script"), cov)
}

/// Files that import each other, with anything in them, or that can not be read
pub fn garbage_files_case(rng: &mut Rng, p: &ScriptProfile, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let dir = scratch();
  let n = rng.range(2, 4);
  let name = |i: usize| format!("f{}.axo", i);
  let mut head = String::new();
  for i in 0..n {
    let path = dir.0.join(name(i));
    let mut text = match rng.below(3) {
      0 => garbage(rng, p),
      _ => {
        let script = gen_script(rng, p, Vec::new());
        layout_text(&script, rng, 20, true)
      }
    };
    let kind = if i == 0 { 9 } else { rng.below(10) };
    match kind {
      0 => {
        head.push_str(&format!("--- {}: missing\n", name(i)));
        continue;
      }
      1 => {
        std::fs::create_dir_all(&path).expect("scratch directory");
        head.push_str(&format!("--- {}: a directory\n", name(i)));
        continue;
      }
      2 => {
        let mut bytes = text.into_bytes();
        let at = rng.below(bytes.len() + 1);
        bytes.insert(at, *rng.pick(&[0xff, 0x80, 0xc3]));
        std::fs::write(&path, &bytes).expect("scratch file");
        head.push_str(&format!("--- {}: bytes that are not text\n", name(i)));
        continue;
      }
      3 => text = rng.pick(&["", "\n", "# c", "<!--[adextopa version='1']-->", "\u{feff}"]).to_string(),
      _ => {}
    }
    if i == 0 || rng.pct(50) {
      // (of a file that comes after it, mostly)
      let mut header = String::new();
      for _ in 0..rng.range(1, 2) {
        let to = if rng.pct(85) { rng.range(i, n - 1) } else { rng.below(n) };
        let what = *rng.pick(&["_ as A", "A", "A as B", "_ as A, B", "Word", "_", ""]);
        let place = *rng.pick(&["./", "", "../", "./sub/", "/"]);
        let place = if rng.pct(80) { "./" } else { place };
        header.push_str(&format!("import {{ {} }} from '{}{}'\n", what, place, name(to)));
      }
      text = match text.find("-->") {
        Some(at) if rng.pct(80) => format!("{}\n{}{}", &text[..at], header, &text[at..]),
        _ => format!("<!--[adextopa version='1']\n{}-->\n{}", header, text),
      };
    }
    std::fs::write(&path, &text).expect("scratch file");
    head.push_str(&format!("--- {}:\n{}\n", name(i), text));
  }
  cov.hashes.insert(str_hash(&head));
  cov.sample(|| head.clone());
  let main = dir.0.join(name(0));
  let main = main.to_str().expect("utf-8");
  let flags = if rng.pct(20) { FLAG_LOG_STDERR } else { 0 };
  ends(head, || guarded(|| compile_script_from_file(main, flags)), cov)
}

/// It compiles, or there is a reason why not, and the next time is the same
fn ends(
  head: String,
  compile: impl Fn() -> Result<Compiled, String>,
  cov: &mut Cov,
) -> Option<Found> {
  cov.inputs += 1;
  cov.events += 2;
  let first = match compile() {
    Err(p) => return found(Aspect::Panic, head, format!("compiling it panics: {}", p)),
    Ok(r) => r,
  };
  match &first {
    Ok(_) => cov.count("compiled"),
    Err(e) => {
      cov.count("rejected");
      if e.is_empty() {
        return found(Aspect::Other, head, "it is rejected without any error".to_string());
      }
      if e.iter().any(|e| e.message.trim().is_empty()) {
        return found(
          Aspect::Other,
          head,
          format!("it is rejected with an error without a message: {}", show_errors(e)),
        );
      }
    }
  }
  let second = match compile() {
    Err(p) => return found(Aspect::Panic, head, format!("compiling it again panics: {}", p)),
    Ok(r) => r,
  };
  let same = match (&first, &second) {
    (Ok(_), Ok(_)) => true,
    (Err(a), Err(b)) => a == b,
    _ => false,
  };
  if !same {
    return found(
      Aspect::Other,
      head,
      "compiling it a second time has another result".to_string(),
    );
  }
  None
}

// ----------------------------------------------------------------------- imports

pub struct Scratch(pub PathBuf);

impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

pub fn scratch() -> Scratch {
  use std::sync::atomic::{AtomicUsize, Ordering};
  static NEXT: AtomicUsize = AtomicUsize::new(0);
  let n = NEXT.fetch_add(1, Ordering::Relaxed);
  let base = std::env::var("MON_SCRATCH").unwrap_or("/tmp".to_string());
  let dir = Path::new(&base).join(format!("mon-{}-{}", std::process::id(), n));
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).expect("scratch directory");
  Scratch(dir.canonicalize().expect("scratch directory"))
}

fn directory(place: &str) -> &str {
  place.rfind('/').map_or("", |at| &place[..at])
}

/// The path of a file relative to the directory of another one
fn relative(from: usize, to: usize, places: &[String], rng: &mut Rng) -> String {
  let dir = directory(&places[from]);
  let mut path = String::new();
  if !dir.is_empty() {
    for _ in dir.split('/') {
      path.push_str("../");
    }
  } else if rng.pct(50) {
    path.push_str("./");
  }
  if rng.pct(10) && !dir.is_empty() {
    path = format!("./{}", path);
  }
  if !dir.is_empty() && directory(&places[to]) == dir && rng.pct(50) {
    path = String::new();
    path.push_str(&places[to][dir.len() + 1..]);
  } else {
    path.push_str(&places[to]);
  }
  path
}

/// Some scripts that import each other, and where they are
fn gen_files(
  rng: &mut Rng,
  p: &ScriptProfile,
  good: bool,
  like: &[String],
) -> (Vec<Option<Script>>, Vec<String>) {
  let n = rng.range(2, 5);
  // One name in several directories, or several in one
  let alike = rng.pct(40);
  let mut places: Vec<String> = Vec::new();
  for i in 0..n {
    if let Some(place) = like.get(i) {
      places.push(place.clone());
      continue;
    }
    let dir = *rng.pick(&["", "", "sub/", "sub/deep/", "other/", "sp ace/", "é/", "deep/sub/deep/"]);
    let name = if alike {
      rng.pick(&["lib.axo", "lib.axo", "lib.axo", "lib.ax", "xlib.axo", "Lib.axo"]).to_string()
    } else if rng.pct(15) {
      rng.pick(&["none", ".hidden", "it's.axo", "b\\'.axo", "日本 語.axo", "a.b.axo", "import.axo"]).to_string()
    } else {
      format!("file{}.axo", i)
    };
    let place = format!("{}{}", dir, name);
    if places.contains(&place) || like.contains(&place) {
      places.push(format!("{}file{}.axo", dir, i));
    } else {
      places.push(place);
    }
  }
  // Mostly to later files; now and then a cycle
  let mut files: Vec<Option<Script>> = Vec::new();
  let cyclic = !good && rng.pct(20);
  // What a file defines is decided first, so that others can import it
  for i in (0..n).rev() {
    let mut imports = Vec::new();
    // Names that another file has, whether or not they are imported from it
    let mut strays: Vec<String> = Vec::new();
    let count = if i == 0 { rng.range(1, 2) } else { rng.below(3) };
    for _ in 0..count {
      let to = if cyclic && rng.pct(40) {
        rng.below(n)
      } else if i + 1 < n {
        rng.range(i + 1, n - 1)
      } else {
        continue;
      };
      let mut names = Vec::new();
      let known: Vec<String> = if to > i {
        match &files[n - 1 - to] {
          Some(Script { header: Some(h), .. }) => h
            .items
            .iter()
            .flat_map(|it| match it {
              Item::Assign(n, _) | Item::Alias(n, _) => vec![n.clone()],
              Item::Import(names, _, _) => names
                .iter()
                .map(|(n, to)| to.clone().unwrap_or(n.clone()))
                .collect(),
            })
            .collect(),
          _ => Vec::new(),
        }
      } else {
        vec!["A".to_string()]
      };
      strays.extend(known.iter().cloned());
      for _ in 0..rng.range(1, 3) {
        let rename = if rng.pct(50) {
          Some(if rng.pct(50) {
            rng.pick(&["X", "Y", "Chunk", "Word", "$z", "A$"]).to_string()
          } else {
            ident(rng)
          })
        } else {
          None
        };
        match rng.weighted(&[60, 40, 4]) {
          0 if !known.is_empty() => names.push((rng.pick(&known).clone(), rename)),
          2 if !good => names.push(("Nothing".to_string(), rename)),
          _ => names.push((
            "_".to_string(),
            if good || rng.pct(95) {
              Some(rename.unwrap_or("Root".to_string()))
            } else {
              None
            },
          )),
        }
      }
      imports.push(Item::Import(names, to, relative(i, to, &places, rng)));
    }
    let mut script = gen_script(rng, p, imports);
    if !strays.is_empty() && rng.pct(20) {
      let stray = P::plain(M::Custom(rng.pick(&strays).clone()));
      let at = rng.below(script.patterns.len() + 1);
      script.patterns.insert(at, stray);
    }
    files.push(Some(script));
  }
  files.reverse();
  (files, places)
}

/// Files that import from each other; now and then there are others in the
/// same places afterwards
pub fn import_case(rng: &mut Rng, p: &ScriptProfile, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let dir = scratch();
  let mut places = Vec::new();
  if let Some(f) = import_round(rng, p, cov, &dir, &mut places) {
    return Some(f);
  }
  if rng.pct(70) {
    return None;
  }
  for e in std::fs::read_dir(&dir.0).expect("scratch directory").flatten() {
    let path = e.path();
    let gone = if path.is_dir() { std::fs::remove_dir_all(&path) } else { std::fs::remove_file(&path) };
    gone.expect("scratch directory");
  }
  cov.count("files in the places of others");
  let r = import_round(rng, p, cov, &dir, &mut places);
  r.map(|mut f| {
    f.text = format!("(after other files in the same places)\n{}", f.text);
    f
  })
}

fn import_round(
  rng: &mut Rng,
  p: &ScriptProfile,
  cov: &mut Cov,
  dir: &Scratch,
  places: &mut Vec<String>,
) -> Option<Found> {
  let (mut files, at) = gen_files(rng, p, false, places);
  *places = at;
  let n = files.len();
  let missing = if rng.pct(10) { Some(rng.range(1, n - 1)) } else { None };
  let malformed = if rng.pct(10) { Some(rng.range(1, n - 1)) } else { None };
  if let Some(m) = missing {
    files[m] = None;
  }
  let mut all = String::new();
  for (i, f) in files.iter().enumerate() {
    let path = dir.0.join(&places[i]);
    std::fs::create_dir_all(path.parent().unwrap()).expect("scratch directory");
    if let Some(s) = f {
      let free = *rng.pick(&[0, 20, 60]);
      let comments = rng.pct(40);
      let mut text = layout_text(s, rng, free, comments);
      if malformed == Some(i) {
        text = rng
          .pick(&[
            "<!--[adextopa]-->(<='a'>)",
            "(<='a'>) garbage",
            "",
            "<!--[adextopa version='x']-->(<='a'>)",
            "(<='a'",
          ])
          .to_string();
      }
      all.push_str(&format!("--- {}\n{}\n", places[i], text));
      std::fs::write(&path, text).expect("scratch file");
    } else {
      all.push_str(&format!("--- {} does not exist\n", places[i]));
    }
  }
  let mut ar = Arena::default();
  let path = dir.0.join(&places[0]);
  let mut path_text = path.to_str().expect("utf-8").to_string();
  if rng.pct(20) {
    // Another name of the same file
    let detour = *rng.pick(&["/./", "//", "/sub/../", "/sub/../sub/../"]);
    let at = path_text.rfind('/').expect("a path");
    std::fs::create_dir_all(Path::new(&path_text[..at]).join("sub")).expect("scratch directory");
    path_text = format!("{}{}{}", &path_text[..at], detour, &path_text[at + 1..]);
  }
  let mut linked = link_with(&files, &path_text, &mut ar);
  if let (Ok(_), Some(m)) = (&linked, malformed) {
    if reaches(&files, 0, m) {
      linked = Err(Bad::Malformed);
    }
  }
  // Both relative and absolute names of the file are good
  cov.events += 1;
  let compiled = match compile_file(rng, &path_text) {
    Err(p) => return found(Aspect::Panic, all, format!("compiling file0 panics: {}", p)),
    Ok(c) => c,
  };
  cov.hashes.insert(str_hash(&all));
  match (&linked, &compiled) {
    (Err(bad), Ok(_)) => {
      if malformed.is_some() {
        // Which of the two problems comes first does not matter
        if let Bad::Malformed = bad {}
      }
      return found(
        Aspect::Other,
        all,
        format!("it compiles, although: {:?}", bad),
      );
    }
    (Ok(_), Err(e)) => {
      return found(
        Aspect::Other,
        all,
        format!("it does not compile: {}", show_errors(e)),
      )
    }
    (Err(bad), Err(e)) => {
      cov.count(&format!("rejected:{}", match bad {
        Bad::NotFound(_) => "NotFound".to_string(),
        b => format!("{:?}", b),
      }));
      if e.is_empty() || e.iter().any(|e| e.message.trim().is_empty()) {
        return found(
          Aspect::Other,
          all,
          format!("it is rejected without a reason: {}", show_errors(e)),
        );
      }
      let says = |words: &str| e.iter().any(|e| e.message.contains(words));
      let ok = malformed.is_some()
        || match bad {
          Bad::Circular => says("ircular"),
          Bad::Missing => says("file"),
          Bad::NotFound(n) => says(n.as_str()),
          Bad::UnnamedRoot => says("_"),
          Bad::Malformed => true,
        };
      if !ok {
        return found(
          Aspect::Other,
          all,
          format!("it is rejected because of {:?}, but the errors are {}", bad, show_errors(e)),
        );
      }
      return None;
    }
    _ => {}
  }
  cov.count("linked");
  let (root, _) = linked.unwrap();
  ar.root = root;
  let matcher = compiled.unwrap_or_else(|_| unreachable!());
  let inputs = inputs_for(rng, &ar, 4);
  cov.sample(|| all.clone());
  if let Some((i, aspect, d)) = compare(&matcher, &ar, &inputs, cov) {
    let aspect = if aspect == Aspect::Panic { aspect } else { Aspect::Other };
    return found(
      aspect,
      format!("{}which means: {}\nsource {:?}", all, ar.print(), inputs[i]),
      d,
    );
  }
  None
}

fn link_with(
  files: &[Option<Script>],
  name: &str,
  ar: &mut Arena,
) -> Result<(usize, usize), Bad> {
  link(files, 0, name, ar, &mut Vec::new())
}

fn reaches(files: &[Option<Script>], from: usize, to: usize) -> bool {
  let mut seen = vec![false; files.len()];
  let mut todo = vec![from];
  while let Some(f) = todo.pop() {
    if f == to {
      return true;
    }
    if seen[f] {
      continue;
    }
    seen[f] = true;
    if let Some(Script { header: Some(h), .. }) = &files[f] {
      for i in &h.items {
        if let Item::Import(_, t, _) = i {
          todo.push(*t);
        }
      }
    }
  }
  false
}

/// The same set of files in two layouts
pub fn file_layout_case(rng: &mut Rng, p: &ScriptProfile, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let (files, places) = gen_files(rng, p, true, &[]);
  let mut ar = Arena::default();
  match link_with(&files, "x", &mut ar) {
    Ok((root, _)) => ar.root = root,
    Err(_) => return None,
  }
  let mut inputs = inputs_for(rng, &ar, 3);
  inputs.truncate(defined(&ar, &inputs));
  let mut all = String::new();
  let mut results: Vec<(Compiled, Scratch)> = Vec::new();
  for free in [0, 60] {
    let dir = scratch();
    all.push_str(&format!("layout {}:\n", results.len() + 1));
    for (i, f) in files.iter().enumerate() {
      let path = dir.0.join(&places[i]);
      std::fs::create_dir_all(path.parent().unwrap()).expect("scratch directory");
      if let Some(s) = f {
        let text = layout_text(s, rng, free, free > 0);
        all.push_str(&format!("--- {}\n{}\n", places[i], text));
        std::fs::write(&path, text).expect("scratch file");
      }
    }
    let path = dir.0.join(&places[0]);
    cov.events += 1;
    match compile_file(rng, path.to_str().expect("utf-8")) {
      Err(p) => return found(Aspect::Panic, all, format!("compiling file0 panics: {}", p)),
      Ok(c) => results.push((c, dir)),
    }
  }
  cov.hashes.insert(str_hash(&all));
  let (a, b) = match (&results[0].0, &results[1].0) {
    (Ok(a), Ok(b)) => (a, b),
    (Err(_), Err(_)) => {
      cov.count("no layout compiles");
      return None;
    }
    (Ok(_), Err(e)) => {
      return found(Aspect::Other, all, format!("only layout 1 compiles: {}", show_errors(e)))
    }
    (Err(e), Ok(_)) => {
      return found(Aspect::Other, all, format!("only layout 2 compiles: {}", show_errors(e)))
    }
  };
  let named = files[0].as_ref().and_then(|f| f.header.as_ref()).map_or(false, |h| h.name.is_some());
  for src in &inputs {
    let ctx = || context_for(src, "", 0, src.len(), true);
    let (x, y) = match (parse(a, &ctx()), parse(b, &ctx())) {
      (Ok(x), Ok(y)) => (x, y),
      (Err(_), Err(_)) => return None,
      (Err(p), _) | (_, Err(p)) => {
        return found(Aspect::Other, all, format!("source {:?}: only one layout panics: {}", src, p))
      }
    };
    cov.inputs += 1;
    cov.events += 2;
    if let (false, Ok(x), Ok(y)) = (named, &x, &y) {
      // They are named by their paths, which are others
      x.borrow_mut().set_name("root");
      y.borrow_mut().set_name("root");
    }
    if let Some(d) = same_outcome(&x, &y) {
      return found(
        Aspect::Other,
        all,
        format!(
          "source {:?}: layout 1: {}; layout 2: {}; difference in {}",
          src,
          show_outcome(&x),
          show_outcome(&y),
          d
        ),
      );
    }
    cov.count(match &x {
      Ok(_) => "same token",
      Err(MatcherFailure::Fail) => "same failure",
      Err(_) => "same error",
    });
    for t in [x, y].iter().flatten() {
      unlink(t);
    }
  }
  cov.sample(|| all.clone());
  None
}

// ----------------------------------------------------------------------- defects

/// All the patterns of some patterns, of which `at` is replaced
fn replace_p(ps: &mut [P], at: &mut usize, by: &P) -> bool {
  for p in ps {
    if replace_one(p, at, by) {
      return true;
    }
  }
  false
}

fn replace_one(p: &mut P, at: &mut usize, by: &P) -> bool {
  if *at == 0 {
    let captured = p.captured;
    *p = by.clone();
    p.captured = captured;
    return true;
  }
  *at -= 1;
  match &mut p.m {
    M::Switch(ps) | M::Program(ps) => replace_p(ps, at, by),
    _ => false,
  }
}

fn count_p(p: &P) -> usize {
  1 + match &p.m {
    M::Switch(ps) | M::Program(ps) => ps.iter().map(count_p).sum(),
    _ => 0,
  }
}

const MARK: &str = "MARKED";

/// Put a marked pattern in the place of one of the patterns
fn mark(rng: &mut Rng, script: &mut Script) {
  let by = P::plain(M::Equals(MARK.to_string()));
  let mut total: usize = script.patterns.iter().map(count_p).sum();
  if let Some(h) = &script.header {
    for i in &h.items {
      if let Item::Assign(_, p) = i {
        total += count_p(p);
      }
    }
  }
  let mut at = rng.below(total);
  if let Some(h) = &mut script.header {
    for i in &mut h.items {
      if let Item::Assign(_, p) = i {
        if replace_one(p, &mut at, &by) {
          return;
        }
      }
    }
  }
  replace_p(&mut script.patterns, &mut at, &by);
}

/// Replace the marked pattern, written `<='MARKED'>`; where it starts
fn unmark(text: &str, by: &str) -> (String, usize) {
  let at = text.find(&format!("='{}'", MARK)).expect("marked");
  let start = text[..at].rfind('<').expect("marked");
  let end = at + text[at..].find('>').expect("marked") + 1;
  (format!("{}{}{}", &text[..start], by, &text[end..]), start)
}

struct Defect {
  kind: &'static str,
  text: String,
  /// Where, and what the whole message says
  located: Option<((usize, usize), &'static str)>,
  /// Where it is, if the error is about the whole pattern it is in
  within: Option<(usize, usize)>,
  /// What at least one of the messages contains
  says: &'static str,
}

/// A pattern that can not be compiled: what it is written as, what the error has
/// to say, and what is wrong with it.
fn broken(rng: &mut Rng) -> (String, &'static str, &'static str) {
  let attributes = *rng.pick(&["", "", "", " a='b'", " name='X' b='c'", "\tmin='1' "]);
  let marks = *rng.pick(&["", "", "", "?", "!"]);
  let after = *rng.pick(&["", "", "", "*", "+", "{1,3}", "{2,}"]);
  match rng.below(11) {
    0 => (
      format!("<{}=''{}>{}", marks, attributes, after),
      "empty",
      "empty text",
    ),
    1 => {
      let flags = *rng.pick(&["", "", "i", "s", "im", "sU"]);
      (
        format!("<{}//{}{}>{}", marks, flags, attributes, after),
        "empty",
        "empty regex",
      )
    }
    2 => (
      format!("<{}%'','b','c'{}>{}", marks, attributes, after),
      "start",
      "empty start",
    ),
    3 => (
      format!("<{}%'a','','c'{}>{}", marks, attributes, after),
      "end",
      "empty end",
    ),
    4 | 5 => {
      let regex = *rng.pick(&[
        "/(/",
        "/a[z-a]/",
        "/(?<é>/s",
        "/*/",
        "/a{2,1}/",
        "/\\p{Nothing}/",
        "/a)/",
        "/x|+/",
        "/(?P<a>b)(?P<a>c)/",
        "/(?:é/U",
      ]);
      (
        format!("<{}{}{}>{}", marks, regex, attributes, after),
        "regular expression",
        "invalid regex",
      )
    }
    6 => {
      let huge = *rng.pick(&[
        "99999999999999999999999",
        "18446744073709551616",
        "340282366920938463463374607431768211456",
      ]);
      let text = match rng.below(4) {
        0 => format!("{{1,{}}}", huge),
        1 => format!("{{{},}}", huge),
        2 => format!("{{ {} , {} }}", huge, huge),
        _ => format!("{{0 ,\t{} }}", huge),
      };
      (format!("<='a'>{}", text), "too large", "huge number")
    }
    _ => {
      let min = *rng.pick(&[1usize, 2, 3, 7, 10, 19, 100, 1000, 4096]);
      let max = match rng.below(4) {
        0 => 0,
        1 => min - 1,
        _ => rng.below(min),
      };
      let core = *rng.pick(&[
        "<='a'>",
        "</a/>",
        "<%'a','b','c'>",
        "<?='é'>",
        "?<='a'>",
        "!<='a'>",
        "<{(<='a'>)(<='b'>)}>",
        "<[<='a'>|<='b'>]>",
        "<{(<='a'>*)}>",
        "<Word a='b'>",
        "<!Word>",
      ]);
      let gap = |rng: &mut Rng| *rng.pick(&["", "", "", " ", "\t", "\t "]);
      let (a, b, c, d) = (gap(rng), gap(rng), gap(rng), gap(rng));
      (
        format!("{}{{{}{}{},{}{}{}}}", core, a, min, b, c, max, d),
        "smaller",
        "upside-down range",
      )
    }
  }
}

/// Text that starts as a pattern does, but is none, whatever is around it: a
/// bracket or a separator is missing, or is the wrong one.
fn unclosed(rng: &mut Rng) -> (String, &'static str) {
  let one = |rng: &mut Rng| {
    rng
      .pick(&[
        "<='a'>", "(<='é'>)", "</b/i>", "<!Word>", "<%'a','b','c'>*", "(?<='a'>)+", "<{<='x'>}>",
        "<[<='y'>|<Word>]>{1,2}", "<='a' b='}'>", "</[\\]}]/>",
      ])
      .to_string()
  };
  let gap = |rng: &mut Rng| *rng.pick(&["", "", " ", "\n", "\t \n"]);
  let attributes = *rng.pick(&["", "", "", " a='b'", " name='X' b='}'"]);
  let marks = *rng.pick(&["", "", "", "?", "!"]);
  let after = *rng.pick(&["", "", "", "*", "{1,3}"]);
  let (open, between) = if rng.pct(50) { ("{", "") } else { ("[", "|") };
  let mut inner = String::new();
  let n = rng.range(1, 3);
  for i in 0..n {
    inner.push_str(gap(rng));
    inner.push_str(&one(rng));
    inner.push_str(gap(rng));
    if i + 1 < n {
      inner.push_str(between);
    }
  }
  match rng.below(5) {
    0 => {
      let other = if open == "{" { "]" } else { "}" };
      (
        format!("<{}{}{}{}{}>{}", marks, open, inner, other, attributes, after),
        "the wrong bracket",
      )
    }
    1 => {
      let (a, b) = (one(rng), one(rng));
      let text = match rng.below(3) {
        0 => format!("<{}[{}{}{}]{}>{}", marks, a, gap(rng), b, attributes, after),
        1 => format!("<{}{{{}|{}}}{}>{}", marks, a, b, attributes, after),
        _ => format!("<{}[{}||{}]{}>{}", marks, a, b, attributes, after),
      };
      (text, "the wrong separator")
    }
    2 if open == "[" => (
      format!("<{}[{}|{}{}>{}", marks, inner, gap(rng), attributes, after),
      "no closing bracket",
    ),
    _ => (
      format!("<{}{}{}{}>{}", marks, open, inner, attributes, after),
      "no closing bracket",
    ),
  }
}

/// A pattern with both modifiers on one side, and where they are in it
fn both(rng: &mut Rng) -> (String, usize, &'static str) {
  let two = *rng.pick(&["?!", "!?"]);
  let core = *rng.pick(&[
    "='a'",
    "/é/",
    "/a/i",
    "%'a','b','c'",
    "Word",
    "{(<='a'>)<='b'>}",
    "[<='a'>|</b/>]",
    "='\\''",
  ]);
  let attributes = *rng.pick(&["", "", "", " a='b'", " name='X' b='>'"]);
  let after = *rng.pick(&["", "", "*", "+", "{1,3}", "{ 2 , }"]);
  if rng.pct(50) {
    let inner = *rng.pick(&["", "", "?", "!"]);
    (
      format!("{}<{}{}{}>{}", two, inner, core, attributes, after),
      0,
      "both outside",
    )
  } else {
    let outer = *rng.pick(&["", "", "?", "!"]);
    (
      format!("{}<{}{}{}>{}", outer, two, core, attributes, after),
      outer.len() + 1,
      "both inside",
    )
  }
}

/// A pattern with an attribute that can not be: one without single quotes around
/// its value, or one named with an underscore first. Also where that one is (its
/// value, or its name), and how long.
fn attributed(rng: &mut Rng, unquoted: bool) -> (String, usize, usize) {
  let mut by = String::new();
  by.push_str(*rng.pick(&["", "", "", "?", "!"]));
  by.push('<');
  by.push_str(*rng.pick(&["", "", "", "?", "!"]));
  by.push_str(*rng.pick(&[
    "='a'",
    "='é日'",
    "/b/",
    "/b/i",
    "%'a','b','c'",
    "Word",
    "{(<='a'>)<='b'>}",
    "[<='a'>|</b/>]",
  ]));
  let good = |rng: &mut Rng, by: &mut String| {
    for _ in 0..rng.weighted(&[50, 30, 20]) {
      by.push_str(*rng.pick(&[" ", "\n", "\t ", "  "]));
      by.push_str(*rng.pick(&[
        "a='c'",
        "e = ''",
        "x_y='>'",
        "name='日'",
        "B1='\\''",
        "a='c='",
      ]));
    }
  };
  good(rng, &mut by);
  by.push_str(*rng.pick(&[" ", " ", "\n", "\t", "  ", " \r\n"]));
  let (from, len);
  if unquoted {
    by.push_str(*rng.pick(&["b", "abc", "b_c", "B9"]));
    by.push_str(*rng.pick(&["=", "=", " = ", "= ", " ="]));
    from = by.len();
    // What is blamed goes on up to a blank or a quote
    by.push_str(*rng.pick(&["cd", "1", "\"cd\"", "日", "x=y", "é1", "`a`", "(", "c-d"]));
    by.push_str(*rng.pick(&["", ">"]));
    len = by.len() - from;
    by.push_str(*rng.pick(&[" ", "\n", "\t", " z='1'"]));
    if !by.contains('>') || rng.pct(50) {
      by.push('>');
    }
  } else {
    from = by.len();
    by.push_str(*rng.pick(&["_b", "_", "__message", "_1", "_b_c", "__", "_name"]));
    len = by.len() - from;
    by.push_str(*rng.pick(&["=", "=", " = ", "= ", " ="]));
    by.push_str(*rng.pick(&["'c'", "''", "'日'", "'>'", "'\\''"]));
    good(rng, &mut by);
    by.push_str(*rng.pick(&["", " ", "\n"]));
    by.push('>');
    by.push_str(*rng.pick(&["", "", "*", "{1,2}"]));
  }
  (by, from, len)
}

/// The pattern on its own or somewhere within another one
fn buried(rng: &mut Rng, by: String) -> String {
  let mut by = by;
  for _ in 0..rng.weighted(&[50, 30, 15, 5]) {
    by = match rng.below(6) {
      0 => format!("<{{{}}}>", by),
      1 => format!("<{{(<='b'>)(<!='c'>)\n{}}}>*", by),
      2 => format!("<[<='a'>|{}]>", by),
      3 => format!("!<[ {} | (</b/>)]>", by),
      4 => format!("<{{({})}}>", by),
      _ => format!("<?{{<Word>{}</y/>}} a='b'>{{1,2}}", by),
    };
  }
  by
}

const FIRST: &str = "the first pattern";
const LAST: &str = "the last pattern";
const BOTH: &str =
  "Can not use ? and ! at the same time in this context. Use one or the other, not both.";
const UNQUOTED: &str = "Malformed attribute detected. Attribute value is not single-quoted. The proper format for an attribute is: name='value'";
const UNDERSCORE: &str = "Attribute names can not start with an underscore";

fn defect(rng: &mut Rng, p: &ScriptProfile, file: bool) -> Defect {
  let free = *rng.pick(&[0, 30, 60]);
  let comments = rng.pct(50);
  let mut script = gen_script(rng, p, Vec::new());
  match rng.weighted(&[12, 10, 10, 14, 14, if file { 0 } else { 5 }]) {
    0 => {
      // Both modifiers
      mark(rng, &mut script);
      let text = layout_text(&script, rng, free, comments);
      let (by, skip, kind) = both(rng);
      let (text, at) = unmark(&text, &by);
      Defect {
        kind,
        text,
        located: Some(((at + skip, at + skip + 2), BOTH)),
        says: "Can not use ? and !",
        within: None,
      }
    }
    1 => {
      mark(rng, &mut script);
      let text = layout_text(&script, rng, free, comments);
      let (by, from, len) = attributed(rng, true);
      let (text, at) = unmark(&text, &by);
      let (start, end) = (at + from, at + from + len);
      Defect {
        kind: "unquoted attribute",
        text,
        located: Some(((start, end), UNQUOTED)),
        says: UNQUOTED,
        within: None,
      }
    }
    2 => {
      mark(rng, &mut script);
      let text = layout_text(&script, rng, free, comments);
      let (by, from, len) = attributed(rng, false);
      let (text, at) = unmark(&text, &by);
      Defect {
        kind: "underscore attribute",
        text,
        located: Some(((at + from, at + from + len), UNDERSCORE)),
        says: UNDERSCORE,
        within: None,
      }
    }
    3 => {
      mark(rng, &mut script);
      script.patterns.insert(0, P::plain(M::Equals(FIRST.to_string())));
      script.patterns.push(P::plain(M::Equals(LAST.to_string())));
      let text = layout_text(&script, rng, free, comments);
      let (by, says, kind) = broken(rng);
      let by = &buried(rng, by);
      let (text, at) = unmark(&text, by);
      Defect {
        kind,
        text,
        located: None,
        within: Some((at, at + by.len())),
        says,
      }
    }
    4 => {
      // The version
      if script.header.is_none() {
        script.header = Some(Header::default());
      }
      let h = script.header.as_mut().unwrap();
      h.name = Some("Main".to_string());
      let text = layout_text(&script, rng, free, comments);
      let head = text.find("<!--[adextopa").expect("header");
      let at = head + text[head..].find("version").expect("version");
      let value = at + text[at..].find("'1'").expect("version");
      let (with, kind) = match rng.below(5) {
        0 => (
          format!("{}{}", &text[..at], text[value + 3..].trim_start()),
          "no version",
        ),
        1 => (
          format!("{}versions{}", &text[..at], &text[at + 7..]),
          "no version",
        ),
        n => {
          let v = match n {
            2 => "'x'",
            3 => *rng.pick(&["''", "' 1'", "'1.0'", "'-1'", "'1é'", "'0x1'"]),
            _ => "'99999999999999999999999'",
          };
          let end = value + v.len();
          let text = format!("{}{}{}", &text[..value], v, &text[value + 3..]);
          return Defect {
            kind: "version is no number",
            text,
            located: Some((
              (at, end),
              "Adextopa 'version' attribute must be a valid integer number",
            )),
            says: "version",
            within: None,
          };
        }
      };
      Defect {
        kind,
        text: with,
        located: None,
        says: "version",
        within: Some((head, head + "<!--[adextopa".len())),
      }
    }
    _ => {
      // Imports, of a script that is no file
      let mut script = gen_script(
        rng,
        p,
        vec![Item::Import(
          vec![("A".to_string(), None)],
          0,
          "xaxo".to_string(),
        )],
      );
      // The import is the only one
      script.header.as_mut().unwrap().extra.clear();
      let text = layout_text(&script, rng, free, false);
      let end = text.find("'xaxo'").expect("import") + 6;
      let start = text[..end].rfind("import").expect("import");
      // `import` may also be the start of a name
      let start = if text[start..].starts_with("imports") {
        return Defect {
          kind: "import",
          text,
          located: None,
          says: "import",
          within: None,
        };
      } else {
        start
      };
      Defect {
        kind: "import",
        text,
        located: Some((
          (start, end),
          "Found import statement, but it is forbidden to use imports when not parsing from a file",
        )),
        says: "import",
        within: None,
      }
    }
  }
}

/// A script with one defect is rejected, for that reason
pub fn reject_case(rng: &mut Rng, p: &ScriptProfile, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  if rng.pct(12) {
    return text_around(rng, p, cov);
  }
  // Nothing, in a file, or in a file that another one imports
  let how = rng.weighted(&[6, 2, 2]);
  let d = defect(rng, p, how > 0);
  cov.inputs += 1;
  cov.count(&format!("defect:{}", d.kind));
  let mut head = format!("script with a defect ({}):\n{}\n", d.kind, d.text);
  let (result, file) = match how {
    0 => (compile(&d.text, "Script"), String::new()),
    _ => {
      let dir = scratch();
      let path = dir.0.join(*rng.pick(&["bad.axo", "é bad.axo"]));
      std::fs::write(&path, &d.text).expect("scratch file");
      let name = path.to_str().expect("utf-8").to_string();
      let main = if how == 1 {
        name.clone()
      } else {
        head.push_str("imported by a file that has none\n");
        let main = dir.0.join("main.axo");
        std::fs::write(
          &main,
          format!(
            "<!--[adextopa version='1']\nimport {{ _ as Other }} from {}\n-->(<Other>)",
            quote(path.file_name().unwrap().to_str().unwrap())
          ),
        )
        .expect("scratch file");
        main.to_str().expect("utf-8").to_string()
      };
      (compile_file(rng, &main), name)
    }
  };
  cov.events += 1;
  cov.hashes.insert(str_hash(&d.text));
  let errors = match result {
    Err(p) => return found(Aspect::Panic, head, format!("compiling it panics: {}", p)),
    Ok(Ok(_)) => return found(Aspect::Other, head, "it compiles".to_string()),
    Ok(Err(e)) => e,
  };
  cov.sample(|| format!("{:?} -> {}", d.text, show_errors(&errors)));
  if errors.is_empty() || errors.iter().any(|e| e.message.trim().is_empty()) {
    return found(
      Aspect::Other,
      head,
      format!("it is rejected without a reason: {}", show_errors(&errors)),
    );
  }
  if !errors.iter().any(|e| e.message.contains(d.says)) {
    return found(
      Aspect::Other,
      head,
      format!("no error says {:?}: {}", d.says, show_errors(&errors)),
    );
  }
  if let Some((range, msg)) = d.located {
    let expect = crate::linecol::messages(&d.text, &file, range, msg);
    let at = |e: &ParseError| e.range.map_or(false, |r| (r.start, r.end) == range);
    let n = errors
      .iter()
      .filter(|e| expect.accepts(&e.message) && at(e))
      .count();
    if n != 1 {
      return found(
        Aspect::Other,
        head,
        format!(
          "{} errors say {} at {:?}: {}",
          n,
          expect.show(),
          range,
          show_errors(&errors)
        ),
      );
    }
    cov.count("located");
  }
  if let Some(at) = d.within {
    // The pattern of the script or header that has the defect in it, and nothing else
    let good = errors.iter().filter(|e| e.message.contains(d.says)).all(|e| {
      let r = match e.range {
        Some(r) => (r.start, r.end),
        None => return false,
      };
      if r.0 > at.0 || r.1 < at.1 || r.1 > d.text.len() || !e.message.contains(": ") {
        return false;
      }
      let text = &d.text[r.0..r.1];
      let expect = crate::linecol::messages(&d.text, &file, r, "");
      !text.contains(FIRST) && !text.contains(LAST) && expect.begins(&e.message)
    });
    if !good {
      return found(
        Aspect::Other,
        head,
        format!("it is at {:?}, not where the errors are: {}", at, show_errors(&errors)),
      );
    }
    cov.count("located within");
  }
  None
}

/// Text that is not part of any pattern, and files that can not be read
fn text_around(rng: &mut Rng, p: &ScriptProfile, cov: &mut Cov) -> Option<Found> {
  cov.inputs += 1;
  cov.events += 1;
  if rng.pct(25) {
    let dir = scratch();
    let kind = rng.below(3);
    let path = match kind {
      0 => dir.0.join("missing.axo"),
      1 => dir.0.clone(),
      _ => {
        let path = dir.0.join("bytes.axo");
        std::fs::write(&path, [b'(', b'<', 0xff, 0xfe, b'>', b')']).expect("scratch file");
        path
      }
    };
    let name = path.to_str().expect("utf-8").to_string();
    let what = ["a missing file", "a directory", "bytes that are not text"][kind];
    cov.count(&format!("defect:{}", what));
    let head = format!("compiling {}", what);
    cov.hashes.insert(str_hash(what));
    return match compile_file(rng, &name) {
      Err(p) => found(Aspect::Panic, head, format!("panic: {}", p)),
      Ok(Ok(_)) => found(Aspect::Other, head, "it compiles".to_string()),
      Ok(Err(e)) => {
        if e.iter().any(|e| e.message.contains(&name)) {
          None
        } else {
          found(
            Aspect::Other,
            head,
            format!("no error says which file: {}", show_errors(&e)),
          )
        }
      }
    };
  }
  let mut script = gen_script(rng, p, Vec::new());
  let free = *rng.pick(&[0, 30, 60]);
  let junk = *rng.pick(&[
    "x", ")", ">", "<", "é", "'a'", "(<='a'>", "<!--", "=", "garbage here", "]", "}", "|", "-->", "日本",
    "\\", "\u{0}", "(", "()", "<>", "</a>", "(='a')", "1", ";", "%", "\u{feff}", "😀", "//", "?", "!",
    "< ='a' >>", "((<='a'>))", "</a/x>", "<=a>", "<%'a','b'>", "<=\"a\">", "<A B>",
  ]);
  let mut fault = None;
  let (kind, text) = match rng.below(8) {
    0 => {
      let mut text = layout_text(&script, rng, free, false);
      text.push_str(*rng.pick(&["", " ", "\n"]));
      fault = Some(text.len());
      ("text behind", format!("{}{}", text, junk))
    }
    5 | 6 | 7 => {
      // A pattern of the script, or of its header
      if rng.pct(70) {
        script.patterns.insert(0, P::plain(M::Equals("first".to_string())));
      }
      mark(rng, &mut script);
      let comments = rng.pct(50);
      let text = layout_text(&script, rng, free, comments);
      let (by, kind) = unclosed(rng);
      let by = buried(rng, by);
      let (text, at) = unmark(&text, &by);
      fault = Some(at);
      (kind, text)
    }
    1 => {
      let text = layout_text(&script, rng, free, false);
      // Never one that is a part of what is behind it
      let junk = match junk {
        "?" | "!" => "??",
        "x" | "1" | "garbage here" => "x ",
        junk => junk,
      };
      ("text in front", format!("{}{}", junk, text))
    }
    2 | 3 => {
      // A pattern of the script itself, or one in it
      script.patterns.push(P::plain(M::Equals("last".to_string())));
      script.patterns.insert(0, P::plain(M::Equals("first".to_string())));
      mark(rng, &mut script);
      let text = layout_text(&script, rng, free, false);
      // Never one that is a pattern together with what is around it
      let junk = *rng.pick(&[
        "garbage!", "é", "'a'", "='a'", "日本", "\u{0}", ";", "\u{feff}", "😀", "/a/", "</a/x>",
        "<=a>", "<%'a','b'>", "<=\"a\">", "<A B>", "<='a' 'b'>", "<A=B>", "<1>", "<='a'>>", "\\<='a'>",
      ]);
      let (text, at) = unmark(&text, junk);
      fault = Some(at);
      ("text in between", text)
    }
    _ => (
      "no pattern",
      rng
        .pick(&["", " ", "\n\t", "# only", "# a\n# b\n", "x", "é", "'a'", "="])
        .to_string(),
    ),
  };
  cov.count(&format!("defect:{}", kind));
  cov.hashes.insert(str_hash(&text));
  let head = format!("script with {}:\n{}\n", kind, text);
  match compile(&text, "Script") {
    Err(p) => found(Aspect::Panic, head, format!("compiling it panics: {}", p)),
    Ok(Ok(_)) => found(Aspect::Other, head, "it compiles".to_string()),
    Ok(Err(e)) => {
      if e.is_empty() || e.iter().any(|e| e.message.trim().is_empty()) {
        return found(
          Aspect::Other,
          head,
          format!("it is rejected without a reason: {}", show_errors(&e)),
        );
      }
      for e in e.iter().filter(|e| e.message.contains("Syntax error.")) {
        cov.count("syntax errors");
        let bad = misplaced(&text, fault, e);
        if let Some(why) = bad {
          return found(
            Aspect::Other,
            head,
            format!("the error {:?} at {:?}: {}", e.message, e.range, why),
          );
        }
      }
      None
    }
  }
}

/// A syntax error has to be where the patterns end: what is in front of it has
/// none, and it goes on with the text that is at fault, or with a pattern that
/// has that text in it.
fn misplaced(text: &str, fault: Option<usize>, e: &ParseError) -> Option<String> {
  let (start, end) = match e.range {
    Some(r) => (r.start, r.end),
    None => return Some("it has no range".to_string()),
  };
  if end != text.len() || start >= end || !text.is_char_boundary(start) {
    return Some("its range is not the rest of the script".to_string());
  }
  let says = format!(
    "Syntax error. Expected a pattern defintion, but instead found: {}",
    &text[start..]
  );
  let expect = crate::linecol::messages(text, "", (start, end), &says);
  if !expect.accepts(&e.message) {
    return Some(format!("expected {}", expect.show()));
  }
  // One more pattern, as a script of no patterns is none
  match compile(&format!("{}\n<='z'>", &text[..start]), "Script") {
    Ok(Ok(_)) => {}
    // It may have another defect than one of its syntax
    Ok(Err(e)) if !e.iter().any(|e| e.message.contains("Syntax error.")) => {}
    _ => return Some("what is in front of that is no script".to_string()),
  }
  match fault {
    // The text at fault may start with a pattern
    Some(at) if at < start => match compile(&text[at..start], "Script") {
      Ok(Ok(_)) => None,
      _ => Some(format!("the text at fault is at {}", at)),
    },
    Some(at) => match compile(&text[start..at], "Script") {
      Ok(Ok(_)) => Some("there is a pattern".to_string()),
      _ => None,
    },
    None => None,
  }
}

/// A script that is compiled twice, and run twice on every input
pub fn twice_case(rng: &mut Rng, p: &ScriptProfile, cov: &mut Cov) -> Option<Found> {
  cov.cases += 1;
  let script = gen_script(rng, p, Vec::new());
  let free = *rng.pick(&[0, 30]);
  let text = layout_text(&script, rng, free, false);
  let head = format!("script:\n{}\n", text);
  let (a, b) = match (compile(&text, "Script"), compile(&text, "Script")) {
    (Ok(Ok(a)), Ok(Ok(b))) => (a, b),
    (Ok(Err(a)), Ok(Err(b))) => {
      if a != b {
        return found(
          Aspect::Other,
          head,
          format!(
            "compiled twice, the errors are {} and {}",
            show_errors(&a),
            show_errors(&b)
          ),
        );
      }
      return None;
    }
    (Ok(Ok(_)), Ok(Err(e))) | (Ok(Err(e)), Ok(Ok(_))) => {
      return found(
        Aspect::Other,
        head,
        format!("compiled twice, it is rejected only once: {}", show_errors(&e)),
      )
    }
    _ => return None,
  };
  let ar = meaning(&script, "Script").expect("no imports");
  let mut inputs = inputs_for(rng, &ar, 4);
  inputs.truncate(defined(&ar, &inputs));
  // The inputs in order, then backwards; the second matcher only has those
  let mut first: Vec<Outcome> = Vec::new();
  for src in &inputs {
    let ctx = context_for(src, "", 0, src.len(), true);
    match parse(&a, &ctx) {
      Ok(o) => first.push(o),
      Err(_) => return None,
    }
  }
  for (i, src) in inputs.iter().enumerate().rev() {
    for (which, m) in [("the same matcher", &a), ("a second matcher of that script", &b)] {
      let ctx = context_for(src, "", 0, src.len(), true);
      cov.events += 1;
      let bad = match parse(m, &ctx) {
        Err(p) => Some(format!("panic: {}", p)),
        Ok(o) => {
          let d = same_outcome(&first[i], &o);
          let d = d.map(|d| {
            format!(
              "difference in {}: {} and {}",
              d,
              show_outcome(&first[i]),
              show_outcome(&o)
            )
          });
          if let Ok(t) = &o {
            unlink(t);
          }
          d
        }
      };
      if let Some(d) = bad {
        return found(
          Aspect::Other,
          format!("{}source {:?}\n", head, src),
          format!("{} has another result later: {}", which, d),
        );
      }
    }
    cov.inputs += 1;
    cov.hashes.insert(str_hash(src) ^ str_hash(&text));
  }
  for o in first.iter().flatten() {
    unlink(o);
  }
  cov.count("scripts compiled twice");
  None
}
