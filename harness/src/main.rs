//! mon check <id>            run a check (VERIF_SEED, VERIF_TIER)
//! mon case <id> <family> <seed> <index> <tier>
//! mon replay <file>         run the case that a replay file names
//! mon worker ...            some cases, in a process of their own
mod case;
mod checks;
mod contexts;
mod expr;
mod families;
mod forms;
mod gen;
mod linecol;
mod model;
mod prints;
mod probe;
mod rng;
mod rx;
mod script;
mod scripts;

use case::*;
use checks::*;
use probe::*;
use rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
const STACK: usize = 256 << 20;

fn case_seed(id: &str, family: &str, seed: u64, index: u64) -> u64 {
  let mut h = str_hash(id);
  h = mix(h ^ str_hash(family));
  h = mix(h ^ seed.wrapping_mul(0x9E3779B97F4A7C15));
  mix(h ^ index.wrapping_mul(0xD1B54A32D192ED03))
}

fn escape(s: &str) -> String {
  s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

fn unescape(s: &str) -> String {
  let mut out = String::new();
  let mut chars = s.chars();
  while let Some(c) = chars.next() {
    if c != '\\' {
      out.push(c);
      continue;
    }
    match chars.next() {
      Some('n') => out.push('\n'),
      Some('t') => out.push('\t'),
      Some('r') => out.push('\r'),
      Some(c) => out.push(c),
      None => {}
    }
  }
  out
}

/// Seconds of processor time this process has used
fn cpu_time() -> f64 {
  let stat = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
  let rest = stat.rsplit(')').next().unwrap_or("");
  let f: Vec<&str> = rest.split_whitespace().collect();
  let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
  (n(11) + n(12)) / 100.0
}

// ------------------------------------------------------------------------ worker

struct Job {
  id: String,
  family: String,
  seed: u64,
  from: u64,
  count: u64,
  thorough: bool,
}

fn aspect_name(a: Aspect) -> String {
  format!("{:?}", a)
}

fn found_line(job: &Job, index: u64, counts: bool, f: &Found) -> String {
  format!(
    "F\t{}\t{}\t{}\t{}\t{}\t{}\n",
    if counts { "violation" } else { "other" },
    job.family,
    index,
    aspect_name(f.div.aspect),
    kind_name(f.div.kind),
    escape(&f.text)
  )
}

/// Run the cases of a job, and write what was seen to `out`
fn work(job: Job, out: PathBuf) {
  std::panic::set_hook(Box::new(|_| {}));
  let progress = out.with_extension("at");
  let done = std::thread::Builder::new()
    .stack_size(STACK)
    .spawn({
      let out = out.clone();
      move || {
        let family = match families(&job.id).into_iter().find(|f| f.name == job.family) {
          Some(f) => f,
          None => return,
        };
        let mut cov = Cov::default();
        let mut text = String::new();
        let (mut bad, mut other) = (0, 0);
        let at = std::fs::File::create(&progress).expect("progress file");
        for index in job.from..job.from + job.count {
          use std::os::unix::fs::FileExt;
          let _ = at.write_all_at(&index.to_le_bytes(), 0);
          CASE.store(index, Ordering::Relaxed);
          let mut rng = Rng::new(case_seed(&job.id, &job.family, job.seed, index));
          if let Some(f) = (family.run)(&mut rng, &mut cov, job.thorough) {
            let counts = breaks(&job.id, family.name, &f.div);
            if counts {
              bad += 1;
              text.push_str(&found_line(&job, index, true, &f));
            } else {
              other += 1;
              if other <= 3 {
                text.push_str(&found_line(&job, index, false, &f));
              }
            }
            if bad >= 2 || other >= 300 {
              break;
            }
          }
        }
        CASE.store(u64::MAX, Ordering::Relaxed);
        let _ = writeln!(
          text,
          "C\t{}\t{}\t{}\t{}\t{}",
          cov.cases, cov.inputs, cov.events, cov.tokens, other
        );
        for (k, n) in &cov.counts {
          let _ = writeln!(text, "N\t{}\t{}", escape(k), n);
        }
        for ((k, class), n) in &cov.seen {
          let _ = writeln!(text, "K\t{}\t{}\t{}", kind_name(*k), class, n);
        }
        for s in &cov.samples {
          let _ = writeln!(text, "S\t{}", escape(s));
        }
        for s in &cov.others {
          let _ = writeln!(text, "O\t{}", escape(s));
        }
        let mut hashes = Vec::with_capacity(cov.hashes.len() * 8);
        for h in &cov.hashes {
          hashes.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(out.with_extension("hashes"), hashes).expect("hashes");
        std::fs::write(&out, text).expect("results");
        // What is left leaks on purpose: no need to free it
        std::process::exit(0);
      }
    })
    .expect("thread");
  // Cases are short. One that uses much processor time does not end.
  let (mut last, mut since) = (u64::MAX, cpu_time());
  while !done.is_finished() {
    std::thread::sleep(Duration::from_millis(100));
    let now = CASE.load(Ordering::Relaxed);
    let cpu = cpu_time();
    if now != last {
      last = now;
      since = cpu;
    } else if now != u64::MAX && cpu - since > 20.0 {
      std::fs::write(
        &out,
        format!("H\t{}\t{}\n", now, CURRENT_KIND.load(Ordering::Relaxed)),
      )
      .expect("results");
      std::process::exit(0);
    }
  }
  std::process::exit(3);
}

// -------------------------------------------------------------------- supervisor

#[derive(Default)]
struct Total {
  cases: u64,
  inputs: u64,
  events: u64,
  tokens: u64,
  others: u64,
  counts: BTreeMap<String, u64>,
  seen: BTreeMap<String, BTreeMap<String, u64>>,
  hashes: HashSet<u64>,
  samples: Vec<String>,
  notes: Vec<String>,
  violations: Vec<(String, u64, String)>,
  cases_of: BTreeMap<String, u64>,
  processes: u64,
}

struct Running {
  child: std::process::Child,
  out: PathBuf,
  family: String,
  from: u64,
  count: u64,
  since: Instant,
}

fn me() -> PathBuf {
  std::env::current_exe().expect("own path")
}

fn launch(
  id: &str,
  family: &str,
  seed: u64,
  from: u64,
  count: u64,
  tier: &str,
  dir: &Path,
  n: u64,
) -> Running {
  let out = dir.join(format!("w{}", n));
  let child = std::process::Command::new("sh")
    .arg("-c")
    .arg("ulimit -c 0; ulimit -v 6000000; exec \"$0\" \"$@\"")
    .arg(me())
    .arg("worker")
    .args([id, family, &seed.to_string(), &from.to_string(), &count.to_string(), tier])
    .arg(&out)
    .env("MON_SCRATCH", dir)
    .stdout(std::process::Stdio::null())
    .stderr(std::process::Stdio::null())
    .spawn()
    .expect("worker");
  Running {
    child,
    out,
    family: family.to_string(),
    from,
    count,
    since: Instant::now(),
  }
}

fn crashed(aspect: Aspect, kind: usize, what: &str) -> Found {
  Found {
    div: Div {
      aspect,
      kind,
      child_tags: 0,
      exp_tags: 0,
      act_tags: 0,
      fetch: false,
      within: 0,
      detail: what.to_string(),
    },
    text: format!("{} (in {})", what, kind_name(kind)),
  }
}

fn read_results(id: &str, r: &Running, total: &mut Total) -> bool {
  let text = match std::fs::read_to_string(&r.out) {
    Ok(t) => t,
    Err(_) => return false,
  };
  for line in text.lines() {
    let f: Vec<&str> = line.split('\t').collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    match f[0] {
      "C" => {
        total.cases += n(1);
        total.inputs += n(2);
        total.events += n(3);
        total.tokens += n(4);
        total.others += n(5);
        *total.cases_of.entry(r.family.clone()).or_insert(0) += n(1);
      }
      "N" => *total.counts.entry(unescape(f[1])).or_insert(0) += n(2),
      "K" => {
        *total
          .seen
          .entry(f[1].to_string())
          .or_default()
          .entry(f[2].to_string())
          .or_insert(0) += n(3)
      }
      "S" => {
        if total.samples.len() < 8 && (r.from / r.count.max(1)) % 5 == 0 {
          total.samples.push(unescape(f[1]));
        }
      }
      "O" => {
        if total.notes.len() < 10 {
          total.notes.push(unescape(f[1]));
        }
      }
      "F" => {
        let text = format!("({} of {}) {}", f[4], f[5], unescape(f[6]));
        if f[1] == "violation" {
          total.violations.push((f[2].to_string(), n(3), text));
        } else if total.notes.len() < 10 {
          total.notes.push(format!("breaks another property: case {} {}: {}", f[2], n(3), text));
        }
      }
      "H" => {
        let d = crashed(Aspect::Hang, n(2) as usize, "it does not end");
        if breaks(id, &r.family, &d.div) {
          total.violations.push((r.family.clone(), n(1), d.text));
        } else {
          total.others += 1;
          if total.notes.len() < 10 {
            total.notes.push(format!("case {} of {}: {}", n(1), r.family, d.text));
          }
        }
        return false;
      }
      _ => {}
    }
  }
  if let Ok(h) = std::fs::read(r.out.with_extension("hashes")) {
    for c in h.chunks_exact(8) {
      if total.hashes.len() < 20_000_000 {
        total.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
      }
    }
  }
  true
}

fn forget(r: &Running) {
  for e in ["", "at", "hashes", "kind"] {
    let p = if e.is_empty() { r.out.clone() } else { r.out.with_extension(e) };
    let _ = std::fs::remove_file(p);
  }
}

/// A process died: does the case it was in do that again?
fn confirm_crash(
  id: &str,
  r: &Running,
  seed: u64,
  tier: &str,
  dir: &Path,
  total: &mut Total,
) -> Option<u64> {
  let bytes = std::fs::read(r.out.with_extension("at")).ok()?;
  let index = u64::from_le_bytes(bytes.get(..8)?.try_into().ok()?);
  let kind_file = r.out.with_extension("kind");
  std::env::set_var("MON_TRACE", &kind_file);
  let mut again = launch(id, &r.family, seed, index, 1, tier, dir, 1_000_000 + index);
  std::env::remove_var("MON_TRACE");
  let status = again.child.wait().ok()?;
  let died = !status.success() && !again.out.exists();
  forget(&again);
  if died {
    let kind = std::fs::read(&kind_file)
      .ok()
      .and_then(|b| Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize))
      .unwrap_or(KIND_NONE);
    let d = crashed(Aspect::Crash, kind, &format!("the process dies ({})", status));
    if breaks(id, &r.family, &d.div) {
      total.violations.push((r.family.clone(), index, d.text));
    } else {
      total.others += 1;
      if total.notes.len() < 10 {
        total.notes.push(format!("case {} of {}: {}", index, r.family, d.text));
      }
    }
  } else {
    *total.counts.entry("processes that died, not confirmed".to_string()).or_insert(0) += 1;
  }
  Some(index)
}

fn json(s: &str) -> String {
  let mut out = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => out.push_str("\\\""),
      '\\' => out.push_str("\\\\"),
      '\n' => out.push_str("\\n"),
      c if (c as u32) < 32 => {
        let _ = write!(out, "\\u{:04x}", c as u32);
      }
      c => out.push(c),
    }
  }
  out.push('"');
  out
}

fn clip(s: &str, n: usize) -> String {
  if s.chars().count() <= n {
    s.to_string()
  } else {
    s.chars().take(n).chain("...".chars()).collect()
  }
}

fn json_counts(m: &BTreeMap<String, u64>) -> String {
  let all: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
  format!("{{{}}}", all.join(", "))
}

fn json_list(l: &[String], n: usize) -> String {
  let all: Vec<String> = l.iter().map(|s| json(&clip(s, n))).collect();
  format!("[{}]", all.join(", "))
}

fn evidence(id: &str, tier: &str, seed: u64, wall: f64, t: &Total, complete: bool) -> String {
  let seen: Vec<String> = t
    .seen
    .iter()
    .map(|(k, m)| format!("{}: {}", json(k), json_counts(m)))
    .collect();
  format!(
    "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"cases\": {},\n  \"cases_by_workload\": {},\n  \"events_observed\": {},\n  \"tokens_walked\": {},\n  \"results_by_matcher\": {{{}}},\n  \"counts\": {},\n  \"processes\": {},\n  \"planned_cases_all_run\": {},\n  \"differences_of_other_properties\": {},\n  \"notes\": {},\n  \"samples\": {}\n }},\n \"wall_s\": {:.1},\n \"violations\": {},\n \"assumptions\": [{}]\n}}\n",
    json(id),
    json(tier),
    seed,
    t.inputs,
    t.hashes.len(),
    json(rule(id)),
    t.cases,
    json_counts(&t.cases_of),
    t.events,
    t.tokens,
    seen.join(", "),
    json_counts(&t.counts),
    t.processes,
    complete,
    t.others,
    json_list(&t.notes, 1200),
    json_list(&t.samples, 600),
    wall,
    t.violations.len(),
    json("The reference model and the generators in /verif/harness say correctly what has to happen; see DESIGN.md for what is left out.")
  )
}

fn known_findings(root: &Path, id: &str) -> Vec<String> {
  std::fs::read_to_string(root.join("known_findings.txt"))
    .unwrap_or_default()
    .lines()
    .filter(|l| l.starts_with(&format!("known: property={} ", id)))
    .map(|l| l["known: ".len()..].to_string())
    .collect()
}

fn root_dir() -> PathBuf {
  PathBuf::from(std::env::var("MON_ROOT").unwrap_or("/verif".to_string()))
}

fn check(id: &str) -> i32 {
  let start = Instant::now();
  let seed: u64 = std::env::var("VERIF_SEED")
    .ok()
    .and_then(|s| s.trim().parse::<i64>().ok())
    .unwrap_or(1) as u64;
  let tier = match std::env::var("VERIF_TIER").as_deref() {
    Ok("thorough") => "thorough",
    _ => "quick",
  };
  let thorough = tier == "thorough";
  let cap = Duration::from_secs(
    std::env::var("MON_SECONDS")
      .ok()
      .and_then(|s| s.parse().ok())
      .unwrap_or(if thorough { 720 } else { 150 }),
  );
  let factor: f64 = std::env::var("MON_FACTOR")
    .ok()
    .and_then(|s| s.parse().ok())
    .unwrap_or(if thorough { 40.0 } else { 1.0 });
  let cpus = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
  let root = root_dir();
  let scratch = scripts::scratch();
  let dir = scratch.0.clone();
  let known = known_findings(&root, id);
  if !known.is_empty() {
    std::env::set_var("MON_KNOWN", known.join("\n"));
  }

  // Workloads take turns
  let fams = families(id);
  let mut todo: Vec<(String, u64, u64, u64)> = fams
    .iter()
    .map(|f| {
      (
        f.name.to_string(),
        0,
        (f.quick as f64 * factor) as u64,
        f.batch,
      )
    })
    .collect();
  let mut total = Total::default();
  let mut running: Vec<Running> = Vec::new();
  let mut rest: Vec<(String, u64, u64)> = Vec::new();
  let mut n = 0;
  let mut complete = true;
  loop {
    let stop = !total.violations.is_empty() || total.others > 4000;
    let late = start.elapsed() > cap;
    while !stop && !late && running.len() < cpus {
      let next = if let Some((family, from, count)) = rest.pop() {
        Some((family, from, count))
      } else {
        // The workload of which the smallest part is done
        let best = todo
          .iter_mut()
          .filter(|t| t.1 < t.2)
          .min_by(|a, b| (a.1 as f64 / a.2 as f64).total_cmp(&(b.1 as f64 / b.2 as f64)));
        best.map(|t| {
          let count = t.3.min(t.2 - t.1);
          let from = t.1;
          t.1 += count;
          (t.0.clone(), from, count)
        })
      };
      match next {
        None => break,
        Some((family, from, count)) => {
          n += 1;
          running.push(launch(id, &family, seed, from, count, tier, &dir, n));
        }
      }
    }
    if late && (todo.iter().any(|t| t.1 < t.2) || !rest.is_empty()) {
      complete = false;
    }
    if running.is_empty() {
      break;
    }
    let mut i = 0;
    while i < running.len() {
      let status = running[i].child.try_wait().expect("wait");
      let over = running[i].since.elapsed() > Duration::from_secs(400);
      if status.is_none() && !over {
        i += 1;
        continue;
      }
      let mut r = running.swap_remove(i);
      if status.is_none() {
        let _ = r.child.kill();
        let _ = r.child.wait();
        *total.counts.entry("processes stopped".to_string()).or_insert(0) += 1;
        forget(&r);
        continue;
      }
      total.processes += 1;
      if r.out.exists() {
        if !read_results(id, &r, &mut total) {
          // A case that does not end: on with those behind it
          *total.counts.entry("cases that do not end".to_string()).or_insert(0) += 1;
        }
      } else if total.violations.is_empty() {
        if let Some(index) = confirm_crash(id, &r, seed, tier, &dir, &mut total) {
          let end = r.from + r.count;
          if index + 1 < end && total.others < 200 {
            rest.push((r.family.clone(), index + 1, end - index - 1));
          }
        }
      }
      forget(&r);
    }
    std::thread::sleep(Duration::from_millis(5));
  }
  drop(scratch);

  let wall = start.elapsed().as_secs_f64();
  let _ = std::fs::create_dir_all(root.join("evidence"));
  std::fs::write(
    root.join("evidence").join(format!("{}.json", id)),
    evidence(id, tier, seed, wall, &total, complete),
  )
  .expect("evidence");
  println!(
    "{} {}: {} cases, {} inputs, {} events, {} distinct, {:.1} s",
    id,
    tier,
    total.cases,
    total.inputs,
    total.events,
    total.hashes.len(),
    wall
  );
  for n in total.notes.iter().take(3) {
    println!("note: {}", clip(n, 700));
  }
  for k in &known {
    let name = k.split("key=").nth(1).and_then(|x| x.split_whitespace().next()).unwrap_or("");
    if total.counts.get(&format!("known:{}", name)).map_or(false, |n| *n > 0) {
      println!("KNOWN-FINDING: {}", k);
    }
  }
  if total.violations.is_empty() {
    return 0;
  }
  let replays = root.join("replays");
  let _ = std::fs::create_dir_all(&replays);
  for (family, index, text) in total.violations.iter().take(3) {
    let path = replays.join(format!(
      "{}-{}-{}-{}.txt",
      id,
      family.replace(|c: char| !c.is_alphanumeric(), "_"),
      seed,
      index
    ));
    let body = format!(
      "case\t{}\t{}\t{}\t{}\t{}\n# run it again: /verif/check.sh replay {}\n\n{}\n",
      id,
      family,
      seed,
      index,
      tier,
      path.display(),
      text
    );
    std::fs::write(&path, body).expect("replay");
    println!("{}", clip(text, 3000));
    println!("VIOLATION property={} replay={}", id, path.display());
  }
  1
}

fn one_case(id: &str, family: &str, seed: u64, index: u64, tier: &str) -> i32 {
  let (id, name, tier) = (id.to_string(), family.to_string(), tier.to_string());
  std::thread::Builder::new()
    .stack_size(STACK)
    .spawn(move || {
      std::panic::set_hook(Box::new(|_| {}));
      let family = families(&id)
        .into_iter()
        .find(|f| f.name == name)
        .expect("workload");
      let mut rng = Rng::new(case_seed(&id, &name, seed, index));
      let mut cov = Cov::default();
      match (family.run)(&mut rng, &mut cov, tier == "thorough") {
        None => {
          eprintln!("no difference ({} inputs, {} events)", cov.inputs, cov.events);
          for s in &cov.samples {
            eprintln!("{}", s);
          }
          0
        }
        Some(f) => {
          eprintln!(
            "{} of {}, {} {}",
            aspect_name(f.div.aspect),
            kind_name(f.div.kind),
            if breaks(&id, family.name, &f.div) { "breaks" } else { "does not break" },
            id
          );
          eprintln!("{}", f.text);
          1
        }
      }
    })
    .expect("thread")
    .join()
    .unwrap_or(2)
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let a: Vec<&str> = args.iter().skip(1).map(|s| s.as_str()).collect();
  let num = |s: &str| s.parse::<u64>().expect("number");
  let code = match a.as_slice() {
    ["check", id] if IDS.contains(id) => check(id),
    ["worker", id, family, seed, from, count, tier, out] => {
      if let Ok(p) = std::env::var("MON_TRACE") {
        trace_kinds(&p);
      }
      work(
        Job {
          id: id.to_string(),
          family: family.to_string(),
          seed: num(seed),
          from: num(from),
          count: num(count),
          thorough: *tier == "thorough",
        },
        PathBuf::from(out),
      );
      0
    }
    ["case", id, family, seed, index, tier] => one_case(id, family, num(seed), num(index), tier),
    ["replay", file] => {
      let text = std::fs::read_to_string(file).expect("replay file");
      let first: Vec<String> = text.lines().next().unwrap_or("").split('\t').map(String::from).collect();
      one_case(&first[1], &first[2], num(&first[3]), num(&first[4]), &first[5])
    }
    ["list"] => {
      for id in IDS {
        for f in families(id) {
          println!("{} {} {}", id, f.name, f.quick);
        }
      }
      0
    }
    ["compile"] => {
      // The script on standard input, to see what it compiles to
      let text = std::io::read_to_string(std::io::stdin()).expect("text");
      let r = adextopa_core::script::current::parser::compile_script_from_str(&text, "Script".to_string(), 0);
      println!("{:?}", r.map(|_| ()));
      0
    }
    _ => {
      eprintln!("usage: mon check <id> | case <id> <workload> <seed> <index> <tier> | replay <file> | list");
      2
    }
  };
  let _ = std::io::stdout().flush();
  std::process::exit(code);
}
