//! Which workloads decide which property, and which differences break it.

use crate::case::*;
use crate::contexts::contexts_case;
use crate::expr::KINDS;
use crate::families::*;
use crate::gen::{Profile, Tmpl};
use crate::model::*;
use crate::prints::*;
use crate::probe::*;
use crate::rng::Rng;
use crate::script::ScriptProfile;
use crate::scripts::*;

pub type Run = Box<dyn Fn(&mut Rng, &mut Cov, bool) -> Option<Found>>;

pub struct Family {
  pub name: &'static str,
  /// Cases of a quick run
  pub quick: u64,
  /// Cases of one process
  pub batch: u64,
  pub run: Run,
}

pub const IDS: [&str; 31] = [
  "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
  "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28",
  "C29", "C30", "C31",
];

fn expr(name: &'static str, quick: u64, p: Profile) -> Family {
  Family {
    name,
    quick,
    batch: 3000,
    run: Box::new(move |rng, cov, _| expr_case(rng, &p, cov)),
  }
}

fn plain(
  name: &'static str,
  quick: u64,
  batch: u64,
  f: impl Fn(&mut Rng, &mut Cov) -> Option<Found> + 'static,
) -> Family {
  Family {
    name,
    quick,
    batch,
    run: Box::new(move |rng, cov, _| f(rng, cov)),
  }
}

fn scale(quick: u64) -> Family {
  Family {
    name: "large",
    quick,
    batch: 60,
    run: Box::new(|rng, cov, thorough| scale_case(rng, cov, thorough)),
  }
}

fn debugs(quick: u64, p: Profile) -> Family {
  plain("debug", quick, 2000, move |rng, cov| debug_case(rng, &p, cov))
}

fn scripts(
  name: &'static str,
  quick: u64,
  p: ScriptProfile,
  f: fn(&mut Rng, &ScriptProfile, &mut Cov) -> Option<Found>,
) -> Family {
  plain(name, quick, 40, move |rng, cov| f(rng, &p, cov))
}

const SCRIPT: ScriptProfile = ScriptProfile {
  depth: 3,
  names: 4,
  header: 40,
  multibyte: 40,
};

/// The workloads of a check
pub fn families(id: &str) -> Vec<Family> {
  let base = Profile::base;
  let focus = Profile::focus;
  const N: u64 = 240_000;
  match id {
    "C01" => vec![
      expr("matchers", N, Profile { multibyte: 85, lines: 40, window: 40, ..base() }),
      expr(
        "matchers (text)",
        N / 2,
        Profile {
          multibyte: 85,
          lines: 30,
          window: 50,
          ..focus(&["Sequence", "Matches", "Discard", "ExpandRange"], &[Tmpl::Sequences, Tmpl::Lines])
        },
      ),
      plain("context", 30_000, 3000, context_case),
      plain("trees", 20_000, 2000, visitor_case),
      scale(240),
    ],
    "C02" => vec![
      expr("matchers", N, base()),
      expr(
        "matchers (composite)",
        N / 2,
        focus(
          &["Program", "Loop", "Switch", "ProxyChildren", "ExpandRange", "Discard"],
          &[Tmpl::Wrappers, Tmpl::Csv, Tmpl::Loops],
        ),
      ),
      scale(240),
    ],
    "C03" => vec![
      expr("matchers", N, Profile { multibyte: 60, window: 40, ..focus(&["Equals", "Matches"], &[Tmpl::Backref]) }),
      plain("context", 60_000, 3000, context_case),
      scale(120),
    ],
    "C04" => vec![
      expr("matchers", N, Profile { multibyte: 50, window: 30, ..focus(&["Sequence"], &[Tmpl::Sequences]) }),
      scale(400),
    ],
    "C05" => vec![
      expr("matchers", N, focus(&["Program"], &[Tmpl::Csv, Tmpl::Wrappers, Tmpl::Skips])),
      expr("matchers (all)", N / 3, base()),
      scale(200),
    ],
    "C06" => vec![
      expr("matchers", N, focus(&["Switch"], &[Tmpl::Choice])),
      expr("matchers (all)", N / 3, base()),
      scale(200),
    ],
    "C07" => vec![
      expr("matchers", N, focus(&["Loop"], &[Tmpl::Loops, Tmpl::Csv])),
      expr("matchers (all)", N / 3, base()),
      scale(400),
    ],
    "C08" => vec![
      expr("matchers", N, focus(&["Break", "Loop"], &[Tmpl::BreakNest])),
      expr("matchers (wrapped)", N / 2, focus(&["Break", "Discard", "Optional", "Switch", "Ref"], &[Tmpl::BreakNest, Tmpl::Wrappers])),
      scale(120),
    ],
    "C28" => vec![
      expr("matchers", N, focus(&["Map", "Catch", "Loop", "Switch"], &[Tmpl::BreakNest])),
      expr("matchers (wrapped)", N / 2, focus(&["Map", "Discard", "ProxyChildren", "Optional", "Ref"], &[Tmpl::BreakNest, Tmpl::Wrappers])),
    ],
    "C09" => vec![
      expr("matchers", N, focus(&["Optional", "Not"], &[Tmpl::Lookahead, Tmpl::Skips])),
      expr("matchers (all)", N / 3, base()),
    ],
    "C10" => vec![
      expr("matchers", N, focus(&["Discard", "ProxyChildren", "ExpandRange"], &[Tmpl::Wrappers, Tmpl::Skips])),
      expr("matchers (all)", N / 3, base()),
      scale(120),
    ],
    "C11" => vec![
      expr("matchers", N, focus(&["Pin", "Store"], &[Tmpl::Pin, Tmpl::Backref])),
      expr("matchers (all)", N / 3, base()),
      scale(400),
    ],
    "C12" => vec![
      expr("matchers", N, focus(&["Switch", "Optional", "Program"], &[Tmpl::Choice, Tmpl::Lookahead, Tmpl::Recursive])),
      expr("matchers (all)", N / 2, base()),
      scale(200),
    ],
    "C13" => vec![
      expr(
        "matchers",
        N,
        focus(&["Panic", "FatalIf", "FatalIfNot", "Catch"], &[Tmpl::Fatal, Tmpl::Errors]),
      ),
      expr("matchers (wrapped)", N / 3, focus(&["Panic", "Optional", "Not", "Switch", "Loop"], &[Tmpl::Fatal])),
    ],
    "C14" => vec![
      expr(
        "matchers",
        N,
        focus(&["Error", "AssertIf", "AssertIfNot"], &[Tmpl::Errors]),
      ),
      expr("matchers (wrapped)", N / 2, focus(&["Error", "AssertIf", "AssertIfNot", "Discard", "ProxyChildren", "Loop"], &[Tmpl::Errors, Tmpl::Wrappers])),
      scale(200),
    ],
    "C15" => vec![
      expr(
        "matchers",
        N,
        Profile {
          scopes: 50,
          fetch: 30,
          ..focus(
            &["Store", "StoreString", "Ref", "RefDirect", "Register", "SetScope", "SetScopeExplicit"],
            &[Tmpl::Scoping, Tmpl::Backref, Tmpl::Recursive],
          )
        },
      ),
      plain("scope", 60_000, 3000, scope_case),
    ],
    "C16" => vec![
      plain("positions", 60_000, 3000, linecol_case),
      expr(
        "matchers",
        N,
        Profile {
          lines: 85,
          multibyte: 60,
          ..focus(
            &["Error", "AssertIf", "AssertIfNot", "FatalIf", "FatalIfNot", "Panic"],
            &[Tmpl::Errors, Tmpl::Fatal, Tmpl::Lines],
          )
        },
      ),
      scale(120),
    ],
    "C17" => vec![plain("trees", 60_000, 2000, visitor_case)],
    "C18" => vec![
      expr("matchers", N, Profile { scopes: 30, share: 12, ..base() }),
      expr("matchers (state)", N / 2, Profile { scopes: 40, share: 12, ..focus(&["Store", "Ref", "SetScope", "SetScopeExplicit", "Break", "Pin"], &[Tmpl::Scoping, Tmpl::Backref, Tmpl::BreakNest]) }),
      scripts("scripts", 400, ScriptProfile { names: 0, ..SCRIPT }, twice_case),
      Family {
        name: "histories",
        quick: 24,
        batch: 1,
        run: Box::new(|rng, cov, thorough| history_case(rng, &Profile { scopes: 0, ..Profile::base() }, cov, thorough)),
      },
    ],
    "C19" => vec![
      expr("matchers", N, Profile { multibyte: 60, lines: 40, window: 40, depth: (2, 7), ..base() }),
      plain("positions", 20_000, 3000, linecol_case),
      plain("context", 20_000, 3000, context_case),
      plain("scope", 20_000, 3000, scope_case),
      plain("trees", 10_000, 2000, visitor_case),
      scripts("scripts", 200, ScriptProfile { names: 0, ..SCRIPT }, script_case),
      scale(800),
    ],
    "C20" => vec![
      debugs(120_000, Profile { multibyte: 60, window: 40, ..base() }),
      expr("matchers", N / 2, Profile { multibyte: 60, window: 40, ..focus(&["Debug"], &[]) }),
    ],
    "C21" => vec![scripts("scripts", 9600, SCRIPT, script_case)],
    "C22" => vec![scripts("scripts", 9600, ScriptProfile { names: 0, header: 100, depth: 2, ..SCRIPT }, script_case)],
    "C23" => vec![
      scripts("texts", 12000, SCRIPT, garbage_case),
      scripts("files", 3600, SCRIPT, garbage_files_case),
    ],
    "C24" => vec![scripts("files", 4800, ScriptProfile { names: 0, depth: 2, ..SCRIPT }, import_case)],
    "C25" => vec![
      scripts("layouts", 4800, ScriptProfile { header: 60, ..SCRIPT }, layout_case),
      scripts("layouts of files", 1600, ScriptProfile { names: 0, depth: 2, ..SCRIPT }, file_layout_case),
    ],
    "C26" => vec![scripts("defects", 9600, SCRIPT, reject_case)],
    "C27" => vec![
      expr("matchers", N, focus(&["Map", "MapAttributes", "MapRename", "Catch", "Null"], &[Tmpl::Wrappers, Tmpl::Skips])),
      expr("matchers (all)", N / 3, base()),
    ],
    "C29" => {
      let p = Profile { scopes: 0, ..base() };
      let q = Profile {
        scopes: 0,
        ..focus(&["Program", "Loop", "Switch", "Ref", "Discard", "Optional", "ProxyChildren", "Map", "Debug"], &[Tmpl::Wrappers, Tmpl::Backref, Tmpl::BreakNest])
      };
      vec![
        plain("edited matchers", 60_000, 1000, move |rng, cov| edit_case(rng, &p, cov)),
        plain("edited matchers (wrappers)", 60_000, 1000, move |rng, cov| edit_case(rng, &q, cov)),
      ]
    }
    "C31" => vec![plain("contexts", 60_000, 1000, contexts_case)],
    "C30" => {
      let p = Profile { multibyte: 60, lines: 30, ..base() };
      let q = Profile {
        multibyte: 60,
        ..focus(&["Equals", "Matches", "Sequence", "Program", "Loop", "Switch", "Error", "MapAttributes"], &[Tmpl::Wrappers, Tmpl::Csv])
      };
      vec![
        plain("printed", 60_000, 1000, move |rng, cov| print_case(rng, &p, cov)),
        scripts("printed scripts", 1200, ScriptProfile { header: 60, ..SCRIPT }, printed_case),
        plain("printed (trees)", 60_000, 1000, move |rng, cov| print_case(rng, &q, cov)),
      ]
    }
    _ => Vec::new(),
  }
}

/// Whether a difference breaks the property
pub fn breaks(id: &str, family: &str, d: &Div) -> bool {
  let k = kind_name(d.kind);
  // Where it only shows when nothing is observed, each matcher of the
  // expression can be the one that does it
  let is = |names: &[&str]| {
    names.contains(&k)
      || d.within != 0 && names.iter().any(|n| KINDS.iter().position(|x| x == n).map_or(false, |i| d.within >> i & 1 == 1))
  };
  let composite = is(&["Program", "Loop", "Switch"]);
  let tags = d.child_tags | d.exp_tags | d.act_tags;
  let dead = matches!(d.aspect, Aspect::Panic | Aspect::Hang | Aspect::Crash);
  let about_exprs = family.starts_with("matchers") || family == "large";
  if !about_exprs {
    return match id {
      "C19" => dead,
      "C20" => true,
      // Where reading of scripts is not what the property is about
      _ => true,
    };
  }
  match id {
    "C01" => {
      d.aspect == Aspect::Text
        || dead && (d.detail.contains("byte index") || d.detail.contains("char boundary"))
    }
    "C02" => {
      (composite || is(&["tokenize", "ProxyChildren", "ExpandRange", "Discard"]))
        && matches!(
          d.aspect,
          Aspect::Matched
            | Aspect::Captured
            | Aspect::Children
            | Aspect::Name
            | Aspect::Flags
            | Aspect::Class
        )
        || matches!(d.aspect, Aspect::Shared | Aspect::Parent | Aspect::Unobserved)
    }
    "C03" => is(&["Equals", "Matches"]),
    "C04" => is(&["Sequence"]),
    "C05" => is(&["Program"]),
    "C06" => is(&["Switch"]),
    "C07" => is(&["Loop"]),
    "C08" => is(&["Break"]) || tags & T_BRK != 0,
    "C28" => tags & T_CONT != 0,
    "C09" => is(&["Optional", "Not"]),
    "C10" => {
      is(&["Discard", "ProxyChildren", "ExpandRange"])
        || composite && d.child_tags & (T_PROXY | T_SKIP | T_SKIP0) != 0
    }
    "C11" => is(&["Pin"]) || d.child_tags & T_PIN != 0,
    "C12" => (d.child_tags | d.exp_tags | d.act_tags) & T_FAIL != 0,
    "C13" => {
      is(&["Panic", "FatalIf", "FatalIfNot", "Catch"])
        || (d.child_tags | d.exp_tags | d.act_tags) & T_ERR != 0
    }
    "C14" => is(&["Error", "AssertIf", "AssertIfNot"]) || tags & T_ERRTOK != 0,
    "C15" => {
      is(&[
        "Store",
        "StoreString",
        "Ref",
        "RefDirect",
        "Register",
        "SetScope",
        "SetScopeExplicit",
      ]) || d.fetch
        || d.aspect == Aspect::Scope
    }
    "C16" => matches!(d.aspect, Aspect::Message | Aspect::ErrorRange),
    "C18" => matches!(d.aspect, Aspect::Unobserved | Aspect::Scope),
    "C19" => dead,
    "C20" => is(&["Debug"]),
    "C27" => is(&["Map", "MapAttributes", "MapRename", "Catch", "Null"]),
    _ => false,
  }
}

pub fn rule(id: &str) -> &'static str {
  match id {
    "C16" => "Cases are sources with all kinds of line ends and characters, asked for the line and column of offsets, and random matchers that report errors in such sources. Counted are distinct (source, offset) queries and distinct monitored traces.",
    "C17" => "Cases are random token trees with random visitors and searches. Counted are distinct trees with the calls observed.",
    "C20" => "Cases are random matchers with Debug put around random parts, run next to the same matcher without. Counted are distinct (matcher, source, result).",
    "C21" | "C22" => "Cases are random scripts that are compiled and run on inputs made for them, next to a reference model of what the script means. Counted are distinct (source, result) pairs that were compared.",
    "C23" => "Cases are random texts, pieces of syntax, and damaged scripts. Counted are distinct texts compiled (twice each).",
    "C24" => "Cases are random sets of script files that import each other, compiled from a scratch directory and run on inputs made for them. Counted are distinct sets of files, and (source, result) pairs compared.",
    "C25" => "Cases are random scripts written in three layouts. Counted are distinct scripts whose layouts were compiled and compared.",
    "C26" => "Cases are random scripts with one defect of a known kind put at a random place. Counted are distinct texts.",
    "C29" => "Cases are random matcher expressions that are changed in place (a child replaced, a pattern added, a name set) before and between parses; after each change what the matchers tell about themselves is compared, and each parse with the reference model of the changed expression. Counted are distinct traces of the model.",
    "C30" => "Cases are random matchers with what they return on sources made for them, and random token trees, all of them printed; each printed text is compared with what it has to show. Counted are distinct matchers, (matcher, source) pairs and trees.",
    "C31" => "Cases are histories of changes of several contexts on one or two sources, copies of contexts, and parses in them; after every step each context has to say what it was given, and each parse is compared with one in a context that was only just made. Counted are distinct histories.",
    _ => "Cases are random matcher expressions, each run on several sources made for it; probes around every matcher record what is executed where, with which result, and a monitor compares that with the trace of a reference model. Counted are distinct monitored traces (matcher kinds, places, results); each has at least two events.",
  }
}
