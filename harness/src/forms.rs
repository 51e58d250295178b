//! The macros that matchers are written with, in each of their forms. Names
//! have to be literals in many of them, so only some names can be used.
use adextopa_core::{matcher::MatcherRef, *};

/// `$form!(name, kids)`, with the name as a literal
macro_rules! with_name {
  ($name:expr, $form:ident, $($rest:expr),*) => {
    match $name {
      "A" => $form!("A", $($rest),*),
      "B" => $form!("B", $($rest),*),
      "C" => $form!("C", $($rest),*),
      "Loop" => $form!("Loop", $($rest),*),
      "Item" => $form!("Item", $($rest),*),
      "L1" => $form!("L1", $($rest),*),
      "L2" => $form!("L2", $($rest),*),
      "L" => $form!("L", $($rest),*),
      "L12" => $form!("L12", $($rest),*),
      "é" => $form!("é", $($rest),*),
      "v1" => $form!("v1", $($rest),*),
      "a.b" => $form!("a.b", $($rest),*),
      "" => $form!("", $($rest),*),
      _ => None,
    }
  };
}

macro_rules! program_form {
  ($l:literal, $k:expr) => {
    match $k {
      [a] => Some(Program!($l; a.clone())),
      [a, b] => Some(Program!($l; a.clone(), b.clone(),)),
      [a, b, c] => Some(Program!($l; a.clone(), b.clone(), c.clone())),
      [a, b, c, d] => Some(Program!($l; a.clone(), b.clone(), c.clone(), d.clone(),)),
      _ => None,
    }
  };
}

macro_rules! switch_form {
  ($l:literal, $k:expr) => {
    match $k {
      [a] => Some(Switch!($l; a.clone())),
      [a, b] => Some(Switch!($l; a.clone(), b.clone(),)),
      [a, b, c] => Some(Switch!($l; a.clone(), b.clone(), c.clone())),
      [a, b, c, d] => Some(Switch!($l; a.clone(), b.clone(), c.clone(), d.clone(),)),
      _ => None,
    }
  };
}

macro_rules! loop_form {
  ($l:literal, $k:expr) => {
    match $k {
      [a] => Some(Loop!($l; a.clone())),
      [a, b] => Some(Loop!($l; a.clone(), b.clone(),)),
      [a, b, c] => Some(Loop!($l; a.clone(), b.clone(), c.clone())),
      _ => None,
    }
  };
}

macro_rules! range_loop_form {
  ($l:literal, $k:expr, $r:expr) => {
    match $k {
      [a] => Some(Loop!($r; $l; a.clone())),
      [a, b] => Some(Loop!($r; $l; a.clone(), b.clone(),)),
      [a, b, c] => Some(Loop!($r; $l; a.clone(), b.clone(), c.clone())),
      _ => None,
    }
  };
}

macro_rules! proxy_form {
  ($l:literal, $k:expr) => {
    Some(ProxyChildren!($l; $k.clone()))
  };
}

macro_rules! store_form {
  ($l:literal, $v:expr) => {
    match $v {
      "a" => Some(Store!($l; "a")),
      "b" => Some(Store!($l; "b")),
      "x" => Some(Store!($l; "x")),
      "" => Some(Store!($l; "")),
      _ => None,
    }
  };
}

pub fn program(name: Option<&str>, kids: &[MatcherRef]) -> Option<MatcherRef> {
  match name {
    Some(name) => with_name!(name, program_form, kids),
    None => match kids {
      [a] => Some(Program!(a.clone(),)),
      [a, b] => Some(Program!(a.clone(), b.clone())),
      [a, b, c] => Some(Program!(a.clone(), b.clone(), c.clone(),)),
      [a, b, c, d] => Some(Program!(a.clone(), b.clone(), c.clone(), d.clone())),
      _ => None,
    },
  }
}

pub fn switch(name: Option<&str>, kids: &[MatcherRef]) -> Option<MatcherRef> {
  match name {
    Some(name) => with_name!(name, switch_form, kids),
    None => match kids {
      [a] => Some(Switch!(a.clone(),)),
      [a, b] => Some(Switch!(a.clone(), b.clone())),
      [a, b, c] => Some(Switch!(a.clone(), b.clone(), c.clone(),)),
      [a, b, c, d] => Some(Switch!(a.clone(), b.clone(), c.clone(), d.clone())),
      _ => None,
    },
  }
}

/// A loop, with `None` for no upper bound, or the bound itself
pub fn looped(name: Option<&str>, kids: &[MatcherRef], min: usize, max: Option<usize>) -> Option<MatcherRef> {
  match (name, max) {
    (Some(name), None) if min == 0 => with_name!(name, loop_form, kids),
    (Some(name), None) => with_name!(name, range_loop_form, kids, min..),
    (Some(name), Some(max)) => with_name!(name, range_loop_form, kids, min..max),
    (None, None) if min == 0 => match kids {
      [a] => Some(Loop!(a.clone(),)),
      [a, b] => Some(Loop!(a.clone(), b.clone())),
      [a, b, c] => Some(Loop!(a.clone(), b.clone(), c.clone(),)),
      _ => None,
    },
    (None, None) => match kids {
      [a] => Some(Loop!(min..; a.clone(),)),
      [a, b] => Some(Loop!(min..; a.clone(), b.clone())),
      [a, b, c] => Some(Loop!(min..; a.clone(), b.clone(), c.clone(),)),
      _ => None,
    },
    (None, Some(max)) => match kids {
      [a] => Some(Loop!(min..max; a.clone(),)),
      [a, b] => Some(Loop!(min..max; a.clone(), b.clone())),
      [a, b, c] => Some(Loop!(min..max; a.clone(), b.clone(), c.clone(),)),
      _ => None,
    },
  }
}

pub fn proxy(name: &str, kid: &MatcherRef) -> Option<MatcherRef> {
  with_name!(name, proxy_form, kid)
}

pub fn store_string(name: &str, value: &str) -> Option<MatcherRef> {
  with_name!(name, store_form, value)
}

pub fn debug(mode: usize, kid: Option<&MatcherRef>) -> Option<MatcherRef> {
  Some(match (mode, kid) {
    (0, Some(kid)) => Debug!(0; kid.clone()),
    (1, Some(kid)) => Debug!(kid.clone()),
    (2, Some(kid)) => Debug!(2; kid.clone()),
    (3, Some(kid)) => Debug!(3; kid.clone()),
    (1, None) => Debug!(),
    (2, None) => Debug!(2;),
    _ => return None,
  })
}

pub fn register(kids: &[MatcherRef]) -> Option<MatcherRef> {
  match kids {
    [a] => Some(Register!(a.clone())),
    [a, b] => Some(Register!(a.clone(), b.clone(),)),
    [a, b, c] => Some(Register!(a.clone(), b.clone(), c.clone())),
    _ => None,
  }
}
