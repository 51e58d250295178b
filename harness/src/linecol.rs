//! The oracle for lines, columns, and error messages.

/// Number of the line that `at` is on, and the byte column on that line
/// (both start at 1). `\r\n`, `\n` and `\r` each end a line.
pub fn line_col(src: &str, at: usize) -> (usize, usize) {
  let bytes = src.as_bytes();
  let mut line = 1;
  let mut line_start = 0;
  let mut i = 0;
  while i < at {
    let len = if bytes[i] == b'\r' && i + 1 < bytes.len() && bytes[i + 1] == b'\n' {
      2
    } else if bytes[i] == b'\r' || bytes[i] == b'\n' {
      1
    } else {
      0
    };
    if len == 0 {
      i += 1;
      continue;
    }
    if i + len > at {
      break;
    }
    line += 1;
    i += len;
    line_start = i;
  }
  (line, at - line_start + 1)
}

/// An offset between the `\r` and the `\n` of one line end is on neither line
pub fn splits_line_end(src: &str, at: usize) -> bool {
  let b = src.as_bytes();
  at > 0 && at < b.len() && b[at - 1] == b'\r' && b[at] == b'\n'
}

fn span(a: usize, b: usize) -> String {
  if a == b {
    format!("{}", a)
  } else {
    format!("{}-{}", a, b)
  }
}

/// What an error message may look like. More than one answer is accepted where
/// nothing says which one is right: the last column of a range of several
/// lines, when that column is left of the first one.
pub fn messages(src: &str, file: &str, range: (usize, usize), msg: &str) -> Expect {
  if range.0 > range.1
    || range.1 > src.len()
    || !src.is_char_boundary(range.0)
    || !src.is_char_boundary(range.1)
    || splits_line_end(src, range.0)
    || splits_line_end(src, range.1)
  {
    return Expect::Ends(format!("]: {}", msg));
  }
  let (l0, c0) = line_col(src, range.0);
  let (l1, c1) = line_col(src, range.1);
  let mut out = vec![format!(
    "Error: {}@[{}:{}]: {}",
    file,
    span(l0, l1),
    span(c0, c1),
    msg
  )];
  if c1 < c0 {
    out.push(format!(
      "Error: {}@[{}:{}]: {}",
      file,
      span(l0, l1),
      span(c0, c0),
      msg
    ));
  }
  Expect::OneOf(out)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
  OneOf(Vec<String>),
  Ends(String),
}

impl Expect {
  pub fn is(text: &str) -> Expect {
    Expect::OneOf(vec![text.to_string()])
  }

  pub fn accepts(&self, text: &str) -> bool {
    match self {
      Expect::OneOf(all) => all.iter().any(|t| t == text),
      Expect::Ends(suffix) => text.ends_with(suffix.as_str()),
    }
  }

  /// Whether that is the start of the text, when the message is not known
  pub fn begins(&self, text: &str) -> bool {
    match self {
      Expect::OneOf(all) => all.iter().any(|t| text.starts_with(t.as_str())),
      Expect::Ends(_) => true,
    }
  }

  pub fn show(&self) -> String {
    match self {
      Expect::OneOf(all) => format!("{:?}", all),
      Expect::Ends(s) => format!("...{:?}", s),
    }
  }
}
