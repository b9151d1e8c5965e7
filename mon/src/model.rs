//! Reference model of the Twitch IRC grammar (property C03), written from the property
//! statements only: plain `find`/`split` on the input, no shared code with the crate.

#[derive(Debug, Clone)]
pub struct RMsg<'a> {
  /// `None`: there is no tag section
  pub tags: Option<Vec<(&'a str, &'a str)>>,
  /// every `;`-separated item of the tag section has a `=`, i.e. `tags` is specified
  pub tags_specified: bool,
  /// text between the `:` and the space
  pub prefix: Option<&'a str>,
  pub command: &'a str,
  pub channel: Option<&'a str>,
  pub params: Option<&'a str>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RPrefix<'a> {
  Parts {
    nick: Option<&'a str>,
    user: Option<&'a str>,
    host: &'a str,
  },
  /// not one of the three shapes
  Unspecified,
}

/// `None`: the line must be rejected.
pub fn parse(s: &str) -> Option<RMsg<'_>> {
  let mut rest = s;
  let mut tags = None;
  let mut tags_specified = true;
  if rest.starts_with('@') {
    if let Some(i) = rest.find(' ') {
      let section = &rest[1..i];
      rest = &rest[i + 1..];
      let mut v = Vec::new();
      if !section.is_empty() {
        let mut items: Vec<&str> = section.split(';').collect();
        // a trailing `;` adds no item
        if items.last() == Some(&"") {
          items.pop();
        }
        for item in items {
          match item.find('=') {
            Some(j) => v.push((&item[..j], &item[j + 1..])),
            None => tags_specified = false,
          }
        }
      }
      tags = Some(v);
    }
  }
  let mut prefix = None;
  if rest.starts_with(':') {
    if let Some(i) = rest.find(' ') {
      prefix = Some(&rest[1..i]);
      rest = &rest[i + 1..];
    }
  }
  let (command, mut rest) = word(rest);
  if command.is_empty() {
    return None;
  }
  let mut channel = None;
  if rest.starts_with('#') {
    let (c, r) = word(rest);
    channel = Some(c);
    rest = r;
  }
  let params = if rest.is_empty() { None } else { Some(rest) };
  Some(RMsg {
    tags,
    tags_specified,
    prefix,
    command,
    channel,
    params,
  })
}

fn word(s: &str) -> (&str, &str) {
  match s.find(' ') {
    Some(i) => (&s[..i], &s[i + 1..]),
    None => (s, ""),
  }
}

pub enum RChannel<'a> {
  Is(Option<&'a str>),
  Unspecified,
}

impl<'a> RMsg<'a> {
  pub fn tag(&self, key: &str) -> Option<&'a str> {
    self
      .tags
      .as_ref()?
      .iter()
      .find(|(k, _)| *k == key)
      .map(|(_, v)| *v)
  }

  pub fn text(&self) -> Option<&'a str> {
    let p = self.params?;
    Some(match p.find(':') {
      Some(i) => &p[i + 1..],
      None => p,
    })
  }

  pub fn channel(&self) -> RChannel<'a> {
    let n = match self.command {
      "353" => 2,
      "366" => 1,
      _ => return RChannel::Is(self.channel),
    };
    let Some(p) = self.params else {
      return RChannel::Is(None);
    };
    let a = p.split(' ').filter(|w| !w.is_empty()).nth(n);
    let b = p.split_whitespace().nth(n);
    if a == b {
      RChannel::Is(a)
    } else {
      RChannel::Unspecified
    }
  }

  pub fn prefix_parts(&self) -> Option<RPrefix<'a>> {
    let p = self.prefix?;
    let bangs = p.matches('!').count();
    let ats = p.matches('@').count();
    Some(match (bangs, ats) {
      (0, 0) => RPrefix::Parts {
        nick: None,
        user: None,
        host: p,
      },
      (0, 1) => {
        let (n, h) = p.split_once('@').unwrap();
        RPrefix::Parts {
          nick: Some(n),
          user: None,
          host: h,
        }
      }
      (1, 1) => {
        let (n, uh) = p.split_once('!').unwrap();
        match uh.split_once('@') {
          Some((u, h)) => RPrefix::Parts {
            nick: Some(n),
            user: Some(u),
            host: h,
          },
          None => RPrefix::Unspecified,
        }
      }
      _ => RPrefix::Unspecified,
    })
  }

  /// nick of the sender, three-valued
  pub fn nick(&self) -> Result<Option<&'a str>, ()> {
    match self.prefix_parts() {
      None => Ok(None),
      Some(RPrefix::Parts { nick, .. }) => Ok(nick),
      Some(RPrefix::Unspecified) => Err(()),
    }
  }
}

/// Reference unescape (property C07).
pub fn unescape(s: &str) -> String {
  let mut out = String::new();
  let cs: Vec<char> = s.chars().collect();
  let mut i = 0;
  while i < cs.len() {
    let mut c = cs[i];
    i += 1;
    if c == '\\' {
      if i == cs.len() {
        break; // lone trailing backslash
      }
      c = cs[i];
      i += 1;
      let mapped = match c {
        ':' => ';',
        's' => ' ',
        '\\' => '\\',
        'r' => '\r',
        'n' => '\n',
        '⸝' => ',',
        other => other, // the backslash is dropped
      };
      out.push(mapped);
    } else if c == '⸝' {
      out.push(',');
    } else {
      out.push(c);
    }
  }
  out
}

/// Inverse of `unescape` for text without `⸝`.
pub fn escape(s: &str, commas: bool) -> String {
  let mut out = String::new();
  for c in s.chars() {
    match c {
      ';' => out.push_str("\\:"),
      ' ' => out.push_str("\\s"),
      '\\' => out.push_str("\\\\"),
      '\r' => out.push_str("\\r"),
      '\n' => out.push_str("\\n"),
      ',' if commas => out.push('⸝'),
      c => out.push(c),
    }
  }
  out
}

pub fn needs_unescape(s: &str) -> bool {
  s.contains('\\') || s.contains('⸝')
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Num<T> {
  Valid(T),
  Invalid,
  /// a spelling the property does not settle (`+5`, `-0`)
  Unclear,
}

/// Non-negative decimal number that fits in 64 bits.
pub fn num_u64(s: &str) -> Num<u64> {
  if let Some(r) = s.strip_prefix('+') {
    return match digits(r) {
      Some(_) => Num::Unclear,
      None => Num::Invalid,
    };
  }
  if let Some(r) = s.strip_prefix('-') {
    return match digits(r) {
      Some(Some(0)) => Num::Unclear,
      _ => Num::Invalid,
    };
  }
  match digits(s) {
    Some(Some(v)) if v <= u64::MAX as u128 => Num::Valid(v as u64),
    _ => Num::Invalid,
  }
}

/// Decimal number that fits in a signed 64-bit integer; numbers outside are `Unclear`
/// when `out_of_range_unclear`, else `Invalid`.
pub fn num_i64(s: &str, out_of_range_unclear: bool) -> Num<i64> {
  let oor = if out_of_range_unclear { Num::Unclear } else { Num::Invalid };
  if let Some(r) = s.strip_prefix('+') {
    return match digits(r) {
      Some(_) => Num::Unclear,
      None => Num::Invalid,
    };
  }
  if let Some(r) = s.strip_prefix('-') {
    return match digits(r) {
      Some(Some(0)) => Num::Unclear,
      Some(Some(v)) if v <= 1u128 << 63 => Num::Valid((-(v as i128)) as i64),
      Some(_) => oor,
      None => Num::Invalid,
    };
  }
  match digits(s) {
    Some(Some(v)) if v <= i64::MAX as u128 => Num::Valid(v as i64),
    Some(_) => oor,
    None => Num::Invalid,
  }
}

/// `None`: not a digit string; `Some(None)`: too large
fn digits(s: &str) -> Option<Option<u128>> {
  if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
    return None;
  }
  let mut v: u128 = 0;
  for b in s.bytes() {
    v = match v.checked_mul(10).and_then(|v| v.checked_add((b - b'0') as u128)) {
      Some(v) => v,
      None => return Some(None),
    };
  }
  Some(Some(v))
}
