//! The oracles over raw messages, names, unescaping and channel names.

mod names;
#[cfg(feature = "serde")]
pub mod serde;
#[cfg(feature = "typed")]
pub mod typed;

pub use names::TAGS;

use crate::model::{self, RChannel, RPrefix};
use crate::place::{Arena, Exact};
use crate::rng::fnv;
use crate::{guarded, Obs};
use std::cell::RefCell;
use std::fmt::Write;
use tmi::{Command, IrcMessage, IrcMessageRef, Tag};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Raw {
  pub raw: String,
  pub tags: Vec<(String, String)>,
  pub prefix: Option<(Option<String>, Option<String>, String)>,
  pub command: String,
  pub channel: Option<String>,
  pub params: Option<String>,
  pub text: Option<String>,
}

#[macro_export]
macro_rules! raw_obs {
  ($m:expr) => {{
    let m = $m;
    $crate::oracle::Raw {
      raw: m.raw().to_string(),
      tags: m.tags().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
      prefix: m.prefix().map(|p| {
        (
          p.nick.map(str::to_string),
          p.user.map(str::to_string),
          p.host.to_string(),
        )
      }),
      command: m.command().as_str().to_string(),
      channel: m.channel().map(str::to_string),
      params: m.params().map(str::to_string),
      text: m.text().map(str::to_string),
    }
  }};
}

pub fn short(s: impl std::fmt::Debug) -> String {
  let s = format!("{s:?}");
  if s.len() > 300 {
    let mut n = 300;
    while !s.is_char_boundary(n) {
      n -= 1;
    }
    format!("{}... ({} bytes)", &s[..n], s.len())
  } else {
    s
  }
}

thread_local! {
  static ARENA: RefCell<Arena> = RefCell::new(Arena::new());
}

const FILLS: &[&[u8]] = &[b" ", b";", b"=", b";= a", b"=v;k", b"\xff", b"a", b" :#@!", b"\0"];

/// Run `f` on a copy of `s` at an address derived from its content, surrounded by bytes
/// that look like delimiters.
fn placed<T>(s: &str, f: impl FnOnce(&str) -> T) -> T {
  let h = fnv(s.as_bytes());
  ARENA.with(|a| {
    let mut a = a.borrow_mut();
    let p = a.place(s, (h % 64) as usize, FILLS[(h >> 8) as usize % FILLS.len()]);
    f(p)
  })
}

fn count_raw(s: &str, m: Option<&IrcMessageRef<'_>>, o: &mut Obs) {
  match m {
    None => o.hit("rejected"),
    Some(m) => {
      o.decided = true;
      o.hit("accepted");
      let n = m.tags().count();
      match n {
        0 => {}
        1 => o.hit("tags:1"),
        2..=32 => o.hit("tags:2-32"),
        33..=127 => o.hit("tags:33-127"),
        128..=129 => o.hit("tags:128-129"),
        _ => o.hit("tags:130+"),
      }
      if m.tags().any(|(k, v)| k.len() > 65534 || v.len() > 65534) {
        o.hit("tag>64KiB");
      }
      if m.tags().any(|(_, v)| v.contains('=')) {
        o.hit("value-with-equals");
      }
      match m.prefix() {
        None => {}
        Some(p) if p.user.is_some() => o.hit("prefix:nick!user@host"),
        Some(p) if p.nick.is_some() => o.hit("prefix:nick@host"),
        Some(_) => o.hit("prefix:host"),
      }
      if m.channel().is_some() {
        o.hit("channel");
      }
      if m.params().is_some() {
        o.hit("params");
      }
    }
  }
  if !s.is_ascii() {
    o.hit("multibyte");
  }
}

/// Looking every tag up is quadratic, so of a very long tag list only a part is looked up: both
/// ends, the neighbourhood of every power of two, and a stride through the rest.
fn looked_up(n: usize) -> impl Iterator<Item = usize> {
  let stride = (n / 600).max(1);
  (0..n).filter(move |&i| {
    n <= 2500
      || i < 140
      || n - i < 140
      || i % stride == 0
      || (i.next_power_of_two() - i).min(i - i.next_power_of_two() / 2) < 3
  })
}

/// Everything a user can do with one string; the only verdict is "it returned".
pub fn c01(s: &str, o: &mut Obs) {
  placed(s, |s| c01_on(s, o))
}

fn c01_on(s: &str, o: &mut Obs) {
  let r = guarded(|| {
    let mut sink = String::new();
    let mut kind = "rejected";
    if let Some(m) = IrcMessageRef::parse(s) {
      kind = "accepted";
      let _ = write!(sink, "{m:?}{m:#?}");
      let x = raw_obs!(&m);
      for i in looked_up(x.tags.len()) {
        let _ = m.tag(x.tags[i].0.as_str());
      }
      for (t, _) in TAGS {
        let _ = m.tag(t.clone());
      }
      for (k, _) in m.tags() {
        let t = Tag::parse(k);
        let _ = write!(sink, "{t}{t:?}");
      }
      if let Some(p) = m.prefix() {
        let _ = write!(sink, "{p}{p:?}");
      }
      let c = m.command();
      let _ = write!(sink, "{c}{c:?}");
      let c = m.clone();
      let owned = c.into_owned();
      let _ = write!(sink, "{owned:?}");
      let _ = raw_obs!(&owned);
      let _ = raw_obs!(&owned.as_ref());
      for (t, _) in TAGS.iter().take(3) {
        let _ = owned.tag(t.clone());
      }
    }
    if let Some(m) = IrcMessage::parse(s) {
      let _ = write!(sink, "{m:?}");
      let _ = raw_obs!(&m);
      #[cfg(feature = "typed")]
      let _ = m.as_typed().map(|t| typed::exercise(&t, &mut sink));
    }
    #[cfg(feature = "typed")]
    typed::exercise_all(s, &mut sink);
    let u = tmi::unescape(s);
    let v = tmi::maybe_unescape(s);
    sink.push_str(&u);
    sink.push_str(&v);
    let _ = tmi::maybe_unescape(s.to_string());
    (kind, sink.len())
  });
  match r {
    Ok((kind, _)) => {
      o.decided = true;
      o.hit(kind);
      o.outcome = format!("returned ({kind})");
      count_raw_safe(s, o);
    }
    Err(p) => o.v(format!("panic {}", p.at), format!("panicked at {}: {}", p.at, p.msg)),
  }
}

fn count_raw_safe(s: &str, o: &mut Obs) {
  let m = IrcMessageRef::parse(s);
  let d = o.decided;
  count_raw(s, m.as_ref(), o);
  o.decided |= d;
}

// ---------------------------------------------------------------------------------------

#[cfg(not(miri))]
thread_local! {
  static GUARD: RefCell<crate::place::Guarded> = RefCell::new(crate::place::Guarded::new(64));
}

/// Placements: exact heap block (ASan, Miri, valgrind), flush against inaccessible pages on
/// either side, and two different surroundings that must not change the result.
pub fn c02(s: &str, o: &mut Obs) {
  let h = fnv(s.as_bytes());
  let _ = guarded(|| {
    let e = Exact::new(s, (h % 17) as usize);
    c02_on(e.get(), o);
  });
  #[cfg(not(miri))]
  GUARD.with(|g| {
    let mut g = g.borrow_mut();
    if s.len() <= g.capacity() {
      let _ = guarded(|| c02_on(g.right(s), o));
      let _ = guarded(|| c02_on(g.left(s), o));
      o.hit("guard-page placements");
      o.hit("guard-page placements");
    }
  });
  // the surroundings must not matter
  let mut seen: Vec<Option<Option<Raw>>> = vec![];
  ARENA.with(|a| {
    let mut a = a.borrow_mut();
    for i in 0..3usize {
      let align = ((h >> (8 * i)) % 64) as usize;
      let p = a.place(s, align, FILLS[((h >> 24) as usize + i) % FILLS.len()]);
      seen.push(guarded(|| IrcMessageRef::parse(p).map(|m| raw_obs!(&m))).ok());
    }
  });
  o.hits("alignments", 3);
  if seen.windows(2).any(|w| w[0] != w[1]) {
    o.v(
      "surroundings",
      format!("the result depends on bytes outside the input or on its alignment: {}", short(&seen)),
    );
  }
}

fn c02_on(s: &str, o: &mut Obs) {
  o.hit("executions");
  let Some(m) = IrcMessageRef::parse(s) else {
    o.hit("rejected");
    o.decided = true;
    return;
  };
  o.hit("accepted");
  o.decided = true;
  let (lo, hi) = (s.as_ptr() as usize, s.as_ptr() as usize + s.len());
  let mut n = 0;
  let mut inside = |what: &str, x: &str, o: &mut Obs| {
    n += 1;
    let (a, b) = (x.as_ptr() as usize, x.as_ptr() as usize + x.len());
    if a < lo || b > hi {
      o.v(
        format!("outside:{what}"),
        format!("{what} is not a slice of the input: {lo:#x}..{hi:#x} vs {a:#x}..{b:#x}"),
      );
    } else if !s.is_char_boundary(a - lo) || !s.is_char_boundary(b - lo) {
      o.v(
        format!("boundary:{what}"),
        format!("{what} {}..{} is not on character boundaries", a - lo, b - lo),
      );
    } else if std::str::from_utf8(x.as_bytes()).is_err() {
      o.v(format!("utf8:{what}"), format!("{what} is not valid UTF-8"));
    }
  };
  inside("raw", m.raw(), o);
  for (k, v) in m.tags() {
    inside("tag key", k, o);
    inside("tag value", v, o);
  }
  if let Some(p) = m.prefix() {
    if let Some(x) = p.nick {
      inside("nick", x, o)
    }
    if let Some(x) = p.user {
      inside("user", x, o)
    }
    inside("host", p.host, o);
  }
  if let Command::Other(c) = m.command() {
    inside("command", c, o)
  }
  if let Some(x) = m.channel() {
    inside("channel", x, o)
  }
  if let Some(x) = m.params() {
    inside("params", x, o)
  }
  if let Some(x) = m.text() {
    inside("text", x, o)
  }
  if let Some(x) = m.tag("id") {
    inside("tag lookup", x, o)
  }
  o.hits("slices checked", n);
  // touch every unsafe path behind the accessors
  let owned = m.clone().into_owned();
  let _ = raw_obs!(&owned);
  #[cfg(feature = "typed")]
  {
    let mut sink = String::new();
    if let Ok(t) = m.as_typed() {
      o.hit("typed");
      typed::exercise(&t, &mut sink);
    }
  }
  let _ = tmi::maybe_unescape(s);
}

// ---------------------------------------------------------------------------------------

pub fn c03(s: &str, o: &mut Obs) {
  placed(s, |s| c03_on(s, o))
}

fn c03_on(s: &str, o: &mut Obs) {
  let exp = model::parse(s);
  let mut shown = None;
  let got = guarded(|| {
    IrcMessageRef::parse(s).map(|m| {
      shown = Some((m.prefix().map(|p| p.to_string()), m.command().to_string()));
      raw_obs!(&m)
    })
  });
  let got = match got {
    Ok(g) => g,
    Err(p) => {
      o.v(format!("panic {}", p.at), format!("no result: panicked at {}: {}", p.at, p.msg));
      return;
    }
  };
  o.decided = true;
  let (exp, got) = match (exp, got) {
    (None, None) => {
      o.hit("rejected");
      o.outcome = "rejected".into();
      return;
    }
    (Some(e), Some(g)) => (e, g),
    (e, g) => {
      o.v(
        "accept",
        format!("grammar accepts: {}, crate accepts: {}", e.is_some(), g.is_some()),
      );
      return;
    }
  };
  {
    let m = IrcMessageRef::parse(s);
    count_raw(s, m.as_ref(), o);
  }
  o.outcome = format!("accepted {} with {} tags", got.command, got.tags.len());
  let mut cmp = |what: &str, e: String, g: String| {
    if e != g {
      o.v(what, format!("{what}: expected {}, got {}", short(e), short(g)));
    }
  };
  cmp("raw", s.to_string(), got.raw.clone());
  if exp.tags_specified {
    let e: Vec<(String, String)> = exp
      .tags
      .iter()
      .flatten()
      .map(|(k, v)| (k.to_string(), v.to_string()))
      .collect();
    if e != got.tags {
      let at = e.iter().zip(&got.tags).position(|(a, b)| a != b);
      cmp(
        "tags",
        format!("{} tags, first difference at {at:?}: {:?}", e.len(), at.map(|i| &e[i])),
        format!("{} tags, {:?}", got.tags.len(), at.map(|i| &got.tags[i])),
      );
    }
  }
  match exp.prefix_parts() {
    None => cmp("prefix", format!("{:?}", None::<()>), format!("{:?}", got.prefix)),
    Some(RPrefix::Parts { nick, user, host }) => {
      cmp(
        "prefix",
        format!("{:?}", Some((nick, user, host))),
        format!("{:?}", got.prefix),
      );
      cmp("printed prefix", format!("{:?}", exp.prefix), format!("{:?}", shown.as_ref().and_then(|s| s.0.as_deref())));
    }
    Some(RPrefix::Unspecified) => {
      if got.prefix.is_none() {
        cmp("prefix", "some prefix".into(), "None".into())
      }
    }
  }
  cmp("command", exp.command.into(), got.command.clone());
  cmp("printed command", exp.command.into(), shown.as_ref().map(|s| s.1.clone()).unwrap_or_default());
  match exp.channel() {
    RChannel::Is(c) => cmp("channel", format!("{c:?}"), format!("{:?}", got.channel)),
    RChannel::Unspecified => {}
  }
  cmp("params", format!("{:?}", exp.params), format!("{:?}", got.params));
  cmp("text", format!("{:?}", exp.text()), format!("{:?}", got.text));
}

// ---------------------------------------------------------------------------------------

pub fn c05(s: &str, o: &mut Obs) {
  let r = guarded(|| {
    let mut v: Vec<(&'static str, String)> = vec![];
    // the borrowed message reads a heap copy that is destroyed later
    let mut source = s.to_string();
    let (exp, exp_typed, owned_from_ref) = {
      let b = IrcMessageRef::parse(&source);
      let exp = b.as_ref().map(|m| raw_obs!(m));
      if let Some(b) = &b {
        let c = b.clone();
        if Some(raw_obs!(&c)) != exp {
          v.push(("clone", "a clone answers differently".into()));
        }
      }
      #[cfg(feature = "typed")]
      let t = b.clone().map(|m| typed::summary(&m.as_typed()));
      #[cfg(not(feature = "typed"))]
      let t = Some(String::new());
      (exp, t, b.map(|m| m.into_owned()))
    };
    // destroy the source of the borrowed message
    unsafe {
      for b in source.as_bytes_mut() {
        *b = b'#';
      }
    }
    drop(source);
    let check = |what: &'static str, m: Option<&IrcMessage>, v: &mut Vec<(&'static str, String)>| {
      let got = m.map(|m| raw_obs!(m));
      if got != exp {
        v.push((what, format!("{what}: expected {}, got {}", short(&exp), short(&got))));
        return;
      }
      let Some(m) = m else { return };
      if m.raw() != s {
        v.push((what, "raw() is not the input".into()));
      }
      let r = m.as_ref();
      if Some(raw_obs!(&r)) != exp {
        v.push((what, "as_ref() answers differently".into()));
      }
      for (t, name) in TAGS {
        let e = exp
          .as_ref()
          .and_then(|e| e.tags.iter().find(|(k, _)| k == name).map(|(_, v)| v.as_str()));
        let _ = e;
        let (a, b) = (m.tag(t.clone()), r.tag(t.clone()));
        if a != b {
          v.push((what, format!("tag({name}): owned {}, borrowed {}", short(a), short(b))));
        }
        let (a, b) = (m.tag(*name), r.tag(*name));
        if a != b {
          v.push((what, format!("tag(\"{name}\"): owned {}, borrowed {}", short(a), short(b))));
        }
      }
      let tags = exp.as_ref().map(|e| &e.tags[..]).unwrap_or(&[]);
      for i in looked_up(tags.len()) {
        let k = &tags[i].0;
        let (a, b) = (m.tag(k.as_str()), r.tag(k.as_str()));
        if a != b {
          v.push((what, format!("tag({k:?}): owned {}, borrowed {}", short(a), short(b))));
        }
      }
      #[cfg(feature = "typed")]
      {
        let a = Some(typed::summary(&m.as_typed()));
        let b = Some(typed::summary(&r.as_typed()));
        if a != exp_typed || b != exp_typed {
          v.push((
            what,
            format!("as_typed: borrowed {}, owned {}, as_ref {}", short(&exp_typed), short(&a), short(&b)),
          ));
        }
      }
      #[cfg(not(feature = "typed"))]
      let _ = &exp_typed;
    };
    check("into_owned", owned_from_ref.as_ref(), &mut v);
    let a = IrcMessage::parse(s);
    check("IrcMessage::parse(&str)", a.as_ref(), &mut v);
    // moving it around
    let moved = Box::new(a);
    let mut list = vec![None, *moved];
    list.swap(0, 1);
    list.push(IrcMessage::parse(s.to_string()));
    list.reserve(64);
    check("moved", list[0].as_ref(), &mut v);
    check("IrcMessage::parse(String)", list[2].as_ref(), &mut v);
    let back = list[0].as_ref().map(|m| m.as_ref().into_owned());
    drop(list);
    check("as_ref().into_owned()", back.as_ref(), &mut v);
    (exp.is_some(), v)
  });
  match r {
    Err(p) => o.v(format!("panic {}", p.at), format!("panicked at {}: {}", p.at, p.msg)),
    Ok((accepted, v)) => {
      o.decided = true;
      o.hit(if accepted { "accepted" } else { "rejected" });
      o.outcome = if accepted { "both accept" } else { "both reject" }.into();
      if accepted {
        o.hits("messages compared", 5);
        if !s.contains(':') {
          o.hit("without colon");
        }
      }
      for (sig, msg) in v {
        o.v(sig, msg);
      }
    }
  }
}

// ---------------------------------------------------------------------------------------

const COMMANDS: &[(Command<'static>, &str)] = &[
  (Command::Ping, "PING"),
  (Command::Pong, "PONG"),
  (Command::Join, "JOIN"),
  (Command::Part, "PART"),
  (Command::Privmsg, "PRIVMSG"),
  (Command::Whisper, "WHISPER"),
  (Command::ClearChat, "CLEARCHAT"),
  (Command::ClearMsg, "CLEARMSG"),
  (Command::GlobalUserState, "GLOBALUSERSTATE"),
  (Command::Notice, "NOTICE"),
  (Command::Reconnect, "RECONNECT"),
  (Command::RoomState, "ROOMSTATE"),
  (Command::UserNotice, "USERNOTICE"),
  (Command::UserState, "USERSTATE"),
  (Command::Capability, "CAP"),
  (Command::RplWelcome, "001"),
  (Command::RplYourHost, "002"),
  (Command::RplCreated, "003"),
  (Command::RplMyInfo, "004"),
  (Command::RplNames, "353"),
  (Command::RplEndOfNames, "366"),
  (Command::RplMotd, "372"),
  (Command::RplMotdStart, "375"),
  (Command::RplEndOfMotd, "376"),
];

pub fn c06(s: &str, o: &mut Obs) {
  let r = guarded(|| {
    let mut v: Vec<(String, String)> = vec![];
    names_static(&mut v);
    // s as a tag name
    let t = Tag::parse(s);
    let f: Tag<'_> = s.into();
    for (what, t) in [("Tag::parse", &t), ("Tag::from", &f)] {
      if t.as_str() != s {
        v.push((format!("{what} as_str"), format!("{what}({s:?}).as_str() is {:?}", t.as_str())));
      }
      if t.to_string() != s {
        v.push((format!("{what} Display"), format!("{what}({s:?}) displays as {:?}", t.to_string())));
      }
    }
    let known = TAGS.iter().find(|(_, n)| *n == s);
    match known {
      Some((k, _)) => {
        if t != *k || f != *k {
          v.push(("known tag".into(), format!("{s:?} parses to {t:?} / {f:?}, not {k:?}")));
        }
      }
      None => {
        if let Some((k, n)) = TAGS.iter().find(|(k, _)| *k == t) {
          v.push(("unknown tag".into(), format!("{s:?} parses to {k:?}, whose name is {n:?}")));
        }
      }
    }
    // s as a Hype Chat level
    #[cfg(feature = "typed")]
    typed::level(s, &mut v);
    // s as a message
    let mut lookups = 0u64;
    let mut found = 0u64;
    let mut commands = 0u64;
    if let (Some(m), Some(e)) = (IrcMessageRef::parse(s), model::parse(s)) {
      let c = m.command();
      commands += 1;
      if c.as_str() != e.command || c.to_string() != e.command {
        v.push((
          "command name".into(),
          format!("command {:?} reports as {:?} / {}", e.command, c.as_str(), c),
        ));
      }
      if let Some((k, _)) = COMMANDS.iter().find(|(_, n)| *n == e.command) {
        if c != *k {
          v.push(("command variant".into(), format!("{:?} parsed as {c:?}, not {k:?}", e.command)));
        }
      } else if c != Command::Other(e.command) && COMMANDS.iter().any(|(k, _)| *k == c) {
        v.push(("command variant".into(), format!("{:?} parsed as {c:?}", e.command)));
      }
      if e.tags_specified {
        let owned = m.clone().into_owned();
        let mut look = |name: &str, how: &str, got: [Option<&str>; 2]| {
          lookups += 1;
          let exp = e.tag(name);
          found += exp.is_some() as u64;
          for g in got {
            if g != exp {
              v.push((
                format!("lookup by {how}"),
                format!("tag {name:?} by {how}: expected {}, got {}", short(exp), short(g)),
              ));
            }
          }
        };
        for (t, n) in TAGS {
          look(n, "variant", [m.tag(t.clone()), owned.tag(t.clone())]);
          look(n, "name", [m.tag(*n), owned.tag(*n)]);
        }
        let tags = e.tags.as_deref().unwrap_or(&[]);
        for i in looked_up(tags.len()) {
          let k = &tags[i].0;
          look(k, "name", [m.tag(*k), owned.tag(*k)]);
          if !TAGS.iter().any(|(_, n)| n == k) {
            look(k, "Unknown", [m.tag(Tag::Unknown(k)), owned.tag(Tag::Unknown(k))]);
          }
          // near misses
          let longer = format!("{k}x");
          look(&longer, "name", [m.tag(longer.as_str()), owned.tag(longer.as_str())]);
          let upper = k.to_uppercase();
          look(&upper, "name", [m.tag(upper.as_str()), owned.tag(upper.as_str())]);
          if let Some((i, _)) = k.char_indices().last() {
            let shorter = &k[..i];
            look(shorter, "name", [m.tag(shorter), owned.tag(shorter)]);
          }
        }
      }
    }
    (known.is_some(), lookups, found, commands, v)
  });
  match r {
    Err(p) => {
      // whether parsing may panic is C01's business; naming must not
      o.v(format!("panic {}", p.at), format!("panicked at {}: {}", p.at, p.msg))
    }
    Ok((known, lookups, found, commands, v)) => {
      o.decided = true;
      o.hit(if known { "known tag names" } else { "other names" });
      o.hits("tag lookups", lookups);
      o.hits("tag lookups that hit", found);
      o.hits("command names", commands);
      o.outcome = format!("{lookups} lookups, {found} found");
      for (sig, msg) in v {
        o.v(sig, msg);
      }
    }
  }
}

fn names_static(v: &mut Vec<(String, String)>) {
  thread_local!(static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
  let n = N.with(|n| {
    n.set(n.get().wrapping_add(1));
    n.get()
  });
  // the tables are small, but not worth repeating for every input
  if n % 64 != 1 {
    return;
  }
  for (t, n) in TAGS {
    if t.as_str() != *n || t.to_string() != *n {
      v.push(("tag name".into(), format!("{t:?} is named {:?}, not {n:?}", t.as_str())));
    }
    if Tag::parse(n) != *t {
      v.push(("tag name".into(), format!("{n:?} does not parse to {t:?}")));
    }
  }
  for (c, n) in COMMANDS {
    if c.as_str() != *n || c.to_string() != *n {
      v.push(("command name".into(), format!("{c:?} is named {:?}, not {n:?}", c.as_str())));
    }
  }
  #[cfg(feature = "typed")]
  typed::levels_static(v);
}

// ---------------------------------------------------------------------------------------

/// The conversions of fixed size, for the interpreter to watch.
pub fn fixed() {
  #[cfg(feature = "typed")]
  typed::levels_static(&mut vec![]);
}

pub fn c07(s: &str, o: &mut Obs) {
  let exp = model::unescape(s);
  let needs = model::needs_unescape(s);
  let r = guarded(|| {
    let mut v: Vec<(String, String)> = vec![];
    let a = tmi::unescape(s);
    if a != exp {
      v.push(("unescape".into(), format!("unescape({}) is {}, expected {}", short(s), short(&a), short(&exp))));
    }
    let b = tmi::maybe_unescape(s);
    if b != exp {
      v.push(("maybe_unescape".into(), format!("maybe_unescape({}) is {}, expected {}", short(s), short(&b), short(&exp))));
    }
    if !needs {
      match &b {
        std::borrow::Cow::Borrowed(x) if x.as_ptr() == s.as_ptr() && x.len() == s.len() => {}
        _ => v.push(("borrow".into(), format!("maybe_unescape({}) does not return a borrow", short(s)))),
      }
    }
    let c = tmi::maybe_unescape(s.to_string());
    if c != exp {
      v.push(("maybe_unescape owned".into(), format!("maybe_unescape(owned {}) is {}, expected {}", short(s), short(&c), short(&exp))));
    }
    if !s.contains('⸝') {
      for commas in [false, true] {
        let e = model::escape(s, commas);
        let (a, b) = (tmi::unescape(&e), tmi::maybe_unescape(e.as_str()));
        if a != s || b != s {
          v.push((
            "round trip".into(),
            format!("{} escapes to {}, which unescapes to {} / {}", short(s), short(&e), short(&a), short(&b)),
          ));
        }
      }
    }
    v
  });
  match r {
    Err(p) => o.v(format!("panic {}", p.at), format!("panicked at {}: {}", p.at, p.msg)),
    Ok(v) => {
      o.decided = !s.is_empty();
      o.hit(if needs { "needs unescaping" } else { "returned as borrow" });
      if s.ends_with('\\') {
        o.hit("trailing backslash");
      }
      if s.contains('⸝') {
        o.hit("comma sign");
      } else {
        o.hits("round trips", 2);
      }
      o.outcome = format!("unescapes to {}", short(&exp));
      for (sig, msg) in v {
        o.v(sig, msg);
      }
    }
  }
}

// ---------------------------------------------------------------------------------------

/// One observation of everything, for the comparison of builds (C04).
pub fn dump(s: &str) -> String {
  caught(|| placed(s, dump_str))
}

fn caught(f: impl FnOnce() -> String) -> String {
  match guarded(f) {
    Ok(s) => s,
    Err(p) => format!("panic: {}\n", p.msg.split("index").next().unwrap_or("")),
  }
}

/// The same with the given string itself (its address matters to the caller), and the
/// owned form, the unescaped values and the serialized form on top.
pub fn dump_all(s: &str) -> String {
  caught(|| {
    let mut out = dump_str(s);
    if let Some(m) = IrcMessageRef::parse(s) {
      for (_, v) in m.tags() {
        let _ = writeln!(out, "unescaped {:?}", tmi::maybe_unescape(v));
      }
      dump_owned(&m.clone().into_owned(), &mut out);
      #[cfg(feature = "serde")]
      if let Ok(t) = m.as_typed() {
        let _ = writeln!(out, "json {}", serde::json(&t));
      }
    }
    if let Some(m) = IrcMessage::parse(s) {
      dump_owned(&m, &mut out);
    }
    out
  })
}

/// One parse of one kind only, so that nothing else happens between two lines.
pub fn dump_lean(s: &str, owned: bool) -> String {
  caught(|| {
    if !owned {
      return dump_str(s);
    }
    let mut out = String::new();
    if let Some(m) = IrcMessage::parse(s) {
      dump_owned(&m, &mut out);
    }
    out
  })
}

/// What an owned message answers.
pub fn dump_owned(m: &IrcMessage, out: &mut String) {
  let r = raw_obs!(m);
  let _ = writeln!(out, "owned {r:?}");
  for t in [Tag::RoomId, Tag::DisplayName, Tag::Badges] {
    let _ = writeln!(out, "owned tag {:?}", m.tag(t));
  }
  #[cfg(feature = "typed")]
  {
    let _ = writeln!(out, "owned typed {}", typed::summary(&m.as_typed()));
  }
}

/// What every set of cargo features offers, borrowed and owned.
pub fn dump_raw(s: &str) -> String {
  caught(|| {
    placed(s, |s| {
      let mut out = String::new();
      if let Some(m) = IrcMessageRef::parse(s) {
        dump_parts(&m, &mut out);
        for (_, v) in m.tags() {
          let _ = writeln!(out, "unescaped {:?} {:?}", tmi::maybe_unescape(v), tmi::unescape(v));
        }
        let _ = writeln!(out, "debug {m:?}");
      }
      if let Some(m) = IrcMessage::parse(s) {
        let r = raw_obs!(&m);
        let _ = writeln!(out, "owned {r:?}");
        for t in [Tag::RoomId, Tag::DisplayName, Tag::Badges] {
          let _ = writeln!(out, "owned tag {:?}", m.tag(t));
        }
      }
      out
    })
  })
}

/// The typed message and, where it is built, its serialized form.
#[cfg(feature = "typed")]
pub fn dump_typed(s: &str) -> (String, String) {
  let t = caught(|| {
    placed(s, |s| match IrcMessageRef::parse(s) {
      None => String::new(),
      Some(m) => format!("{}\n{}", typed::summary(&m.clone().as_typed()), typed::summary(&m.into_owned().as_typed())),
    })
  });
  #[cfg(feature = "serde")]
  let j = caught(|| match IrcMessageRef::parse(s).map(|m| m.as_typed().map(|t| serde::json(&t))) {
    Some(Ok(j)) => j,
    _ => String::new(),
  });
  #[cfg(not(feature = "serde"))]
  let j = String::new();
  (t, j)
}

fn dump_parts(m: &IrcMessageRef<'_>, out: &mut String) {
  let r = raw_obs!(m);
  for (k, v) in &r.tags {
    let _ = writeln!(out, "tag {k:?}={v:?}");
  }
  let _ = writeln!(out, "prefix {:?}", r.prefix);
  let _ = writeln!(out, "command {:?} {:?}", m.command(), r.command);
  let _ = writeln!(out, "channel {:?}", r.channel);
  let _ = writeln!(out, "params {:?}", r.params);
  let _ = writeln!(out, "text {:?}", r.text);
}

fn dump_str(s: &str) -> String {
  let mut out = String::new();
  match IrcMessageRef::parse(s) {
    None => out.push_str("rejected\n"),
    Some(m) => {
      dump_parts(&m, &mut out);
      #[cfg(feature = "typed")]
      {
        let t = m.as_typed();
        let _ = writeln!(out, "typed {}", typed::summary(&t));
      }
    }
  }
  out
}
