//! The oracles over typed messages.

use super::short;
use crate::model;
use crate::typed::{self, diff, kind, kind_of, model as tmodel, observe, Exp, Fields, V};
use crate::{guarded, Obs};
use std::fmt::Write;
use tmi::{FromIrc, IrcMessageRef, Message, MessageParseError, PinnedChatLevel};

/// Every getter and formatter once.
pub fn exercise(m: &Message<'_>, sink: &mut String) {
  let _ = write!(sink, "{m:?}{m:#?}");
  let f = observe(m);
  let _ = write!(sink, "{}", f.len());
  let c = m.clone();
  macro_rules! owned {
    ($($v:ident),*) => {
      match c {
        $(Message::$v(x) => {
          let o = x.into_owned();
          let _ = write!(sink, "{o:?}");
          let _ = observe(&o.into());
        })*
        Message::Reconnect => {}
        Message::Other(x) => {
          let o = x.into_owned();
          let _ = write!(sink, "{o:?}");
        }
      }
    };
  }
  owned!(
    ClearChat, ClearMsg, GlobalUserState, Join, Notice, Part, Ping, Pong, Privmsg, RoomState,
    UserNotice, UserState, Whisper
  );
}

pub fn exercise_all(s: &str, sink: &mut String) {
  match Message::parse(s) {
    Ok(m) => exercise(&m, sink),
    Err(e) => {
      let _ = write!(sink, "{e}{e:?}");
    }
  }
  if let Some(m) = IrcMessageRef::parse(s) {
    let _ = specific(&m);
    let _ = Message::try_from(m);
  }
}

pub fn summary(r: &Result<Message<'_>, MessageParseError>) -> String {
  match r {
    Err(_) => "error".into(),
    Ok(m) => format!("{} {:?} {m:?}", kind(m), observe(m)),
  }
}

type Specific<'a> = Vec<(&'static str, Result<Message<'a>, MessageParseError>)>;

/// The message converted to each specific type.
fn specific<'a>(m: &IrcMessageRef<'a>) -> Specific<'a> {
  macro_rules! all {
    ($($v:ident),*) => {
      vec![$((stringify!($v), tmi::$v::from_irc(m.clone()).map(Message::from))),*]
    };
  }
  all!(
    ClearChat, ClearMsg, GlobalUserState, Join, Notice, Part, Ping, Pong, Privmsg, RoomState,
    UserNotice, UserState, Whisper
  )
}

fn hit_kind(prop_kind: &'static str, ok: bool, o: &mut Obs) {
  o.hit(match (prop_kind, ok) {
    ("ClearChat", true) => "ClearChat converted",
    ("ClearChat", false) => "ClearChat refused",
    ("ClearMsg", true) => "ClearMsg converted",
    ("ClearMsg", false) => "ClearMsg refused",
    ("GlobalUserState", true) => "GlobalUserState converted",
    ("GlobalUserState", false) => "GlobalUserState refused",
    ("Join", true) => "Join converted",
    ("Join", false) => "Join refused",
    ("Notice", true) => "Notice converted",
    ("Notice", false) => "Notice refused",
    ("Part", true) => "Part converted",
    ("Part", false) => "Part refused",
    ("Ping", true) => "Ping converted",
    ("Pong", true) => "Pong converted",
    ("Privmsg", true) => "Privmsg converted",
    ("Privmsg", false) => "Privmsg refused",
    ("Reconnect", true) => "Reconnect converted",
    ("RoomState", true) => "RoomState converted",
    ("RoomState", false) => "RoomState refused",
    ("UserNotice", true) => "UserNotice converted",
    ("UserNotice", false) => "UserNotice refused",
    ("UserState", true) => "UserState converted",
    ("UserState", false) => "UserState refused",
    ("Whisper", true) => "Whisper converted",
    ("Whisper", false) => "Whisper refused",
    ("Other", true) => "Other",
    _ => "converted or refused",
  });
}

pub fn c08(s: &str, o: &mut Obs) {
  let r = guarded(|| {
    let raw = IrcMessageRef::parse(s);
    let spec = raw.as_ref().map(specific);
    let all: Vec<(&'static str, Result<Message<'_>, MessageParseError>)> = match raw.clone() {
      None => vec![("Message::parse", Message::parse(s))],
      Some(m) => vec![
        ("Message::parse", Message::parse(s)),
        ("Message::from_irc", Message::from_irc(m.clone())),
        ("Message::try_from", Message::try_from(m.clone())),
        ("as_typed", m.as_typed()),
      ],
    };
    (raw, spec, all)
  });
  let (raw, spec, all) = match r {
    Ok(r) => r,
    Err(p) => {
      o.v(format!("panic {}", p.at), format!("conversion panicked at {}: {}", p.at, p.msg));
      return;
    }
  };
  let Some(rm) = model::parse(s) else {
    if raw.is_none() {
      o.decided = true;
      o.hit("not a message");
      if all[0].1.is_ok() {
        o.v("accept", "Message::parse accepts what is not a message");
      }
    }
    return;
  };
  if raw.is_none() {
    return; // C03's business
  }
  let k = kind_of(rm.command);
  let exp = tmodel(&rm);
  let exp_ok = match &exp {
    Exp::Ok(..) => Some(true),
    Exp::Err => Some(false),
    Exp::Unclear => None,
  };
  match exp_ok {
    Some(ok) => {
      o.decided = true;
      hit_kind(k, ok, o);
      o.outcome = format!("{k}: {}", if ok { "converts" } else { "refused" });
    }
    None => o.hit("unspecified"),
  }
  for (how, r) in &all {
    match r {
      Ok(m) => {
        if kind(m) != k {
          o.v(
            "variant",
            format!("{how}: command {:?} gave {} instead of {k}", rm.command, kind(m)),
          );
        }
        if exp_ok == Some(false) {
          o.v(
            format!("accepted {k}"),
            format!("{how}: converts although required data of {k} is missing or malformed"),
          );
        }
        if let Message::Other(m) = m {
          if m.raw() != s || m.command().as_str() != rm.command {
            o.v("other", format!("{how}: Other does not wrap the same message"));
          }
        }
      }
      Err(_) => {
        if exp_ok == Some(true) {
          o.v(
            format!("refused {k}"),
            format!("{how}: refuses a {k} although all required data is present"),
          );
        }
      }
    }
  }
  if all.windows(2).any(|w| summary(&w[0].1) != summary(&w[1].1)) {
    o.v("ways differ", "parse, from_irc, try_from and as_typed disagree");
  }
  for (name, r) in spec.iter().flatten() {
    if *name == k {
      if summary(r) != summary(&all[0].1) {
        o.v(
          "specific type",
          format!("{name}::from_irc gives {}, Message::parse {}", short(summary(r)), short(summary(&all[0].1))),
        );
      }
    } else if r.is_ok() {
      o.v(
        "wrong command",
        format!("{name}::from_irc accepts the command {:?}", rm.command),
      );
    }
  }
}

fn owner(k: &str) -> &'static str {
  match k {
    "Privmsg" | "Whisper" | "ClearMsg" => "C09",
    "UserNotice" => "C10",
    "ClearChat" | "RoomState" => "C12",
    "Join" | "Part" | "Ping" | "Pong" | "Notice" | "UserState" | "GlobalUserState" => "C13",
    _ => "",
  }
}

const EVENTS: &[&str] = &[
  "SubOrResub", "Raid", "SubGift", "SubMysteryGift", "AnonSubMysteryGift", "GiftPaidUpgrade",
  "AnonGiftPaidUpgrade", "Ritual", "BitsBadgeTier", "Announcement", "Unknown",
];

/// C09-C13: the fields of the message types a property owns.
pub fn fields(prop: &str, s: &str, o: &mut Obs) {
  let Some(rm) = model::parse(s) else { return };
  let k = kind_of(rm.command);
  let badges_only = prop == "C11";
  if !badges_only && owner(k) != prop {
    return;
  }
  if badges_only && !matches!(k, "Privmsg" | "Whisper" | "UserNotice" | "UserState" | "GlobalUserState") {
    return;
  }
  let exp = match tmodel(&rm) {
    Exp::Ok(_, f) => f,
    Exp::Err => {
      o.hit("refused");
      return;
    }
    Exp::Unclear => {
      o.hit("unspecified");
      return;
    }
  };
  let got = guarded(|| {
    Message::parse(s)
      .ok()
      .map(|m| (kind(&m), observe(&m), conversions(&m)))
  });
  let (gk, got, conv) = match got {
    Err(p) => {
      o.v(
        format!("{k} panic {}", p.at),
        format!("a well-formed {k} panicked at {}: {}", p.at, p.msg),
      );
      return;
    }
    Ok(None) => {
      o.v(format!("{k} refused"), format!("a well-formed {k} is refused, nothing is reported"));
      return;
    }
    Ok(Some(x)) => x,
  };
  o.decided = true;
  if gk != k {
    o.v("variant", format!("{k} reported as {gk}"));
    return;
  }
  hit_kind(k, true, o);
  let find = |name: &str| exp.iter().find(|(f, _)| *f == name).map(|(_, v)| v);
  match prop {
    "C09" => {
      for (f, h) in [
        ("reply_to", "with reply"),
        ("pinned_chat", "with Hype Chat"),
        ("bits", "with bits"),
        ("custom_reward_id", "with reward"),
        ("msg_id", "with msg-id"),
        ("color", "with color"),
      ] {
        if !matches!(find(f), None | Some(V::None)) {
          o.hit(h)
        }
      }
      if matches!(find("is_action"), Some(V::B(true))) {
        o.hit("actions")
      }
    }
    "C10" => {
      if let Some(V::S(e)) = find("event") {
        if let Some(e) = EVENTS.iter().find(|x| *x == e) {
          o.hit(e);
        }
      }
      o.hit(if matches!(find("sender"), Some(V::None)) {
        "without sender"
      } else {
        "with sender"
      });
      if matches!(find("ev.promotion"), Some(V::L(_))) {
        o.hit("with promotion")
      }
    }
    "C11" => {
      if let Some(V::L(b)) = find("badges") {
        o.hits("badges compared", b.len() as u64);
        match b.len() {
          0 => {}
          1 => o.hit("lists of 1"),
          2..=32 => o.hit("lists of 2-32"),
          _ => o.hit("lists of 33+"),
        }
        let names: Vec<&str> = b
          .iter()
          .filter_map(|b| match b {
            V::L(x) => match x.get(1).or(x.first()) {
              Some(V::S(s)) => Some(s.as_str()),
              _ => None,
            },
            _ => None,
          })
          .collect();
        let mut u = names.clone();
        u.sort_unstable();
        u.dedup();
        if u.len() < names.len() {
          o.hit("repeated names")
        }
        if rm.tag("badge-info").is_none() && !b.is_empty() {
          o.hit("without badge-info")
        }
      }
    }
    "C12" => {
      if let Some(V::S(a)) = find("action") {
        o.hit(match a.as_str() {
          "clear" => "clear",
          "ban" => "ban",
          _ => "timeout",
        })
      }
      for (f, h) in [
        ("slow", "slow present"),
        ("followers_only", "followers-only present"),
        ("emote_only", "emote-only present"),
        ("r9k", "r9k present"),
        ("subs_only", "subs-only present"),
      ] {
        if !matches!(find(f), None | Some(V::None) | Some(V::Any)) {
          o.hit(h)
        }
      }
    }
    _ => {
      if let Some(V::L(l)) = find("emote_sets") {
        o.hits("emote sets compared", l.len() as u64);
      }
    }
  }
  o.outcome = format!("{k}: {} fields agree with the wire", exp.len());
  o.hits("fields compared", exp.len() as u64);
  let d: Vec<(String, String)> = diff(&exp, &got);
  for (f, msg) in d {
    let is_badge = matches!(f.as_str(), "badges" | "num_badges" | "badges_rev");
    if badges_only && !is_badge {
      continue;
    }
    o.v(format!("{k}.{f}"), format!("{k}.{f}: {msg}"));
  }
  if badges_only {
    for m in conv {
      o.v(format!("{k} badge data"), m);
    }
  }
}

/// `as_badge_data` must agree with the badge it comes from.
fn conversions(m: &Message<'_>) -> Vec<String> {
  let list: Vec<tmi::Badge<'_>> = match m {
    Message::Privmsg(m) => m.badges().cloned().collect(),
    Message::Whisper(m) => m.badges().cloned().collect(),
    Message::UserNotice(m) => m.badges().cloned().collect(),
    Message::UserState(m) => m.badges().cloned().collect(),
    Message::GlobalUserState(m) => m.badges().cloned().collect(),
    _ => vec![],
  };
  let mut out = vec![];
  for b in list {
    let d = b.as_badge_data();
    let ok = match &b {
      tmi::Badge::Other(o) => o.name() == d.name() && o.version() == d.version() && o.extra() == d.extra(),
      tmi::Badge::Subscriber(s) => d.name() == "subscriber" && d.version() == s.version(),
      tmi::Badge::Staff => d.name() == "staff",
      tmi::Badge::Turbo => d.name() == "turbo",
      tmi::Badge::Broadcaster => d.name() == "broadcaster",
      tmi::Badge::Moderator => d.name() == "moderator",
    };
    if !ok {
      out.push(format!("as_badge_data of {b:?} is {d:?}"));
    }
  }
  out
}

// ---------------------------------------------------------------------------------------

/// A heap copy of the input whose lifetime is managed by hand, so that it can be
/// overwritten and freed while owned values derived from it live on.
struct Doomed {
  p: *mut u8,
  n: usize,
}

impl Doomed {
  fn new(s: &str) -> Doomed {
    let b: Box<[u8]> = s.as_bytes().into();
    let n = b.len();
    Doomed {
      p: Box::into_raw(b) as *mut u8,
      n,
    }
  }
  fn get(&self) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(self.p, self.n)) }
  }
  fn destroy(self) {
    unsafe {
      for i in 0..self.n {
        self.p.add(i).write_volatile(b'!');
      }
      drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.p, self.n)));
    }
  }
}

type Later = Box<dyn Fn(&mut Vec<(String, String)>)>;

fn show(f: &Fields) -> String {
  format!("{f:?}")
}

macro_rules! part {
  ($name:expr, $x:expr, $v:ident, $later:ident) => {{
    let x = $x.clone();
    let shown = format!("{x:?}");
    let owned = $x.clone().into_owned();
    if owned != x {
      $v.push((
        format!("{} unequal", $name),
        format!("{}: into_owned gives {owned:?} for {x:?}", $name),
      ));
    }
    let twice = owned.clone().into_owned();
    $later.push(Box::new(move |v| {
      for (how, o) in [("into_owned", &owned), ("into_owned twice", &twice)] {
        let s = format!("{o:?}");
        if s != shown {
          v.push((
            format!("{} text", $name),
            format!("{}: after {how} prints {}, was {}", $name, short(&s), short(&shown)),
          ));
        }
      }
    }));
  }};
}

pub fn c14(s: &str, o: &mut Obs) {
  let src = Doomed::new(s);
  let mut later: Vec<Later> = vec![];
  let mut k = "";
  let r = guarded(|| {
    let mut v: Vec<(String, String)> = vec![];
    let Ok(m) = Message::parse(src.get()) else {
      return v;
    };
    k = kind(&m);
    macro_rules! own {
      ($($t:ident),*) => {
        match &m {
          $(Message::$t(x) => {
            let f = show(&observe(&m));
            let shown = format!("{x:?}");
            let owned: tmi::$t<'static> = x.clone().into_owned();
            if owned != *x {
              v.push((format!("{k} unequal"), format!("{k}: into_owned gives {owned:?} for {x:?}")));
            }
            let twice = owned.clone().into_owned();
            if twice != *x {
              v.push((format!("{k} unequal"), format!("{k}: into_owned twice differs: {twice:?}")));
            }
            later.push(Box::new(move |v| {
              for (how, x) in [("into_owned", &owned), ("into_owned twice", &twice)] {
                let s = format!("{x:?}");
                if s != shown {
                  v.push((format!("{k} text"), format!("{k}: after {how} prints {}, was {}", short(&s), short(&shown))));
                }
                let g = show(&observe(&Message::from(x.clone())));
                if g != f {
                  v.push((format!("{k} getters"), format!("{k}: after {how} getters give {}, was {}", short(&g), short(&f))));
                }
              }
            }));
          })*
          Message::Reconnect => {}
          Message::Other(x) => {
            let e = crate::raw_obs!(x);
            let owned = x.clone().into_owned();
            later.push(Box::new(move |v| {
              if crate::raw_obs!(&owned) != e {
                v.push(("Other getters".into(), "Other: owned message answers differently".into()));
              }
            }));
          }
        }
      };
    }
    own!(
      ClearChat, ClearMsg, GlobalUserState, Join, Notice, Part, Ping, Pong, Privmsg, RoomState,
      UserNotice, UserState, Whisper
    );
    macro_rules! badges {
      ($m:expr) => {
        for b in $m.badges() {
          part!("Badge", b, v, later);
          part!("BadgeData", b.as_badge_data(), v, later);
          if let tmi::Badge::Subscriber(x) = b {
            part!("Subscriber", x, v, later);
            let (a, n) = (x.version().to_string(), x.months());
            let o = x.clone().into_owned();
            later.push(Box::new(move |v| {
              if o.version() != a || o.months() != n {
                v.push(("Subscriber getters".into(), format!("{o:?}")));
              }
            }));
          }
        }
      };
    }
    match &m {
      Message::ClearChat(m) => part!("Action", m.action(), v, later),
      Message::GlobalUserState(m) => badges!(m),
      Message::UserState(m) => badges!(m),
      Message::Whisper(m) => {
        badges!(m);
        part!("User", m.sender(), v, later);
      }
      Message::Privmsg(m) => {
        badges!(m);
        part!("User", m.sender(), v, later);
        if let Some(r) = m.reply_to() {
          part!("Reply", r, v, later);
        }
        if let Some(p) = m.pinned_chat() {
          part!("PinnedChat", p, v, later);
        }
      }
      Message::UserNotice(m) => {
        badges!(m);
        if let Some(u) = m.sender() {
          part!("User", u, v, later);
        }
        part!("Event", m.event(), v, later);
        let before = show(&typed::observe_event(m.event()));
        let owned = m.event().clone().into_owned();
        later.push(Box::new(move |v| {
          let after = show(&typed::observe_event(&owned));
          if after != before {
            v.push(("Event getters".into(), format!("was {before}, now {after}")));
          }
        }));
        let promo = match m.event() {
          tmi::Event::GiftPaidUpgrade(e) => e.promotion(),
          tmi::Event::AnonGiftPaidUpgrade(e) => e.promotion(),
          _ => None,
        };
        if let Some(p) = promo {
          part!("SubGiftPromo", p, v, later);
        }
      }
      _ => {}
    }
    v
  });
  // nothing borrowed is alive any more: overwrite and free the source
  src.destroy();
  let mut v = match r {
    Ok(v) => v,
    Err(p) => {
      o.v(format!("panic {}", p.at), format!("panicked at {}: {}", p.at, p.msg));
      return;
    }
  };
  if k.is_empty() {
    o.hit("does not convert");
    return;
  }
  o.decided = true;
  hit_kind(k, true, o);
  o.hits("values checked after the source died", later.len() as u64);
  o.outcome = format!("{k}: {} owned values compared", later.len());
  for l in &later {
    if let Err(p) = guarded(|| l(&mut v)) {
      o.v(format!("panic {}", p.at), format!("panicked at {}: {}", p.at, p.msg));
    }
  }
  for (sig, msg) in v {
    o.v(sig, msg);
  }
}

// ---------------------------------------------------------------------------------------

pub fn level(s: &str, v: &mut Vec<(String, String)>) {
  let got = s.parse::<PinnedChatLevel>().ok().map(|l| l.as_str());
  let exp = typed::LEVELS.iter().find(|l| **l == s).copied();
  if got != exp {
    v.push(("level name".into(), format!("{s:?}: expected {exp:?}, got {got:?}")));
  }
}

pub fn levels_static(v: &mut Vec<(String, String)>) {
  use PinnedChatLevel::*;
  const ALL: [PinnedChatLevel; 10] = [ONE, TWO, THREE, FOUR, FIVE, SIX, SEVEN, EIGHT, NINE, TEN];
  for n in 0..=255u8 {
    let exp = ALL.get(n as usize).copied();
    let got = PinnedChatLevel::try_from(n).ok();
    if got != exp {
      v.push(("level number".into(), format!("{n}: expected {exp:?}, got {got:?}")));
    }
  }
  for (i, l) in ALL.iter().enumerate() {
    let name = typed::LEVELS[i];
    if u8::from(*l) != i as u8 || l.as_str() != name || name.parse() != Ok(*l) {
      v.push((
        "level".into(),
        format!("{name}: number {}, name {}, parses to {:?}", u8::from(*l), l.as_str(), name.parse::<PinnedChatLevel>()),
      ));
    }
  }
  if PinnedChatLevel::MIN != ONE || PinnedChatLevel::MAX != TEN {
    v.push(("level bounds".into(), "MIN/MAX".into()));
  }
}
