//! Reference model of the typed messages (C08-C13) and the observation of the real ones
//! through their public getters.

use crate::model::{num_i64, num_u64, unescape, Num, RChannel, RMsg};
use chrono::{DateTime, Utc};
use tmi::{Badge, Message};

#[derive(Debug, Clone)]
pub enum V {
  None,
  S(String),
  U(u64),
  I(i64),
  B(bool),
  T(DateTime<Utc>),
  L(Vec<V>),
  /// the property does not settle this value
  Any,
}

impl V {
  pub fn agrees(&self, o: &V) -> bool {
    match (self, o) {
      (V::Any, _) | (_, V::Any) => true,
      (V::None, V::None) => true,
      (V::S(a), V::S(b)) => a == b,
      (V::U(a), V::U(b)) => a == b,
      (V::I(a), V::I(b)) => a == b,
      (V::B(a), V::B(b)) => a == b,
      (V::T(a), V::T(b)) => a == b,
      (V::L(a), V::L(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.agrees(b)),
      _ => false,
    }
  }
}

fn s(v: impl AsRef<str>) -> V {
  V::S(v.as_ref().to_string())
}
fn os<T: AsRef<str>>(v: Option<T>) -> V {
  match v {
    Some(v) => s(v),
    None => V::None,
  }
}

pub type Fields = Vec<(&'static str, V)>;

pub enum Exp {
  /// the property does not settle whether this message converts
  Unclear,
  Err,
  Ok(&'static str, Fields),
}

pub const KINDS: &[(&str, &str)] = &[
  ("CLEARCHAT", "ClearChat"),
  ("CLEARMSG", "ClearMsg"),
  ("GLOBALUSERSTATE", "GlobalUserState"),
  ("JOIN", "Join"),
  ("NOTICE", "Notice"),
  ("PART", "Part"),
  ("PING", "Ping"),
  ("PONG", "Pong"),
  ("PRIVMSG", "Privmsg"),
  ("RECONNECT", "Reconnect"),
  ("ROOMSTATE", "RoomState"),
  ("USERNOTICE", "UserNotice"),
  ("USERSTATE", "UserState"),
  ("WHISPER", "Whisper"),
];

pub fn kind_of(command: &str) -> &'static str {
  KINDS
    .iter()
    .find(|(c, _)| *c == command)
    .map(|(_, k)| *k)
    .unwrap_or("Other")
}

struct Ctx<'m, 'a> {
  m: &'m RMsg<'a>,
  missing: bool,
  unclear: bool,
  f: Fields,
}

impl<'m, 'a> Ctx<'m, 'a> {
  fn put(&mut self, k: &'static str, v: V) {
    self.f.push((k, v));
  }
  fn req(&mut self, k: &'static str, v: Option<&str>) {
    match v {
      Some(v) => self.put(k, s(v)),
      None => self.missing = true,
    }
  }
  fn req_tag(&mut self, k: &'static str, tag: &str) {
    let v = self.m.tag(tag);
    self.req(k, v)
  }
  fn req_tag_unesc(&mut self, k: &'static str, tag: &str) {
    match self.m.tag(tag) {
      Some(v) => self.put(k, s(unescape(v))),
      None => self.missing = true,
    }
  }
  fn req_tag_u64(&mut self, k: &'static str, tag: &str) {
    match self.m.tag(tag).map(num_u64) {
      Some(Num::Valid(v)) => self.put(k, V::U(v)),
      Some(Num::Unclear) => {
        self.unclear = true;
        self.put(k, V::Any)
      }
      Some(Num::Invalid) | None => self.missing = true,
    }
  }
  fn req_nick(&mut self, k: &'static str) {
    match self.m.nick() {
      Ok(v) => self.req(k, v),
      Err(()) => {
        self.unclear = true;
        self.put(k, V::Any)
      }
    }
  }
  fn channel(&mut self) -> Option<&'a str> {
    match self.m.channel() {
      RChannel::Is(c) => c,
      RChannel::Unspecified => {
        self.unclear = true;
        None
      }
    }
  }
  fn req_channel(&mut self) {
    let c = self.channel();
    self.req("channel", c)
  }
  fn req_text(&mut self) -> Option<&'a str> {
    let t = self.m.text();
    if t.is_none() {
      self.missing = true;
    }
    t
  }
  fn text_action(&mut self) {
    if let Some(t) = self.req_text() {
      let (text, action) = match t
        .strip_prefix("\u{1}ACTION ")
        .and_then(|r| r.strip_suffix('\u{1}'))
      {
        Some(inner) => (inner, true),
        None => (t, false),
      };
      self.put("text", s(text));
      self.put("is_action", V::B(action));
    }
  }
  fn req_ts(&mut self) {
    match self.m.tag("tmi-sent-ts").map(|v| num_i64(v, false)) {
      Some(Num::Valid(v)) => match DateTime::<Utc>::from_timestamp_millis(v) {
        Some(t) => self.put("timestamp", V::T(t)),
        None => self.missing = true,
      },
      Some(Num::Unclear) => {
        self.unclear = true;
        self.put("timestamp", V::Any)
      }
      _ => self.missing = true,
    }
  }
  fn nonempty(&mut self, k: &'static str, tag: &str) {
    let v = self.m.tag(tag).filter(|v| !v.is_empty());
    self.put(k, os(v))
  }
  fn opt(&mut self, k: &'static str, tag: &str) {
    let v = self.m.tag(tag);
    self.put(k, os(v))
  }
  fn emotes(&mut self) {
    let v = self.m.tag("emotes").unwrap_or("");
    self.put("raw_emotes", s(v))
  }
  fn badges(&mut self) {
    let v = badges_model(
      self.m.tag("badges").unwrap_or(""),
      self.m.tag("badge-info").unwrap_or(""),
    );
    self.put("num_badges", V::U(v.len() as u64));
    self.put("badges", V::L(v));
  }
  fn emote_sets(&mut self) {
    let v = match self.m.tag("emote-sets") {
      None => V::L(vec![]),
      Some("") => V::Any,
      Some(v) => V::L(v.split(',').map(s).collect()),
    };
    let n = match &v {
      V::L(l) => V::U(l.len() as u64),
      _ => V::Any,
    };
    self.put("emote_sets", v);
    self.put("num_emote_sets", n);
  }
  fn flag(&mut self, k: &'static str, tag: &str) {
    let v = match self.m.tag(tag) {
      None => V::None,
      Some("0") => V::B(false),
      Some("1") => V::B(true),
      Some(_) => V::Any,
    };
    self.put(k, v)
  }
  fn done(self, kind: &'static str) -> Exp {
    if self.missing {
      Exp::Err
    } else if self.unclear {
      Exp::Unclear
    } else {
      Exp::Ok(kind, self.f)
    }
  }
}

pub fn badges_model(badges: &str, info: &str) -> Vec<V> {
  let mut out = Vec::new();
  for e in badges.split(',') {
    let Some((name, version)) = e.split_once('/') else {
      continue;
    };
    let extra = info
      .split(',')
      .filter_map(|e| e.split_once('/'))
      .find(|(n, _)| *n == name)
      .map(|(_, v)| v);
    out.push(V::L(match name {
      "staff" | "turbo" | "broadcaster" | "moderator" => vec![s(name)],
      "subscriber" => {
        let months = match extra.map(num_u64) {
          None | Some(Num::Invalid) => V::U(1),
          Some(Num::Valid(n)) => V::U(n),
          Some(Num::Unclear) => V::Any,
        };
        vec![s("subscriber"), s(version), months]
      }
      _ => vec![s("other"), s(name), s(version), os(extra)],
    }));
  }
  out
}

pub fn model(m: &RMsg<'_>) -> Exp {
  let kind = kind_of(m.command);
  if kind == "Other" || kind == "Reconnect" {
    return Exp::Ok(kind, vec![]);
  }
  if !m.tags_specified {
    return Exp::Unclear;
  }
  let mut c = Ctx {
    m,
    missing: false,
    unclear: false,
    f: vec![],
  };
  match kind {
    "Join" | "Part" => {
      c.req_channel();
      c.req_nick("user");
    }
    "Ping" | "Pong" => {
      let t = m.text();
      c.put("nonce", os(t));
    }
    "Notice" => {
      let ch = c.channel();
      c.put("channel", os(ch));
      let t = c.req_text();
      c.put("text", os(t));
      c.opt("id", "msg-id");
    }
    "ClearMsg" => {
      c.req_channel();
      c.req_tag("channel_id", "room-id");
      c.req_tag("sender", "login");
      c.req_tag("target_message_id", "target-msg-id");
      c.text_action();
      c.req_ts();
    }
    "ClearChat" => {
      c.req_channel();
      c.req_tag("channel_id", "room-id");
      c.req_ts();
      match m.text() {
        None => {
          c.put("action", s("clear"));
          c.put("target", V::None);
        }
        Some(user) => {
          if user.is_empty() {
            c.unclear = true;
          }
          c.put("target", s(user));
          c.put("user", s(user));
          c.req_tag("user_id", "target-user-id");
          match m.tag("ban-duration").map(num_u64) {
            Some(Num::Valid(n)) => {
              c.put("action", s("timeout"));
              c.put("duration", V::L(vec![V::U(n), V::U(0)]));
            }
            None | Some(Num::Invalid) => c.put("action", s("ban")),
            Some(Num::Unclear) => c.unclear = true,
          }
        }
      }
    }
    "GlobalUserState" => {
      c.req_tag("id", "user-id");
      c.req_tag_unesc("name", "display-name");
      c.badges();
      c.emote_sets();
      c.nonempty("color", "color");
    }
    "UserState" => {
      c.req_channel();
      c.req_tag_unesc("user_name", "display-name");
      c.badges();
      c.emote_sets();
      c.nonempty("color", "color");
    }
    "RoomState" => {
      c.req_channel();
      c.req_tag("channel_id", "room-id");
      c.flag("emote_only", "emote-only");
      c.flag("r9k", "r9k");
      c.flag("subs_only", "subs-only");
      let slow = match m.tag("slow").map(num_u64) {
        None | Some(Num::Invalid) => V::None,
        Some(Num::Valid(n)) => V::L(vec![V::U(n), V::U(0)]),
        Some(Num::Unclear) => V::Any,
      };
      c.put("slow", slow);
      let fo = match m.tag("followers-only").map(|v| num_i64(v, true)) {
        None | Some(Num::Invalid) => V::None,
        Some(Num::Valid(n)) if n < 0 => s("disabled"),
        Some(Num::Valid(0)) => s("any"),
        Some(Num::Valid(n)) => match (n as u64).checked_mul(60) {
          Some(secs) => V::L(vec![V::U(secs), V::U(0)]),
          None => V::Any,
        },
        Some(Num::Unclear) => V::Any,
      };
      c.put("followers_only", fo);
    }
    "Whisper" => {
      match (m.channel, m.params) {
        (Some(_), _) => c.unclear = true,
        (None, None) => c.missing = true,
        (None, Some(p)) => match p.split_once(" :") {
          Some((r, t)) if !r.is_empty() && !r.contains([' ', ':']) => {
            c.put("recipient", s(r));
            c.put("text", s(t));
          }
          Some(_) => c.unclear = true,
          None => {
            // a single word: a recipient and no text
            if p.contains(' ') || p.contains(':') {
              c.unclear = true
            } else {
              c.missing = true
            }
          }
        },
      }
      c.req_tag("sender.id", "user-id");
      c.req_nick("sender.login");
      c.req_tag_unesc("sender.name", "display-name");
      c.badges();
      c.emotes();
      c.nonempty("color", "color");
    }
    "Privmsg" => {
      c.text_action();
      c.req_channel();
      c.req_tag("channel_id", "room-id");
      c.opt("msg_id", "msg-id");
      c.req_tag("id", "id");
      c.req_tag("sender.id", "user-id");
      c.req_nick("sender.login");
      c.req_tag_unesc("sender.name", "display-name");
      c.badges();
      c.nonempty("color", "color");
      c.nonempty("custom_reward_id", "custom-reward-id");
      let bits = match m.tag("bits").map(num_u64) {
        None | Some(Num::Invalid) => V::None,
        Some(Num::Valid(n)) => V::U(n),
        Some(Num::Unclear) => V::Any,
      };
      c.put("bits", bits);
      c.emotes();
      c.req_ts();
      // reply: all seven tags or nothing
      let r = |k: &str| m.tag(k);
      let reply = (|| {
        Some(V::L(vec![
          s(r("reply-thread-parent-msg-id")?),
          s(r("reply-thread-parent-user-login")?),
          s(r("reply-parent-msg-id")?),
          s(r("reply-parent-user-id")?),
          s(r("reply-parent-user-login")?),
          s(unescape(r("reply-parent-display-name")?)),
          s(unescape(r("reply-parent-msg-body")?)),
        ]))
      })()
      .unwrap_or(V::None);
      c.put("reply_to", reply);
      let pinned = pinned_model(m);
      c.put("pinned_chat", pinned);
    }
    "UserNotice" => user_notice(&mut c),
    _ => unreachable!(),
  }
  c.done(kind)
}

pub const LEVELS: &[&str] = &[
  "ONE", "TWO", "THREE", "FOUR", "FIVE", "SIX", "SEVEN", "EIGHT", "NINE", "TEN",
];

fn pinned_model(m: &RMsg<'_>) -> V {
  let (Some(amount), Some(cur), Some(exp), Some(level), Some(sys)) = (
    m.tag("pinned-chat-paid-amount"),
    m.tag("pinned-chat-paid-currency"),
    m.tag("pinned-chat-paid-exponent"),
    m.tag("pinned-chat-paid-level"),
    m.tag("pinned-chat-paid-is-system-message"),
  ) else {
    return V::None;
  };
  if !LEVELS.contains(&level) {
    return V::None;
  }
  let (amount, exp) = (num_i64(amount, false), num_i64(exp, false));
  if amount == Num::Invalid || exp == Num::Invalid {
    return V::None;
  }
  let (Num::Valid(amount), Num::Valid(exp)) = (amount, exp) else {
    return V::Any;
  };
  let sys = match sys {
    "0" => V::B(false),
    "1" => V::B(true),
    _ => return V::Any,
  };
  V::L(vec![V::I(amount), s(cur), V::I(exp), s(level), sys])
}

pub const ANON_ID: &str = "274598607";

fn user_notice(c: &mut Ctx<'_, '_>) {
  let m = c.m;
  let Some(ev) = m.tag("msg-id") else {
    c.missing = true;
    return;
  };
  c.put("event_id", s(ev));
  c.req_channel();
  c.req_tag("channel_id", "room-id");
  c.req_tag("message_id", "id");
  c.req_ts();
  let text = m.text();
  c.put("text", os(text));
  let sys = m.tag("system-msg").filter(|v| !v.is_empty()).map(unescape);
  c.put("system_message", os(sys));
  c.badges();
  c.emotes();
  c.nonempty("color", "color");

  let from_anon_id = m.tag("user-id") == Some(ANON_ID);
  let mut anon = false;
  let promo = |c: &mut Ctx<'_, '_>| {
    let v = match (
      m.tag("msg-param-promo-name"),
      m.tag("msg-param-promo-gift-total").map(num_u64),
    ) {
      (None, _) | (_, None) | (_, Some(Num::Invalid)) => V::None,
      (Some(name), Some(Num::Valid(n))) => V::L(vec![V::U(n), s(unescape(name))]),
      (Some(_), Some(Num::Unclear)) => V::Any,
    };
    c.put("ev.promotion", v);
  };
  match ev {
    "sub" | "resub" => {
      c.put("event", s("SubOrResub"));
      c.put("ev.is_resub", V::B(ev == "resub"));
      c.req_tag_u64("ev.cumulative_months", "msg-param-cumulative-months");
      let streak = match m.tag("msg-param-streak-months").map(num_u64) {
        None | Some(Num::Invalid) | Some(Num::Valid(0)) => V::None,
        Some(Num::Valid(n)) => V::U(n),
        Some(Num::Unclear) => V::Any,
      };
      c.put("ev.streak_months", streak);
      c.req_tag("ev.sub_plan", "msg-param-sub-plan");
      c.req_tag_unesc("ev.sub_plan_name", "msg-param-sub-plan-name");
    }
    "raid" => {
      c.put("event", s("Raid"));
      c.req_tag_u64("ev.viewer_count", "msg-param-viewerCount");
      c.req_tag("ev.profile_image_url", "msg-param-profileImageURL");
    }
    "subgift" | "anonsubgift" => {
      c.put("event", s("SubGift"));
      c.req_tag_u64("ev.cumulative_months", "msg-param-months");
      c.req_tag("ev.recipient.id", "msg-param-recipient-id");
      c.req_tag("ev.recipient.login", "msg-param-recipient-user-name");
      c.req_tag_unesc("ev.recipient.name", "msg-param-recipient-display-name");
      c.req_tag("ev.sub_plan", "msg-param-sub-plan");
      c.req_tag_unesc("ev.sub_plan_name", "msg-param-sub-plan-name");
      c.req_tag_u64("ev.num_gifted_months", "msg-param-gift-months");
      anon = ev == "anonsubgift" || from_anon_id;
    }
    "anonsubmysterygift" => {
      c.put("event", s("AnonSubMysteryGift"));
      c.req_tag_u64("ev.count", "msg-param-mass-gift-count");
      c.req_tag("ev.sub_plan", "msg-param-sub-plan");
      anon = true;
    }
    "submysterygift" => {
      c.put(
        "event",
        s(if from_anon_id { "AnonSubMysteryGift" } else { "SubMysteryGift" }),
      );
      c.req_tag_u64("ev.count", "msg-param-mass-gift-count");
      c.req_tag("ev.sub_plan", "msg-param-sub-plan");
      if !from_anon_id {
        c.req_tag_u64("ev.sender_total_gifts", "msg-param-sender-count");
      }
      anon = from_anon_id;
    }
    "giftpaidupgrade" => {
      c.put("event", s("GiftPaidUpgrade"));
      c.req_tag("ev.gifter_login", "msg-param-sender-login");
      c.req_tag_unesc("ev.gifter_name", "msg-param-sender-name");
      promo(c);
    }
    "anongiftpaidupgrade" => {
      c.put("event", s("AnonGiftPaidUpgrade"));
      promo(c);
      anon = true;
    }
    "ritual" => {
      c.put("event", s("Ritual"));
      c.req_tag("ev.name", "msg-param-ritual-name");
    }
    "bitsbadgetier" => {
      c.put("event", s("BitsBadgeTier"));
      c.req_tag_u64("ev.tier", "msg-param-threshold");
    }
    "announcement" => {
      c.put("event", s("Announcement"));
      let v = m.tag("msg-param-color").unwrap_or("PRIMARY");
      if v.is_empty() {
        c.put("ev.highlight_color", V::Any)
      } else {
        c.put("ev.highlight_color", s(v));
      }
    }
    _ => {
      c.put("event", s("Unknown"));
      anon = true;
    }
  }
  if anon {
    c.put("sender", V::None);
  } else {
    c.put("sender", V::B(true));
    c.req_tag("sender.id", "user-id");
    c.req_tag("sender.login", "login");
    c.req_tag_unesc("sender.name", "display-name");
  }
}

// ---------------------------------------------------------------------------------------
// observation of the real messages

pub fn badge_obs(b: &Badge<'_>) -> V {
  match b {
    Badge::Staff => V::L(vec![s("staff")]),
    Badge::Turbo => V::L(vec![s("turbo")]),
    Badge::Broadcaster => V::L(vec![s("broadcaster")]),
    Badge::Moderator => V::L(vec![s("moderator")]),
    Badge::Subscriber(x) => V::L(vec![s("subscriber"), s(x.version()), V::U(x.months())]),
    Badge::Other(d) => V::L(vec![s("other"), s(d.name()), s(d.version()), os(d.extra())]),
  }
}

fn dur(d: std::time::Duration) -> V {
  V::L(vec![V::U(d.as_secs()), V::U(d.subsec_nanos() as u64)])
}

macro_rules! badges {
  ($f:ident, $m:ident) => {
    $f.push(("num_badges", V::U($m.num_badges() as u64)));
    $f.push(("badges", V::L($m.badges().map(badge_obs).collect())));
    let mut rev: Vec<V> = $m.badges().rev().map(badge_obs).collect();
    rev.reverse();
    $f.push(("badges_rev", V::L(rev)));
  };
}

pub fn kind(m: &Message<'_>) -> &'static str {
  match m {
    Message::ClearChat(_) => "ClearChat",
    Message::ClearMsg(_) => "ClearMsg",
    Message::GlobalUserState(_) => "GlobalUserState",
    Message::Join(_) => "Join",
    Message::Notice(_) => "Notice",
    Message::Part(_) => "Part",
    Message::Ping(_) => "Ping",
    Message::Pong(_) => "Pong",
    Message::Privmsg(_) => "Privmsg",
    Message::Reconnect => "Reconnect",
    Message::RoomState(_) => "RoomState",
    Message::UserNotice(_) => "UserNotice",
    Message::UserState(_) => "UserState",
    Message::Whisper(_) => "Whisper",
    Message::Other(_) => "Other",
  }
}

/// All public getters of a typed message.
pub fn observe(m: &Message<'_>) -> Fields {
  let mut f: Fields = vec![];
  macro_rules! p {
    ($k:literal, $v:expr) => {
      f.push(($k, $v))
    };
  }
  match m {
    Message::ClearChat(m) => {
      p!("channel", s(m.channel()));
      p!("channel_id", s(m.channel_id()));
      p!("timestamp", V::T(m.timestamp()));
      p!("target", os(m.target()));
      let a = m.action();
      let preds = (a.is_clear(), a.is_ban(), a.is_time_out());
      let name = match a {
        tmi::Action::Clear => {
          p!("preds_ok", V::B(preds == (true, false, false)));
          "clear"
        }
        tmi::Action::Ban(b) => {
          p!("user", s(b.user()));
          p!("user_id", s(b.id()));
          p!("preds_ok", V::B(preds == (false, true, false)));
          "ban"
        }
        tmi::Action::TimeOut(t) => {
          p!("user", s(t.user()));
          p!("user_id", s(t.id()));
          p!("duration", dur(t.duration()));
          p!("preds_ok", V::B(preds == (false, false, true)));
          "timeout"
        }
      };
      p!("action", s(name));
    }
    Message::ClearMsg(m) => {
      p!("channel", s(m.channel()));
      p!("channel_id", s(m.channel_id()));
      p!("sender", s(m.sender()));
      p!("target_message_id", s(m.target_message_id()));
      p!("text", s(m.text()));
      p!("is_action", V::B(m.is_action()));
      p!("timestamp", V::T(m.timestamp()));
    }
    Message::GlobalUserState(m) => {
      p!("id", s(m.id()));
      p!("name", s(m.name()));
      badges!(f, m);
      p!("emote_sets", V::L(m.emote_sets().map(s).collect()));
      p!("num_emote_sets", V::U(m.num_emote_sets() as u64));
      p!("color", os(m.color()));
    }
    Message::UserState(m) => {
      p!("channel", s(m.channel()));
      p!("user_name", s(m.user_name()));
      badges!(f, m);
      p!("emote_sets", V::L(m.emote_sets().map(s).collect()));
      p!("num_emote_sets", V::U(m.num_emote_sets() as u64));
      p!("color", os(m.color()));
    }
    Message::Join(m) => {
      p!("channel", s(m.channel()));
      p!("user", s(m.user()));
    }
    Message::Part(m) => {
      p!("channel", s(m.channel()));
      p!("user", s(m.user()));
    }
    Message::Notice(m) => {
      p!("channel", os(m.channel()));
      p!("text", s(m.text()));
      p!("id", os(m.id()));
    }
    Message::Ping(m) => p!("nonce", os(m.nonce())),
    Message::Pong(m) => p!("nonce", os(m.nonce())),
    Message::RoomState(m) => {
      p!("channel", s(m.channel()));
      p!("channel_id", s(m.channel_id()));
      let b = |v: Option<bool>| v.map(V::B).unwrap_or(V::None);
      p!("emote_only", b(m.emote_only()));
      p!("r9k", b(m.r9k()));
      p!("subs_only", b(m.subs_only()));
      p!("slow", m.slow().map(dur).unwrap_or(V::None));
      p!(
        "followers_only",
        match m.followers_only() {
          None => V::None,
          Some(tmi::FollowersOnly::Disabled) => s("disabled"),
          Some(tmi::FollowersOnly::Enabled(None)) => s("any"),
          Some(tmi::FollowersOnly::Enabled(Some(d))) => dur(d),
        }
      );
    }
    Message::Whisper(m) => {
      p!("recipient", s(m.recipient()));
      let u = m.sender();
      p!("sender.id", s(u.id()));
      p!("sender.login", s(u.login()));
      p!("sender.name", s(u.name()));
      p!("text", s(m.text()));
      badges!(f, m);
      p!("raw_emotes", s(m.raw_emotes()));
      p!("color", os(m.color()));
    }
    Message::Privmsg(m) => {
      p!("channel", s(m.channel()));
      p!("channel_id", s(m.channel_id()));
      p!("msg_id", os(m.msg_id()));
      p!("id", s(m.id()));
      let u = m.sender();
      p!("sender.id", s(u.id()));
      p!("sender.login", s(u.login()));
      p!("sender.name", s(u.name()));
      p!("text", s(m.text()));
      p!("is_action", V::B(m.is_action()));
      badges!(f, m);
      p!("color", os(m.color()));
      p!("custom_reward_id", os(m.custom_reward_id()));
      p!("bits", m.bits().map(V::U).unwrap_or(V::None));
      p!("raw_emotes", s(m.raw_emotes()));
      p!("timestamp", V::T(m.timestamp()));
      p!(
        "reply_to",
        match m.reply_to() {
          None => V::None,
          Some(r) => V::L(vec![
            s(r.thread_parent_message_id()),
            s(r.thread_parent_user_login()),
            s(r.message_id()),
            s(r.sender().id()),
            s(r.sender().login()),
            s(r.sender().name()),
            s(r.text()),
          ]),
        }
      );
      p!(
        "pinned_chat",
        match m.pinned_chat() {
          None => V::None,
          Some(c) => V::L(vec![
            V::I(c.paid_amount()),
            s(c.paid_currency()),
            V::I(c.paid_exponent()),
            s(c.paid_level().as_str()),
            V::B(c.is_system_message()),
          ]),
        }
      );
    }
    Message::UserNotice(m) => {
      p!("channel", s(m.channel()));
      p!("channel_id", s(m.channel_id()));
      p!("event_id", s(m.event_id()));
      p!("message_id", s(m.message_id()));
      p!("timestamp", V::T(m.timestamp()));
      p!("text", os(m.text()));
      p!("system_message", os(m.system_message()));
      badges!(f, m);
      p!("raw_emotes", s(m.raw_emotes()));
      p!("color", os(m.color()));
      match m.sender() {
        None => p!("sender", V::None),
        Some(u) => {
          p!("sender", V::B(true));
          p!("sender.id", s(u.id()));
          p!("sender.login", s(u.login()));
          p!("sender.name", s(u.name()));
        }
      }
      f.extend(observe_event(m.event()));
    }
    Message::Reconnect | Message::Other(_) => {}
  }
  f
}

pub fn observe_promo(p: Option<&tmi::SubGiftPromo<'_>>) -> V {
  match p {
    None => V::None,
    Some(p) => V::L(vec![V::U(p.total_gifts()), s(p.promo_name())]),
  }
}

pub fn observe_event(e: &tmi::Event<'_>) -> Fields {
  use tmi::Event as E;
  let mut f: Fields = vec![];
  macro_rules! p {
    ($k:literal, $v:expr) => {
      f.push(($k, $v))
    };
  }
  let name = match e {
    E::SubOrResub(e) => {
      p!("ev.is_resub", V::B(e.is_resub()));
      p!("ev.cumulative_months", V::U(e.cumulative_months()));
      p!("ev.streak_months", e.streak_months().map(V::U).unwrap_or(V::None));
      p!("ev.sub_plan", s(e.sub_plan()));
      p!("ev.sub_plan_name", s(e.sub_plan_name()));
      "SubOrResub"
    }
    E::Raid(e) => {
      p!("ev.viewer_count", V::U(e.viewer_count()));
      p!("ev.profile_image_url", s(e.profile_image_url()));
      "Raid"
    }
    E::SubGift(e) => {
      p!("ev.cumulative_months", V::U(e.cumulative_months()));
      p!("ev.recipient.id", s(e.recipient().id()));
      p!("ev.recipient.login", s(e.recipient().login()));
      p!("ev.recipient.name", s(e.recipient().name()));
      p!("ev.sub_plan", s(e.sub_plan()));
      p!("ev.sub_plan_name", s(e.sub_plan_name()));
      p!("ev.num_gifted_months", V::U(e.num_gifted_months()));
      "SubGift"
    }
    E::SubMysteryGift(e) => {
      p!("ev.count", V::U(e.count()));
      p!("ev.sender_total_gifts", V::U(e.sender_total_gifts()));
      p!("ev.sub_plan", s(e.sub_plan()));
      "SubMysteryGift"
    }
    E::AnonSubMysteryGift(e) => {
      p!("ev.count", V::U(e.count()));
      p!("ev.sub_plan", s(e.sub_plan()));
      "AnonSubMysteryGift"
    }
    E::GiftPaidUpgrade(e) => {
      p!("ev.gifter_login", s(e.gifter_login()));
      p!("ev.gifter_name", s(e.gifter_name()));
      p!("ev.promotion", observe_promo(e.promotion()));
      "GiftPaidUpgrade"
    }
    E::AnonGiftPaidUpgrade(e) => {
      p!("ev.promotion", observe_promo(e.promotion()));
      "AnonGiftPaidUpgrade"
    }
    E::Ritual(e) => {
      p!("ev.name", s(e.name()));
      "Ritual"
    }
    E::BitsBadgeTier(e) => {
      p!("ev.tier", V::U(e.tier()));
      "BitsBadgeTier"
    }
    E::Announcement(e) => {
      p!("ev.highlight_color", s(e.highlight_color()));
      "Announcement"
    }
    E::Unknown => "Unknown",
    _ => "(variant unknown to the model)",
  };
  f.push(("event", s(name)));
  f
}

/// Fields on which expectation and observation differ.
pub fn diff(exp: &Fields, got: &Fields) -> Vec<(String, String)> {
  let mut out = vec![];
  for (k, e) in exp {
    match got.iter().find(|(g, _)| g == k) {
      Some((_, g)) if e.agrees(g) => {}
      Some((_, g)) => out.push((k.to_string(), format!("expected {e:?}, got {g:?}"))),
      None => {
        if !matches!(e, V::Any) {
          out.push((k.to_string(), format!("expected {e:?}, field not reported")))
        }
      }
    }
  }
  // derived views that have no expectation of their own
  for (k, g) in got {
    match *k {
      "badges_rev" => {
        if let Some((_, b)) = exp.iter().find(|(e, _)| *e == "badges") {
          if !b.agrees(g) {
            out.push((k.to_string(), format!("badges in reverse: expected {b:?}, got {g:?}")));
          }
        }
      }
      "preds_ok" => {
        if !matches!(g, V::B(true)) {
          out.push((k.to_string(), "is_clear/is_ban/is_time_out disagree with the action".into()));
        }
      }
      _ => {}
    }
  }
  out
}
