//! Workload generation: structured Twitch lines with boundary values, mutations, noise,
//! and exhaustive delimiter-position sweeps.

use crate::rng::Rng;
use std::fmt::Write;

/// Literals harvested from the sources of the tree under test (reach only, never an oracle).
#[derive(Default, Clone)]
pub struct Dict {
  pub words: Vec<String>,
  pub nums: Vec<u64>,
}

impl Dict {
  pub fn load(path: &str) -> Dict {
    let mut d = Dict::default();
    if path.is_empty() {
      return d;
    }
    if let Ok(t) = std::fs::read_to_string(path) {
      for l in t.lines() {
        if let Some(w) = l.strip_prefix("w ") {
          d.words.push(unhex_str(w));
        } else if let Some(n) = l.strip_prefix("n ") {
          if let Ok(n) = n.parse() {
            d.nums.push(n)
          }
        }
      }
    }
    d.words.retain(|w| !w.is_empty());
    d
  }
}

pub fn unhex(s: &str) -> Vec<u8> {
  (0..s.len() / 2)
    .filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
    .collect()
}
pub fn unhex_str(s: &str) -> String {
  String::from_utf8_lossy(&unhex(s)).into_owned()
}
pub fn hex(b: &[u8]) -> String {
  let mut s = String::with_capacity(b.len() * 2);
  for b in b {
    let _ = write!(s, "{b:02x}");
  }
  s
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
  Id,
  Login,
  Esc,
  U,
  I,
  Ts,
  Flag,
  Color,
  Badges,
  Info,
  Emotes,
  Sets,
  Level,
  Sender,
  Event,
}

type Spec = &'static [(&'static str, K)];

const REPLY: Spec = &[
  ("reply-parent-display-name", K::Esc),
  ("reply-parent-msg-body", K::Esc),
  ("reply-parent-msg-id", K::Id),
  ("reply-parent-user-id", K::Id),
  ("reply-parent-user-login", K::Login),
  ("reply-thread-parent-msg-id", K::Id),
  ("reply-thread-parent-user-login", K::Login),
];
const PINNED: Spec = &[
  ("pinned-chat-paid-amount", K::I),
  ("pinned-chat-paid-canonical-amount", K::I),
  ("pinned-chat-paid-currency", K::Id),
  ("pinned-chat-paid-exponent", K::I),
  ("pinned-chat-paid-is-system-message", K::Flag),
  ("pinned-chat-paid-level", K::Level),
];
const PRIVMSG: Spec = &[
  ("badge-info", K::Info),
  ("badges", K::Badges),
  ("color", K::Color),
  ("display-name", K::Esc),
  ("emotes", K::Emotes),
  ("id", K::Id),
  ("room-id", K::Id),
  ("tmi-sent-ts", K::Ts),
  ("user-id", K::Id),
];
const PRIVMSG_OPT: Spec = &[
  ("msg-id", K::Id),
  ("bits", K::U),
  ("custom-reward-id", K::Id),
];
const WHISPER: Spec = &[
  ("badges", K::Badges),
  ("color", K::Color),
  ("display-name", K::Esc),
  ("emotes", K::Emotes),
  ("user-id", K::Id),
];
const CLEARCHAT: Spec = &[("room-id", K::Id), ("tmi-sent-ts", K::Ts)];
const CLEARMSG: Spec = &[
  ("login", K::Login),
  ("room-id", K::Id),
  ("target-msg-id", K::Id),
  ("tmi-sent-ts", K::Ts),
];
const GLOBAL: Spec = &[
  ("badge-info", K::Info),
  ("badges", K::Badges),
  ("color", K::Color),
  ("display-name", K::Esc),
  ("emote-sets", K::Sets),
  ("user-id", K::Id),
];
const USERSTATE: Spec = &[
  ("badge-info", K::Info),
  ("badges", K::Badges),
  ("color", K::Color),
  ("display-name", K::Esc),
  ("emote-sets", K::Sets),
];
const ROOMSTATE_OPT: Spec = &[
  ("emote-only", K::Flag),
  ("followers-only", K::I),
  ("r9k", K::Flag),
  ("slow", K::U),
  ("subs-only", K::Flag),
];
const USERNOTICE: Spec = &[
  ("badge-info", K::Info),
  ("badges", K::Badges),
  ("color", K::Color),
  ("display-name", K::Esc),
  ("emotes", K::Emotes),
  ("id", K::Id),
  ("login", K::Login),
  ("msg-id", K::Event),
  ("room-id", K::Id),
  ("system-msg", K::Esc),
  ("tmi-sent-ts", K::Ts),
  ("user-id", K::Sender),
];
/// per-event tags
pub const EVENTS: &[(&str, Spec)] = &[
  ("sub", SUB),
  ("resub", SUB),
  (
    "raid",
    &[("msg-param-viewerCount", K::U), ("msg-param-profileImageURL", K::Id)],
  ),
  ("subgift", GIFT),
  ("anonsubgift", GIFT),
  ("submysterygift", MYSTERY),
  ("anonsubmysterygift", MYSTERY),
  ("giftpaidupgrade", UPGRADE),
  ("anongiftpaidupgrade", UPGRADE),
  ("ritual", &[("msg-param-ritual-name", K::Id)]),
  ("bitsbadgetier", &[("msg-param-threshold", K::U)]),
  ("announcement", &[("msg-param-color", K::Id)]),
];
const SUB: Spec = &[
  ("msg-param-cumulative-months", K::U),
  ("msg-param-streak-months", K::U),
  ("msg-param-sub-plan", K::Id),
  ("msg-param-sub-plan-name", K::Esc),
];
const GIFT: Spec = &[
  ("msg-param-months", K::U),
  ("msg-param-gift-months", K::U),
  ("msg-param-recipient-id", K::Id),
  ("msg-param-recipient-user-name", K::Login),
  ("msg-param-recipient-display-name", K::Esc),
  ("msg-param-sub-plan", K::Id),
  ("msg-param-sub-plan-name", K::Esc),
];
const MYSTERY: Spec = &[
  ("msg-param-mass-gift-count", K::U),
  ("msg-param-sender-count", K::U),
  ("msg-param-sub-plan", K::Id),
];
const UPGRADE: Spec = &[
  ("msg-param-sender-login", K::Login),
  ("msg-param-sender-name", K::Esc),
  ("msg-param-promo-name", K::Esc),
  ("msg-param-promo-gift-total", K::U),
];
const EVENT_ODD: &[&str] = &[
  "", "Sub", "SUB", "subs", "su", "resubs", "viewermilestone", "sharedchatnotice",
  "primepaidupgrade", "rewardgift", "extendsub", "communitypayforward", "standardpayforward",
  "unraid", "charitydonation", "anonsub", "gift", "announcements", "rituals", "subgift2",
];
/// tags that must not influence a message they do not belong to
const OTHER_TAGS: Spec = &[
  ("login", K::Login),
  ("message-id", K::Id),
  ("thread-id", K::Id),
  ("target-user-id", K::Id),
  ("target-msg-id", K::Id),
  ("client-nonce", K::Id),
  ("flags", K::Id),
  ("first-msg", K::Flag),
  ("mod", K::Flag),
  ("vip", K::Flag),
  ("turbo", K::Flag),
  ("subscriber", K::Flag),
  ("returning-chatter", K::Flag),
  ("user-type", K::Id),
  ("sent-ts", K::Ts),
  ("rm-received-ts", K::Ts),
  ("historical", K::Flag),
  ("rituals", K::Flag),
  ("ban-duration", K::U),
  ("bits", K::U),
  ("emote-only", K::Flag),
  ("emote-sets", K::Sets),
  ("system-msg", K::Esc),
  ("slow", K::U),
  ("id", K::Id),
  ("user-id", K::Id),
  ("room-id", K::Id),
  ("source-id", K::Id),
  ("source-room-id", K::Id),
  ("source-badges", K::Badges),
  ("source-badge-info", K::Info),
  ("msg-id", K::Event),
  ("msg-param-displayName", K::Esc),
  ("msg-param-login", K::Login),
  ("msg-param-origin-id", K::Id),
  ("msg-param-fun-string", K::Esc),
  ("msg-param-multimonth-duration", K::U),
  ("msg-param-multimonth-tenure", K::U),
  ("msg-param-was-gifted", K::Flag),
  ("msg-param-should-share-streak", K::Flag),
  ("msg-param-gift-month-being-redeemed", K::U),
  ("msg-param-anon-gift", K::Flag),
  ("msg-param-months", K::U),
  ("msg-param-cumulative-months", K::U),
  ("msg-param-streak-months", K::U),
  ("msg-param-gift-months", K::U),
  ("msg-param-recipient-id", K::Id),
  ("msg-param-sender-login", K::Login),
  ("msg-param-sender-name", K::Esc),
  ("msg-param-sender-count", K::U),
  ("msg-param-mass-gift-count", K::U),
  ("msg-param-sub-plan", K::Id),
  ("msg-param-sub-plan-name", K::Esc),
  ("msg-param-promo-name", K::Esc),
  ("msg-param-promo-gift-total", K::U),
  ("msg-param-color", K::Id),
  ("msg-param-threshold", K::U),
  ("msg-param-ritual-name", K::Id),
  ("reply-parent-msg-id", K::Id),
  ("reply-thread-parent-display-name", K::Esc),
  ("reply-thread-parent-user-id", K::Id),
  ("custom-reward-id", K::Id),
  ("color", K::Color),
  ("display-name", K::Esc),
];

pub const COMMANDS: &[&str] = &[
  "PING", "PONG", "JOIN", "PART", "PRIVMSG", "WHISPER", "CLEARCHAT", "CLEARMSG",
  "GLOBALUSERSTATE", "NOTICE", "RECONNECT", "ROOMSTATE", "USERNOTICE", "USERSTATE", "CAP",
  "001", "002", "003", "004", "353", "366", "372", "375", "376",
];

pub const NUM_EDGES: &[&str] = &[
  "0", "1", "2", "3", "5", "9", "10", "59", "60", "61", "99", "100", "127", "128", "254", "255",
  "256", "257", "300", "511", "512", "999", "1000", "1023", "1024", "1025", "3600", "9999", "10000",
  "32767", "32768", "65534", "65535", "65536", "65537", "86400", "99999", "100000", "1000000",
  "1209600", "2147483646", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296",
  "4294967297", "9007199254740991", "9007199254740992", "9007199254740993", "153722867280912930",
  "153722867280912931", "307445734561825860", "307445734561825861", "9223372036854775806",
  "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615",
  "18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456", "00",
  "007", "0000000000000000000000000000001", "-1", "-2", "-60", "-255", "-32768", "-65536",
  "-2147483648", "-2147483649", "-4294967296", "-9223372036854775808", "-9223372036854775809", "+5",
  "-0", "+0", "", "-", "+", "a", "1a", "a1", "1.0", "1.5", "1e3", "0x10", "1_000", "1,000", "１",
  "٣", "NaN", "inf", "true", "--1", "1-", "0.", ".5", "null", "None",
];
const TS_EDGES: &[&str] = &[
  "0", "1", "999", "1000", "1001", "-1", "-999", "-1000", "-1001", "1594545155039", "253402300799999",
  "253402300800000", "8210266876799999", "8210266876800000", "-8334601228800000",
  "-8334601228800001", "-62135596800000", "-62135596800001", "-62167219200000", "-62167219200001",
  "1483228799999", "1483228800000", "2147483647999", "2147483648000", "4294967295999",
];
/// lengths around every width and integer boundary the parser could care about
pub const LENS: &[usize] = &[
  0, 1, 2, 3, 7, 8, 9, 14, 15, 16, 17, 18, 23, 24, 25, 30, 31, 32, 33, 34, 47, 48, 49, 62, 63, 64,
  65, 66, 79, 80, 81, 95, 96, 97, 126, 127, 128, 129, 130, 143, 144, 159, 160, 161, 191, 192, 193,
  223, 224, 225, 254, 255, 256, 257, 258, 287, 288, 319, 320, 383, 384, 511, 512, 513,
];
pub const BIG_LENS: &[usize] = &[
  1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16384, 32766, 32767, 32768, 32769,
  65533, 65534, 65535, 65536, 65537, 66000, 70000, 131071, 131072, 131073, 200000,
];
const MB: &[&str] = &[
  "é", "ß", "中", "테", "😀", "⸝", "\u{301}", "\u{200b}", "\u{a0}", "\u{2800}", "ſ", "Ā", "\u{7f}",
  "\u{80}", "\u{ff}", "\u{2003}", "\u{feff}", "𝕏", "\u{10ffff}", "\u{20}\u{301}",
];

pub struct Gen {
  pub r: Rng,
  pub d: Dict,
  uniq: u64,
  /// allow inputs above a few KiB
  pub big: bool,
  /// stay small (interpreter)
  pub tiny: bool,
}

impl Gen {
  pub fn new(seed: u64, d: Dict) -> Self {
    Gen {
      r: Rng::new(seed),
      d,
      uniq: 0,
      big: true,
      tiny: false,
    }
  }

  fn uid(&mut self) -> u64 {
    self.uniq = (self.uniq + 1) % 100_000;
    self.uniq
  }

  pub fn num(&mut self) -> String {
    match self.r.below(10) {
      0..=4 => self.r.pick(NUM_EDGES).to_string(),
      5 if !self.d.nums.is_empty() => {
        let n = *self.r.pick(&self.d.nums) as i128;
        (n + self.r.below(3) as i128 - 1).to_string()
      }
      6 => {
        let bits = self.r.below(64);
        (self.r.next() >> bits).to_string()
      }
      _ => self.goodnum(),
    }
  }

  /// distinct per call, so that swapped fields show
  fn goodnum(&mut self) -> String {
    let u = self.uid();
    let bits = 20 + self.r.below(40);
    (((self.r.next() >> bits) << 17 | u) >> self.r.below(8)).to_string()
  }

  fn len(&mut self) -> usize {
    if self.tiny {
      return self.r.below(24);
    }
    match self.r.below(100) {
      0..=69 => self.r.below(24),
      70..=95 => *self.r.pick(LENS),
      96..=98 => self.r.below(2000),
      _ if self.big && self.r.pct(10) => *self.r.pick(BIG_LENS),
      _ => self.r.below(64),
    }
  }

  /// tag-value text: no space, no `;`
  pub fn esc_text(&mut self) -> String {
    let n = self.len();
    let mut s = String::with_capacity(n + 4);
    let style = self.r.below(6);
    while s.len() < n {
      match (style, self.r.below(20)) {
        (0, _) => s.push((b'a' + self.r.below(26) as u8) as char),
        (1, 0..=9) | (2, 0..=5) | (3, 0..=2) => {
          let e = *self.r.pick(&[
            "\\s", "\\:", "\\\\", "\\r", "\\n", "\\x", "\\⸝", "⸝", "\\", "\\a", "\\S", "\\N", "\\é",
            "\\t", "\\0", "\\=", "\\,",
          ]);
          s.push_str(e)
        }
        (2, 6..=9) | (4, 0..=5) => s.push_str(self.r.pick(MB)),
        (_, 10..=11) => s.push(
          *self.r.pick(&[
            '=', ',', '/', ':', '#', '@', '!', '"', '\'', '\t', '\u{1}', '\0', '%', '{', '}', '<', '&',
            '\u{b}', '\u{c}', '\r', '\n', '-', '_', '.', 's', 'r', 'n', ':', '0',
          ]),
        ),
        (_, 12) if !self.d.words.is_empty() && self.r.pct(20) => {
          let w: String = self
            .r
            .pick(&self.d.words)
            .chars()
            .filter(|c| *c != ' ' && *c != ';')
            .collect();
          s.push_str(&w)
        }
        _ => s.push(*self.r.pick(&['a', 'b', 'Z', '0', '7', 's', 'n', 'x', '~'])),
      }
    }
    if self.r.pct(3) {
      s.push('\\')
    }
    s
  }

  fn id(&mut self) -> String {
    let u = self.uid();
    match self.r.below(20) {
      0 => String::new(),
      1 => self.esc_text(),
      2 if !self.d.words.is_empty() => {
        let w: String = self
          .r
          .pick(&self.d.words)
          .chars()
          .filter(|c| *c != ' ' && *c != ';')
          .collect();
        w
      }
      3 => format!("é{u}中"),
      4 => {
        let n = self.len();
        let mut s = format!("L{u}");
        while s.len() < n {
          s.push('q')
        }
        s
      }
      5 => format!("v={u}="),
      6 => format!("\\sv{u}\\:"),
      _ => format!("v{u}"),
    }
  }

  fn badge_name(&mut self) -> String {
    match self.r.below(14) {
      0..=2 => "subscriber".into(),
      3 => "moderator".into(),
      4 => "broadcaster".into(),
      5 => "staff".into(),
      6 => "turbo".into(),
      7 => (*self.r.pick(&[
        "sub", "subscribers", "Subscriber", "subscriber2", "founder", "vip", "mod", "moderators",
        "staf", "broadcast", "admin", "", "premium", "bits", "bits-leader", "predictions", "partner",
      ]))
      .into(),
      8 => format!("b{}", self.r.below(6)),
      9 => format!("bits{}", "-x".repeat(self.r.below(3))),
      10 => self.id().replace([',', '/'], "_"),
      _ => format!("b{}", self.r.below(50)),
    }
  }

  pub fn badges(&mut self) -> String {
    self.badge_list(false)
  }
  pub fn badge_info(&mut self) -> String {
    self.badge_list(true)
  }
  fn badge_list(&mut self, info: bool) -> String {
    let n = match self.r.below(20) {
      0 => 0,
      1..=4 => 1,
      5..=12 => self.r.range(2, 5),
      13..=16 => self.r.range(5, 12),
      17 if !self.tiny => self.r.range(28, 40),
      18 if !self.tiny && self.r.pct(20) => self.r.range(60, 300),
      19 if self.big && self.r.pct(1) => *self.r.pick(&[255, 256, 257, 300, 1025]),
      _ => 2,
    };
    let mut out = Vec::new();
    for _ in 0..n {
      let name = self.badge_name();
      let v = match self.r.below(12) {
        0 => String::new(),
        1 => format!("{}/{}", self.r.below(9), self.r.below(9)),
        2 => self.num().replace(',', ""),
        3 if info => self.esc_text().replace(',', "⸝"),
        _ => self.goodnum(),
      };
      out.push(match self.r.below(25) {
        0 => name,                         // no slash
        1 => String::new(),                // empty entry
        _ => format!("{name}/{v}"),
      });
    }
    if info && n > 30 {
      // the interesting entry last
      out.push(format!("subscriber/{}", self.r.below(5000)));
    }
    out.join(",")
  }

  fn value(&mut self, k: K, good: bool) -> String {
    if !good && self.r.pct(35) {
      // wrong kind altogether
      return match self.r.below(4) {
        0 => String::new(),
        1 => self.esc_text(),
        2 => self.num().replace([' ', ';'], ""),
        _ => self.id(),
      };
    }
    match k {
      K::Id | K::Login => self.id(),
      K::Esc => {
        if self.r.pct(40) {
          let u = self.uid();
          format!("N{u}\\sx\\:{u}")
        } else {
          self.esc_text()
        }
      }
      K::U => {
        if good {
          match self.r.below(6) {
            0 => "0".into(),
            1 => "1".into(),
            2 => {
              let e = self.r.pick(NUM_EDGES).to_string();
              if matches!(crate::model::num_u64(&e), crate::model::Num::Valid(_)) {
                e
              } else {
                self.goodnum()
              }
            }
            _ => self.goodnum(),
          }
        } else {
          self.num()
        }
      }
      K::I => {
        if good {
          match self.r.below(6) {
            0 => "0".into(),
            1 => format!("-{}", self.goodnum()),
            2 => {
              let e = self.r.pick(NUM_EDGES).to_string();
              if matches!(crate::model::num_i64(&e, false), crate::model::Num::Valid(_)) {
                e
              } else {
                self.goodnum()
              }
            }
            _ => self.goodnum(),
          }
        } else {
          self.num()
        }
      }
      K::Ts => {
        if good {
          match self.r.below(8) {
            0 => {
              let t = self.r.pick(TS_EDGES).to_string();
              t
            }
            1 => (self.r.next() as i64 % 8_000_000_000_000_000).to_string(),
            _ => (1_400_000_000_000 + self.r.next() % 600_000_000_000).to_string(),
          }
        } else if self.r.pct(50) {
          self.r.pick(TS_EDGES).to_string()
        } else {
          self.num()
        }
      }
      K::Flag => {
        if good || self.r.pct(70) {
          (*self.r.pick(&["0", "1"])).into()
        } else {
          (*self.r.pick(&["2", "", "true", "-1", "255", "256", "x", "01", "+1", "false"])).into()
        }
      }
      K::Color => match self.r.below(5) {
        0 => String::new(),
        1 => self.id(),
        _ => format!("#{:06X}", self.r.next() & 0xff_ffff),
      },
      K::Badges => self.badges(),
      K::Info => {
        if self.r.pct(15) {
          String::new()
        } else {
          self.badge_info()
        }
      }
      K::Emotes => match self.r.below(4) {
        0 => String::new(),
        1 => "555555591:51-52/25:0-4,12-16,18-22/1902:6-10".into(),
        2 => format!("{}:0-{}", self.goodnum(), self.r.below(99)),
        _ => self.id(),
      },
      K::Sets => match self.r.below(6) {
        0 => String::new(),
        1 => "0".into(),
        2 => format!("{},", self.goodnum()),
        3 => format!("{},,{}", self.goodnum(), self.goodnum()),
        _ => {
          let n = if self.tiny {
            3
          } else if self.big && self.r.pct(1) {
            *self.r.pick(&[127, 128, 255, 256, 257, 1000, 5000])
          } else {
            self.r.range(1, 40)
          };
          (0..n).map(|_| self.goodnum()).collect::<Vec<_>>().join(",")
        }
      },
      K::Level => {
        if good || self.r.pct(60) {
          (*self.r.pick(crate::gen::LEVELS)).into()
        } else {
          (*self.r.pick(&["ELEVEN", "one", "One", "", "1", "ON", "ZERO", "TENS", "0", "10"])).into()
        }
      }
      K::Sender => match self.r.below(10) {
        0..=1 => "274598607".into(),
        2 => (*self.r.pick(&["2745986070", "27459860", "274598608", "274598606", "0274598607", ""])).into(),
        _ => self.id(),
      },
      K::Event => {
        if self.r.pct(80) {
          self.r.pick(EVENTS).0.into()
        } else if self.r.pct(60) {
          (*self.r.pick(EVENT_ODD)).into()
        } else {
          self.id()
        }
      }
    }
  }

  fn prefix(&mut self, must_nick: bool) -> String {
    let u = self.uid();
    let (n, us, h) = match self.r.below(12) {
      0 => (format!("é{u}"), format!("中{u}"), format!("h{u}.tv")),
      1 => {
        let l = self.len();
        ("n".repeat(l), format!("u{u}"), "h".repeat(self.r.below(40)))
      }
      2 => (format!("n{u}"), String::new(), format!("h{u}")),
      _ => (
        format!("nick{u}"),
        format!("user{u}"),
        format!("host{u}.tmi.twitch.tv"),
      ),
    };
    let k = if must_nick { self.r.range(2, 19) } else { self.r.below(20) };
    match k {
      0 => String::new(),
      1 => format!(":{h} "),
      2 => format!(":{n}@{h} "),
      3 if self.r.pct(30) => match self.r.below(8) {
        0 => ": ".into(),
        1 => format!(":{n}!{us} "),
        2 => format!(":{n}!{us}@{h}@{n} "),
        3 => format!(":{n}!!{us}@{h} "),
        4 => format!(":@{h} "),
        5 => format!(":!{us}@{h} "),
        6 => format!(":{n}!@{h} "),
        _ => format!(":{n}!{us}@ "),
      },
      _ => format!(":{n}!{us}@{h} "),
    }
  }

  fn channel_word(&mut self) -> String {
    let u = self.uid();
    match self.r.below(30) {
      0 => "#".into(),
      1 => format!("#é中{u}"),
      2 => format!("##c{u}"),
      3 => format!("#c{u}:x"),
      4 => {
        let l = self.len();
        format!("#{}", "c".repeat(l))
      }
      5 => format!("#c{u},#d{u}"),
      _ => format!("#chan{u}"),
    }
  }

  /// free text, may contain anything but a newline most of the time
  pub fn free_text(&mut self) -> String {
    let n = self.len();
    let mut s = String::new();
    let style = self.r.below(5);
    while s.len() < n {
      match (style, self.r.below(12)) {
        (0, _) => s.push((b'a' + self.r.below(26) as u8) as char),
        (1, 0..=5) => s.push(*self.r.pick(&[
          ':', ';', '=', '@', '#', '!', ' ', '\\', ',', '/', '\u{1}', '\t', '"', ' ', ' ',
        ])),
        (2, 0..=5) => s.push_str(self.r.pick(MB)),
        (3, 0) => s.push_str(self.r.pick(&[" :", ": ", "  ", "\u{1}ACTION ", "\u{1}", "ACTION", "\r", "\n"])),
        (_, 6) if !self.d.words.is_empty() && self.r.pct(10) => {
          let w = self.r.pick(&self.d.words).clone();
          s.push_str(&w)
        }
        _ => s.push(*self.r.pick(&['a', 'b', 'c', ' ', 'Z', '1'])),
      }
    }
    if self.r.pct(10) {
      match self.r.below(9) {
        0..=3 => s = format!("\u{1}ACTION {s}\u{1}"),
        4 => s = format!("\u{1}ACTION {s}"),
        5 => s = format!("{s}\u{1}"),
        6 => s = format!("\u{1}ACTION{s}\u{1}"),
        7 => s = format!("\u{1}ACTION {s}\u{1}\u{1}"),
        _ => s = format!("\u{1}action {s}\u{1}"),
      }
    }
    s
  }

  fn tail(&mut self) -> String {
    match self.r.below(20) {
      0 => String::new(),
      1 => " ".into(),
      2 => " :".into(),
      3 => format!(" {}", self.free_text()),
      4 => format!(" {} :{}", self.id(), self.free_text()),
      5 => format!("  :{}", self.free_text()),
      _ => format!(" :{}", self.free_text()),
    }
  }

  /// a (mostly) valid Twitch line of a random type; `only`: restrict the command
  pub fn line(&mut self, only: Option<&str>) -> String {
    let cmd: &str = match only {
      Some(c) => c,
      None => match self.r.below(100) {
        0..=24 => "PRIVMSG",
        25..=49 => "USERNOTICE",
        50..=56 => "WHISPER",
        57..=62 => "CLEARCHAT",
        63..=67 => "CLEARMSG",
        68..=72 => "ROOMSTATE",
        73..=76 => "USERSTATE",
        77..=80 => "GLOBALUSERSTATE",
        81..=84 => "NOTICE",
        85..=87 => "JOIN",
        88..=90 => "PART",
        91..=92 => "PING",
        93..=94 => "PONG",
        _ => COMMANDS[self.r.below(COMMANDS.len())],
      },
    };
    // 0: complete and well-formed, 1: complete, one defect, 2: random subset, 3: chaos
    let mode = match self.r.below(20) {
      0..=6 => 0,
      7..=14 => 1,
      15..=17 => 2,
      _ => 3,
    };
    let mut tags: Vec<(String, String)> = Vec::new();
    let mut spec: Vec<(&str, K)> = Vec::new();
    match cmd {
      "PRIVMSG" => {
        spec.extend(PRIVMSG);
        if self.r.pct(50) {
          spec.extend(PRIVMSG_OPT);
        }
        if self.r.pct(50) {
          spec.extend(REPLY);
        }
        if self.r.pct(50) {
          spec.extend(PINNED);
        }
      }
      "WHISPER" => {
        spec.extend(WHISPER);
        if self.r.pct(40) {
          spec.push(("badge-info", K::Info));
        }
      }
      "CLEARCHAT" => {
        spec.extend(CLEARCHAT);
        if self.r.pct(75) {
          spec.push(("target-user-id", K::Id));
        }
        if self.r.pct(50) {
          spec.push(("ban-duration", K::U));
        }
      }
      "CLEARMSG" => spec.extend(CLEARMSG),
      "ROOMSTATE" => {
        spec.push(("room-id", K::Id));
        let all = self.r.pct(40);
        for t in ROOMSTATE_OPT {
          if all || self.r.pct(40) {
            spec.push(*t);
          }
        }
      }
      "USERSTATE" => spec.extend(USERSTATE),
      "GLOBALUSERSTATE" => spec.extend(GLOBAL),
      "NOTICE" => {
        if self.r.pct(60) {
          spec.push(("msg-id", K::Id))
        }
      }
      "USERNOTICE" => spec.extend(USERNOTICE),
      _ => {
        if self.r.pct(30) {
          let n = self.r.below(8);
          for _ in 0..n {
            let t = *self.r.pick(OTHER_TAGS);
            spec.push(t);
          }
        }
      }
    }
    let mut event = "";
    if cmd == "USERNOTICE" {
      let e = self.r.pick(EVENTS);
      event = e.0;
      spec.extend(e.1);
    }
    for (k, kind) in &spec {
      let drop = mode == 2 && self.r.pct(35);
      if drop {
        continue;
      }
      let good = mode < 2 || (mode == 2 && self.r.pct(70));
      let v = if *kind == K::Event && self.r.pct(92) {
        event.to_string()
      } else {
        self.value(*kind, good)
      };
      tags.push((k.to_string(), v));
    }
    if self.r.pct(40) {
      let n = self.r.below(10);
      for _ in 0..n {
        let (k, kind) = *self.r.pick(OTHER_TAGS);
        if tags.iter().any(|(t, _)| t == k) || k == "msg-id" {
          continue;
        }
        let v = self.value(kind, true);
        tags.push((k.to_string(), v));
      }
    }
    if self.r.pct(15) {
      let n = self.r.below(6);
      for _ in 0..n {
        let k = self.odd_key(&tags);
        let v = self.id();
        tags.push((k, v));
      }
    }
    if self.r.pct(60) {
      self.r.shuffle(&mut tags);
    }
    if self.r.pct(12) && !tags.is_empty() {
      // duplicate key with another value, before or after
      let (k, _) = tags[self.r.below(tags.len())].clone();
      let kind = spec.iter().find(|(s, _)| *s == k).map(|(_, k)| *k).unwrap_or(K::Id);
      let v = self.value(kind, true);
      let at = self.r.below(tags.len() + 1);
      tags.insert(at, (k, v));
    }
    if mode == 1 && !tags.is_empty() {
      let i = if spec.is_empty() { 0 } else { self.r.below(tags.len()) };
      match self.r.below(6) {
        0 | 1 => {
          tags.remove(i);
        }
        2 => tags[i].1.clear(),
        _ => {
          let kind = spec
            .iter()
            .find(|(s, _)| *s == tags[i].0)
            .map(|(_, k)| *k)
            .unwrap_or(K::Id);
          tags[i].1 = self.value(kind, false);
        }
      }
    }
    if !self.tiny && self.r.pct(2) {
      // many tags
      let n = *self.r.pick(&[30, 60, 63, 64, 65, 100, 120, 126, 127, 128, 129, 130, 200, 255, 256, 257, 400]);
      let front = self.r.pct(50);
      let mut i = 0;
      while tags.len() < n {
        i += 1;
        let t = (format!("x-{i}"), format!("{i}"));
        if front {
          tags.insert(0, t)
        } else {
          tags.push(t)
        }
      }
    }
    if mode == 3 {
      self.r.shuffle(&mut tags);
      let keep = self.r.below(tags.len() + 1);
      tags.truncate(keep);
    }
    let mut out = String::new();
    if !tags.is_empty() || self.r.pct(3) {
      out.push('@');
      for (i, (k, v)) in tags.iter().enumerate() {
        if i > 0 {
          out.push(';');
        }
        out.push_str(k);
        out.push('=');
        out.push_str(v);
      }
      if self.r.pct(4) {
        out.push(';')
      }
      out.push(' ');
    }
    let must_nick = mode < 2 && matches!(cmd, "PRIVMSG" | "WHISPER" | "JOIN" | "PART");
    let p = self.prefix(must_nick);
    out.push_str(&p);
    if mode == 3 && self.r.pct(20) {
      let c = self.odd_command();
      out.push_str(&c);
    } else {
      out.push_str(cmd);
    }
    let chan = match cmd {
      "PING" | "PONG" | "WHISPER" | "GLOBALUSERSTATE" | "RECONNECT" | "CAP" => self.r.pct(3),
      "NOTICE" => self.r.pct(60),
      "001" | "002" | "003" | "004" | "353" | "366" | "372" | "375" | "376" => self.r.pct(5),
      _ => !(mode == 1 && self.r.pct(8) || mode >= 2 && self.r.pct(20)),
    };
    if chan {
      out.push(' ');
      let c = self.channel_word();
      out.push_str(&c);
    }
    match cmd {
      "WHISPER" => {
        let r = self.id().replace([' ', ':', '#'], "");
        let t = self.free_text();
        match self.r.below(20) {
          0 => {}
          1 => {
            let _ = write!(out, " {r}");
          }
          2 => {
            let _ = write!(out, " {r} {t}");
          }
          3 => {
            let _ = write!(out, " :{t}");
          }
          4 => {
            let _ = write!(out, " {r} :");
          }
          _ => {
            let r = if r.is_empty() { "rcpt".into() } else { r };
            let _ = write!(out, " {r} :{t}");
          }
        }
      }
      "353" => {
        let c = self.channel_word();
        let t = self.free_text();
        let _ = write!(out, " nick = {c} :{t}");
      }
      "366" => {
        let c = self.channel_word();
        let _ = write!(out, " nick {c} :End of /NAMES list");
      }
      "CLEARCHAT" => {
        if self.r.pct(75) {
          let t = if self.r.pct(80) { self.id() } else { self.free_text() };
          if self.r.pct(95) {
            let _ = write!(out, " :{t}");
          } else {
            let _ = write!(out, " {t}");
          }
        }
      }
      "ROOMSTATE" | "USERSTATE" | "GLOBALUSERSTATE" | "JOIN" | "PART" | "RECONNECT" => {
        if self.r.pct(10) {
          let t = self.tail();
          out.push_str(&t)
        }
      }
      "USERNOTICE" | "PING" | "PONG" => {
        if self.r.pct(60) {
          let t = self.tail();
          out.push_str(&t)
        }
      }
      _ => {
        let t = self.tail();
        out.push_str(&t)
      }
    }
    if self.r.pct(6) {
      out = self.mutate(out);
    }
    out
  }

  fn odd_key(&mut self, tags: &[(String, String)]) -> String {
    let base = if tags.is_empty() || self.r.pct(30) {
      (*self.r.pick(OTHER_TAGS)).0.to_string()
    } else {
      tags[self.r.below(tags.len())].0.clone()
    };
    match self.r.below(8) {
      0 => format!("{base}2"),
      1 => format!("x-{base}"),
      2 => {
        let mut b = base;
        b.pop();
        b
      }
      3 => base.to_uppercase(),
      4 => String::new(),
      5 => format!("é{base}"),
      6 => base.replace('-', "_"),
      _ => {
        let n = self.len();
        "k".repeat(n)
      }
    }
  }

  pub fn odd_command(&mut self) -> String {
    let c = *self.r.pick(COMMANDS);
    match self.r.below(10) {
      0 => c.to_lowercase(),
      1 => format!("{c}X"),
      2 => c[..c.len() - 1].to_string(),
      3 => format!("X{c}"),
      4 => "é".into(),
      5 => format!("{c}\t"),
      6 => format!("{c}:"),
      7 => self.r.pick(&["005", "421", "000", "0001", "01", "HOSTTARGET", "CAPS", "PRIVMSGS"]).to_string(),
      8 => format!("@{c}"),
      _ => c.into(),
    }
  }

  /// character-level mutation
  pub fn mutate(&mut self, s: String) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = self.r.range(1, 4);
    for _ in 0..n {
      let at = self.r.below(c.len() + 1);
      match self.r.below(9) {
        0 | 1 => {
          let x = *self.r.pick(&[' ', ';', '=', ':', '@', '!', '#', '\\', 'é', '\0', '\u{1}', ',', '/']);
          c.insert(at, x)
        }
        2 => {
          if at < c.len() {
            c.remove(at);
          }
        }
        3 => c.truncate(at),
        4 => {
          c.drain(..at);
        }
        5 => {
          if at < c.len() {
            c[at] = *self.r.pick(&[' ', ';', '=', ':', '@', '!', '#', '\\', 'é', 'x'])
          }
        }
        6 => {
          let to = self.r.below(c.len() + 1);
          let (a, b) = (at.min(to), at.max(to));
          let part: Vec<char> = c[a..b].to_vec();
          let to = self.r.below(c.len() + 1);
          if part.len() < 2000 {
            c.splice(to..to, part);
          }
        }
        7 => {
          let to = self.r.below(c.len() + 1);
          let (a, b) = (at.min(to), at.max(to));
          if b - a < 40 {
            c.drain(a..b);
          }
        }
        _ => {
          if !c.is_empty() {
            let a = self.r.below(c.len());
            let b = self.r.below(c.len());
            c.swap(a, b)
          }
        }
      }
    }
    c.into_iter().collect()
  }

  /// strings made of the structural characters
  pub fn noise(&mut self) -> String {
    let n = if self.tiny {
      self.r.below(50)
    } else {
      match self.r.below(10) {
        0..=5 => self.r.below(50),
        6..=8 => *self.r.pick(LENS),
        _ => self.r.below(400),
      }
    };
    let mut s = String::new();
    match self.r.below(4) {
      0 => s.push('@'),
      1 => s.push_str("@a=b;"),
      2 => s.push(':'),
      _ => {}
    }
    let style = self.r.below(4);
    while s.len() < n {
      match style {
        0 => s.push(*self.r.pick(&['@', ';', '=', ' ', ':', '!', '#', '\\', 'a', 'b'])),
        1 => s.push(*self.r.pick(&[';', '=', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'])),
        2 => {
          if self.r.pct(30) {
            s.push_str(self.r.pick(MB))
          } else {
            s.push(*self.r.pick(&['@', ';', '=', ' ', ':', '!', '#', 'a']))
          }
        }
        _ => match char::from_u32((self.r.next() % 0x2000) as u32) {
          Some(c) => s.push(c),
          None => s.push('x'),
        },
      }
    }
    if self.r.pct(50) {
      let t = *self.r.pick(COMMANDS);
      let _ = write!(s, " {t}");
      if self.r.pct(50) {
        s.push_str(" #c :t")
      }
    }
    s
  }

  /// long and many-tag inputs
  pub fn large(&mut self) -> String {
    let l = *self.r.pick(BIG_LENS) + self.r.below(3);
    let mb = *self.r.pick(&["x", "é", "中", "😀", "a=", "=", "\\s", "\\\\"]);
    let mut v = "z".repeat(self.r.below(4));
    while v.len() < l {
      v.push_str(mb);
    }
    let cmd = *self.r.pick(&["PRIVMSG", "USERNOTICE", "ROOMSTATE", "NOTICE", "FOO"]);
    match self.r.below(8) {
      0 => format!("@k={v} :n!u@h {cmd} #c :t"),
      1 => format!("@{v}=v;id=5 :n!u@h {cmd} #c :t"),
      2 => {
        let k = v.replace('=', "k");
        format!("@a=b;{k}=v;id=5;room-id=7 :n!u@h {cmd} #c :t")
      }
      3 => format!("@a=b;id={v};room-id=7 :n!u@h {cmd} #c :t"),
      4 => format!(":{v} {cmd} #c :t"),
      5 => format!("@a=b {cmd} #{v} :t"),
      6 => {
        let mut n = *self.r.pick(&[126usize, 127, 128, 129, 130, 191, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 5000]);
        if self.r.pct(6) {
          n = *self.r.pick(&[32767, 32769, 65534, 65535, 65536, 65537, 65600]);
        }
        let mut s = String::from("@");
        for i in 0..n {
          let _ = write!(s, "k{i}=v{i};");
        }
        s.pop();
        let _ = write!(s, " :n!u@h {cmd} #c :t");
        s
      }
      _ => format!("@id=1;room-id=2 :n!u@h {cmd} #c :{v}"),
    }
  }

  /// tag names, command words and level names, exact and nearly
  pub fn name_case(&mut self) -> String {
    match self.r.below(100) {
      0..=39 => {
        let all = crate::oracle::TAGS;
        let base = all[self.r.below(all.len())].1.to_string();
        match self.r.below(8) {
          0..=1 => base,
          2 => base.to_uppercase(),
          3 => format!("{base}{}", self.r.pick(&["s", "-", "2", " ", "é", "\0"])),
          4 => {
            let mut b = base;
            b.pop();
            b
          }
          5 => base.replace('-', "_"),
          6 => {
            // one letter changed, same length
            let mut b: Vec<char> = base.chars().collect();
            let i = self.r.below(b.len());
            b[i] = *self.r.pick(&['a', 'e', 'z', '-', 'I', 'd', '9']);
            b.into_iter().collect()
          }
          _ => {
            let other = all[self.r.below(all.len())].1;
            let cut = self.r.below(base.len());
            format!("{}{}", &base[..cut], &other[cut.min(other.len())..])
          }
        }
      }
      40..=49 => self.odd_command(),
      50..=53 => {
        let l = *self.r.pick(LEVELS);
        match self.r.below(4) {
          0 => l.to_lowercase(),
          1 => format!("{l}X"),
          _ => l.into(),
        }
      }
      54..=58 => self.esc_text(),
      59..=60 => self.free_text(),
      61..=63 if !self.d.words.is_empty() => self.r.pick(&self.d.words).clone(),
      _ => self.line(None),
    }
  }

  pub fn unescape_case(&mut self) -> String {
    match self.r.below(10) {
      0..=4 => self.esc_text(),
      5 => self.free_text(),
      6 => {
        // runs of backslashes before every kind of follower
        let mut s = String::new();
        for _ in 0..self.r.range(1, 6) {
          let n = self.r.below(6);
          s.push_str(&"a".repeat(self.r.below(4)));
          s.push_str(&"\\".repeat(n));
          s.push_str(self.r.pick(&[":", "s", "r", "n", "x", "⸝", "é", " ", ";", ",", "", "😀", "S"]));
        }
        s
      }
      7 => {
        // one special at every distance from the start
        let l = self.len();
        let fill = *self.r.pick(&["a", "é", "中", "😀", " "]);
        let mut s = String::new();
        while s.len() < l {
          s.push_str(fill);
        }
        s.push_str(self.r.pick(&["\\s", "⸝", "\\", "\\:", "\\\\", "\\x", "\\⸝", "⸜", "⸞", "\u{2e1d}"]));
        for _ in 0..self.r.below(20) {
          s.push_str(fill)
        }
        s
      }
      8 => {
        let a = self.free_text();
        crate::model::escape(&a, self.r.pct(50))
      }
      _ => {
        let a = self.esc_text();
        self.mutate(a)
      }
    }
  }

  /// the mixed workload of the raw-parser properties
  pub fn raw_case(&mut self) -> String {
    match self.r.below(100) {
      0..=44 => self.line(None),
      45..=74 => self.noise(),
      75..=89 => {
        let l = self.line(None);
        self.mutate(l)
      }
      90 if self.big && self.r.pct(15) => self.large(),
      91..=95 => {
        let mut l = self.line(None);
        let n = self.r.below(l.len() + 1);
        let mut n = n;
        while !l.is_char_boundary(n) {
          n -= 1;
        }
        l.truncate(n);
        l
      }
      _ => {
        let c = self.odd_command();
        let p = self.prefix(false);
        let t = self.tail();
        format!("{p}{c}{t}")
      }
    }
  }
}

pub const LEVELS: &[&str] = &[
  "ONE", "TWO", "THREE", "FOUR", "FIVE", "SIX", "SEVEN", "EIGHT", "NINE", "TEN",
];

/// Exhaustive sweep of delimiter positions: the tag section has every length up to `max`,
/// and the delimiters every position inside it.
pub struct Sweep {
  max: usize,
  pattern: usize,
  len: usize,
  at: usize,
}

pub const SWEEP_PATTERNS: usize = 12;

impl Sweep {
  pub fn new(max: usize) -> Self {
    Sweep {
      max,
      pattern: 0,
      len: 1,
      at: 0,
    }
  }
}

fn fill(n: usize, c: char) -> String {
  std::iter::repeat(c).take(n).collect()
}

impl Iterator for Sweep {
  type Item = String;
  fn next(&mut self) -> Option<String> {
    if self.pattern == SWEEP_PATTERNS {
      return None;
    }
    let (l, a) = (self.len, self.at);
    let out = sweep_case(self.pattern, l, a);
    self.at += 1;
    if self.at >= l {
      self.at = 0;
      self.len += 1;
      if self.len > self.max {
        self.len = 1;
        self.pattern += 1;
      }
    }
    Some(out)
  }
}

/// `l`: length of the swept section, `a < l`: position of the delimiter in it
pub fn sweep_case(pattern: usize, l: usize, a: usize) -> String {
  let rest = " :n!u@h PRIVMSG #c :x=y;z t";
  let (pre, post) = (a, l - a - 1);
  match pattern {
    // one tag, `=` at a
    0 => format!("@{}={}{rest}", fill(pre, 'k'), fill(post, 'v')),
    // two tags, `;` at a
    1 => format!("@{}={};{}={}{rest}", fill(pre / 2, 'k'), fill(pre - pre / 2, 'v'), fill(post / 3, 'q'), fill(post - post / 3, 'w')),
    // `=` run starting at a
    2 => format!("@{}={}{rest}", fill(pre, 'k'), fill(post, '=')),
    // empty values around a
    3 => format!("@{}=;={}{rest}", fill(pre, 'k'), fill(post, 'v')),
    // dense short tags, then one long
    4 => {
      let mut s = String::from("@");
      while s.len() < pre {
        s.push_str("a=b;");
      }
      format!("{s}k={}{rest}", fill(post, 'v'))
    }
    // one long, then dense
    5 => {
      let mut s = format!("@k={}", fill(pre, 'v'));
      while s.len() < l {
        s.push_str(";c=d");
      }
      format!("{s}{rest}")
    }
    // prefix delimiters
    6 => format!(":{}!{}@{} PRIVMSG #c :t", fill(pre, 'n'), fill(post / 2, 'u'), fill(post - post / 2, 'h')),
    // prefix without user, after tags
    7 => format!("@k=v :{}@{} PING :t", fill(pre, 'n'), fill(post, 'h')),
    // command and channel lengths
    8 => format!("@k=v :h {} #{} :t", fill(pre + 1, 'C'), fill(post, 'c')),
    // no tag terminator at all
    9 => format!("@{}={}", fill(pre, 'k'), fill(post, 'v')),
    // multi-byte values straddling every chunk boundary
    10 => {
      let mut s = format!("@{}=", fill(pre, 'k'));
      while s.len() < l {
        s.push('中');
      }
      format!("{s};é=ß{rest}")
    }
    // `;` directly before the end, spaces right after
    _ => format!("@{}={}; {}PING", fill(pre, 'k'), fill(post, 'v'), if a % 7 == 0 { " " } else { "" }),
  }
}
