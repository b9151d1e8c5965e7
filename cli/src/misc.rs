//! C23: where the token shows up. C26: small values.

use crate::handshake::transcript;
use crate::hooks::{self, ConnectPlan, Plan};
use crate::srv::*;
use crate::util::*;
use crate::{Cx, Ran};
use mon::rng::Rng;
use mon::Obs;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::sync::Mutex;
use std::time::Duration;
use tmi::client::write::SameMessageBypass;
use tmi::client::{Backoff, ConnectError};
use tmi::{Client, Credentials};
use tracing::field::{Field, Visit};
use tracing_core::span;

/// Everything the libraries said since the last scenario: (where, text).
static SAID: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);

fn say(wher: String, text: String) {
  let mut g = SAID.lock().unwrap_or_else(|e| e.into_inner());
  if g.len() < 200_000 {
    g.push((wher, text));
  }
}

struct Text(String);

impl Visit for Text {
  fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
    let _ = write!(self.0, "{}={v:?} {v:#?} ", f.name());
  }
  fn record_str(&mut self, f: &Field, v: &str) {
    let _ = write!(self.0, "{}={v} ", f.name());
  }
}

struct Capture;

impl tracing_core::Subscriber for Capture {
  fn enabled(&self, _: &tracing_core::Metadata<'_>) -> bool {
    true
  }
  fn new_span(&self, s: &span::Attributes<'_>) -> span::Id {
    let mut t = Text(s.metadata().name().to_string());
    s.record(&mut t);
    say(format!("span {}", s.metadata().target()), t.0);
    span::Id::from_u64(1)
  }
  fn record(&self, _: &span::Id, v: &span::Record<'_>) {
    let mut t = Text(String::new());
    v.record(&mut t);
    say("span record".into(), t.0);
  }
  fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
  fn event(&self, e: &tracing_core::Event<'_>) {
    let mut t = Text(String::new());
    e.record(&mut t);
    say(format!("event {}", e.metadata().target()), t.0);
  }
  fn enter(&self, _: &span::Id) {}
  fn exit(&self, _: &span::Id) {}
}

struct Log;

impl log::Log for Log {
  fn enabled(&self, _: &log::Metadata) -> bool {
    true
  }
  fn log(&self, r: &log::Record) {
    say(format!("log {}", r.target()), r.args().to_string());
  }
  fn flush(&self) {}
}

pub fn install_capture() {
  tracing::subscriber::set_global_default(Capture).expect("tracing subscriber");
  static LOG: Log = Log;
  let _ = log::set_logger(&LOG);
  log::set_max_level(log::LevelFilter::Trace);
}

/// All the ways in which (part of) the token could be written.
struct Needles {
  texts: HashSet<Vec<u8>>,
  numbers: Vec<String>,
}

impl Needles {
  fn new(token: &str) -> Needles {
    let b = token.as_bytes();
    let mut texts = HashSet::new();
    let mut numbers = vec![];
    for w in b.windows(8) {
      texts.insert(w.to_vec());
    }
    for w in b.windows(8) {
      numbers.push(w.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", "));
      numbers.push(w.iter().map(|b| format!("{b:02x}")).collect::<String>());
    }
    Needles { texts, numbers }
  }

  fn find(&self, hay: &[u8]) -> bool {
    if hay.windows(8).any(|w| self.texts.contains(w)) {
      return true;
    }
    // pretty-printed byte lists
    let flat: String = String::from_utf8_lossy(hay).split_whitespace().collect::<Vec<_>>().join(" ");
    self.numbers.iter().any(|n| flat.contains(n.as_str()))
  }
}

fn errors(say: &mut Vec<(String, String)>, wher: &str, e: &(dyn std::error::Error + 'static)) {
  let mut next = Some(e);
  let mut depth = 0;
  while let Some(e) = next {
    say.push((format!("{wher} (error, depth {depth})"), format!("{e} {e:?} {e:#?}")));
    next = e.source();
    depth += 1;
    if depth > 20 {
      break;
    }
  }
}

pub fn c23(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  let mut bare = alnum(r, 30);
  if r.pct(40) {
    // not the usual alphabet, not the usual length
    let n = *r.pick(&[12, 25, 30, 31, 64, 200]);
    bare = alnum(r, n)
      .chars()
      .map(|c| match r.below(12) {
        0 => *r.pick(&['-', '_', '.', '~', '+', '/', '=', ':', '%', '#', '@']),
        1 => c.to_ascii_uppercase(),
        _ => c,
      })
      .collect();
    // one end is what is left when the alphanumeric characters of the other are cut off
    let at = if r.pct(50) { 9 } else { n - 9 };
    bare.replace_range(at..at + 1, "-");
  }
  let token = match r.below(4) {
    0 | 1 => format!("oauth:{bare}"),
    2 => bare.clone(),
    _ => format!("OAuth {bare}"),
  };
  let creds = Credentials::new(word(r, 3, 20), &token);
  let needles = Needles::new(&bare);
  // the fate of each connection; connect, then reconnects
  let n = r.range(1, 4);
  let mut plans = vec![];
  let mut scripts = vec![];
  let mut fates = vec![];
  for i in 0..n {
    let mut plan = Plan::default();
    let mut steps = vec![Step::Lines(3)];
    let fate = if i + 1 < n { r.below(3) } else { r.below(12) };
    let mut sc = None;
    match fate {
      0..=3 => steps = good_steps(&creds.login, b":a!a@a PRIVMSG #a :hi\r\nPING :x\r\n\xff\r\n\r\n", r),
      4 => steps.push(Step::Send(":tmi.twitch.tv CAP * NAK :twitch.tv/tags\r\n".into())),
      5 => steps.push(Step::Send(format!("{ACK}:tmi.twitch.tv NOTICE * :Login authentication failed\r\n").into())),
      6 => steps.push(Step::Send(format!("{ACK}:tmi.twitch.tv NOTICE * :Improperly formatted auth\r\n").into())),
      7 => steps.push(Step::Send(format!("{ACK}PING :x\r\n").into())),
      8 => steps.push(Step::Close(*r.pick(&[Close::Fin, Close::Notify, Close::Rst]))),
      9 => plan.connect = ConnectPlan::Fail(libc::ECONNREFUSED),
      10 => plan.send_fail = Some((r.below(4), libc::EPIPE)),
      _ => {
        let mut s = script(cx, vec![], r);
        if r.pct(50) {
          s.no_tls = Some((r.below(2) as u8, Close::Fin));
        } else {
          s.cfg = server_config(&cx.certs, "untrusted", false);
        }
        sc = Some(s);
      }
    }
    fates.push(fate);
    let reaches = fate != 9;
    plans.push(plan);
    if reaches {
      scripts.push(sc.unwrap_or_else(|| script(cx, steps, r)));
    }
  }
  let desc = format!("login {} token {token} fates {fates:?}", creds.login);
  scenario(&desc);
  hooks::reset(cx.ip, plans);
  let server = Server::start(cx, scripts);
  SAID.lock().unwrap_or_else(|e| e.into_inner()).clear();
  hooks::capture_output(true);
  let backoff = Backoff {
    max_tries: Some(1),
    initial_delay: Duration::from_millis(1),
    delay_multiplier: 1,
    max_delay: Duration::from_millis(1),
  };
  let mut texts: Vec<(String, String)> = vec![];
  let mut hang = false;
  texts.push(("Debug of Credentials".into(), format!("{creds:?} {creds:#?} {:?}", creds.clone())));
  let ran = client_side(false, async {
    let mut c = match quiet(connect(&creds, backoff, Duration::from_secs(30))).await {
      Some(Ok(c)) => c,
      Some(Err(e)) => {
        errors(&mut texts, "connect", &e);
        return;
      }
      None => {
        hang = true;
        return;
      }
    };
    for i in 1..n + 1 {
      texts.push((
        "Debug of Config".into(),
        format!("{:?} {:#?} {:?}", c.config(), c.config(), c.credentials()),
      ));
      for _ in 0..4 {
        if let Some(Err(e)) = quiet(c.recv()).await {
          errors(&mut texts, "recv", &e);
        }
      }
      let res = [
        quiet(c.privmsg("#a", "hello").reply_to("x").client_nonce("y").send()).await,
        quiet(c.ping("x")).await,
        quiet(c.join("#a")).await,
        quiet(c.join_all(["a", "#b"])).await,
        quiet(c.send_raw("no line ending")).await,
        quiet(c.privmsg("#a", "x\r\ny").send()).await,
      ];
      for e in res.into_iter().flatten().filter_map(|r| r.err()) {
        errors(&mut texts, "send", &e);
      }
      if i < n {
        match quiet(c.reconnect()).await {
          Some(Ok(())) => {}
          Some(Err(e)) => {
            errors(&mut texts, "reconnect", &e);
            texts.push(("Debug of Config".into(), format!("{:?}", c.config())));
            return;
          }
          None => {
            hang = true;
            return;
          }
        }
      }
    }
  });
  hooks::capture_output(false);
  if let Err(p) = ran {
    texts.push(("panic".into(), p.clone()));
    o.v("panic", format!("client panicked: {p}"));
  }
  let logs = server.finish();
  if hang {
    return Err("a call did not return".into());
  }
  let said = std::mem::take(&mut *SAID.lock().unwrap_or_else(|e| e.into_inner()));
  o.hits("events, spans and log records", said.len() as u64);
  o.hits("formatted values and errors", texts.len() as u64);
  for (wher, text) in said.iter().chain(&texts) {
    if needles.find(text.as_bytes()) {
      o.v(format!("leak: {wher}"), format!("{wher} shows the token {token:?}: {}", show(text.as_bytes())));
    }
  }
  let out = hooks::take_output();
  if needles.find(&out) {
    o.v("leak: output", format!("stdout/stderr shows the token {token:?}: {}", show(&out)));
  }
  let raw = hooks::with(|n| std::mem::take(&mut n.raw));
  o.hits("raw bytes", raw.len() as u64);
  if needles.find(&raw) {
    o.v("leak: cleartext", format!("the token {token:?} was sent unencrypted"));
  }
  for l in &logs {
    if l.plain.is_empty() {
      continue;
    }
    let end = match transcript(&l.plain, &creds) {
      Ok(n) => n,
      Err(_) => continue,
    };
    o.hit("connections with PASS");
    if needles.find(&l.plain[end..]) {
      o.v("leak: wire", format!("the token was sent again after the handshake: {}", show(&l.plain[end..])));
    }
  }
  Ok(desc)
}

pub fn c26(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  let desc;
  match r.below(3) {
    0 => {
      let n = match r.below(4000) {
        0 => 1usize << 32,
        1..=40 => r.range(60_000, 300_000),
        41..=100 => r.range(30_000, 70_000),
        101..=800 => r.range(120, 1_100),
        _ => r.range(1, 50),
      };
      desc = format!("bypass, {n} calls");
      let mut all = vec![(SameMessageBypass::default(), 0usize)];
      let mut suffix: Option<&'static str> = None;
      if n > 60_000 {
        // a long-lived one, quickly
        let (b, calls) = &mut all[0];
        let mut odd = true;
        for i in 0..n {
          let v = b.get();
          odd = !odd;
          if v.is_empty() == odd {
            o.v("bypass", format!("value {i} is {v:?}"));
            break;
          }
        }
        *calls += n;
        o.hits("bypass values", n as u64);
      }
      for _ in 0..n.min(70_000) {
        let k = if n > 2_000 { 0 } else { r.below(all.len()) };
        if r.pct(10) && all.len() < 5 {
          // a copy continues on its own
          let c = all[k];
          all.push(c);
        }
        if r.pct(5) && all.len() < 5 {
          all.push((SameMessageBypass::default(), 0));
        }
        let (b, calls) = &mut all[k];
        let v = b.get();
        if *calls % 2 == 0 {
          if !v.is_empty() {
            o.v("bypass", format!("value {calls} is {v:?} instead of empty"));
          }
        } else {
          let invisible = v.starts_with(' ') && v.len() > 1 && v[1..].chars().all(|c| matches!(c, '\u{2800}' | '\u{e0000}' | '\u{34f}' | '\u{200b}'..='\u{200d}' | '\u{2060}' | '\u{feff}' | '\u{3164}'));
          if !invisible || suffix.is_some_and(|s| s != v) {
            o.v("bypass", format!("value {calls} is {v:?} (before: {suffix:?})"));
          }
          // what the server trims must not be all of it
          if v.trim().is_empty() {
            o.v("bypass", format!("value {calls} is only white space: {v:?}"));
          }
          suffix = Some(v);
        }
        *calls += 1;
        o.hit("bypass values");
      }
    }
    1 => {
      let login: String = match r.below(4) {
        0 => word(r, 1, 25),
        1 => String::new(),
        2 => "Ünïcode 🦀".into(),
        _ => alnum(r, 200),
      };
      let token = odd_token(r);
      desc = format!("credentials {login:?} {token:?}");
      let a = Credentials::new(&login, &token);
      if a.login() != login || a.login != login || a.token() != Some(token.as_str()) || a.token.as_ref() != Some(&token) || a.is_anon() {
        o.v("credentials", format!("new({login:?}, {token:?}) has login {:?} token {:?}", a.login, a.token));
      }
      let b = a.clone();
      if b.login != login || b.token.as_ref() != Some(&token) {
        o.v("credentials", "a clone differs");
      }
      let mut seen = HashSet::new();
      for i in 0..200 {
        let c = if i % 2 == 0 { Credentials::anon() } else { Credentials::default() };
        anon(&c, o);
        seen.insert(c.login.clone());
      }
      if seen.len() < 20 {
        o.v("anon", format!("200 anonymous logins have only {} different names", seen.len()));
      }
    }
    _ => {
      let how = r.below(3);
      let creds = match how {
        0 => None,
        1 => Some(Credentials::anon()),
        _ => {
          let mut login = word(r, 3, 20);
          match r.below(4) {
            0 => login = login.to_uppercase(),
            1 => login = format!("{}{login}é", word(r, 1, 200)),
            _ => {}
          }
          Some(Credentials::new(login, odd_token(r)))
        }
      };
      desc = format!("client with {:?}", creds.as_ref().map(|c| (&c.login, &c.token)));
      // the login is not known beforehand: any welcome will do
      let steps = good_steps("someone", b"", r);
      let sc = script(cx, steps, r);
      scenario(&desc);
      hooks::reset(cx.ip, vec![]);
      let server = Server::start(cx, vec![sc]);
      let mut have: Option<Result<[Credentials; 2], ConnectError>> = None;
      let ran = client_side(false, async {
        let res = match &creds {
          None if r.pct(50) => quiet(Client::anonymous()).await,
          None => quiet(Client::builder().connect()).await,
          Some(c) => quiet(Client::builder().credentials(c.clone()).connect()).await,
        };
        have = res.map(|r| r.map(|c| [c.credentials().clone(), c.config().credentials.clone()]));
      });
      if let Err(p) = ran {
        o.v("panic", format!("client panicked: {p}"));
        return Ok(desc);
      }
      let logs = server.finish();
      match have {
        None => return Err("connect did not return".into()),
        Some(Err(e)) => return Err(kind(&e)),
        Some(Ok(two)) => {
          for c in &two {
            match &creds {
              Some(w) if c.login == w.login && c.token == w.token => o.hit("client credentials"),
              Some(w) => o.v("credentials", format!("the client has login {:?}, given {:?}", c.login, w.login)),
              None => anon(c, o),
            }
          }
          if creds.is_none() && two[0].login != two[1].login {
            o.v("anon", format!("two logins: {} {}", two[0].login, two[1].login));
          }
          if let Err(e) = transcript(&logs[0].plain, &two[0]) {
            o.v("wire", e);
          }
        }
      }
    }
  }
  Ok(desc)
}

/// Tokens of all shapes which fit on one line.
fn odd_token(r: &mut Rng) -> String {
  let t = alnum(r, 30);
  match r.below(10) {
    0 | 1 => t,
    2 | 3 => format!("oauth:{t}"),
    4 => format!("oauth:oauth:{t}"),
    5 => format!("OAuth:{}", t.to_uppercase()),
    6 => format!("oauth: {t} "),
    7 => format!("{}:é🦀{}", &t[..5], &t[5..]),
    8 => format!("Bearer {t}"),
    _ => {
      let n = r.range(1, 400);
      alnum(r, n)
    }
  }
}

fn anon(c: &Credentials, o: &mut Obs) {
  let d = c.login().strip_prefix("justinfan").unwrap_or("");
  if d.len() != 5 || !d.bytes().all(|b| b.is_ascii_digit()) || c.token().is_some() || !c.is_anon() || c.login() != c.login {
    o.v("anon", format!("anonymous credentials have login {:?} and token {:?}", c.login, c.token));
  }
  o.hit("anonymous logins");
}
