//! C20: what the server sees of each handshake, and what the client makes of the replies.

use crate::hooks::{self, ConnectPlan, Plan};
use crate::srv::*;
use crate::util::*;
use crate::{Cx, Ran};
use mon::rng::Rng;
use mon::Obs;
use std::time::Duration;
use tmi::client::{Backoff, ConnectError};
use tmi::{Client, Credentials};

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
  Ok,
  Auth,
  /// a capability reply which is neither an acknowledgement nor a refusal
  Cap(String),
  /// the message as sent
  Notice(String),
  Welcome(String),
  Read,
  /// the connection could not be opened, or broke while sending
  Retry,
}

#[derive(Clone)]
struct Attempt {
  what: String,
  outcome: Outcome,
  plan: Plan,
  /// `None`: never reaches the server
  script: Option<Script>,
  /// lines after the welcome
  extra: Vec<String>,
  /// the server is known to have received the complete handshake
  complete: bool,
}

fn line(r: &mut Rng, i: usize) -> String {
  match r.below(4) {
    0 => format!("PING :extra{i}"),
    1 => format!(":a!a@a.tmi.twitch.tv PRIVMSG #c :extra {i}"),
    2 => format!("@id=x{i} :a!a@a.tmi.twitch.tv PRIVMSG #c :{}", word(r, 1, 60)),
    _ => format!(":tmi.twitch.tv 372 u :{i} motd"),
  }
}

/// A message which is neither a capability reply, a welcome nor a notice.
fn other(r: &mut Rng, nick: &str) -> String {
  match r.below(9) {
    0 => "PING :tmi.twitch.tv".into(),
    1 => format!(":tmi.twitch.tv 002 {nick} :Your host is tmi.twitch.tv"),
    2 => format!(":{nick}!{nick}@{nick}.tmi.twitch.tv JOIN #a"),
    3 => ":tmi.twitch.tv RECONNECT".into(),
    4 => format!(":tmi.twitch.tv 421 {nick} X :Unknown command"),
    5 => "@id=1 :a!a@a PRIVMSG #a :authentication failed".into(),
    6 => format!(":tmi.twitch.tv 376 {nick} :>"),
    7 => ":tmi.twitch.tv PONG tmi.twitch.tv :001".into(),
    _ => format!("@a=b :tmi.twitch.tv {} {nick} :001 CAP * ACK", alnum(r, 6).to_uppercase()),
  }
}

fn notice(r: &mut Rng, auth: bool) -> String {
  if auth {
    match r.below(3) {
      0 => ":tmi.twitch.tv NOTICE * :Login authentication failed".into(),
      1 => "@msg-id=x :tmi.twitch.tv NOTICE * :Login authentication failed".into(),
      _ => format!(":tmi.twitch.tv NOTICE * :{} authentication failed, sorry", word(r, 1, 9)),
    }
  } else {
    match r.below(4) {
      0 => ":tmi.twitch.tv NOTICE * :Improperly formatted auth".into(),
      1 => ":tmi.twitch.tv NOTICE * :Invalid NICK".into(),
      2 => "@msg-id=a :tmi.twitch.tv NOTICE #c :001 Welcome".into(),
      _ => ":tmi.twitch.tv NOTICE * :Login unsuccessful".into(),
    }
  }
}

fn ack(r: &mut Rng) -> String {
  let mut caps = vec!["twitch.tv/commands", "twitch.tv/tags", "twitch.tv/membership"];
  if r.pct(40) {
    r.shuffle(&mut caps);
  }
  let p = if r.pct(90) { ":tmi.twitch.tv " } else { "" };
  format!("{p}CAP * ACK :{}\r\n", caps.join(" "))
}

fn attempt(cx: &Cx, r: &mut Rng, nick: &str, first: bool) -> Attempt {
  let mut a = Attempt {
    what: String::new(),
    outcome: Outcome::Ok,
    plan: Plan::default(),
    script: None,
    extra: vec![],
    complete: true,
  };
  let n = r.below(6);
  let mut extra = vec![];
  for i in 0..n {
    extra.push(line(r, i));
  }
  let extra_bytes: String = extra.iter().map(|l| format!("{l}\r\n")).collect();
  let ack = ack(r);
  let pre = vec![Step::Lines(3)];
  let kind = if first && r.pct(60) { 0 } else if first { r.below(10) } else { r.below(14) };
  let mut steps = pre;
  match kind {
    0..=2 => {
      a.what = "good".into();
      steps = good_steps(nick, extra_bytes.as_bytes(), r);
      a.extra = extra;
    }
    3 if r.pct(40) => {
      let l = r
        .pick(&[
          ":tmi.twitch.tv CAP * LS :twitch.tv/commands twitch.tv/tags twitch.tv/membership",
          ":tmi.twitch.tv CAP * LIST :",
          ":tmi.twitch.tv CAP * NEW :twitch.tv/tags",
          ":tmi.twitch.tv CAP * DEL :twitch.tv/commands twitch.tv/tags twitch.tv/membership",
          ":tmi.twitch.tv CAP * LS :ACK",
          ":tmi.twitch.tv CAP * :ACK",
          ":tmi.twitch.tv CAP",
        ])
        .to_string();
      a.what = format!("first {l:?}");
      steps.push(Step::Send(format!("{l}\r\n{}{extra_bytes}", welcome(nick)).into()));
      a.outcome = Outcome::Cap(l);
    }
    3 => {
      let l = format!(":tmi.twitch.tv CAP * NAK :{}", r.pick(&["twitch.tv/commands twitch.tv/tags twitch.tv/membership", "twitch.tv/tags"]));
      a.what = "nak".into();
      // a welcome after the refusal changes nothing
      steps.push(Step::Send(format!("{l}\r\n{}{extra_bytes}", welcome(nick)).into()));
      a.outcome = Outcome::Auth;
    }
    4 => {
      // anything but a capability reply first, even the welcome itself or a notice
      let l = match r.below(4) {
        0 => welcome(nick).trim_end().to_string(),
        1 => notice(r, false),
        _ => other(r, nick),
      };
      a.what = format!("first {l:?}");
      steps.push(Step::Send(format!("{l}\r\n{ack}{}", welcome(nick)).into()));
      a.outcome = Outcome::Welcome(l);
    }
    5 => {
      let l = notice(r, true);
      a.what = format!("second {l:?}");
      steps.push(Step::Send(format!("{ack}{l}\r\n{}", if r.pct(50) { welcome(nick) } else { String::new() }).into()));
      a.outcome = Outcome::Auth;
    }
    6 => {
      let l = notice(r, false);
      a.what = format!("second {l:?}");
      steps.push(Step::Send(format!("{ack}{l}\r\n{}", if r.pct(50) { welcome(nick) } else { String::new() }).into()));
      a.outcome = Outcome::Notice(l);
    }
    7 => {
      let l = if r.pct(20) { ack.trim_end().to_string() } else { other(r, nick) };
      a.what = format!("second {l:?}");
      steps.push(Step::Send(format!("{ack}{l}\r\n{}", if r.pct(50) { welcome(nick) } else { String::new() }).into()));
      a.outcome = Outcome::Welcome(l);
    }
    8 => {
      // the stream ends
      let how = *r.pick(&[Close::Notify, Close::Fin, Close::Rst]);
      let after = r.pct(50);
      if after {
        steps.push(Step::Send(ack.clone().into()));
      }
      steps.push(Step::Close(how));
      a.what = format!("close {how:?} after ack={after}");
      a.outcome = Outcome::Read;
    }
    9 => {
      // unreadable reply
      let g: &[u8] = *r.pick(&[b"\r\n" as &[u8], b"\xff\xfe CAP * ACK\r\n"]);
      let second = r.pct(50);
      let mut b = if second { ack.clone().into_bytes() } else { vec![] };
      b.extend_from_slice(g);
      a.what = format!("unreadable {:?}", show(&b));
      steps.push(Step::Send(b));
      a.outcome = Outcome::Read;
    }
    10 => {
      a.plan = Plan {
        dns: Some(*r.pick(&[libc::EAI_AGAIN, libc::EAI_NONAME, libc::EAI_FAIL])),
        ..Default::default()
      };
      a.what = "dns error".into();
      a.outcome = Outcome::Retry;
      return a;
    }
    11 => {
      a.plan.connect = ConnectPlan::Fail(*r.pick(&[libc::ECONNREFUSED, libc::ENETUNREACH, libc::ETIMEDOUT]));
      a.what = "connect error".into();
      a.outcome = Outcome::Retry;
      return a;
    }
    12 => {
      let how = *r.pick(&[Close::Fin, Close::Rst]);
      let mut s = script(cx, vec![], r);
      let k = r.below(2) as u8;
      s.no_tls = Some((k, how));
      a.what = format!("tls refused {k} {how:?}");
      a.outcome = Outcome::Retry;
      a.complete = false;
      a.script = Some(s);
      return a;
    }
    _ => {
      let k = r.range(0, 4);
      let e = *r.pick(&[libc::EPIPE, libc::ECONNRESET]);
      a.plan.send_fail = Some((k, e));
      a.what = format!("send fails after {k}");
      // whether anything is left to fail is not known beforehand: decided from the hook
      a.outcome = Outcome::Retry;
      a.complete = false;
      steps = good_steps(nick, b"", r);
    }
  }
  a.script = Some(script(cx, steps, r));
  a
}

/// The handshake which these credentials require, judged line by line.
pub fn transcript(plain: &[u8], c: &Credentials) -> Result<usize, String> {
  let mut rest = plain;
  let mut lines = vec![];
  for _ in 0..3 {
    let Some(p) = rest.windows(2).position(|w| w == b"\r\n") else {
      return Err(format!("incomplete handshake {}", show(plain)));
    };
    lines.push(String::from_utf8_lossy(&rest[..p]).into_owned());
    rest = &rest[p + 2..];
  }
  let caps = lines[0].strip_prefix("CAP REQ ").map(|l| l.strip_prefix(':').unwrap_or(l)).unwrap_or("");
  let mut caps: Vec<&str> = caps.split(' ').collect();
  caps.sort_unstable();
  if caps != ["twitch.tv/commands", "twitch.tv/membership", "twitch.tv/tags"] {
    return Err(format!("first line is not the capability request: {:?}", lines[0]));
  }
  let pass = lines[1].strip_prefix("PASS ").map(|l| l.strip_prefix(':').unwrap_or(l));
  let ok = match (c.token(), pass) {
    (_, None) => false,
    (None, Some(p)) => p.len() > 6 && p.starts_with("oauth:") && !p.contains(' '),
    (Some(t), Some(p)) => {
      let t = t.strip_prefix("oauth:").unwrap_or(t);
      p.strip_prefix("oauth:") == Some(t)
    }
  };
  if !ok {
    return Err(format!("second line is not PASS with the token of {:?}: {:?}", c.token(), lines[1]));
  }
  if lines[2].strip_prefix("NICK ").map(|l| l.strip_prefix(':').unwrap_or(l)) != Some(c.login()) {
    return Err(format!("third line is not NICK {:?}: {:?}", c.login(), lines[2]));
  }
  Ok(plain.len() - rest.len())
}

pub fn matches(e: &ConnectError, want: &Outcome) -> bool {
  match (e, want) {
    (ConnectError::Auth, Outcome::Auth | Outcome::Cap(_)) => true,
    (ConnectError::Welcome(m), Outcome::Cap(l)) => m.raw() == l,
    (ConnectError::Notice(m), Outcome::Notice(l)) => m.raw() == l,
    (ConnectError::Welcome(m), Outcome::Welcome(l)) => m.raw() == l,
    (ConnectError::Read(_), Outcome::Read) => true,
    // a reset may hit the handshake's own writes
    (ConnectError::Io(_) | ConnectError::Open(_), Outcome::Retry | Outcome::Read) => true,
    _ => false,
  }
}

pub fn c20(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  let mut creds = credentials(r);
  if creds.token.is_some() && r.pct(30) {
    let t = alnum(r, 20);
    creds.token = Some(
      match r.below(4) {
        0 => format!("oauth{t}"),
        1 => format!("{t}oauth:x"),
        2 => format!("OAuth{t}"),
        _ => alnum(r, 1),
      },
    );
  }
  let nick = creds.login.clone();
  let first = attempt(cx, r, &nick, true);
  // reconnects, each with its attempts
  let mut rounds: Vec<Vec<Attempt>> = vec![];
  let tries = r.range(1, 5);
  if first.outcome == Outcome::Ok {
    for _ in 0..r.below(4) {
      let mut v = vec![];
      for _ in 0..tries {
        v.push(attempt(cx, r, &nick, false));
      }
      rounds.push(v);
    }
  }
  // what happens to the client between the rounds
  let dirty: Vec<usize> = rounds.iter().map(|_| r.below(8)).collect();
  let backoff = Backoff {
    max_tries: Some(tries as u64),
    initial_delay: Duration::from_millis(if dirty.contains(&2) { 20 } else { r.below(2) as u64 }),
    delay_multiplier: 1,
    max_delay: Duration::from_millis(1),
  };
  let mut desc = format!("{:?} {:?}: {}", creds.login, creds.token, first.what);
  struct Seen {
    result: Result<(), ConnectError>,
    got: Vec<Result<String, String>>,
    after: Vec<u8>,
  }
  let n_extra = |a: &Attempt| a.extra.len();
  let mut used: Vec<Attempt> = vec![];
  let mut seen: Vec<(usize, Seen)> = vec![]; // (number of attempts of this call, ...)
  let mut results_short = None;
  let mut inconclusive = None;

  let logs = {
    scenario(&desc);
    hooks::reset(cx.ip, vec![]);
    let server = Server::start(cx, vec![]);
    let arm = |v: &[Attempt]| {
      server.caught_up();
      hooks::with(|n| n.plans = v.iter().map(|a| a.plan.clone()).collect());
      *server.scripts.lock().unwrap() = v.iter().filter_map(|a| a.script.clone()).collect();
    };
    let ran = client_side(false, async {
      arm(std::slice::from_ref(&first));
      used.push(first.clone());
      let res = quiet(connect(&creds, backoff, Duration::from_secs(30))).await;
      let Some(res) = res else {
        results_short = Some("connect did not return".to_string());
        return;
      };
      let mut client = match res {
        Err(e) => {
          seen.push((1, Seen { result: Err(e), got: vec![], after: vec![] }));
          return;
        }
        Ok(c) => c,
      };
      let (got, after) = after_success(&mut client, &server, n_extra(&first), 0, r).await;
      seen.push((1, Seen { result: Ok(()), got, after }));
      for (i, round) in rounds.iter().enumerate() {
        match dirty[i] {
          0 => {
            let _ = client.send_raw("PRIVMSG #a :no line end").await;
          }
          1 => drop(client.reconnect()),
          2 => {
            // dropped while waiting for the delay
            let t = std::time::Instant::now();
            {
              let f = client.reconnect();
              futures_util::pin_mut!(f);
              let _ = futures_util::poll!(f);
            }
            if t.elapsed() > Duration::from_millis(10) {
              inconclusive = Some("too slow to interrupt the delay".to_string());
              return;
            }
          }
          3 | 4 => {
            // dropped in the middle of an attempt: while a write is held up, or while waiting
            // for the reply
            let a = Attempt {
              what: "dropped".into(),
              outcome: Outcome::Retry,
              plan: Plan {
                send_fail: (dirty[i] == 3).then(|| (r.range(0, 3), libc::EAGAIN)),
                ..Default::default()
              },
              script: Some(script(cx, vec![], r)),
              extra: vec![],
              complete: dirty[i] == 4,
            };
            arm(std::slice::from_ref(&a));
            let k = server.accepted.load(std::sync::atomic::Ordering::SeqCst) as usize;
            let ready = async {
              loop {
                if dirty[i] == 3 && hooks::with(|n| n.blocked) > 0 {
                  return;
                }
                if server.log(k).plain.windows(2).filter(|w| w == b"\r\n").count() >= 3 {
                  return;
                }
                tokio::time::sleep(Duration::from_micros(500)).await;
              }
            };
            let done = quiet(async {
              tokio::select! {
                biased;
                _ = client.reconnect() => false,
                _ = ready => true,
              }
            })
            .await;
            hooks::with(|n| n.blocked = 0);
            if done != Some(true) {
              inconclusive = Some(format!("could not interrupt the reconnect ({done:?})"));
              return;
            }
            used.push(a);
          }
          _ => {}
        }
        let base = hooks::with(|n| n.attempts);
        arm(round);
        let Some(res) = quiet(client.reconnect()).await else {
          results_short = Some("reconnect did not return".to_string());
          return;
        };
        let made = hooks::with(|n| n.attempts) - base;
        let m = made.min(round.len());
        used.extend(round[..m].iter().cloned());
        if res.is_ok() && m > 0 && round[m - 1].plan.send_fail.is_some() {
          // fewer sends than planned: nothing failed
          used.last_mut().unwrap().outcome = Outcome::Ok;
        }
        match res {
          Ok(()) => {
            let extra = round.get(made.wrapping_sub(1)).map(n_extra).unwrap_or(0);
            let (got, after) = after_success(&mut client, &server, extra, i + 1, r).await;
            seen.push((made, Seen { result: Ok(()), got, after }));
          }
          Err(e) => seen.push((made, Seen { result: Err(e.cause), got: vec![], after: vec![] })),
        }
      }
    });
    if let Err(p) = ran {
      o.v("panic", format!("client panicked: {p}"));
    }
    server.finish()
  };
  for round in &rounds {
    desc += &format!("; reconnect[{}]", round.iter().map(|a| a.what.as_str()).collect::<Vec<_>>().join(", "));
  }
  if let Some(e) = results_short {
    o.v("slow:hang", e);
    return Ok(desc);
  }
  if let Some(e) = inconclusive {
    return Err(e);
  }
  // judge the results
  let mut calls = vec![std::slice::from_ref(&first)];
  calls.extend(rounds.iter().map(|v| v.as_slice()));
  for (k, (made, s)) in seen.iter().enumerate() {
    let plan = calls[k];
    let call = if k == 0 { "connect" } else { "reconnect" };
    if *made == 0 || *made > plan.len() {
      o.v("attempts", format!("{call} made {made} attempts, {} allowed", plan.len()));
      continue;
    }
    let last = &plan[made - 1];
    for a in &plan[..made - 1] {
      if !matches!(a.outcome, Outcome::Retry | Outcome::Read) {
        o.v("went on", format!("{call} made another attempt after {:?}", a.what));
      }
    }
    o.hit("calls judged");
    match &s.result {
      Ok(()) if last.outcome == Outcome::Ok => {
        let want: Vec<Result<String, String>> = last.extra.iter().cloned().map(Ok).collect();
        o.hits("lines after the welcome", want.len() as u64);
        if s.got != want {
          o.v("extra", format!("after the welcome the server sent {want:?}, received {:?}", s.got));
        }
      }
      // fewer sends than planned: nothing failed
      Ok(()) if matches!(last.plan.send_fail, Some(_)) => {}
      Ok(()) => o.v("believed", format!("{call} succeeded although the server did: {}", last.what)),
      Err(ConnectError::Timeout) => {
        o.v("slow:timeout", format!("{call} timed out although the server did: {}", last.what));
      }
      Err(e) => {
        o.hit(match e {
          ConnectError::Auth => "Auth",
          ConnectError::Notice(_) => "Notice",
          ConnectError::Welcome(_) => "Welcome",
          ConnectError::Read(_) => "Read",
          _ => "Open/Io",
        });
        if !matches(e, &last.outcome) {
          o.v(
            "result",
            format!("{call} gave {} but the server did: {} (expected {:?})", kind(e), last.what, last.outcome),
          );
        }
      }
    }
  }
  // judge the transcripts
  let served: Vec<&Attempt> = used.iter().filter(|a| a.script.is_some()).collect();
  let mut ok_calls = seen.iter().filter(|s| s.1.result.is_ok());
  if logs.len() > served.len() {
    o.v("connections", format!("{} connections for {} attempts", logs.len(), served.len()));
  }
  for (l, a) in logs.iter().zip(&served) {
    let succeeded = a.outcome == Outcome::Ok;
    let after = if succeeded {
      ok_calls.next().map(|s| s.1.after.clone()).unwrap_or_default()
    } else {
      vec![]
    };
    match transcript(&l.plain, &creds) {
      Ok(n) => {
        o.hit("handshakes judged");
        let tail = &l.plain[n..];
        if succeeded && tail != after {
          o.v("tail", format!("after the handshake the client sent {} instead of {}", show(tail), show(&after)));
        }
        if !succeeded && !tail.is_empty() && a.plan.send_fail.is_none() {
          o.v("tail", format!("handshake followed by {} although: {}", show(tail), a.what));
        }
      }
      Err(e) => {
        let incomplete = !l.plain.windows(2).any(|w| w == b"\r\n") || l.plain.windows(2).filter(|w| w == b"\r\n").count() < 3;
        if a.complete || !incomplete {
          o.v("transcript", format!("{e} ({}; connection {})", a.what, l.end));
        }
      }
    }
  }
  Ok(desc)
}

/// After a success: everything behind the welcome must come out, and a ping must go through.
async fn after_success(c: &mut Client, server: &Server, extra: usize, i: usize, r: &mut Rng) -> (Vec<Result<String, String>>, Vec<u8>) {
  let mut got = vec![];
  for _ in 0..extra {
    match quiet(c.recv()).await {
      None => {
        got.push(Err("nothing comes".into()));
        break;
      }
      Some(Ok(m)) => got.push(Ok(m.raw().to_string())),
      Some(Err(e)) => {
        got.push(Err(format!("{e:?}")));
        break;
      }
    }
  }
  let mut after = vec![];
  if r.pct(60) {
    let n = format!("n{i}");
    if c.ping(&n).await.is_ok() {
      after = format!("PING :{n}\r\n").into_bytes();
      let k = server.accepted.load(std::sync::atomic::Ordering::SeqCst) as usize - 1;
      server.wait(k, |l| l.plain.ends_with(&after)).await;
    }
  }
  (got, after)
}
