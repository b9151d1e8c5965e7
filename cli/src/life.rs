//! C29: what a client holds it gives back. C30: a client does nothing on its own.

use crate::handshake::transcript;
use crate::hooks::{self, ConnectPlan, Plan};
use crate::reconnect::virtual_time;
use crate::srv::*;
use crate::util::*;
use crate::{Cx, Ran};
use mon::rng::Rng;
use mon::Obs;
use std::sync::atomic::Ordering;
use std::time::Duration;
use tmi::client::{Backoff, ConnectError};
use tmi::{Client, Credentials};
use tokio::time::Instant;

/// Bytes this thread has allocated and nobody has freed.
fn held() -> i64 {
  crate::LIVE.with(|l| l.get()) - hooks::with(|n| n.raw.capacity() as i64)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
  Good,
  Refused,
  Dns,
  NoTls(u8),
  Nak,
  Notice,
  Surprise,
  Eof(usize),
  Send(usize),
  /// the server never answers the n-th part of the handshake
  Silent(usize),
  /// never finishes the TLS handshake
  Held,
}

fn attempt(cx: &Cx, r: &mut Rng, nick: &str, fate: Fate, extra: &[u8], more: Vec<Step>) -> (Plan, Option<Script>) {
  let mut plan = Plan::default();
  let mut steps = vec![Step::Lines(3)];
  let close = *r.pick(&[Close::Notify, Close::Fin, Close::Rst]);
  match fate {
    Fate::Good | Fate::Send(_) => {
      steps = good_steps(nick, extra, r);
      steps.extend(more);
      if let Fate::Send(k) = fate {
        plan.send_fail = Some((k, *r.pick(&[libc::EPIPE, libc::ECONNRESET])));
      }
    }
    Fate::Refused => {
      plan.connect = ConnectPlan::Fail(libc::ECONNREFUSED);
      return (plan, None);
    }
    Fate::Dns => {
      plan.dns = Some(libc::EAI_AGAIN);
      return (plan, None);
    }
    Fate::NoTls(k) => {
      let mut s = script(cx, vec![], r);
      s.no_tls = Some((k, if close == Close::Notify { Close::Fin } else { close }));
      return (plan, Some(s));
    }
    Fate::Nak => steps.push(Step::Send(":tmi.twitch.tv CAP * NAK :twitch.tv/tags\r\n".into())),
    Fate::Notice => steps.push(Step::Send(format!("{ACK}:tmi.twitch.tv NOTICE * :Login authentication failed\r\n").into())),
    Fate::Surprise => steps.push(Step::Send(format!("{ACK}PING :x\r\n").into())),
    Fate::Eof(k) => {
      if k > 0 {
        steps.push(Step::Send(ACK.into()));
      }
      steps.push(Step::Close(close));
    }
    Fate::Silent(k) => {
      if k > 0 {
        steps.push(Step::Send(ACK.into()));
      }
      steps.push(Step::Flag(127));
    }
    Fate::Held => {
      let mut s = script(cx, vec![], r);
      s.hold = Some(127);
      return (plan, Some(s));
    }
  }
  (plan, Some(script(cx, steps, r)))
}

/// A fate that ends the attempt by itself.
fn bad(r: &mut Rng) -> Fate {
  match r.below(9) {
    0 => Fate::Refused,
    1 => Fate::Dns,
    2 => Fate::NoTls(r.below(2) as u8),
    3 => Fate::Nak,
    4 => Fate::Notice,
    5 => Fate::Surprise,
    6 => Fate::Eof(r.below(2)),
    _ => Fate::Send(r.below(3)),
  }
}

fn lines(r: &mut Rng, n: usize) -> Vec<u8> {
  let mut b = vec![];
  for i in 0..n {
    match r.below(12) {
      0 => b.extend_from_slice(format!("PING :{i}").as_bytes()),
      1 => b.extend_from_slice(b"@a=b "),
      2 => b.extend_from_slice(b":a!a@a PRIVMSG #c :\xff\xfe"),
      _ => b.extend_from_slice(format!("@id={i};badges=subscriber/1 :a!a@a.tmi.twitch.tv PRIVMSG #c :{}", word(r, 20, 120)).as_bytes()),
    }
    b.extend_from_slice(b"\r\n");
  }
  b
}

/// Lines of one kind only, all different.
fn one_kind(r: &mut Rng, kind: usize, n: usize) -> Vec<u8> {
  let mut b = String::new();
  let user = word(r, 1, 8);
  for i in 0..n {
    b.push_str(&match kind {
      0 => "@a=b ".to_string(),
      1 => format!(":{user}{i} "),
      2 => format!("PING :{i}"),
      3 => ":tmi.twitch.tv RECONNECT".to_string(),
      4 => format!("@msg-id=msg_ratelimit :tmi.twitch.tv NOTICE #c :{i} too quickly."),
      5 => format!(":{user}{i}!{user}{i}@{user}{i}.tmi.twitch.tv JOIN #c"),
      6 => format!(":{user}{i}!{user}{i}@{user}{i}.tmi.twitch.tv PART #c{i}"),
      7 => format!("@display-name={user};id={i} :a!a@a.tmi.twitch.tv PRIVMSG #c{i} :x"),
      8 => format!("@room-id={i} :tmi.twitch.tv ROOMSTATE #c{i}"),
      9 => format!(":tmi.twitch.tv {:03} me :{i}", i % 1000),
      10 => format!("@msg-id=raid;login={user}{i} :tmi.twitch.tv USERNOTICE #c{i}"),
      _ => format!("@target-user-id={i} :tmi.twitch.tv CLEARCHAT #c{i} :{user}{i}"),
    });
    b.push_str("\r\n");
  }
  b.into_bytes()
}

#[derive(Clone, Debug)]
enum Op {
  Recv(usize),
  Send(usize),
  /// recv futures which are polled once and dropped
  CancelRecv(usize),
  /// a send future dropped after so many polls
  CancelSend(usize),
  /// the server goes away
  Gone(Close),
  Reconnect(Vec<Fate>),
  /// the future is dropped after so many milliseconds
  CancelReconnect(Fate, u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Storm {
  Lines,
  OneKind(usize),
  Sends(usize),
  Refused,
  CancelledRecv,
  Reconnects,
  Cycles,
}

pub fn c29(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  if r.pct(30) {
    return memory(cx, r, o);
  }
  let creds = credentials(r);
  let backoff = fast_backoff(r);
  let short = r.pct(10);
  let timeout = Duration::from_millis(if short { 900 } else { 30_000 });
  // connects before the one that succeeds: how each ends
  let mut first: Vec<(Fate, Option<u64>)> = vec![];
  for _ in 0..r.below(3) {
    if r.pct(40) {
      let f = *r.pick(&[Fate::Good, Fate::Silent(0), Fate::Silent(1), Fate::Held]);
      first.push((f, Some(r.below(25) as u64)));
    } else if short {
      first.push((Fate::Silent(r.below(2)), None));
    } else {
      first.push((bad(r), None));
    }
  }
  let mut ops = vec![];
  for _ in 0..r.range(1, 7) {
    ops.push(match r.below(12) {
      0 => Op::Recv(r.range(1, 4)),
      1 => Op::Send(r.range(1, 4)),
      2 => Op::CancelRecv(r.range(1, 5)),
      3 => Op::CancelSend(r.below(3)),
      4 => Op::Gone(*r.pick(&[Close::Notify, Close::NotifyOnly, Close::Fin, Close::Rst])),
      5 | 6 => Op::CancelReconnect(*r.pick(&[Fate::Good, Fate::Silent(0), Fate::Silent(1), Fate::Held]), r.below(25) as u64),
      _ => {
        let t = backoff.max_tries.unwrap_or(1) as usize;
        let n = r.below(t + 1);
        let mut v: Vec<Fate> = (0..n).map(|_| bad(r)).collect();
        if n < t {
          v.push(Fate::Good);
        }
        Op::Reconnect(v)
      }
    });
  }
  let outside = r.pct(20);
  let desc = format!("{timeout:?} {backoff:?} connects {first:?}, then {ops:?}, dropped {}", if outside { "outside" } else { "inside" });
  scenario(&desc);
  hooks::reset(cx.ip, vec![]);
  let server = Server::start(cx, vec![]);
  let mut notes: Vec<(String, String)> = vec![];
  let mut failed: Option<String> = None;
  let (mut checks, mut conns) = (0u64, 0u64);
  let mut keep: Option<Client> = None;
  let ran = client_side(false, async {
    let tasks = || tokio::runtime::Handle::current().metrics().num_alive_tasks();
    let base = tasks();
    // everything beyond `limit` connections is given back, on both sides
    let released = |limit: usize| {
      let server = &server;
      quiet(async move {
        loop {
          let open = hooks::with(|n| n.sockets.len());
          let live = server.logs.lock().unwrap().iter().filter(|l| l.established && l.end.is_empty()).count();
          if open <= limit && live <= limit {
            return;
          }
          tokio::time::sleep(Duration::from_millis(1)).await;
        }
      })
    };
    let state = || {
      let open = hooks::with(|n| n.sockets.len());
      let live = server.logs.lock().unwrap().iter().filter(|l| l.established && l.end.is_empty()).count();
      format!("{open} client sockets are open and the server still serves {live} connections")
    };
    let set = |p: Vec<(Plan, Option<Script>)>| {
      server.caught_up();
      hooks::with(|n| n.plans = p.iter().map(|x| x.0.clone()).collect());
      *server.scripts.lock().unwrap() = p.into_iter().filter_map(|x| x.1).collect();
    };
    let extra = lines(r, 5);
    for (k, (fate, cancel)) in first.iter().enumerate() {
      set(vec![attempt(cx, r, &creds.login, *fate, &extra, vec![])]);
      let f = connect(&creds, backoff, timeout);
      let what = match cancel {
        Some(ms) => match tokio::time::timeout(Duration::from_millis(*ms), f).await {
          Ok(Ok(c)) => {
            drop(c);
            "dropped"
          }
          Ok(Err(_)) => "failed",
          Err(_) => "cancelled",
        },
        None => match quiet(f).await {
          Some(Ok(c)) => {
            drop(c);
            "dropped"
          }
          Some(Err(_)) => "failed",
          None => {
            failed = Some(format!("connect {k} hangs"));
            return;
          }
        },
      };
      checks += 1;
      if released(0).await.is_none() {
        notes.push((format!("connect:{what}"), format!("after connect {k} ({fate:?}) was {what}, {}", state())));
        return;
      }
      if tasks() > base && quiet(async { while tasks() > base { tokio::time::sleep(Duration::from_millis(1)).await } }).await.is_none() {
        notes.push(("tasks".into(), format!("{} tasks still run after connect {k} ({fate:?}) was {what}", tasks() - base)));
        return;
      }
    }
    set(vec![attempt(cx, r, &creds.login, Fate::Good, &extra, (0..ops.len()).flat_map(|i| [Step::Flag(i), Step::Close(gone(&ops[i]))]).take(if ops.iter().any(|o| matches!(o, Op::Gone(_))) { 200 } else { 0 }).collect())]);
    let mut c = match quiet(connect(&creds, backoff, timeout)).await {
      Some(Ok(c)) => c,
      x => {
        // too slow for the short timeout is no verdict
        failed = Some(format!("connect: {:?}", x.map(|r| r.err())));
        return;
      }
    };
    conns += 1;
    for (k, op) in ops.iter().enumerate() {
      match op {
        Op::Recv(n) => {
          for _ in 0..*n {
            let _ = tokio::time::timeout(Duration::from_millis(5), c.recv()).await;
          }
        }
        Op::Send(n) => {
          for i in 0..*n {
            let m = word(r, 1, 200);
            let _ = tokio::time::timeout(Duration::from_millis(500), c.privmsg("#a", &format!("{i} {m}")).send()).await;
          }
        }
        Op::CancelRecv(n) => {
          for _ in 0..*n {
            let _ = futures_util::FutureExt::now_or_never(c.recv());
          }
        }
        Op::CancelSend(n) => {
          let t = "x".repeat(n * 30_000);
          let _ = futures_util::FutureExt::now_or_never(c.privmsg("#a", &t).send());
        }
        Op::Gone(_) => {
          // every flag up to here, so that the connection's closing step is reached
          for i in 0..=k {
            server.raise(i);
          }
        }
        Op::Reconnect(fates) => {
          set(fates.iter().map(|f| attempt(cx, r, &creds.login, *f, &extra, vec![])).collect());
          match quiet(c.reconnect()).await {
            Some(Ok(())) => {
              conns += 1;
            }
            Some(Err(_)) => {}
            None => {
              failed = Some(format!("reconnect {k} hangs"));
              return;
            }
          }
        }
        Op::CancelReconnect(fate, ms) => {
          set(vec![attempt(cx, r, &creds.login, *fate, &extra, vec![])]);
          if let Ok(Ok(())) = tokio::time::timeout(Duration::from_millis(*ms), c.reconnect()).await {
            conns += 1;
          }
        }
      }
      checks += 1;
      if released(1).await.is_none() {
        notes.push(("extra".into(), format!("after step {k} ({op:?}) {}", state())));
        return;
      }
    }
    checks += 1;
    if outside {
      keep = Some(c);
      return;
    }
    drop(c);
    if released(0).await.is_none() {
      notes.push(("drop".into(), format!("after the client was dropped {}", state())));
      return;
    }
    if tasks() > base && quiet(async { while tasks() > base { tokio::time::sleep(Duration::from_millis(1)).await } }).await.is_none() {
      notes.push(("tasks".into(), format!("{} tasks still run after the client was dropped", tasks() - base)));
    }
  });
  if let Err(p) = ran {
    o.v("panic", format!("client panicked: {p}"));
    return Ok(desc);
  }
  if let Some(c) = keep {
    // the runtime is gone: nothing but this holds the connection
    drop(c);
    let t = std::time::Instant::now();
    while hooks::with(|n| !n.sockets.is_empty()) && t.elapsed() < IDLE {
      std::thread::sleep(Duration::from_millis(1));
    }
    let n = hooks::with(|n| n.sockets.len());
    if n > 0 {
      notes.push(("drop".into(), format!("after the client was dropped {n} sockets are open")));
    }
  }
  drop(server);
  if let Some(e) = failed {
    if short {
      o.hit("short timeout hit by load");
      return Ok(desc);
    }
    return Err(e);
  }
  o.hits("moments checked", checks);
  o.hits("connections", conns);
  for (s, m) in notes {
    o.v(s, m);
  }
  Ok(desc)
}

fn gone(op: &Op) -> Close {
  match op {
    Op::Gone(c) => *c,
    _ => Close::Fin,
  }
}

fn memory(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  let creds = credentials(r);
  let timeout = Duration::from_secs(60);
  let backoff = Backoff {
    max_tries: Some(2),
    initial_delay: Duration::ZERO,
    delay_multiplier: 1,
    max_delay: Duration::ZERO,
  };
  let storm = match r.below(10) {
    0 => Storm::Lines,
    1..=3 => Storm::OneKind(r.below(12)),
    4 | 5 => Storm::Sends(r.below(8)),
    6 => Storm::Refused,
    7 => Storm::CancelledRecv,
    8 => Storm::Reconnects,
    _ => Storm::Cycles,
  };
  let (warm, full, limit) = match storm {
    Storm::Lines => (3_000, 5_000, 20 << 10),
    Storm::OneKind(_) => (4_000, 6_000, 20 << 10),
    Storm::Sends(_) => (300, 1_500, 8 << 10),
    Storm::Refused => (300, 3_000, 8 << 10),
    Storm::CancelledRecv => (300, 3_000, 8 << 10),
    Storm::Reconnects | Storm::Cycles => (10, 24, 20 << 10),
  };
  let fates: Vec<Fate> = (0..full)
    .map(|i| {
      if storm == Storm::Cycles && i % 2 == 1 {
        bad(r)
      } else {
        Fate::Good
      }
    })
    .collect();
  let split_config = r.pct(50);
  let desc = format!("{storm:?} {warm} then {full} {split_config}");
  scenario(&desc);
  hooks::reset(cx.ip, vec![]);
  hooks::with(|n| {
    n.dns.reserve(200);
    n.connects.reserve(200);
    n.failed.reserve(200);
    n.plans.reserve(200);
    n.fds.reserve(200);
    n.sockets.reserve(200);
  });
  let server = Server::start(cx, vec![]);
  let set = |p: Vec<(Plan, Option<Script>)>| {
    server.caught_up();
    hooks::with(|n| n.plans = p.iter().map(|x| x.0.clone()).collect());
    *server.scripts.lock().unwrap() = p.into_iter().filter_map(|x| x.1).collect();
  };
  let (a, b) = match storm {
    Storm::OneKind(k) => (one_kind(r, k, warm), one_kind(r, k, full)),
    _ => (lines(r, warm), lines(r, full)),
  };
  let fed = matches!(storm, Storm::Lines | Storm::OneKind(_));
  // made before measuring: the server's threads free what was allocated here
  let mut attempts: std::collections::VecDeque<_> = match storm {
    Storm::Reconnects | Storm::Cycles => (0..warm + full)
      .map(|i| {
        let fate = if storm == Storm::Cycles { fates[i % fates.len()] } else { Fate::Good };
        attempt(cx, r, &creds.login, fate, b"PING :x\r\n", vec![])
      })
      .collect(),
    _ => Default::default(),
  };
  let mut grown: Option<i64> = None;
  let mut failed = None;
  let ran = client_side(false, async {
    let mut c = None;
    if storm != Storm::Cycles {
      let mut sc = attempt(cx, r, &creds.login, Fate::Good, b"", vec![Step::Flag(0), Step::Send(a), Step::Flag(1), Step::Send(b)]);
      if let Some(s) = &mut sc.1 {
        s.records = *r.pick(&[Cut::Whole, Cut::Lines]);
        s.segments = Cut::Whole;
      }
      set(vec![sc]);
      match quiet(connect(&creds, backoff, timeout)).await {
        Some(Ok(x)) => c = Some(x),
        x => {
          failed = Some(format!("connect: {:?}", x.map(|r| r.err())));
          return;
        }
      }
    }
    let mut at = 0;
    let mut i = 0;
    for (phase, n) in [warm, full].into_iter().enumerate() {
      if phase == 1 {
        at = held();
      }
      if fed {
        server.raise(phase);
      }
      for _ in 0..n {
        match storm {
          Storm::Lines | Storm::OneKind(_) => {
            let c = c.as_mut().unwrap();
            match quiet(c.recv()).await {
              None => {
                failed = Some(format!("line {i} does not come"));
                return;
              }
              Some(Err(e)) if e.is_disconnect() => {
                failed = Some(format!("disconnected: {e:?}"));
                return;
              }
              Some(Ok(m)) => {
                if split_config {
                  let _ = std::hint::black_box(m.as_typed().map(|m| format!("{m:?}").len()));
                }
              }
              Some(Err(_)) => {}
            }
          }
          Storm::Sends(kind) => {
            let c = c.as_mut().unwrap();
            let t = "y".repeat(i % 90);
            // one kind only, or all of them
            let x = match if kind < 5 { kind } else { i % 5 } {
              0 => quiet(c.privmsg("#a", &t).client_nonce("abc").send()).await,
              1 => quiet(c.ping(&t)).await,
              2 => quiet(c.join(format!("#abc{i}"))).await,
              3 => quiet(c.join_all([format!("#abc{i}"), format!("#d{i}")])).await,
              _ => quiet(c.send_raw(format!("PRIVMSG #b :{t}\r\n").as_str())).await,
            };
            if !matches!(x, Some(Ok(()))) {
              failed = Some(format!("send {i}: {x:?}"));
              return;
            }
          }
          Storm::Refused => {
            let c = c.as_mut().unwrap();
            let t = "z".repeat(i % 90);
            let _ = quiet(c.privmsg("#a\n", &t).send()).await;
            let _ = quiet(c.join("#a\r\nb")).await;
            let _ = quiet(c.send_raw(t.as_str())).await;
          }
          Storm::CancelledRecv => {
            let c = c.as_mut().unwrap();
            let _ = futures_util::FutureExt::now_or_never(c.recv());
          }
          Storm::Reconnects => {
            set(attempts.pop_front().into_iter().collect());
            match quiet(c.as_mut().unwrap().reconnect()).await {
              Some(Ok(())) => {}
              x => {
                failed = Some(format!("reconnect {i}: {x:?}"));
                return;
              }
            }
          }
          Storm::Cycles => {
            set(attempts.pop_front().into_iter().collect());
            match quiet(connect(&creds, backoff, timeout)).await {
              Some(Ok(mut c)) => {
                let _ = quiet(c.recv()).await;
              }
              Some(Err(_)) => {}
              None => {
                failed = Some(format!("connect {i} hangs"));
                return;
              }
            }
          }
        }
        i += 1;
      }
    }
    grown = Some(held() - at);
    drop(c);
  });
  if let Err(p) = ran {
    o.v("panic", format!("client panicked: {p}"));
    return Ok(desc);
  }
  drop(server);
  if let Some(e) = failed {
    return Err(e);
  }
  let g = grown.ok_or("no measurement")?;
  o.hit(match storm {
    Storm::Lines | Storm::OneKind(_) => "received lines",
    Storm::Sends(_) => "sent messages",
    Storm::Refused => "refused sends",
    Storm::CancelledRecv => "cancelled receives",
    Storm::Reconnects => "reconnects in a row",
    Storm::Cycles => "connects in a row",
  });
  if std::env::var_os("LIFE_SHOW").is_some() {
    eprintln!("{storm:?} {g}");
  }
  if g > limit {
    let kind = format!("{storm:?}");
    let kind = kind.split('(').next().unwrap_or_default();
    o.v(format!("memory:{kind}"), format!("{full} more of {storm:?} after {warm} left {g} more bytes allocated"));
  }
  Ok(desc)
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Act {
  /// the server says this
  Feed(usize, Vec<String>),
  Idle(u64, bool),
  Say(Say),
  Look,
  /// the server closes the connection
  Close(usize, Close),
}

#[derive(Clone, Debug)]
enum Say {
  Privmsg(String, String),
  Join(String),
  JoinAll(Vec<String>),
  Ping(String),
  Pong(String),
  Raw(String),
  /// many messages of one kind at once
  Burst(usize, usize),
}

fn provoke(r: &mut Rng, nick: &str, chan: &str) -> String {
  let w = word(r, 1, 12);
  match r.below(24) {
    0 | 1 => "PING :tmi.twitch.tv".into(),
    2 => format!(":tmi.twitch.tv PING {w}"),
    3 | 4 => ":tmi.twitch.tv RECONNECT".into(),
    5 => ":tmi.twitch.tv NOTICE * :Login authentication failed".into(),
    6 => format!("@msg-id=msg_ratelimit :tmi.twitch.tv NOTICE {chan} :Your message was not sent because you are sending messages too quickly."),
    7 => format!("@msg-id=msg_duplicate :tmi.twitch.tv NOTICE {chan} :Your message was not sent because it is identical to the previous one you sent, less than 30 seconds ago."),
    8 => format!("@msg-id=msg_channel_suspended :tmi.twitch.tv NOTICE {chan} :This channel does not exist or has been suspended."),
    9 => format!("@room-id=1;target-user-id=2;tmi-sent-ts=1642715756806;ban-duration=1 :tmi.twitch.tv CLEARCHAT {chan} :{nick}"),
    10 => format!("@emote-only=0;followers-only=-1;r9k=1;room-id=1;slow=30;subs-only=1 :tmi.twitch.tv ROOMSTATE {chan}"),
    11 => format!(":{nick}!{nick}@{nick}.tmi.twitch.tv PART {chan}"),
    12 => format!(":{nick}!{nick}@{nick}.tmi.twitch.tv JOIN {chan}"),
    13 => ":tmi.twitch.tv CAP * NAK :twitch.tv/tags".into(),
    14 => ":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership".into(),
    15 => format!(":tmi.twitch.tv 001 {nick} :Welcome, GLHF!"),
    16 => format!("@badges=;color=;display-name=X;emotes=;message-id=1;thread-id=1_2;turbo=0;user-id=1;user-type= :x!x@x.tmi.twitch.tv WHISPER {nick} :{w}"),
    17 => format!(":tmi.twitch.tv 421 {nick} FOO :Unknown command"),
    18 => ":tmi.twitch.tv PONG tmi.twitch.tv :x".into(),
    19 => format!("@badge-info=;badges=;color=;display-name=X;emotes=;first-msg=0;flags=;id=1;mod=0;room-id=1;subscriber=0;tmi-sent-ts=1642715756806;turbo=0;user-id=1;user-type= :x!x@x.tmi.twitch.tv PRIVMSG {chan} :@{nick} !{w}"),
    20 => "ERROR :Closing Link".into(),
    21 => format!(":x!x@x PRIVMSG {nick} :\u{1}PING {w}\u{1}"),
    22 => format!(":x!x@x PRIVMSG {nick} :\u{1}VERSION\u{1}"),
    _ => format!(":tmi.twitch.tv 4{:02} {nick} {chan} :no", r.below(100)),
  }
}

/// Line by line, without what may be spelled either way.
fn canon(plain: &[u8]) -> Vec<String> {
  let s = String::from_utf8_lossy(plain);
  let mut v = vec![];
  for l in s.split_terminator("\r\n") {
    let l = l.replacen(" :", " ", 1);
    match l.strip_prefix("JOIN ") {
      Some(c) => v.extend(c.split(',').map(|c| format!("JOIN {c}"))),
      None => v.push(l),
    }
  }
  v
}

async fn say(c: &mut Client, s: &Say, out: &mut Vec<u8>) -> Result<(), String> {
  let mut put = |l: String| out.extend_from_slice(format!("{l}\r\n").as_bytes());
  let e = |e: tmi::client::write::SendError| format!("{e:?}");
  match s {
    Say::Privmsg(ch, t) => {
      put(format!("PRIVMSG {ch} :{t}"));
      c.privmsg(ch, t).send().await.map_err(e)
    }
    Say::Join(ch) => {
      put(format!("JOIN {ch}"));
      c.join(ch).await.map_err(e)
    }
    Say::JoinAll(v) => {
      for ch in v {
        put(format!("JOIN {ch}"));
      }
      c.join_all(v).await.map_err(e)
    }
    Say::Ping(n) => {
      put(format!("PING :{n}"));
      c.ping(n).await.map_err(e)
    }
    Say::Pong(n) => {
      put(format!("PONG :{n}"));
      let raw = format!("PING :{n}");
      let m = tmi::IrcMessageRef::parse(&raw).expect("a valid PING");
      let p = <tmi::Ping as tmi::FromIrc>::from_irc(m).expect("a PING");
      c.pong(&p).await.map_err(e)
    }
    Say::Raw(l) => {
      put(l.clone());
      c.send_raw(format!("{l}\r\n").as_str()).await.map_err(e)
    }
    Say::Burst(n, kind) => {
      for i in 0..*n {
        match kind {
          0 | 1 => {
            let t = if *kind == 0 { "same".to_string() } else { format!("burst {i}") };
            put(format!("PRIVMSG #burst :{t}"));
            c.privmsg("#burst", &t).send().await.map_err(e)?;
          }
          2 => {
            put(format!("PRIVMSG #burst{i} :to all"));
            c.privmsg(&format!("#burst{i}"), "to all").send().await.map_err(e)?;
          }
          3 => {
            put(format!("JOIN #burst{i}"));
            c.join(format!("#burst{i}")).await.map_err(e)?;
          }
          4 => {
            put("JOIN #burst".to_string());
            c.join("#burst").await.map_err(e)?;
          }
          5 => {
            let v: Vec<String> = (0..3).map(|k| format!("#b{i}x{k}")).collect();
            for ch in &v {
              put(format!("JOIN {ch}"));
            }
            c.join_all(v).await.map_err(e)?;
          }
          6 => {
            put("PING :burst".to_string());
            c.ping("burst").await.map_err(e)?;
          }
          _ => {
            put("PRIVMSG #burst :raw".to_string());
            c.send_raw("PRIVMSG #burst :raw\r\n").await.map_err(e)?;
          }
        }
      }
      Ok(())
    }
  }
}

fn look(c: &Client, creds: &Credentials) -> bool {
  let s = format!("{:?} {:?}", c.config(), c.credentials());
  s.contains(creds.login()) && c.credentials().login() == creds.login()
}

pub fn c30(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  let creds = credentials(r);
  let timeout = Duration::from_secs(*r.pick(&[1, 5, 30, 600]));
  let backoff = if r.pct(40) {
    Backoff::default()
  } else {
    Backoff {
      max_tries: Some(r.range(1, 3) as u64),
      initial_delay: Duration::from_millis(r.below(5_000) as u64),
      delay_multiplier: r.range(1, 3) as u32,
      max_delay: Duration::from_secs(r.range(1, 60) as u64),
    }
  };
  let rounds = r.range(1, 3);
  let mut flag = 0;
  let mut plan: Vec<Vec<Act>> = vec![];
  let mut chans: Vec<String> = (0..3).map(|_| format!("#{}", word(r, 1, 10))).collect();
  chans[0] = format!("#{}", creds.login);
  for _ in 0..rounds {
    let mut v = vec![];
    for _ in 0..r.range(2, 9) {
      let ch = r.pick(&chans).clone();
      v.push(match r.below(10) {
        0..=3 => {
          flag += 1;
          let n = r.range(1, 5);
          Act::Feed(flag, (0..n).map(|_| provoke(r, &creds.login, &ch)).collect())
        }
        4 | 5 => Act::Idle(*r.pick(&[3, 31, 61, 301, 400, 3_600, 90_000, 600_000]), r.pct(60)),
        6 => Act::Look,
        _ => Act::Say(match r.below(10) {
          0 | 1 => Say::Privmsg(ch, format!("{} {}", word(r, 1, 9), word(r, 1, 9))),
          2 | 3 => Say::Join(ch),
          4 => match r.pct(60) {
            true => Say::JoinAll(chans.clone()),
            false => Say::JoinAll((0..r.range(20, 70)).map(|i| format!("#m{i}")).collect()),
          },
          5 => Say::Ping(word(r, 1, 9)),
          6 => Say::Pong(word(r, 1, 9)),
          7 => Say::Raw(r.pick(&["PART #a", "JOIN #raw", "QUIT", "PING :raw", "PRIVMSG #a :raw"]).to_string()),
          _ => Say::Burst(*r.pick(&[2, 25, 110]), r.below(8)),
        }),
      });
    }
    if r.pct(35) {
      flag += 1;
      v.push(Act::Close(flag, *r.pick(&[Close::Notify, Close::Fin, Close::Rst])));
      v.push(Act::Idle(*r.pick(&[61, 90_000]), r.pct(50)));
      if r.pct(40) {
        v.push(Act::Idle(400, true));
      }
    }
    plan.push(v);
  }
  // the last reconnect may be one that does not work
  let hopeless = r.pct(25);
  let desc = format!("{timeout:?} {backoff:?} {plan:?} hopeless={hopeless}");
  scenario(&desc);
  hooks::reset(cx.ip, vec![]);
  let scripts: Vec<Script> = plan
    .iter()
    .map(|v| {
      let mut steps = good_steps(&creds.login, b"", r);
      for a in v {
        match a {
          Act::Feed(f, l) => {
            steps.push(Step::Flag(*f));
            steps.push(Step::Send(l.iter().map(|l| format!("{l}\r\n")).collect::<String>().into()));
          }
          Act::Close(f, how) => {
            steps.push(Step::Flag(*f));
            steps.push(Step::Close(*how));
          }
          _ => {}
        }
      }
      script(cx, steps, r)
    })
    .collect();
  let server = Server::start(cx, scripts);
  let mut said: Vec<Vec<u8>> = vec![vec![]; plan.len()];
  let mut cut_off: Vec<bool> = vec![false; plan.len()];
  let mut notes: Vec<(String, String)> = vec![];
  let mut failed: Option<String> = None;
  let mut wanted = 1u64;
  let mut idled = Duration::ZERO;
  let (mut fed, mut spoken) = (0u64, 0u64);
  let ran = client_side(true, async {
    let mut none = vec![];
    let build = Client::builder().credentials(creds.clone()).backoff(backoff).timeout(timeout);
    let mut c = match virtual_time(build.connect(), &mut none).await {
      Some(Ok(c)) => c,
      x => {
        failed = Some(format!("connect: {:?}", x.map(|r| r.err())));
        return;
      }
    };
    let counted = |wanted: u64, notes: &mut Vec<(String, String)>, when: &str| -> bool {
      let (dns, connects, open) = hooks::with(|n| (n.dns.len() as u64, n.connects.len() as u64, n.sockets.len()));
      if dns != wanted || connects > wanted || open > 1 {
        notes.push((
          "connections".into(),
          format!("{when}: {dns} name lookups, {connects} connections made, {open} sockets open; {wanted} connections were asked for"),
        ));
        return false;
      }
      true
    };
    for (k, acts) in plan.iter().enumerate() {
      if k > 0 {
        hooks::with(|n| n.live = None);
        server.caught_up();
        let fail = hopeless && k + 1 == plan.len();
        if fail {
          let t = backoff.max_tries.unwrap_or(1) as usize;
          wanted += t as u64;
          hooks::with(|n| {
            n.plans = (0..t)
              .map(|_| Plan {
                connect: ConnectPlan::Fail(libc::ECONNREFUSED),
                ..Plan::default()
              })
              .collect()
          });
        } else {
          wanted += 1;
        }
        match virtual_time(c.reconnect(), &mut none).await {
          Some(Ok(())) if !fail => {}
          Some(Err(_)) if fail => {
            // no further attempts come later
            hooks::with(|n| n.live = None);
            tokio::time::sleep(Duration::from_secs(200_000)).await;
            idled += Duration::from_secs(200_000);
            counted(wanted, &mut notes, "two days after a reconnect which used up its tries");
            break;
          }
          Some(Err(e)) if matches!(e.cause, ConnectError::Timeout) => {
            failed = Some("reconnect timed out".into());
            return;
          }
          x => {
            failed = Some(format!("reconnect {k}: {:?}", x.map(|r| r.err())));
            return;
          }
        }
      }
      let fd = hooks::with(|n| n.live);
      let mut closed = false;
      for (i, a) in acts.iter().enumerate() {
        match a {
          Act::Feed(f, ls) => {
            hooks::with(|n| n.live = fd);
            server.raise(*f);
            for l in ls {
              match virtual_time(c.recv(), &mut none).await {
                Some(Ok(m)) if m.raw() == l => {
                  fed += 1;
                  std::hint::black_box(m.as_typed().map(|t| format!("{t:?}").len()).unwrap_or(0));
                  std::hint::black_box(format!("{m:?}").len());
                }
                Some(x) => {
                  notes.push(("swallowed".into(), format!("the server said {l:?}, recv returned {x:?}")));
                  return;
                }
                None => {
                  notes.push(("slow:swallowed".into(), format!("the server said {l:?}, recv does not return it")));
                  return;
                }
              }
            }
          }
          Act::Idle(secs, pending) => {
            hooks::with(|n| n.live = None);
            let d = Duration::from_secs(*secs);
            let before = hooks::with(|n| n.raw.len());
            if *pending {
              match tokio::time::timeout(d, c.recv()).await {
                Err(_) => {}
                Ok(_) if closed => tokio::time::sleep(d).await,
                Ok(x) => {
                  notes.push(("recv".into(), format!("the server said nothing, recv returned {x:?}")));
                  return;
                }
              }
            } else {
              tokio::time::sleep(d).await;
            }
            idled += d;
            let after = hooks::with(|n| n.raw.len());
            if after != before && !closed {
              notes.push(("idle traffic".into(), format!("{} bytes were sent while the program waited {d:?} ({})", after - before, if *pending { "in recv" } else { "without calling anything" })));
            }
          }
          Act::Look => {
            if !look(&c, &creds) {
              notes.push(("config".into(), format!("the configuration is now {:?}", c.config())));
            }
          }
          Act::Say(s) => {
            if closed {
              continue;
            }
            hooks::with(|n| n.live = None);
            let t = Instant::now();
            // virtual time stands still, unless nothing but a timer can finish the call
            let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
            let seen = done.clone();
            let hold = tokio::task::spawn_blocking(move || {
              let t = std::time::Instant::now();
              while !seen.load(Ordering::SeqCst) && t.elapsed() < Duration::from_secs(3) {
                std::thread::sleep(Duration::from_micros(200));
              }
            });
            let x = {
              let mut f = std::pin::pin!(say(&mut c, s, &mut said[k]));
              tokio::select! {
                biased;
                x = &mut f => Some(x),
                _ = hold => None,
              }
            };
            done.store(true, Ordering::SeqCst);
            match x {
              Some(Ok(())) => spoken += 1,
              Some(Err(e)) => {
                failed = Some(format!("{s:?}: {e}"));
                return;
              }
              None => {
                notes.push(("slow:held back".into(), format!("{s:?} did not finish although the server was ready, {:?} of virtual time later", t.elapsed())));
                return;
              }
            }
            if t.elapsed() > Duration::from_millis(500) {
              notes.push(("held back".into(), format!("{s:?} waited for {:?}", t.elapsed())));
              return;
            }
            let end = canon(&said[k]).len();
            let all = server.wait(k, |l| transcript(&l.plain, &creds).is_ok_and(|n| canon(&l.plain[n..]).len() >= end)).await;
            if !all {
              notes.push(("slow:held back".into(), format!("{s:?} returned, but its bytes do not arrive")));
              return;
            }
          }
          Act::Close(f, how) => {
            server.raise(*f);
            server.wait(k, |l| l.steps_done == l.steps_total).await;
            closed = true;
            cut_off[k] = *how == Close::Rst;
          }
        }
        if !counted(wanted, &mut notes, &format!("after step {i} on connection {k} ({a:?})")) {
          return;
        }
      }
      if !closed && server.log(k).end != "" {
        notes.push(("hung up".into(), format!("the client ended connection {k} ({}) without being told to", server.log(k).end)));
      }
    }
    drop(c);
    hooks::with(|n| n.live = None);
    tokio::time::sleep(Duration::from_secs(100_000)).await;
    counted(wanted, &mut notes, "a day after the client was dropped");
  });
  if let Err(p) = ran {
    o.v("panic", format!("client panicked: {p}"));
    return Ok(desc);
  }
  let logs = server.finish();
  if let Some(e) = failed {
    return Err(e);
  }
  o.hits("provoking lines handed over", fed);
  o.hits("calls", spoken);
  o.hits("virtual hours idled", idled.as_secs() / 3600);
  let bad = !notes.is_empty();
  for (s, m) in notes {
    o.v(s, m);
  }
  if bad {
    return Ok(desc);
  }
  for (k, l) in logs.iter().enumerate() {
    let Some(s) = said.get(k) else {
      o.v("connections", format!("an extra connection was made, which received {}", show(&l.plain)));
      continue;
    };
    match transcript(&l.plain, &creds) {
      Ok(n) => {
        let (got, want) = (canon(&l.plain[n..]), canon(s));
        o.hit("connections compared");
        if got != want && !(cut_off[k] && want.starts_with(&got)) {
          let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
          o.v(
            "traffic",
            format!(
              "connection {k}: {} lines after the handshake, {} were asked for; line {i} is {:?}, asked for {:?}",
              got.len(),
              want.len(),
              got.get(i),
              want.get(i)
            ),
          );
        }
      }
      Err(e) => o.v("transcript", e),
    }
  }
  Ok(desc)
}
