//! C22: unresponsive servers, in virtual time which only moves when nothing else can.

use crate::hooks::{self, ConnectPlan, Plan};
use crate::srv::*;
use crate::util::*;
use crate::{Cx, Ran};
use mon::rng::Rng;
use mon::Obs;
use std::future::Future;
use std::net::{Ipv4Addr, SocketAddrV4, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, OnceLock};
use std::time::Duration;
use tmi::client::{Backoff, ConnectError};
use tokio::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Stall {
  /// answers within the limits
  None,
  Dns,
  Syn,
  NoTls,
  PartTls(usize),
  NoReply,
  PartFirst(usize),
  NoSecond,
  PartSecond(usize),
  /// one byte now and then, of the first (0) or second (1) reply
  Drip(usize),
  /// complete lines which the handshake does not wait for never come; only the line ending of
  /// the first (0) or second (1) reply is missing
  NoLineEnd(usize),
}

/// Listener which completes no connection: its queue is full.
fn black_hole(ip: [u8; 4]) -> Option<u16> {
  static HOLE: OnceLock<Option<(u16, TcpListener, Vec<TcpStream>)>> = OnceLock::new();
  HOLE
    .get_or_init(|| {
      let l = TcpListener::bind(SocketAddrV4::new(Ipv4Addr::from(ip), 0)).ok()?;
      unsafe { libc::listen(l.as_raw_fd(), 0) };
      let a = l.local_addr().ok()?;
      let mut held = vec![];
      for _ in 0..4 {
        match TcpStream::connect_timeout(&a, Duration::from_millis(150)) {
          Ok(s) => held.push(s),
          Err(_) => return Some((a.port(), l, held)),
        }
      }
      None
    })
    .as_ref()
    .map(|h| h.0)
}

/// Run `f`, moving the clock by `step` whenever everything is settled; `tick` gets the time
/// since the start of the last attempt. Returns the outcome and that time.
async fn drive<T>(
  f: impl Future<Output = T>,
  server: &Server,
  step: Duration,
  limit: Duration,
  mut tick: impl FnMut(Duration),
) -> (Option<T>, Duration) {
  let mut f = pin!(f);
  let mut base = Instant::now();
  let mut dns = hooks::with(|n| n.dns.len());
  let start = Instant::now();
  loop {
    // let everything happen that can happen now
    loop {
      let pause = tokio::task::spawn_blocking(|| std::thread::sleep(Duration::from_micros(100)));
      tokio::select! {
        biased;
        r = &mut f => return (Some(r), base.elapsed()),
        _ = pause => {}
      }
      let d = hooks::with(|n| n.dns.len());
      if d != dns {
        dns = d;
        base = Instant::now();
      }
      if server.settled() {
        break;
      }
    }
    let gen = server.gen.load(Ordering::SeqCst);
    tick(base.elapsed());
    if server.gen.load(Ordering::SeqCst) != gen {
      continue;
    }
    if start.elapsed() > limit {
      return (None, base.elapsed());
    }
    tokio::time::advance(step).await;
  }
}

pub fn c22(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  let creds = credentials(r);
  let reconnect = r.pct(45);
  let t = Duration::from_millis(*r.pick(&[100, 700, 2_000, 4_000, 5_000, 6_000, 12_000, 30_000, 30_000, 60_000]));
  // no limit to speak of: the replies still have their own
  let endless = r.pct(12);
  let t = match endless {
    true => *r.pick(&[
      Duration::from_secs(86_400),
      Duration::from_secs(1 << 32),
      Duration::from_secs(1 << 40),
      Duration::from_secs(u64::MAX),
      Duration::MAX,
    ]),
    false => t,
  };
  let five = Duration::from_secs(5);
  let per = t.min(five);
  let step = (per / 60).max(Duration::from_millis(2));
  let mut stall = match r.below(15) {
    0..=3 => Stall::None,
    4 => Stall::Dns,
    5 => Stall::Syn,
    6 => Stall::NoTls,
    7 => Stall::PartTls(*r.pick(&[1, 4, 5, 6, 50, 100, 300, 100_000])),
    8 => Stall::NoReply,
    9 => Stall::PartFirst(r.range(1, ACK.len() - 1)),
    10 => Stall::NoSecond,
    11 => Stall::PartSecond(r.range(1, 15)),
    12 => Stall::Drip(0),
    13 => Stall::Drip(1),
    _ => Stall::NoLineEnd(r.below(2)),
  };
  if endless && matches!(stall, Stall::Dns | Stall::Syn | Stall::NoTls | Stall::PartTls(_)) {
    stall = Stall::None;
  }
  let mut hole = None;
  if stall == Stall::Syn {
    match black_hole(cx.ip) {
      Some(p) => hole = Some(p),
      None => stall = Stall::NoTls,
    }
  }
  // how long the server takes where it does answer, with a margin of a few steps
  let frac = |r: &mut Rng, d: Duration| -> Duration {
    let max = d.saturating_sub(step * 3);
    match r.below(4) {
      0 => Duration::ZERO,
      1 => max,
      _ => max * r.below(1000) as u32 / 1000,
    }
  };
  let d0 = frac(r, t.min(Duration::from_secs(90)));
  let d1 = frac(r, per);
  let d2 = frac(r, five.min(t.saturating_sub(d1)));
  let nick = creds.login.clone();
  let w = welcome(&nick);
  let cut_line = |s: &str, n: usize| s.as_bytes()[..n].to_vec();
  let mut steps = vec![Step::Lines(3), Step::Flag(2)];
  // flags and when they are raised, counted from the start of the attempt
  let mut at: Vec<(usize, Duration)> = vec![(0, d0), (2, d0 + d1), (3, d0 + d1 + d2)];
  let mut drip: Vec<(usize, Duration)> = vec![];
  let mut dripped = |steps: &mut Vec<Step>, line: &str, from: Duration| {
    // so slowly that the line ending does not come in time
    let gap = five / 20;
    for (i, b) in line.as_bytes().iter().take(90).enumerate() {
      if i >= 25 && from + gap * i as u32 > from + five + five {
        break;
      }
      steps.push(Step::Flag(10 + i));
      steps.push(Step::Send(vec![*b]));
      drip.push((10 + i, from + gap * (i as u32 + 1)));
    }
  };
  let open_bound = t;
  let mut bound = d0 + d1 + d2;
  match stall {
    Stall::None => {
      steps.push(Step::Send(ACK.into()));
      steps.push(Step::Flag(3));
      steps.push(Step::Send(w.clone().into()));
    }
    Stall::Dns | Stall::Syn | Stall::NoTls => {
      at.clear();
      bound = open_bound;
    }
    Stall::PartTls(_) => {
      at.truncate(1);
      bound = open_bound;
    }
    Stall::NoReply => {
      at.truncate(1);
      bound = d0 + per;
    }
    Stall::PartFirst(n) => {
      steps.push(Step::Send(cut_line(ACK, n)));
      at.truncate(2);
      bound = d0 + per;
    }
    Stall::NoSecond => {
      steps.push(Step::Send(ACK.into()));
      at.truncate(2);
      bound = d0 + t.min(d1 + five);
    }
    Stall::PartSecond(n) => {
      steps.push(Step::Send(ACK.into()));
      steps.push(Step::Send(cut_line(&w, n)));
      at.truncate(2);
      bound = d0 + t.min(d1 + five);
    }
    Stall::Drip(0) => {
      dripped(&mut steps, ACK, d0 + d1);
      at.truncate(2);
      bound = d0 + per;
    }
    Stall::Drip(_) => {
      steps.push(Step::Send(ACK.into()));
      dripped(&mut steps, &w, d0 + d1);
      at.truncate(2);
      bound = d0 + t.min(d1 + five);
    }
    Stall::NoLineEnd(0) => {
      let n = ACK.len() - r.range(1, 2);
      steps.push(Step::Send(cut_line(ACK, n)));
      at.truncate(2);
      bound = d0 + per;
    }
    Stall::NoLineEnd(_) => {
      let mut b = ACK.as_bytes().to_vec();
      b.extend_from_slice(w.trim_end().as_bytes());
      if r.pct(50) {
        b.push(b'\r');
      }
      steps.push(Step::Send(b));
      at.truncate(2);
      bound = d0 + t.min(d1 + five);
    }
  }
  at.extend(drip);
  let mut sc = script(cx, steps, r);
  sc.hold = Some(0);
  if let Stall::PartTls(n) = stall {
    sc.part_tls = Some((n, 1));
  }
  let tries = if reconnect { r.range(1, 3) } else { 1 };
  let desc = format!(
    "{} timeout {t:?}: {stall:?}, answers after {d0:?}, {d1:?}, {d2:?}; {} failed attempts before",
    if reconnect { "reconnect" } else { "connect" },
    tries - 1
  );
  let mut plans = vec![];
  let plan = Plan {
    dns_block: stall == Stall::Dns,
    connect: hole.map(ConnectPlan::To).unwrap_or_default(),
    ..Default::default()
  };
  if !reconnect {
    plans.push(plan.clone());
  }
  let backoff = Backoff {
    max_tries: Some(tries as u64),
    initial_delay: Duration::from_millis(r.below(3_000) as u64),
    delay_multiplier: 1,
    max_delay: Duration::from_secs(3),
  };
  scenario(&desc);
  hooks::reset(cx.ip, plans);
  let mut scripts = vec![];
  if reconnect {
    let steps = good_steps(&nick, b"", r);
    let mut s = script(cx, steps, r);
    s.segments = Cut::Whole;
    scripts.push(s);
  }
  let hit_server = !matches!(stall, Stall::Dns | Stall::Syn);
  if hit_server {
    scripts.push(sc);
  }
  let server = Server::start(cx, scripts);
  let mut failed = None;
  let mut outcome: (Option<Result<(), ConnectError>>, Duration) = (None, Duration::ZERO);
  let limit = bound + Duration::from_secs(40) + backoff.initial_delay * 4;
  // One thread keeps the clock from moving by itself, the other one works on blocking calls in
  // the order they come: the pauses of `drive` cannot overtake a name lookup. (A lookup which is
  // blocked for good would block them too.)
  let threads = if stall == Stall::Dns { 8 } else { 2 };
  let ran = client_side_on(true, threads, async {
    // the clock never moves by itself
    let done = Arc::new(AtomicBool::new(false));
    let d = done.clone();
    tokio::task::spawn_blocking(move || {
      while !d.load(Ordering::SeqCst) {
        std::thread::sleep(Duration::from_micros(500));
      }
    });
    let build = || tmi::Client::builder().credentials(creds.clone()).backoff(backoff).timeout(t).connect();
    let mut client = None;
    if reconnect {
      match drive(build(), &server, Duration::from_millis(1), Duration::from_millis(20), |_| {}).await {
        (Some(Ok(c)), _) => client = Some(c),
        (x, _) => failed = Some(format!("first connect: {:?}", x.map(|r| r.err()))),
      }
      hooks::with(|n| {
        n.live = None;
        n.plans = (0..tries - 1)
          .map(|_| Plan {
            connect: ConnectPlan::Fail(libc::ECONNREFUSED),
            ..Default::default()
          })
          .chain([plan.clone()])
          .collect();
      });
    }
    if failed.is_none() {
      let attempts_before = hooks::with(|n| n.dns.len());
      server.held.store(true, Ordering::SeqCst);
      let mut at = at.clone();
      let tick = |el: Duration| {
        // the last attempt is the one which meets the server
        if hooks::with(|n| n.dns.len()) < attempts_before + tries {
          return;
        }
        while let Some((f, _)) = at.first().filter(|x| x.1 <= el).copied() {
          at.remove(0);
          if f == 0 && !matches!(stall, Stall::PartTls(_)) {
            server.held.store(false, Ordering::SeqCst);
          }
          server.raise(f);
        }
      };
      outcome = match client.as_mut() {
        None => {
          let (x, el) = drive(build(), &server, step, limit, tick).await;
          (x.map(|r| r.map(|_| ())), el)
        }
        Some(c) => {
          let (x, el) = drive(c.reconnect(), &server, step, limit, tick).await;
          (x.map(|r| r.map_err(|e| e.cause)), el)
        }
      };
    }
    hooks::with(|n| n.release = true);
    done.store(true, Ordering::SeqCst);
  });
  hooks::with(|n| n.release = true);
  if let Err(p) = ran {
    o.v("panic", format!("client panicked: {p}"));
    return Ok(desc);
  }
  drop(server);
  if let Some(e) = failed {
    return Err(e);
  }
  let slack = step * 2 + Duration::from_millis(5);
  match (stall, outcome) {
    (Stall::None, (Some(Ok(())), el)) => {
      if endless {
        o.hit("timeouts of days to centuries");
      }
      o.hit("answers in time believed");
      let _ = el;
    }
    (Stall::None, (Some(Err(e)), el)) => {
      o.v("early", format!("{} after {el:?} although the server answered within the limits", kind(&e)));
    }
    (_, (None, el)) => {
      o.v("hang", format!("still waiting {el:?} after the attempt began; the limit was {bound:?}"));
    }
    (_, (Some(Ok(())), el)) => {
      o.v("believed", format!("success after {el:?} without a complete answer"));
    }
    (_, (Some(Err(ConnectError::Timeout)), el)) => {
      if el > bound + slack {
        o.v("late", format!("timed out after {el:?}; the limit was {bound:?}"));
      } else {
        o.hit(match stall {
          Stall::Dns => "stalled DNS",
          Stall::Syn => "stalled TCP connect",
          Stall::NoTls | Stall::PartTls(_) => "stalled TLS",
          Stall::NoReply | Stall::PartFirst(_) | Stall::Drip(0) | Stall::NoLineEnd(0) => "stalled first reply",
          _ => "stalled second reply",
        });
      }
    }
    (_, (Some(Err(e)), el)) => o.v("error", format!("{} after {el:?} instead of Timeout", kind(&e))),
  }
  Ok(desc)
}
