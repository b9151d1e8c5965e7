//! C21: the reconnect policy, watched in virtual time.

use crate::handshake::transcript;
use crate::hooks::{self, ConnectPlan, Plan};
use crate::srv::*;
use crate::util::*;
use crate::{Cx, Ran};
use futures_util::FutureExt;
use mon::rng::Rng;
use mon::Obs;
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::Poll;
use std::time::{Duration, Instant as Real};
use tmi::client::{Backoff, ConnectError};
use tokio::time::Instant;

fn in_progress() -> bool {
  hooks::with(|n| n.busy || n.live.and_then(|fd| n.fds.get(&fd)).is_some_and(|s| !s.over))
}

/// Run `f` under the paused clock. While a connection attempt is being worked on, the clock
/// stands still; otherwise it jumps to the next timer. Notes when each attempt started.
/// `None`: nothing happens any more.
pub async fn virtual_time<T>(f: impl Future<Output = T>, starts: &mut Vec<Instant>) -> Option<T> {
  let mut f = pin!(f);
  let mut hold: Option<tokio::task::JoinHandle<()>> = None;
  let mut seen = hooks::with(|n| n.dns.len());
  let mut last = (activity(), Real::now());
  struct Done(Arc<AtomicBool>);
  impl Drop for Done {
    fn drop(&mut self) {
      self.0.store(true, Ordering::SeqCst);
    }
  }
  let done = Done(Arc::default());
  std::future::poll_fn(move |cx| {
    let r = f.as_mut().poll(cx);
    let dns = hooks::with(|n| n.dns.len());
    while seen < dns {
      seen += 1;
      starts.push(Instant::now());
    }
    if let Poll::Ready(r) = r {
      return Poll::Ready(Some(r));
    }
    let a = activity();
    if a != last.0 {
      last = (a, Real::now());
    } else if last.1.elapsed() > IDLE && in_progress() {
      return Poll::Ready(None);
    }
    loop {
      if hold.is_none() {
        if !in_progress() {
          break;
        }
        let done = done.0.clone();
        hold = Some(tokio::task::spawn_blocking(move || {
          let t = Real::now();
          while !done.load(Ordering::SeqCst) && in_progress() && t.elapsed() < Duration::from_millis(300) {
            std::thread::sleep(Duration::from_micros(200));
          }
        }));
      }
      if hold.as_mut().unwrap().poll_unpin(cx).is_ready() {
        hold = None;
        continue;
      }
      break;
    }
    Poll::Pending
  })
  .await
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
  Ok,
  Auth,
  Notice,
  Welcome,
  /// the connection cannot be opened; known errno
  Open(Option<i32>),
  /// a send fails with this errno, if it comes to it
  Send(usize, i32),
}

#[derive(Clone)]
struct Attempt {
  fate: Fate,
  plan: Plan,
  script: Option<Script>,
}

fn attempt(cx: &Cx, r: &mut Rng, nick: &str, fate: Fate) -> Attempt {
  let mut plan = Plan::default();
  let mut steps = vec![Step::Lines(3)];
  let mut sc = None;
  match fate {
    Fate::Ok | Fate::Send(..) => {
      steps = good_steps(nick, b"PING :new\r\n", r);
      if let Fate::Send(k, e) = fate {
        plan.send_fail = Some((k, e));
      }
    }
    Fate::Auth => {
      if r.pct(50) {
        steps.push(Step::Send(":tmi.twitch.tv CAP * NAK :twitch.tv/tags\r\n".into()));
      } else {
        steps.push(Step::Send(format!("{ACK}:tmi.twitch.tv NOTICE * :Login authentication failed\r\n").into()));
      }
    }
    Fate::Notice => steps.push(Step::Send(format!("{ACK}:tmi.twitch.tv NOTICE * :Improperly formatted auth\r\n").into())),
    Fate::Welcome => {
      let l = *r.pick(&[":tmi.twitch.tv RECONNECT\r\n", "PING :x\r\n", ":tmi.twitch.tv 002 u :x\r\n"]);
      steps.push(Step::Send(if r.pct(50) { l.to_string() } else { format!("{ACK}{l}") }.into()));
    }
    Fate::Open(Some(e)) => {
      plan.connect = ConnectPlan::Fail(e);
      return Attempt {
        fate,
        plan,
        script: None,
      };
    }
    Fate::Open(None) => {
      if r.pct(50) {
        plan.dns = Some(*r.pick(&[libc::EAI_AGAIN, libc::EAI_NONAME, libc::EAI_FAIL]));
        return Attempt {
          fate,
          plan,
          script: None,
        };
      }
      let mut s = script(cx, vec![], r);
      s.no_tls = Some((r.below(2) as u8, *r.pick(&[Close::Fin, Close::Rst])));
      sc = Some(s);
    }
  }
  Attempt {
    fate,
    plan,
    script: Some(sc.unwrap_or_else(|| script(cx, steps, r))),
  }
}

fn retry(r: &mut Rng) -> Fate {
  match r.below(5) {
    0 | 1 => Fate::Open(Some(*r.pick(&[
      libc::ECONNREFUSED,
      libc::ENETUNREACH,
      libc::EHOSTUNREACH,
      libc::ETIMEDOUT,
      libc::EACCES,
      libc::ECONNRESET,
      libc::EADDRNOTAVAIL,
    ]))),
    2 | 3 => Fate::Open(None),
    _ => Fate::Send(r.below(3), *r.pick(&[libc::EPIPE, libc::ECONNRESET, libc::ETIMEDOUT, libc::EIO])),
  }
}

fn errno_of(e: &ConnectError) -> Option<i32> {
  match e {
    ConnectError::Io(e) => e.raw_os_error(),
    ConnectError::Open(tmi::client::conn::OpenStreamError::Io(e)) => e.raw_os_error(),
    _ => None,
  }
}

fn dur(r: &mut Rng) -> Duration {
  match r.below(6) {
    0 => Duration::ZERO,
    1 => Duration::from_millis(r.range(1, 20) as u64),
    2 => Duration::from_millis(r.range(20, 3_000) as u64),
    3 => Duration::from_secs(r.range(1, 30) as u64),
    4 => Duration::from_secs(r.range(30, 4_000) as u64),
    _ => Duration::from_secs(r.range(4_000, 86_400) as u64),
  }
}

pub fn c21(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  let creds = credentials(r);
  let backoff = if r.pct(15) {
    Backoff::default()
  } else {
    let huge = *r.pick(&[255, 256, 65_536, u32::MAX as u64, 1 << 32, 1 << 33, (1 << 32) + 2, i64::MAX as u64, 1 << 63, u64::MAX]);
    Backoff {
      max_tries: *r.pick(&[None, None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(6), Some(9), Some(huge)]),
      initial_delay: dur(r),
      delay_multiplier: *r.pick(&[0, 1, 2, 2, 3, 3, 5, 10]),
      max_delay: dur(r),
    }
  };
  let timeout = Duration::from_secs(*r.pick(&[1, 5, 30, 3_000]));
  let rounds = r.range(1, 3);
  let mut plans: Vec<Vec<Attempt>> = vec![];
  for _ in 0..rounds {
    let limit = backoff.max_tries.unwrap_or(14).min(14) as usize;
    let fails = if r.pct(30) { limit } else { r.below(limit + 1) };
    let mut v = vec![];
    for _ in 0..fails {
      let f = retry(r);
      v.push(attempt(cx, r, &creds.login, f));
    }
    if fails < limit || backoff.max_tries.is_none_or(|t| t > limit as u64) {
      let f = *r.pick(&[Fate::Ok, Fate::Ok, Fate::Ok, Fate::Auth, Fate::Notice, Fate::Welcome]);
      v.push(attempt(cx, r, &creds.login, f));
      // must never be used
      v.push(attempt(cx, r, &creds.login, Fate::Ok));
    } else {
      v.push(attempt(cx, r, &creds.login, Fate::Ok));
    }
    plans.push(v);
  }
  let desc = format!(
    "{backoff:?} timeout {timeout:?} {}",
    plans.iter().map(|v| format!("{:?}", v[..v.len() - 1].iter().map(|a| a.fate).collect::<Vec<_>>())).collect::<Vec<_>>().join(" | ")
  );
  let mut first_steps = good_steps(&creds.login, b"PING :new\r\n", r);
  first_steps.push(Step::Flag(0));
  first_steps.push(Step::Send(b"PING :stale\r\n".to_vec()));
  let first = script(cx, first_steps, r);
  let old_gone = r.below(3);
  scenario(&desc);
  hooks::reset(cx.ip, vec![]);
  let server = Server::start(cx, vec![first]);

  struct Call {
    t0: Instant,
    starts: Vec<Instant>,
    made: usize,
    send_failed: Vec<usize>,
    result: Result<(), ConnectError>,
    served: usize,
  }
  let mut calls: Vec<Call> = vec![];
  let mut hang: Option<String> = None;
  let mut failed: Option<String> = None;
  let mut notes: Vec<(String, String)> = vec![];
  // a line the server had not got when it should have
  let mut unseen = false;
  let mut expect_plain: Vec<(usize, Vec<u8>)> = vec![];
  let ran = client_side(true, async {
    let mut none = vec![];
    let build = tmi::Client::builder().credentials(creds.clone()).backoff(backoff).timeout(timeout);
    let mut c = match virtual_time(build.connect(), &mut none).await {
      Some(Ok(c)) => c,
      x => {
        failed = Some(format!("connect: {:?}", x.map(|r| r.err())));
        return;
      }
    };
    let mut conn = 0usize;
    let mut said = vec![];
    for (k, plan) in plans.iter().enumerate() {
      // some of the old connection's lines stay unread, some arrive later
      if k == 0 && r.pct(50) {
        let _ = virtual_time(c.recv(), &mut none).await;
      }
      if r.pct(50) {
        let l = format!("PING :r{k}\r\n");
        if virtual_time(c.send_raw(l.as_str()), &mut none).await.is_some_and(|r| r.is_ok()) {
          said.extend_from_slice(l.as_bytes());
          let end = said.clone();
          unseen |= !server.wait(conn, |l| l.plain.ends_with(&end)).await;
        }
      }
      if k == 0 && old_gone == 1 {
        server.raise(0);
        server.wait(0, |l| l.steps_done == l.steps_total).await;
      }
      expect_plain.push((conn, std::mem::take(&mut said)));
      let before = hooks::with(|n| {
        n.live = None;
        n.plans = plan.iter().map(|a| a.plan.clone()).collect();
        (n.attempts, n.failed.len())
      });
      server.caught_up();
      let accepted = server.accepted.load(std::sync::atomic::Ordering::SeqCst) as usize;
      *server.scripts.lock().unwrap() = plan.iter().filter_map(|a| a.script.clone()).collect();
      let t0 = Instant::now();
      let mut starts = vec![];
      let Some(res) = virtual_time(c.reconnect(), &mut starts).await else {
        hang = Some(format!("reconnect {k} does not return"));
        return;
      };
      let (made, send_failed) = hooks::with(|n| {
        let made = n.attempts - before.0;
        let f = n.failed[before.1..].iter().filter(|f| f.1.starts_with("send")).map(|f| f.0 - before.0).collect();
        (made, f)
      });
      let result = res.map_err(|e| e.cause);
      let ok = result.is_ok();
      // an attempt that failed in the resolver or connect never reaches the server
      let last_served = plan[..made.min(plan.len())].last().is_some_and(|a| a.script.is_some());
      if ok && last_served {
        conn = accepted + plan[..made].iter().filter(|a| a.script.is_some()).count() - 1;
      }
      calls.push(Call {
        t0,
        starts,
        made,
        send_failed,
        result,
        served: accepted,
      });
      if !ok {
        return;
      }
      if k == 0 && old_gone == 2 {
        server.raise(0);
        server.wait(0, |l| l.steps_done == l.steps_total).await;
      }
      let cfg = c.config();
      let same = cfg.credentials.login == creds.login
        && cfg.credentials.token == creds.token
        && cfg.timeout == timeout
        && cfg.backoff.max_tries == backoff.max_tries
        && cfg.backoff.initial_delay == backoff.initial_delay
        && cfg.backoff.delay_multiplier == backoff.delay_multiplier
        && cfg.backoff.max_delay == backoff.max_delay
        && c.credentials().login == creds.login;
      if !same {
        notes.push(("config".into(), format!("the configuration changed to {cfg:?}")));
      }
      // the first line is the new connection's
      match virtual_time(c.recv(), &mut none).await {
        Some(Ok(m)) if m.raw() == "PING :new" => {}
        x => notes.push(("stale".into(), format!("the first line after reconnecting was {x:?} instead of PING :new"))),
      }
      let l = format!("PING :after{k}\r\n");
      match virtual_time(c.send_raw(l.as_str()), &mut none).await {
        Some(Ok(())) => {
          said.extend_from_slice(l.as_bytes());
          let end = said.clone();
          unseen |= !server.wait(conn, |l| l.plain.ends_with(&end)).await;
        }
        x => {
          if !matches!(plan[made.min(plan.len()) - 1].fate, Fate::Send(..)) {
            notes.push(("stale".into(), format!("sending on the new connection gave {x:?}")));
          }
          return;
        }
      }
    }
    expect_plain.push((conn, said));
  });
  if let Err(p) = ran {
    o.v("panic", format!("client panicked: {p}"));
    return Ok(desc);
  }
  let logs = server.finish();
  if let Some(e) = failed {
    return Err(e);
  }
  if let Some(e) = hang {
    o.v("slow:hang", e);
  }
  for (s, m) in notes {
    o.v(s, m);
  }
  for (k, call) in calls.iter().enumerate() {
    let plan = &plans[k];
    // what each attempt turned out to be
    let fates: Vec<Fate> = plan
      .iter()
      .enumerate()
      .map(|(i, a)| match a.fate {
        Fate::Send(..) if !call.send_failed.contains(&i) => Fate::Ok,
        f => f,
      })
      .collect();
    let limit = backoff.max_tries.map(|t| t as usize).unwrap_or(usize::MAX);
    let stop = fates.iter().position(|f| !matches!(f, Fate::Open(_) | Fate::Send(..))).map(|p| p + 1).unwrap_or(fates.len());
    let want = stop.min(limit);
    if call.made != want {
      o.v("attempts", format!("reconnect {k} made {} attempts instead of {want}", call.made));
      continue;
    }
    if call.starts.len() != call.made {
      return Err(format!("{} starts for {} attempts", call.starts.len(), call.made));
    }
    o.hits("attempts", call.made as u64);
    // the waits
    let mut delay = backoff.initial_delay;
    let mut prev = call.t0;
    for (i, t) in call.starts.iter().enumerate() {
      let gap = *t - prev;
      if gap < delay || gap > delay + Duration::from_millis(2) {
        o.v("delay", format!("reconnect {k}: attempt {i} came after {gap:?} instead of {delay:?}"));
        break;
      }
      o.hit("delays checked");
      if i > 1 && delay == backoff.max_delay {
        o.hit("capped delays");
      }
      prev = *t;
      delay = std::cmp::min(backoff.max_delay, delay * backoff.delay_multiplier);
    }
    // the result
    let last = want.checked_sub(1).map(|i| fates[i]);
    let fine = match (&call.result, last) {
      (Ok(()), Some(Fate::Ok)) => true,
      (Err(ConnectError::Auth), Some(Fate::Auth)) => true,
      (Err(ConnectError::Notice(_)), Some(Fate::Notice)) => true,
      (Err(ConnectError::Welcome(_)), Some(Fate::Welcome)) => true,
      (Err(e @ ConnectError::Open(_)), Some(Fate::Open(n))) => n.is_none() || errno_of(e) == n,
      (Err(e @ (ConnectError::Open(_) | ConnectError::Io(_))), Some(Fate::Send(_, n))) => errno_of(e) == Some(n),
      // no attempt, no error to report
      (Err(_), None) => true,
      _ => false,
    };
    if fine {
      o.hit(match last {
        Some(Fate::Ok) => "success",
        None => "no tries",
        Some(Fate::Open(_) | Fate::Send(..)) => "tries used up",
        _ => "stopped by the server's answer",
      });
    } else {
      o.v("result", format!("reconnect {k} gave {:?} after {last:?}", call.result.as_ref().map_err(kind)));
    }
    let _ = call.served;
  }
  // every byte went to the connection it was meant for
  for (conn, said) in &expect_plain {
    let Some(l) = logs.get(*conn) else { continue };
    match transcript(&l.plain, &creds) {
      Ok(n) => {
        // a later entry for the same connection continues an earlier one
        let all: Vec<u8> = expect_plain.iter().filter(|e| e.0 == *conn).flat_map(|e| e.1.clone()).collect();
        if l.plain[n..] != all[..] {
          // not in time, or never: to be seen again when nothing else is running
          let sig = if unseen { "slow:traffic" } else { "traffic" };
          o.v(sig, format!("connection {conn} received {} instead of {} ({}), it ended with {:?}", show(&l.plain[n..]), show(&all), show(said), l.end));
        }
      }
      Err(e) => o.v("transcript", e),
    }
  }
  Ok(desc)
}
