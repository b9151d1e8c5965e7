//! C33: calls whose future is dropped before it is done.

use crate::handshake::transcript;
use crate::hooks::{self, Plan};
use crate::send::{apply, op, says, sends, split_lines, Must, Op};
use crate::srv::*;
use crate::util::*;
use crate::{Cx, Ran};
use mon::rng::Rng;
use mon::Obs;
use std::collections::BTreeSet;
use std::future::Future;
use std::task::Poll;
use std::time::Duration;
use tmi::client::write::SendError;
use tmi::Client;

/// What waits inside the client (not in the kernel) must stay below the TLS layer's limit of
/// 64 KiB, beyond which that layer takes a line in part.
const WAITING: usize = 50_000;

#[derive(Clone, Debug)]
enum Act {
  Send(Op, Must),
  /// so many polls, then the future is dropped
  CancelSend(Op, Must, usize),
  CancelRecv(usize),
  Recv,
  Nap(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Came {
  Sent,
  Refused,
  Cancelled(usize),
}

/// Poll at most `n` times, with something else going on in between; `None`: dropped.
async fn polls<F: Future>(f: F, n: usize, r: &mut Rng) -> Option<F::Output> {
  let mut f = std::pin::pin!(f);
  for i in 0..n {
    if let Poll::Ready(x) = std::future::poll_fn(|cx| Poll::Ready(f.as_mut().poll(cx))).await {
      return Some(x);
    }
    if i + 1 < n {
      match r.below(8) {
        0..=4 => tokio::task::yield_now().await,
        5 | 6 => tokio::time::sleep(Duration::from_micros(r.below(900) as u64)).await,
        _ => tokio::time::sleep(Duration::from_millis(r.below(4) as u64)).await,
      }
    }
  }
  None
}

/// The calls' lines in order; a cancelled call's line is there once or not at all.
fn judge(o: &mut Obs, lines: &[String], calls: &[(Op, Must, Came)]) {
  let mut at: BTreeSet<usize> = [0].into();
  let mut carried = 0;
  for (k, (op, must, came)) in calls.iter().enumerate() {
    match (must, came) {
      (Must::Send, Came::Refused) => {
        o.v("refused", format!("{op:?} was refused"));
        continue;
      }
      (Must::Refuse, Came::Sent) => {
        o.v("accepted", format!("{op:?} was accepted"));
        return;
      }
      (_, Came::Refused) | (_, Came::Cancelled(0)) => continue,
      _ => {}
    }
    if !sends(op) {
      continue;
    }
    let mut next = BTreeSet::new();
    for &j in &at {
      if lines.get(j).is_some_and(|l| says(l, op).is_ok()) {
        next.insert(j + 1);
      }
      if matches!(came, Came::Cancelled(_)) {
        next.insert(j);
      }
    }
    if next.is_empty() {
      let j = *at.last().unwrap();
      let before: Vec<String> = calls[k.saturating_sub(3)..k].iter().map(|c| format!("{:?} {}", c.2, show(format!("{:?}", c.0).as_bytes()))).collect();
      o.v(
        "wire",
        format!(
          "line {j} is {}, which is not {} (calls before it: {before:?})",
          lines.get(j).map(|l| show(l.as_bytes())).unwrap_or("missing".into()),
          show(format!("{op:?}").as_bytes())
        ),
      );
      return;
    }
    if matches!(came, Came::Cancelled(_)) && !next.iter().eq(at.iter()) {
      carried += 1;
    }
    at = next;
  }
  if !at.contains(&lines.len()) {
    let j = *at.last().unwrap();
    o.v("extra", format!("nothing was called for the line {}", show(lines[j].as_bytes())));
  }
  o.hits("lines of cancelled sends which arrived", carried);
}

fn act(r: &mut Rng, tight: bool) -> Act {
  match r.below(100) {
    0..=29 if !tight || r.pct(40) => {
      let (x, m) = op(r);
      Act::Send(x, m)
    }
    0..=74 => {
      let (x, m) = op(r);
      let n = if tight { r.below(5) } else { r.below(3) };
      Act::CancelSend(x, m, n)
    }
    75..=89 => Act::CancelRecv(r.below(4)),
    90..=95 => Act::Recv,
    _ => Act::Nap(r.below(3000) as u64),
  }
}

pub fn c33(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  let creds = credentials(r);
  let backoff = fast_backoff(r);
  let conns = *r.pick(&[1, 1, 2, 2, 3]);
  struct Conn {
    tight: bool,
    /// reconnects given up before the one that counts: how far the server goes, after how long
    given_up: Vec<(usize, u64)>,
    acts: Vec<Act>,
    lines: usize,
    plan: Plan,
    script: Script,
  }
  let mut desc = String::new();
  let mut all = vec![];
  for k in 0..conns {
    let tight = r.pct(55);
    let n = r.range(4, 30);
    let mut acts: Vec<Act> = (0..n).map(|_| act(r, tight)).collect();
    if tight {
      // fills the kernel's buffers, so that what comes after it waits in the client
      let mut at = 0;
      while at < acts.len() {
        let l = r.range(16_000, 36_000);
        let fill = Op::Raw(format!("PRIVMSG #fill :{}\r\n", word(r, 1, 9).repeat(l / 5)));
        acts.insert(at, Act::CancelSend(fill, Must::Send, r.range(1, 4)));
        at += r.range(3, 25);
      }
    }
    let lines = r.below(25);
    let text: Vec<u8> = (0..lines).flat_map(|i| format!(":a!a@a PRIVMSG #c :{k}.{i} {}\r\n", word(r, 1, 40)).into_bytes()).collect();
    let first = r.below(text.len() + 1);
    let mut steps = good_steps(&creds.login, &text[..first], r);
    let mut i = first;
    if tight {
      steps.push(Step::Pause(r.range(2_000, 60_000) as u64));
    }
    while i < text.len() {
      let n = r.range(1, 300).min(text.len() - i);
      steps.push(Step::Send(text[i..i + n].to_vec()));
      i += n;
      match r.below(5) {
        0 if tight => steps.push(Step::Pause(r.range(1_000, 12_000) as u64)),
        1 => steps.push(Step::Sleep(r.below(1_500) as u64)),
        2 if tight => steps.push(Step::Trickle(r.range(100, 2000), 100, 4_000)),
        _ => {}
      }
    }
    let mut s = script(cx, steps, r);
    let mut plan = Plan::default();
    if tight {
      plan.sndbuf = Some(*r.pick(&[4_600, 10_000]));
      // smaller ones slow down even the handshake, by the kernel's own timers
      s.rcvbuf = Some(*r.pick(&[6_000, 8_192]));
    }
    let given_up = if k == 0 { vec![] } else { (0..r.below(4)).map(|_| (r.below(4), r.below(22) as u64)).collect() };
    desc += &format!("{}{given_up:?} {lines} lines, {n} calls: ", if tight { "slow reader " } else { "" });
    for a in acts.iter().take(5) {
      desc += &format!("{}; ", show(format!("{a:?}").as_bytes()));
    }
    all.push(Conn {
      tight,
      given_up,
      acts,
      lines,
      plan,
      script: s,
    });
  }
  scenario(&desc);
  hooks::reset(cx.ip, vec![all[0].plan.clone()]);
  let server = Server::start(cx, vec![all[0].script.clone()]);
  let mut failed: Option<String> = None;
  let mut notes: Vec<(String, String)> = vec![];
  let mut calls: Vec<(usize, Vec<(Op, Must, Came)>)> = vec![];
  let (mut cancelled_recv, mut received, mut waited) = (0u64, 0u64, 0u64);
  let ran = client_side(false, async {
    let mut c: Client = match quiet(connect(&creds, backoff, Duration::from_secs(30))).await {
      Some(Ok(c)) => c,
      x => {
        failed = Some(format!("connect: {:?}", x.map(|r| r.err())));
        return;
      }
    };
    for (k, conn) in all.iter().enumerate() {
      if k > 0 {
        for (how, ms) in &conn.given_up {
          server.caught_up();
          let mut steps = vec![Step::Lines(3)];
          match how {
            0 => steps = good_steps(&creds.login, b":a!a@a PRIVMSG #c :stale\r\n", r),
            1 => steps.push(Step::Flag(127)),
            2 => {
              steps.push(Step::Send(ACK.into()));
              steps.push(Step::Flag(127));
            }
            _ => {
              steps = vec![Step::Pause(20_000)];
            }
          }
          let s = script(cx, steps, r);
          hooks::with(|n| n.plans = Default::default());
          *server.scripts.lock().unwrap() = [s].into();
          let done = if r.pct(25) {
            let n = r.below(12);
            polls(c.reconnect(), n, r).await
          } else {
            tokio::time::timeout(Duration::from_millis(*ms), c.reconnect()).await.ok()
          };
          if let Some(Err(e)) = done {
            failed = Some(format!("given-up reconnect: {}", cause(&e)));
            return;
          }
          o.hit(if done.is_some() { "reconnects done before being given up" } else { "reconnects given up" });
          // on what is left of it, anything may happen, but nothing may last
          for _ in 0..r.below(3) {
            match r.below(3) {
              0 => {
                let _ = polls(c.recv(), 2, r).await;
              }
              1 => {
                let _ = polls(c.ping("stale"), 2, r).await;
              }
              _ => {
                let (x, _) = op(r);
                let _ = polls(apply(&mut c, &x), 1, r).await;
              }
            }
          }
        }
        server.caught_up();
        hooks::with(|n| n.plans = [conn.plan.clone()].into());
        *server.scripts.lock().unwrap() = [conn.script.clone()].into();
        match quiet(c.reconnect()).await {
          Some(Ok(())) => {}
          Some(Err(e)) => {
            if conn.given_up.is_empty() {
              failed = Some(format!("reconnect: {}", cause(&e)));
            } else {
              let sig = if matches!(e.cause, tmi::client::ConnectError::Timeout) { "slow:timeout" } else { "reconnect" };
              notes.push((sig.into(), format!("a reconnect to a working server after {:?} were given up fails: {}", conn.given_up, cause(&e))));
            }
            return;
          }
          None => {
            notes.push(("slow:reconnect".into(), format!("reconnect hangs after {:?} were given up", conn.given_up)));
            return;
          }
        }
      }
      let index = server.accepted.load(std::sync::atomic::Ordering::SeqCst);
      let mut v: Vec<(Op, Must, Came)> = vec![];
      let mut got: Vec<String> = vec![];
      let mut waiting = 0;
      macro_rules! take {
        ($x:expr) => {
          match $x {
            Ok(m) => got.push(m.text().unwrap_or("").to_string()),
            Err(e) => {
              notes.push(("recv".into(), format!("recv number {} of connection {k} fails: {e:?}", got.len())));
              return;
            }
          }
        };
      }
      let end = Op::Raw(format!("PRIVMSG #sentinel{k} :{}\r\n", alnum(r, 6)));
      for a in conn.acts.iter().cloned().chain([Act::Send(end.clone(), Must::Send)]) {
        match a {
          Act::Nap(us) => tokio::time::sleep(Duration::from_micros(us)).await,
          Act::Recv => {
            if got.len() < conn.lines {
              match quiet(c.recv()).await {
                Some(x) => take!(x),
                None => {
                  notes.push(("slow:recv".into(), format!("line {} of connection {k} never comes", got.len())));
                  return;
                }
              }
            }
          }
          Act::CancelRecv(n) => match polls(c.recv(), n, r).await {
            Some(x) => take!(x),
            None => cancelled_recv += 1,
          },
          Act::CancelSend(x, m, n) if waiting + format!("{x:?}").len() + 200 < WAITING => {
            waiting += format!("{x:?}").len() + 200;
            match polls(apply(&mut c, &x), n, r).await {
              None => {
                if n > 0 && m == Must::Send {
                  o.hit("sends cancelled while waiting");
                }
                v.push((x, m, Came::Cancelled(n)));
              }
              Some(Ok(())) => v.push((x, m, Came::Sent)),
              Some(Err(SendError::InvalidMessage(_))) => v.push((x, m, Came::Refused)),
              Some(Err(e)) => {
                notes.push(("send".into(), format!("{x:?} fails: {e:?}")));
                return;
              }
            }
          }
          Act::Send(x, m) | Act::CancelSend(x, m, _) => match quiet(apply(&mut c, &x)).await {
            None => {
              notes.push(("slow:hang".into(), format!("{x:?} does not return")));
              return;
            }
            Some(Ok(())) => {
              if waiting > 0 {
                waited += 1;
              }
              waiting = 0;
              v.push((x, m, Came::Sent));
            }
            Some(Err(SendError::InvalidMessage(_))) => v.push((x, m, Came::Refused)),
            Some(Err(e)) => {
              notes.push(("send".into(), format!("{x:?} fails: {e:?}")));
              return;
            }
          },
        }
      }
      while got.len() < conn.lines {
        match quiet(c.recv()).await {
          Some(x) => take!(x),
          None => {
            notes.push(("slow:recv".into(), format!("line {} of connection {k} never comes", got.len())));
            return;
          }
        }
      }
      received += got.len() as u64;
      for (i, t) in got.iter().enumerate() {
        if !t.starts_with(&format!("{k}.{i} ")) {
          notes.push(("order".into(), format!("line {i} of connection {k} is {t:?}")));
          return;
        }
      }
      let Op::Raw(e) = &end else { unreachable!() };
      // where it ended up is found by its sentinel
      let arrived = server
        .wait(0, |_| server.logs.lock().unwrap().iter().any(|l| l.plain.ends_with(e.as_bytes())))
        .await;
      let at = server.logs.lock().unwrap().iter().position(|l| l.plain.windows(e.len()).any(|w| w == e.as_bytes()));
      match at {
        Some(i) => {
          if i as u64 + 1 != index {
            notes.push(("connection".into(), format!("the calls after reconnect went to connection {i} of {index}")));
            return;
          }
          calls.push((i, v));
        }
        None => {
          notes.push(("lost".into(), format!("the last line of connection {k} never arrived ({arrived})")));
          return;
        }
      }
      if conn.tight {
        o.hit("connections with a slow reader");
      }
      if k + 1 < all.len() {
        // whatever is still under way here, even beyond what the TLS layer holds, ends here
        for _ in 0..r.below(4) {
          let n = r.range(1_000, 300_000);
          let left = Op::Raw(format!("PRIVMSG #left :{}\r\n", "y".repeat(n)));
          let n = r.range(1, 3);
          if polls(apply(&mut c, &left), n, r).await.is_none() {
            o.hit("sends given up before a reconnect");
          }
        }
      }
    }
  });
  if let Err(p) = ran {
    o.v("panic", format!("client panicked: {p}"));
    return Ok(desc);
  }
  let logs = server.finish();
  o.hits("receives cancelled", cancelled_recv);
  o.hits("lines received", received);
  o.hits("sends completed behind cancelled ones", waited);
  for (i, v) in &calls {
    let mut plain = &logs[*i].plain[..];
    if i + 1 < logs.len() {
      // what was called after the last line belongs to the next stretch
      if let Some((Op::Raw(e), ..)) = v.last() {
        if let Some(p) = plain.windows(e.len()).position(|w| w == e.as_bytes()) {
          plain = &plain[..p + e.len()];
        }
      }
    }
    match transcript(plain, &creds).and_then(|n| split_lines(&plain[n..])) {
      Err(e) => o.v("transcript", e),
      Ok(lines) => judge(o, &lines, v),
    }
  }
  if let Some(e) = failed {
    return Err(e);
  }
  if o.viol.is_empty() {
    for (s, m) in notes {
      o.v(s, m);
    }
  }
  Ok(desc)
}
