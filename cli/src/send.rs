//! C17: what the calls put on the wire. C18: that it gets there.

use crate::handshake::transcript;
use crate::hooks::{self, Plan};
use crate::srv::*;
use crate::util::*;
use crate::{Cx, Ran};
use mon::model;
use mon::rng::Rng;
use mon::Obs;
use std::time::{Duration, Instant};
use tmi::client::write::SendError;
use tmi::Client;

#[derive(Clone, Debug)]
pub enum Op {
  Privmsg {
    chan: String,
    text: String,
    reply: Option<String>,
    nonce: Option<String>,
  },
  Ping(String),
  Pong(String, Option<String>),
  Join(String),
  JoinAll(Vec<String>),
  Raw(String),
  /// built, never sent
  Unsent(String),
  /// the future is dropped before it is polled
  Dropped(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Must {
  Send,
  Refuse,
  /// a line break in a tag value: escaped or refused
  Either,
}

const BREAKS: [&str; 4] = ["\n", "\r", "\r\n", "\r\nQUIT\r\n"];

fn text(r: &mut Rng) -> String {
  let n = match r.below(8) {
    0 => 0,
    1 => 1,
    2 => r.range(400, 600),
    3 => r.range(1000, 5000),
    _ => r.range(1, 60),
  };
  let mut s = String::new();
  match r.below(10) {
    0 => s.push(':'),
    1 => s.push(' '),
    2 => s.push_str("\u{1}ACTION "),
    3 => s.push('@'),
    4 => s.push('/'),
    _ => {}
  }
  while s.len() < n {
    match r.below(12) {
      0 => s.push(' '),
      1 => s.push(*r.pick(&[':', ';', '@', '#', ',', '=', '\\', '!', '\t', '{', '}', '%'])),
      2 => s.push(*r.pick(&['é', 'ß', '漢', '🦀', '\u{2800}', '\u{2028}', '\u{85}', '\u{b}', '\u{c}', '\u{7f}', '⸝'])),
      3 => s.push_str(r.pick(&["PRIVMSG #a :b", "\\r\\n", "\\n", "PASS oauth:x", "JOIN #a"])),
      _ => s.push_str(&word(r, 1, 8)),
    }
  }
  s
}

fn value(r: &mut Rng) -> String {
  let mut s = if r.pct(60) {
    format!("{}-{}-{}", alnum(r, 8), alnum(r, 4), alnum(r, 12))
  } else {
    let mut t = text(r).replace('⸝', "");
    let mut k = t.len().min(300);
    while !t.is_char_boundary(k) {
      k -= 1;
    }
    t.truncate(k);
    t
  };
  if r.pct(15) {
    let c = *r.pick(&[" ", ";", "\\", "\\\\", "\\s", "\\:", ":", "=", ",", "\\r", "; ", "a b", ";x=y"]);
    let at = r.below(s.len() + 1);
    if s.is_char_boundary(at) {
      s.insert_str(at, c);
    }
  }
  s
}

fn chan(r: &mut Rng, hash: bool) -> String {
  let mut w = word(r, 1, 25);
  match r.below(20) {
    0 => w = w.to_uppercase(),
    1 => w = format!("{}{}", w.to_uppercase(), word(r, 1, 4)),
    2 if hash => w.insert(0, '#'),
    3 => w.push_str(r.pick(&["#", "#x", "é", "漢", "-", ":1", "."])),
    _ => {}
  }
  if hash {
    format!("#{w}")
  } else {
    w
  }
}

fn insert(r: &mut Rng, s: &mut String) {
  let b = *r.pick(&BREAKS);
  let mut at = r.below(s.len() + 1);
  if r.pct(30) {
    at = s.len();
  }
  while !s.is_char_boundary(at) {
    at -= 1;
  }
  s.insert_str(at, b);
}

pub fn op(r: &mut Rng) -> (Op, Must) {
  let bad = r.pct(12);
  let mut must = if bad { Must::Refuse } else { Must::Send };
  let o = match r.below(13) {
    0..=4 => {
      let mut chan = chan(r, true);
      let mut text = text(r);
      let mut reply = r.pct(45).then(|| value(r));
      let mut nonce = r.pct(45).then(|| value(r));
      if bad {
        match r.below(4) {
          0 => insert(r, &mut chan),
          1 if reply.is_some() => {
            insert(r, reply.as_mut().unwrap());
            must = Must::Either;
          }
          2 if nonce.is_some() => {
            insert(r, nonce.as_mut().unwrap());
            must = Must::Either;
          }
          _ => insert(r, &mut text),
        }
      }
      Op::Privmsg {
        chan,
        text,
        reply,
        nonce,
      }
    }
    5 => {
      let mut t = if r.pct(30) { word(r, 1, 9) } else { text(r) };
      if bad {
        insert(r, &mut t);
      }
      Op::Ping(t)
    }
    6 => {
      must = Must::Send;
      match r.below(4) {
        0 => Op::Pong("PING".into(), None),
        1 => {
          let n = word(r, 1, 20);
          Op::Pong(format!("@x=y :tmi.twitch.tv PING :{n}"), Some(n))
        }
        2 => {
          let n = format!("{} {}", word(r, 1, 20), word(r, 0, 5));
          Op::Pong(format!("PING :{n}"), Some(n))
        }
        _ => {
          let n = "tmi.twitch.tv".to_string();
          Op::Pong(format!(":tmi.twitch.tv PING :{n}"), Some(n))
        }
      }
    }
    7 => {
      let h = r.pct(50);
      let mut c = chan(r, h);
      if bad {
        insert(r, &mut c);
      }
      Op::Join(c)
    }
    8 | 9 => {
      let n = *r.pick(&[1, 1, 2, 3, 5, 20, 200]);
      let mut v = vec![];
      for _ in 0..n {
        let h = r.pct(60);
        v.push(chan(r, h));
      }
      if bad {
        let i = r.below(v.len());
        insert(r, &mut v[i]);
      }
      Op::JoinAll(v)
    }
    10 | 11 => {
      let t = text(r);
      let mut s = match r.below(4) {
        0 => format!("PRIVMSG #a :{t}"),
        1 => format!("@client-nonce=x PRIVMSG #a :{t}"),
        2 => "PART #a".to_string(),
        _ => format!("{} {}", word(r, 1, 8).to_uppercase(), t),
      };
      if bad {
        s.push_str(r.pick(&["", "\n", "\r", "\n\r", "\r\n ", "\\r\\n"]));
      } else {
        s.push_str("\r\n");
      }
      Op::Raw(s)
    }
    _ => {
      must = Must::Send;
      if r.pct(50) {
        Op::Unsent(text(r))
      } else {
        Op::Dropped(text(r))
      }
    }
  };
  (o, must)
}

pub async fn apply(c: &mut Client, o: &Op) -> Result<(), SendError> {
  match o {
    Op::Privmsg {
      chan,
      text,
      reply,
      nonce,
    } => {
      let mut p = c.privmsg(chan, text);
      // either order of the builder calls
      if text.len() % 2 == 0 {
        if let Some(v) = reply {
          p = p.reply_to(v);
        }
        if let Some(v) = nonce {
          p = p.client_nonce(v);
        }
      } else {
        if let Some(v) = nonce {
          p = p.client_nonce(v);
        }
        if let Some(v) = reply {
          p = p.reply_to(v);
        }
      }
      p.send().await
    }
    Op::Ping(n) => c.ping(n).await,
    Op::Pong(raw, _) => {
      let m = tmi::IrcMessageRef::parse(raw).expect("a valid PING");
      let p = <tmi::Ping as tmi::FromIrc>::from_irc(m).expect("a PING");
      c.pong(&p).await
    }
    Op::Join(ch) => c.join(ch).await,
    Op::JoinAll(v) => match v.len() % 3 {
      0 => c.join_all(v).await,
      1 => c.join_all(v.iter().map(|s| s.as_str())).await,
      _ => c.join_all(v.clone()).await,
    },
    Op::Raw(s) => c.send_raw(s.as_str()).await,
    Op::Unsent(t) => {
      let _ = c.privmsg("#never", t).reply_to("never");
      Ok(())
    }
    Op::Dropped(t) => {
      drop(c.privmsg("#never", t).client_nonce("never").send());
      drop(c.ping(t));
      drop(c.join(t));
      Ok(())
    }
  }
}

pub fn sends(o: &Op) -> bool {
  !matches!(o, Op::Unsent(_) | Op::Dropped(_))
}

fn hashed(c: &str) -> String {
  if c.starts_with('#') {
    c.into()
  } else {
    format!("#{c}")
  }
}

/// `params` carries `want` as its last parameter.
fn trailing(params: &str, want: &str) -> bool {
  params.strip_prefix(':') == Some(want) || (params == want && !want.is_empty() && !want.contains(' ') && !want.starts_with(':'))
}

/// Does `line` (without CRLF) say what the call said?
pub fn says(line: &str, o: &Op) -> Result<(), String> {
  match o {
    Op::Privmsg {
      chan,
      text,
      reply,
      nonce,
    } => {
      let m = model::parse(line).ok_or("not a message")?;
      if m.command != "PRIVMSG" || m.prefix.is_some() {
        return Err(format!("command {:?} prefix {:?}", m.command, m.prefix));
      }
      if m.channel != Some(chan) {
        return Err(format!("channel {:?}", m.channel));
      }
      if !m.params.is_some_and(|p| trailing(p, text)) {
        return Err(format!("params {:?}", m.params));
      }
      let mut want = vec![];
      if let Some(v) = reply {
        want.push(("reply-parent-msg-id".to_string(), v.clone()));
      }
      if let Some(v) = nonce {
        want.push(("client-nonce".to_string(), v.clone()));
      }
      let mut have: Vec<(String, String)> = m
        .tags
        .unwrap_or_default()
        .into_iter()
        .map(|(k, v)| (k.to_string(), model::unescape(v)))
        .collect();
      want.sort();
      have.sort();
      if want != have {
        return Err(format!("tags {have:?}, not {want:?}"));
      }
      Ok(())
    }
    Op::Ping(n) => match line.strip_prefix("PING ") {
      Some(p) if trailing(p, n) => Ok(()),
      _ => Err("not the PING".into()),
    },
    Op::Pong(_, None) if line == "PONG" => Ok(()),
    Op::Pong(_, Some(n)) if line.strip_prefix("PONG ").is_some_and(|p| trailing(p, n)) => Ok(()),
    Op::Pong(..) => Err("not the PONG".into()),
    Op::Join(c) => {
      let l = line.strip_prefix("JOIN ").unwrap_or("");
      if l.strip_prefix(':').unwrap_or(l) == hashed(c) {
        Ok(())
      } else {
        Err("not the JOIN".into())
      }
    }
    Op::JoinAll(v) => {
      let want: Vec<String> = v.iter().map(|c| hashed(c)).collect();
      let l = line.strip_prefix("JOIN ").unwrap_or("");
      if l.strip_prefix(':').unwrap_or(l) == want.join(",") {
        Ok(())
      } else {
        Err("not the JOIN of all channels".into())
      }
    }
    Op::Raw(s) => {
      if Some(line) == s.strip_suffix("\r\n") {
        Ok(())
      } else {
        Err("not the raw line".into())
      }
    }
    Op::Unsent(_) | Op::Dropped(_) => Err("was never sent".into()),
  }
}

pub fn split_lines(b: &[u8]) -> Result<Vec<String>, String> {
  let mut v = vec![];
  let mut rest = b;
  while let Some(p) = rest.windows(2).position(|w| w == b"\r\n") {
    v.push(String::from_utf8(rest[..p].to_vec()).map_err(|_| format!("not UTF-8: {}", show(&rest[..p])))?);
    rest = &rest[p + 2..];
  }
  if !rest.is_empty() {
    return Err(format!("bytes after the last line: {}", show(rest)));
  }
  Ok(v)
}

/// Compare everything behind the handshake with the calls (`true`: returned Ok).
fn judge(o: &mut Obs, plain: &[u8], calls: &[(Op, Must, bool)], creds: &tmi::Credentials) {
  let n = match transcript(plain, creds) {
    Ok(n) => n,
    Err(e) => {
      o.v("transcript", e);
      return;
    }
  };
  let lines = match split_lines(&plain[n..]) {
    Ok(v) => v,
    Err(e) => {
      o.v("line ends", e);
      return;
    }
  };
  let mut it = lines.iter();
  for (op, must, ok) in calls {
    match (must, ok) {
      (Must::Send, false) => {
        o.v("refused", format!("{op:?} was refused"));
        continue;
      }
      (Must::Refuse, true) => {
        o.v("accepted", format!("{op:?} was accepted"));
        return;
      }
      (_, false) => {
        o.hit("refused calls");
        continue;
      }
      _ => {}
    }
    if !sends(op) {
      continue;
    }
    let Some(l) = it.next() else {
      o.v("missing", format!("nothing on the wire for {op:?}"));
      return;
    };
    if let Err(e) = says(l, op) {
      o.v(
        "wire",
        format!("{} on the wire is not what {} says: {e}", show(l.as_bytes()), show(format!("{op:?}").as_bytes())),
      );
      return;
    }
    o.hit(match op {
      Op::Privmsg { .. } => "privmsg",
      Op::Ping(_) => "ping",
      Op::Pong(..) => "pong",
      Op::Join(_) => "join",
      Op::JoinAll(_) => "join_all",
      _ => "raw",
    });
  }
  if let Some(l) = it.next() {
    o.v("extra", format!("nothing was called for the line {}", show(l.as_bytes())));
  }
}

pub fn c17(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  let creds = credentials(r);
  let conns = if r.pct(25) { 2 } else { 1 };
  let mut desc = String::new();
  let mut plan_of = vec![];
  let mut scripts = vec![];
  for k in 0..conns {
    let n = r.range(3, 40);
    let ops: Vec<(Op, Must)> = (0..n).map(|_| op(r)).collect();
    let mut steps = good_steps(&creds.login, b"", r);
    if k + 1 < conns {
      steps.push(Step::Flag(0));
      steps.push(Step::Close(*r.pick(&[Close::Notify, Close::Fin, Close::Rst])));
    }
    scripts.push(script(cx, steps, r));
    for (x, m) in ops.iter().take(6) {
      desc += &format!("{m:?} {}; ", show(format!("{x:?}").as_bytes()));
    }
    desc += &format!("{n} calls | ");
    plan_of.push(ops);
  }
  scenario(&desc);
  hooks::reset(cx.ip, vec![]);
  let server = Server::start(cx, scripts);
  let mut calls: Vec<Vec<(Op, Must, bool)>> = vec![vec![]; conns];
  let mut failed: Option<String> = None;
  let ran = client_side(false, async {
    let mut c = match quiet(connect(&creds, fast_backoff(r), Duration::from_secs(30))).await {
      Some(Ok(c)) => c,
      Some(Err(e)) => {
        failed = Some(format!("connect: {}", kind(&e)));
        return;
      }
      None => {
        failed = Some("connect hangs".into());
        return;
      }
    };
    for k in 0..conns {
      let end = Op::Raw(format!("PRIVMSG #sentinel{k} :{}\r\n", alnum(r, 6)));
      let seq = plan_of[k].iter().cloned().chain([(end.clone(), Must::Send)]);
      for (x, m) in seq {
        match quiet(apply(&mut c, &x)).await {
          None => {
            failed = Some(format!("slow: {x:?} does not return"));
            return;
          }
          Some(Ok(())) => calls[k].push((x, m, true)),
          Some(Err(SendError::InvalidMessage(_))) => calls[k].push((x, m, false)),
          Some(Err(e)) => {
            failed = Some(format!("send: {e:?}"));
            return;
          }
        }
      }
      let Op::Raw(end) = &end else { unreachable!() };
      if !server.wait(k, |l| l.plain.ends_with(end.as_bytes())).await {
        // judged from what arrived
        return;
      }
      if k + 1 < conns {
        server.raise(0);
        // calls on a dead connection: their results are not specified, but nothing of them
        // may show up on the next one
        server.wait(k, |l| l.steps_done >= 2).await;
        for _ in 0..r.below(4) {
          let (x, _) = op(r);
          let _ = quiet(apply(&mut c, &x)).await;
        }
        match quiet(c.reconnect()).await {
          Some(Ok(())) => {}
          Some(Err(e)) => {
            failed = Some(format!("reconnect: {}", cause(&e)));
            return;
          }
          None => {
            failed = Some("reconnect hangs".into());
            return;
          }
        }
      }
    }
  });
  if let Err(p) = ran {
    o.v("panic", format!("client panicked: {p}"));
    return Ok(desc);
  }
  let logs = server.finish();
  if let Some(e) = failed {
    if e.starts_with("slow") {
      o.v("slow:hang", e);
      return Ok(desc);
    }
    return Err(e);
  }
  for (k, v) in calls.iter().enumerate() {
    let mut plain = logs.get(k).map(|l| l.plain.clone()).unwrap_or_default();
    if k + 1 < conns {
      // whatever was called after the sentinel is unspecified on a connection being closed
      if let Some((Op::Raw(e), _, _)) = v.last() {
        if let Some(p) = plain.windows(e.len()).rposition(|w| w == e.as_bytes()) {
          plain.truncate(p + e.len());
        }
      }
    }
    if !v.is_empty() {
      judge(o, &plain, v, &creds);
      if !o.viol.is_empty() {
        break;
      }
    }
  }
  Ok(desc)
}

pub fn c18(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  let creds = credentials(r);
  let sndbuf = *r.pick(&[None, Some(4_600), Some(10_000), Some(65_536)]);
  let rcvbuf = *r.pick(&[None, Some(2_304), Some(8_192), Some(100_000)]);
  let slow = match r.below(5) {
    0 => vec![],
    1 | 2 => vec![Step::Pause(r.range(2_000, 60_000) as u64)],
    3 => vec![Step::Trickle(r.range(100, 3000), r.range(50, 500) as u64, r.range(2_000, 80_000) as u64)],
    _ => vec![
      Step::Pause(r.range(1_000, 20_000) as u64),
      Step::Trickle(r.range(100, 3000), 100, 10_000),
      Step::Pause(r.range(1_000, 20_000) as u64),
    ],
  };
  let big = r.pct(70);
  let n = if big { r.range(1, 4) } else { r.range(1, 300) };
  let mut msgs = vec![];
  for i in 0..n {
    let len = if big {
      *r.pick(if rcvbuf == Some(2_304) { &[10, 3_000, 16_384, 16_385, 40_000, 70_000, 3_000, 3_000] } else { &[10, 3_000, 16_385, 40_000, 64_000, 70_000, 140_000, 300_000] })
    } else {
      r.range(1, 500)
    };
    let c = *r.pick(b"abcdefgh") as char;
    let mut body = format!("{i}.");
    while body.len() < len {
      body.push(c);
      if body.len() % 97 == 0 {
        body.push_str(&format!("<{}>", body.len()));
      }
    }
    msgs.push((r.below(3), body));
  }
  let mut steps = good_steps(&creds.login, b"", r);
  steps.extend(slow.iter().cloned());
  let mut sc = script(cx, steps, r);
  sc.rcvbuf = rcvbuf;
  let desc = format!(
    "sndbuf {sndbuf:?} rcvbuf {rcvbuf:?} reader {slow:?} sends {:?}",
    msgs.iter().take(12).map(|m| m.1.len()).collect::<Vec<_>>()
  );
  scenario(&desc);
  hooks::reset(
    cx.ip,
    vec![Plan {
      sndbuf,
      ..Default::default()
    }],
  );
  let server = Server::start(cx, vec![sc]);
  let mut want: Vec<u8> = vec![];
  let mut failed = None;
  let mut stuck = None;
  let mut congested = false;
  let idle_ms = r.below(20) as u64;
  let gone = r.pct(30);
  let ran = client_side(false, async {
    let mut c = match quiet(connect(&creds, fast_backoff(r), Duration::from_secs(30))).await {
      Some(Ok(c)) => c,
      x => {
        failed = Some(format!("connect: {:?}", x.map(|r| r.err())));
        return;
      }
    };
    for (how, body) in &msgs {
      let res = match how {
        0 => {
          want.extend_from_slice(format!("PRIVMSG #a :{body}\r\n").as_bytes());
          quiet(c.privmsg("#a", body).send()).await
        }
        1 => {
          want.extend_from_slice(format!("PING :{body}\r\n").as_bytes());
          quiet(c.ping(body)).await
        }
        _ => {
          let l = format!("X {body}\r\n");
          want.extend_from_slice(l.as_bytes());
          quiet(c.send_raw(l.as_str())).await
        }
      };
      match res {
        Some(Ok(())) => {}
        Some(Err(e)) => {
          failed = Some(format!("send: {e:?}"));
          return;
        }
        None => {
          stuck = Some(format!("a send of {} bytes does not return although the peer reads", body.len()));
          return;
        }
      }
    }
    // the client is idle from here on: no call, only its runtime runs
    let fd = hooks::with(|n| n.live);
    let Some(fd) = fd else {
      failed = Some("no connection".into());
      return;
    };
    if hooks::unsent(fd) > 0 {
      congested = true;
    }
    tokio::time::sleep(Duration::from_millis(idle_ms)).await;
    if gone {
      // nothing is left for it to read, so the kernel goes on delivering what was sent
      drop(c);
    }
    let mut last = (0, Instant::now());
    loop {
      let log = server.log(0);
      let got = log.plain.len();
      let hs = transcript(&log.plain, &creds).unwrap_or(0);
      if got >= hs + want.len() {
        break;
      }
      // time counts only while the reader is past its pauses and nothing is under way
      if gone && !log.end.is_empty() {
        break;
      }
      if got != last.0 || (!gone && hooks::unsent(fd) > 0) || log.steps_done < log.steps_total {
        last = (got, Instant::now());
      }
      if last.1.elapsed() > Duration::from_secs(if gone { 10 } else { 3 }) {
        break;
      }
      tokio::time::sleep(Duration::from_millis(2)).await;
    }
  });
  if let Err(p) = ran {
    o.v("panic", format!("client panicked: {p}"));
    return Ok(desc);
  }
  let logs = server.finish();
  if let Some(e) = stuck {
    o.v("slow:hang", e);
    return Ok(desc);
  }
  if let Some(e) = failed {
    return Err(e);
  }
  let plain = &logs[0].plain;
  match transcript(plain, &creds) {
    Err(e) => o.v("transcript", e),
    Ok(n) => {
      let got = &plain[n..];
      if got != want {
        let same = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        if same == got.len() {
          o.v(
            if gone { "slow:dropped" } else { "stranded" },
            format!(
              "{} of {} bytes of completed sends never arrived{}",
              want.len() - got.len(),
              want.len(),
              if gone { " after the client was dropped" } else { "" }
            ),
          );
        } else {
          o.v(
            "corrupted",
            format!("byte {same} of {}: got {}", want.len(), show(&got[same..(same + 100).min(got.len())])),
          );
        }
      }
      o.hits("bytes", want.len() as u64);
      o.hits("sends", msgs.len() as u64);
      if congested {
        o.hit("sends returned while the peer was behind");
        if gone {
          o.hit("clients dropped while the peer was behind");
        }
      }
    }
  }
  Ok(desc)
}
