//! C19: lines come out as they went in. C25: disconnects are noticed.

use crate::hooks;
use crate::srv::*;
use crate::util::*;
use crate::{Cx, Ran};
use futures_util::FutureExt;
use mon::gen::{Dict, Gen};
use mon::model;
use mon::rng::Rng;
use mon::Obs;
use std::time::Duration;
use tmi::client::read::RecvError;
use tmi::Client;

/// A line (without CRLF) the server sends.
fn gen_line(r: &mut Rng, g: &mut Gen, i: usize, long: bool) -> Vec<u8> {
  let mut s = match r.below(12) {
    0 => String::new(),
    1 => " ".repeat(r.range(1, 3)),
    2 => format!(":a!a@a PRIVMSG #c :{i}"),
    3 | 4 => mon::generate("C08", g),
    5 => mon::generate("C03", g),
    6 => format!("@{} :a!a@a PRIVMSG #c :{i} {}", (0..r.range(1, 30)).map(|k| format!("k{k}=v{k}")).collect::<Vec<_>>().join(";"), word(r, 1, 9)),
    7 if long => {
      let n = *r.pick(&[4_000, 8_190, 8_192, 16_384, 40_000]);
      format!(":a!a@a PRIVMSG #c :{i}{}", "x".repeat(n))
    }
    8 => format!(":a!a@a PRIVMSG #c :{i} 漢字🦀é{}", "ß".repeat(r.below(40))),
    9 => {
      let mut b = format!(":a!a@a PRIVMSG #c :{i} ").into_bytes();
      for _ in 0..r.range(1, 4) {
        b.extend_from_slice(r.pick(&[&b"\xff"[..], b"\xc3", b"\xf0\x9f\xa6", b"\x80", b"\xed\xa0\x80", b"\xc0\x80"]));
        if r.pct(50) {
          b.extend_from_slice(b"ok");
        }
      }
      return b;
    }
    10 => format!("PING :{i}\ry"),
    _ => format!("{} {i}", word(r, 1, 6).to_uppercase()),
  };
  s.retain(|c| c != '\n');
  while s.ends_with('\r') {
    s.pop();
  }
  if s.len() > 6_000 && !long {
    let mut k = 6_000;
    while !s.is_char_boundary(k) {
      k -= 1;
    }
    s.truncate(k);
  }
  s.into_bytes()
}

#[derive(Debug)]
enum Got {
  Msg(String),
  Parse(String),
  Utf8,
  /// any other error
  Err(String, bool),
}

fn got(x: Result<tmi::IrcMessage, RecvError>) -> Got {
  match x {
    Ok(m) => Got::Msg(m.raw().to_string()),
    Err(e) if e.is_disconnect() => Got::Err(format!("{e:?}"), true),
    Err(RecvError::Parse(s)) => Got::Parse(s),
    Err(RecvError::Io(e)) if e.kind() == std::io::ErrorKind::InvalidData => Got::Utf8,
    Err(e) => Got::Err(format!("{e:?}"), false),
  }
}

/// Does the outcome belong to this line?
fn fits(line: &[u8], g: &Got) -> Result<&'static str, ()> {
  match (std::str::from_utf8(line), g) {
    (Err(_), Got::Utf8 | Got::Err(_, false)) => Ok("not UTF-8"),
    (Ok(s), Got::Msg(m)) if m == s && model::parse(s).is_some() => Ok("messages"),
    (Ok(s), Got::Parse(m)) if m == s && model::parse(s).is_none() => Ok("unparseable"),
    _ => Err(()),
  }
}

/// One `recv`, possibly cancelled and reissued on the way. `None`: nothing comes.
async fn next(c: &mut Client, r: &mut Rng, cancel: usize, cancelled: &mut u64) -> Option<Got> {
  let mut again = 0;
  while again < 200 && r.pct(cancel) {
    again += 1;
    {
      if let Some(x) = c.recv().now_or_never() {
        return Some(got(x));
      }
    }
    *cancelled += 1;
    match r.below(4) {
      0 => tokio::task::yield_now().await,
      1 => {
        let d = Duration::from_micros(r.below(900) as u64);
        if let Ok(x) = tokio::time::timeout(d, c.recv()).await {
          return Some(got(x));
        }
        *cancelled += 1;
      }
      2 => {
        let _ = c.ping("between").now_or_never();
      }
      _ => tokio::time::sleep(Duration::from_micros(300)).await,
    }
  }
  quiet(c.recv()).await.map(got)
}

/// Server steps which send `lines` after the welcome, cut into sends at random.
fn stream_steps(r: &mut Rng, nick: &str, lines: &[Vec<u8>], tail: &[u8]) -> Vec<Step> {
  let mut all = vec![];
  for l in lines {
    all.extend_from_slice(l);
    all.extend_from_slice(b"\r\n");
  }
  all.extend_from_slice(tail);
  let first = match r.below(3) {
    0 => 0,
    1 => all.len(),
    _ => r.below(all.len() + 1),
  };
  let mut steps = good_steps(nick, &all[..first], r);
  let mut i = first;
  while i < all.len() {
    let m = *r.pick(&[1, 5, 60, 500, 5_000, 100_000]);
    let n = r.range(1, m).min(all.len() - i);
    steps.push(Step::Send(all[i..i + n].to_vec()));
    if r.pct(20) {
      steps.push(Step::Sleep(r.below(1500) as u64));
    }
    i += n;
    if steps.len() > 400 {
      steps.push(Step::Send(all[i..].to_vec()));
      break;
    }
  }
  steps
}

fn sane_cuts(s: &mut Script, total: usize) {
  if total > 4_000 {
    if s.records == Cut::Bytes {
      s.records = Cut::Random;
    }
    if s.segments == Cut::Bytes {
      s.segments = Cut::Random;
    }
  }
}

/// One scenario in so many floods the connection.
const FLOODS: usize = 200;

/// Many megabytes in few lines, or very many lines.
fn flood_lines(r: &mut Rng) -> Vec<Vec<u8>> {
  if r.pct(60) {
    let n = r.range(70, 90);
    (0..n).map(|i| format!(":a!a@a PRIVMSG #c :{i} {}", "x".repeat(1 << 20)).into_bytes()).collect()
  } else {
    let n = r.range(66_000, 140_000);
    (0..n).map(|i| format!(":a!a@a PRIVMSG #c :{i}").into_bytes()).collect()
  }
}

fn flood_steps(r: &mut Rng, nick: &str, lines: &[Vec<u8>]) -> Vec<Step> {
  let mut steps = good_steps(nick, b"", r);
  let mut b = vec![];
  for l in lines {
    b.extend_from_slice(l);
    b.extend_from_slice(b"\r\n");
    if b.len() > 300_000 {
      steps.push(Step::Send(std::mem::take(&mut b)));
    }
  }
  steps.push(Step::Send(b));
  steps
}

pub fn c19(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  let creds = credentials(r);
  let mut g = Gen::new(r.next(), Dict::default());
  let long = r.pct(25);
  let n = *r.pick(&[3, 10, 30, 80]);
  // now and then a connection which has carried a lot already
  let flood = r.below(FLOODS) == 0;
  let mut lines: Vec<Vec<u8>> = if flood {
    flood_lines(r)
  } else {
    (0..n).map(|i| gen_line(r, &mut g, i, long)).collect()
  };
  lines.push(format!("PING :sentinel-{}", alnum(r, 8)).into_bytes());
  let total: usize = lines.iter().map(|l| l.len() + 2).sum();
  let steps = if flood {
    flood_steps(r, &creds.login, &lines)
  } else {
    stream_steps(r, &creds.login, &lines, b"")
  };
  let mut sc = script(cx, steps, r);
  sane_cuts(&mut sc, total);
  if flood {
    sc.records = Cut::Whole;
    sc.segments = Cut::Whole;
  }
  let cancel = if flood { 0 } else { *r.pick(&[0, 0, 30, 80, 95]) };
  let desc = format!(
    "{} lines, {total} bytes, records {:?} segments {:?} cancel {cancel}% first lines {}",
    lines.len(),
    sc.records,
    sc.segments,
    lines.iter().take(4).map(|l| show(&l[..l.len().min(300)])).collect::<Vec<_>>().join(" ")
  );
  scenario(&desc);
  hooks::reset(cx.ip, vec![]);
  let server = Server::start(cx, vec![sc]);
  let mut out = vec![];
  let mut failed = None;
  let mut hang = None;
  let mut cancelled = 0;
  let ran = client_side(false, async {
    let mut c = match quiet(connect(&creds, fast_backoff(r), Duration::from_secs(30))).await {
      Some(Ok(c)) => c,
      x => {
        failed = Some(format!("connect: {:?}", x.map(|r| r.err())));
        return;
      }
    };
    for i in 0..lines.len() {
      match next(&mut c, r, cancel, &mut cancelled).await {
        None => {
          hang = Some(i);
          return;
        }
        Some(g) => {
          let bad = fits(&lines[i], &g).is_err();
          out.push(g);
          if bad {
            return;
          }
        }
      }
    }
    // nothing may come after the last line
    if let Ok(x) = tokio::time::timeout(Duration::from_millis(2), c.recv()).await {
      out.push(got(x));
    }
  });
  if let Err(p) = ran {
    o.v("panic", format!("client panicked: {p}"));
    return Ok(desc);
  }
  let logs = server.finish();
  if let Some(e) = failed {
    return Err(e);
  }
  for (i, g) in out.iter().enumerate() {
    match lines.get(i) {
      None => o.v("extra", format!("after the last line recv gave {}", show(format!("{g:?}").as_bytes()))),
      Some(l) => match fits(l, g) {
        Ok(k) => o.hit(k),
        Err(()) => {
          o.v("line", format!("line {i} was {} but recv gave {}", show(l), show(format!("{g:?}").as_bytes())));
          break;
        }
      },
    }
  }
  if let Some(i) = hang {
    o.v("slow:hang", format!("recv does not return line {i} of {}: {}", lines.len(), show(&lines[i])));
  }
  o.hits("cancelled recv calls", cancelled);
  if let Some(l) = logs.first() {
    o.hits("records", l.records);
    o.hits("segments", l.segments);
  }
  if flood {
    o.hit("connections which carried a flood");
    o.hits("megabytes in floods", total as u64 >> 20);
  }
  Ok(desc)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Away {
  Close(Close),
  /// this errno once everything has been read
  Errno(i32),
  /// TCP FIN in the middle of a TLS record
  MidRecord,
}

pub fn c25(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  let creds = credentials(r);
  let mut g = Gen::new(r.next(), Dict::default());
  let n = *r.pick(&[0, 1, 5, 20]);
  let lines: Vec<Vec<u8>> = (0..n).map(|i| gen_line(r, &mut g, i, false)).collect();
  let partial: Vec<u8> = if r.pct(40) {
    match r.below(4) {
      0 => b":a!a@a PRIVMSG #c :half a li".to_vec(),
      1 => b"PING :x\r".to_vec(),
      2 => b"@a=b".to_vec(),
      _ => b"PRIVMSG #c :\xf0\x9f".to_vec(),
    }
  } else {
    vec![]
  };
  let away = match r.below(8) {
    0 => Away::Close(Close::Notify),
    1 => Away::Close(Close::NotifyOnly),
    2 => Away::Close(Close::Fin),
    3 | 4 => Away::Close(Close::Rst),
    5 => Away::MidRecord,
    _ => Away::Errno(*r.pick(&[libc::ECONNRESET, libc::ETIMEDOUT, libc::ECONNABORTED])),
  };
  let total: usize = lines.iter().map(|l| l.len() + 2).sum();
  let mut steps = stream_steps(r, &creds.login, &lines, &partial);
  // with the flag: the client has seen every line before the peer goes away
  let rst = away == Away::Close(Close::Rst);
  let flagged = r.pct(if rst { 70 } else { 40 });
  // a recv is already waiting when it happens
  let waiting = flagged && r.pct(60);
  if flagged {
    steps.push(Step::Flag(0));
  }
  // the client has unread data and pending writes when it happens
  let chatty = r.pct(30);
  steps.push(match away {
    Away::Close(c) => Step::Close(c),
    Away::Errno(_) => Step::Close(Close::Fin),
    Away::MidRecord => Step::HalfRecord,
  });
  let mut sc = script(cx, steps, r);
  sane_cuts(&mut sc, total);
  let desc = format!(
    "{} lines, partial {}, then {away:?} (after all were read: {flagged}, recv pending: {waiting}, chatty: {chatty})",
    lines.len(),
    show(&partial)
  );
  scenario(&desc);
  hooks::reset(cx.ip, vec![]);
  let server = Server::start(cx, vec![sc]);
  let mut failed = None;
  let mut hang: Option<String> = None;
  let mut seq: Vec<Got> = vec![];
  let mut later: Vec<Got> = vec![];
  let ran = client_side(false, async {
    let mut c = match quiet(connect(&creds, fast_backoff(r), Duration::from_secs(30))).await {
      Some(Ok(c)) => c,
      x => {
        failed = Some(format!("connect: {:?}", x.map(|r| r.err())));
        return;
      }
    };
    if let Away::Errno(e) = away {
      hooks::with(|n| {
        if let Some(s) = n.live.and_then(|fd| n.fds.get_mut(&fd)) {
          s.recv_fail_at_eof = Some(e);
        }
      });
    }
    let mut first = true;
    loop {
      if flagged && seq.len() == lines.len() && first {
        first = false;
        if chatty {
          let _ = quiet(c.ping("x")).await;
        }
        if waiting {
          // poll once, so that the call is registered, then let the peer go
          let f = c.recv();
          futures_util::pin_mut!(f);
          match futures_util::poll!(f.as_mut()) {
            std::task::Poll::Ready(x) => {
              seq.push(got(x));
            }
            std::task::Poll::Pending => {
              server.raise(0);
              match quiet(f).await {
                None => {
                  hang = Some("a recv call pending at the disconnect never returned".into());
                  return;
                }
                Some(x) => seq.push(got(x)),
              }
            }
          }
          server.raise(0);
          if let Some(Got::Err(_, true)) = seq.last() {
            break;
          }
          continue;
        }
        server.raise(0);
        if r.pct(50) {
          server.wait(0, |l| l.steps_done == l.steps_total).await;
        }
      }
      if chatty && !flagged && r.pct(20) {
        let _ = quiet(c.ping("x")).await;
      }
      match quiet(c.recv()).await {
        None => {
          hang = Some(format!("recv call {} never returned", seq.len()));
          return;
        }
        Some(x) => {
          let g = got(x);
          let end = matches!(g, Got::Err(_, true));
          seq.push(g);
          if end || seq.len() > lines.len() + 4 {
            break;
          }
        }
      }
    }
    for i in 0..3 {
      match quiet(c.recv()).await {
        None => {
          hang = Some(format!("recv call {i} after the disconnect never returned"));
          return;
        }
        Some(x) => later.push(got(x)),
      }
    }
  });
  if let Err(p) = ran {
    o.v("panic", format!("client panicked: {p}"));
    return Ok(desc);
  }
  drop(server);
  if let Some(e) = failed {
    return Err(e);
  }
  // the complete lines, in order
  let mut i = 0;
  let mut k = 0;
  while i < lines.len() && k < seq.len() {
    match fits(&lines[i], &seq[k]) {
      Ok(h) => {
        o.hit(h);
        i += 1;
        k += 1;
      }
      Err(()) => break,
    }
  }
  if i < lines.len() {
    let may_lose = rst && !flagged;
    match seq.get(k) {
      None => {}
      // a reset may destroy what was not read yet
      Some(Got::Err(_, true)) if may_lose => {}
      Some(g) => {
        o.v(
          "line",
          format!("line {i} {} was sent completely, but recv gave {}", show(&lines[i]), show(format!("{g:?}").as_bytes())),
        );
        return Ok(desc);
      }
    }
  } else {
    // what is left of the unfinished line may show up once, as itself
    if let Some(g) = seq.get(k) {
      let p = partial.strip_suffix(b"\r").unwrap_or(&partial);
      let as_itself = match g {
        Got::Msg(m) | Got::Parse(m) => m.as_bytes() == p || m.as_bytes() == &partial[..],
        Got::Utf8 => true,
        Got::Err(_, d) => !d,
      };
      if !partial.is_empty() && as_itself {
        k += 1;
      }
    }
  }
  if hang.is_none() {
    match seq.get(k) {
      Some(Got::Err(e, true)) => {
        o.hit(if e.contains("StreamClosed") { "StreamClosed" } else { "Io disconnect" });
        if k + 1 != seq.len() {
          o.v("repeat", format!("outcomes after the disconnect: {:?}", &seq[k + 1..]));
        }
      }
      Some(Got::Err(e, false)) => o.v("unclassified", format!("is_disconnect() is false for {e}")),
      Some(g) => o.v("invented", format!("no line was left, but recv gave {}", show(format!("{g:?}").as_bytes()))),
      None => o.v("unclassified", "no disconnect was reported"),
    }
    for g in &later {
      match g {
        Got::Err(_, true) => o.hit("later recv calls"),
        g => o.v("later", format!("a recv call after the disconnect gave {}", show(format!("{g:?}").as_bytes()))),
      }
    }
  }
  if let Some(e) = hang {
    o.v("slow:hang", e);
  }
  Ok(desc)
}
