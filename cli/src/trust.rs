//! C24: who gets to see anything.

use crate::handshake::transcript;
use crate::hooks::{self, ConnectPlan, Plan};
use crate::srv::*;
use crate::util::*;
use crate::{Cx, Ran};
use mon::rng::Rng;
use mon::Obs;
use std::time::Duration;
use tmi::client::Backoff;

const BAD: [&str; 16] = [
  "wronghost",
  "parenthost",
  "sibling",
  "wild2",
  "iponly",
  "cnonly",
  "expired",
  "future",
  "untrusted",
  "clientonly",
  "notca",
  "bynotca",
  "selfsigned",
  "plain",
  // nobody is there at all
  "refused",
  "unresolved",
];

pub fn c24(cx: &Cx, r: &mut Rng, o: &mut Obs) -> Ran {
  let mut creds = credentials(r);
  if r.pct(50) {
    creds = tmi::Credentials::new(word(r, 3, 20), alnum(r, 30));
  }
  // the identity of each server in turn; a reconnect meets up to `tries` of them
  let reconnect = r.pct(50);
  let tries = r.range(1, 3);
  let mut who: Vec<&'static str> = vec![];
  let good = |r: &mut Rng| *r.pick(&["good", "good2"]);
  if reconnect {
    who.push(good(r));
    for _ in 0..tries {
      who.push(*r.pick(&BAD));
    }
    if r.pct(25) {
      let g = good(r);
      *who.last_mut().unwrap() = g;
    }
  } else if r.pct(15) {
    who.push(good(r));
  } else {
    who.push(*r.pick(&BAD));
  }
  let mut scripts = vec![];
  let mut versions = vec![];
  let mut plans = vec![];
  // who the server side gets to play
  let mut met: Vec<&'static str> = vec![];
  for w in &who {
    let mut plan = Plan::default();
    if *w == "refused" {
      plan.connect = ConnectPlan::Fail(*r.pick(&[
        libc::ECONNREFUSED,
        libc::ECONNREFUSED,
        libc::ENETUNREACH,
        libc::EHOSTUNREACH,
        libc::ETIMEDOUT,
        libc::ECONNRESET,
      ]));
    } else if *w == "unresolved" {
      plan.dns = Some(*r.pick(&[libc::EAI_AGAIN, libc::EAI_NONAME, libc::EAI_FAIL]));
    }
    plans.push(plan);
    if matches!(*w, "refused" | "unresolved") {
      continue;
    }
    met.push(w);
    let only12 = r.pct(40);
    versions.push(if only12 { "1.2" } else { "1.3" });
    let steps = if w.starts_with("good") {
      good_steps(&creds.login, b"", r)
    } else {
      // a patient impostor: also tries to move things along without having heard anything
      let mut v = vec![];
      if r.pct(50) {
        v.push(Step::Lines(3));
      }
      v.push(Step::Send(format!("{ACK}{}", welcome(&creds.login)).into()));
      v
    };
    let mut s = script(cx, steps, r);
    if *w == "plain" {
      s.plain_text = true;
    } else {
      s.cfg = server_config(&cx.certs, w, only12);
    }
    scripts.push(s);
  }
  let desc = format!("{} servers {who:?} TLS {versions:?}", if reconnect { "reconnect" } else { "connect" });
  scenario(&desc);
  hooks::reset(cx.ip, plans);
  let server = Server::start(cx, scripts);
  let backoff = Backoff {
    max_tries: Some(tries as u64),
    initial_delay: Duration::from_millis(1),
    delay_multiplier: 1,
    max_delay: Duration::from_millis(1),
  };
  let mut hang = false;
  let mut results = vec![];
  let ran = client_side(false, async {
    let mut c = match quiet(connect(&creds, backoff, Duration::from_secs(6))).await {
      Some(Ok(c)) => {
        results.push(Ok(()));
        c
      }
      Some(Err(e)) => {
        results.push(Err(kind(&e)));
        return;
      }
      None => {
        hang = true;
        return;
      }
    };
    if reconnect {
      match quiet(c.reconnect()).await {
        Some(r) => results.push(r.map_err(|e| kind(&e.cause))),
        None => hang = true,
      }
    }
  });
  if let Err(p) = ran {
    o.v("panic", format!("client panicked: {p}"));
    return Ok(desc);
  }
  // an impostor may receive late
  std::thread::sleep(Duration::from_millis(3));
  let logs = server.finish();
  if hang {
    return Err("a call did not return".into());
  }
  for w in &who {
    if matches!(*w, "refused" | "unresolved") {
      o.hit(w);
    }
  }
  let (dns, connects, raw) = hooks::with(|n| (n.dns.clone(), n.connects.clone(), std::mem::take(&mut n.raw)));
  for (node, _) in &dns {
    if node != hooks::HOST {
      o.v("host", format!("resolved {node:?} instead of {:?}", hooks::HOST));
    }
  }
  for c in &connects {
    if !c.ends_with(&format!(":{}", hooks::PORT)) {
      o.v("port", format!("connected to {c}"));
    }
    o.hit("connections");
  }
  let has = |hay: &[u8], n: &str| !n.is_empty() && hay.windows(n.len()).any(|w| w == n.as_bytes());
  for n in ["CAP REQ", "PASS ", "NICK ", creds.token().unwrap_or("")] {
    if has(&raw, n) {
      o.v("cleartext", format!("{n:?} was sent without TLS"));
    }
  }
  for (k, l) in logs.iter().enumerate() {
    let Some(w) = met.get(k) else {
      o.v("connections", format!("more connections than servers: {}", logs.len()));
      break;
    };
    if w.starts_with("good") {
      if l.sni.as_deref() != Some(hooks::HOST) {
        o.v("sni", format!("the server was asked for {:?}", l.sni));
      }
      if let Err(e) = transcript(&l.plain, &creds) {
        o.v("good", format!("no handshake with a good server: {e}"));
      }
      o.hit("good servers");
    } else {
      o.hit(w);
      if !l.plain.is_empty() && *w != "plain" {
        o.v(format!("data for {w}"), format!("a server with the {w} certificate received {}", show(&l.plain)));
      }
    }
  }
  // the calls
  let first_good = who[0].starts_with("good");
  match (first_good, results.first()) {
    (true, Some(Ok(()))) => {}
    (true, Some(Err(e))) if e == "Timeout" => return Err("timeout with a good server".into()),
    (true, Some(Err(e))) => o.v("good", format!("a good server was refused: {e}")),
    (false, Some(Ok(()))) => o.v(format!("accepted {}", who[0]), format!("connected to a server with {}", who[0])),
    _ => {}
  }
  if let Some(res) = results.get(1) {
    let last = met.iter().rposition(|w| w.starts_with("good")).filter(|p| *p > 0);
    match (res, last) {
      (Ok(()), None) => o.v("accepted on reconnect", format!("reconnected although the servers were {:?}", &who[1..])),
      (Err(e), Some(p)) if p < met.len() && e != "Timeout" && logs.len() > p => {
        o.v("good", format!("a good server was refused on reconnect: {e}"))
      }
      _ => {}
    }
  }
  Ok(desc)
}
