//! Runtime monitors for the client half of `tmi`: the real client talks to scripted TLS
//! peers over loopback; the monitors judge what crossed the socket and what the calls
//! returned.

mod cancel;
mod handshake;
mod hooks;
mod life;
mod misc;
mod reconnect;
mod recv;
mod send;
mod srv;
mod stall;
mod trust;
mod util;

use mon::rng::{fnv, Rng};
use mon::Obs;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::net::TcpListener;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio_rustls::rustls::ServerConfig;

thread_local! {
  /// Bytes allocated by this thread minus bytes freed by it.
  pub static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

struct Counting;

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
    System.alloc(l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
    System.alloc_zeroed(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
    System.realloc(p, l, n)
  }
}

#[global_allocator]
static ALLOC: Counting = Counting;

pub struct Cx {
  pub ip: [u8; 4],
  pub listener: Arc<TcpListener>,
  pub certs: String,
  pub tls13: Arc<ServerConfig>,
  pub tls12: Arc<ServerConfig>,
  pub case: u64,
}

impl Cx {
  pub fn good(&self, r: &mut Rng) -> Arc<ServerConfig> {
    if r.pct(30) {
      self.tls12.clone()
    } else {
      self.tls13.clone()
    }
  }
}

/// What one scenario did; `Err`: it could not be carried out.
pub type Ran = Result<String, String>;

static STARTED: AtomicU64 = AtomicU64::new(0);

fn json_str(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      c if (c as u32) < 32 || c as u32 == 127 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn main() {
  let mut a: HashMap<String, String> = HashMap::new();
  let mut it = std::env::args().skip(1);
  let cmd = it.next().unwrap_or_default();
  while let Some(k) = it.next() {
    a.insert(k.trim_start_matches("--").into(), it.next().unwrap_or_default());
  }
  let s = |k: &str, d: &str| a.get(k).cloned().unwrap_or_else(|| d.into());
  let n = |k: &str, d: u64| a.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
  let certs = s("certs", "certs");
  std::env::set_var("SSL_CERT_FILE", format!("{certs}/ca.pem"));
  std::env::remove_var("SSL_CERT_DIR");
  let ip: Vec<u8> = s("ip", "127.0.0.1").split('.').filter_map(|x| x.parse().ok()).collect();
  let ip: [u8; 4] = ip.try_into().expect("ip");
  let prop = s("prop", "");
  let seed = n("seed", 1);
  let (first, last) = match cmd.as_str() {
    "run" => (0, n("cases", 100)),
    "one" => (n("case", 0), n("case", 0) + 1),
    _ => {
      eprintln!("usage: cli run|one --prop Cxx ...");
      std::process::exit(3);
    }
  };
  util::install_panic_hook();
  if prop == "C23" {
    misc::install_capture();
  }
  let mut cx = Cx {
    ip,
    listener: Arc::new(srv::listen(ip)),
    tls13: srv::server_config(&certs, "good", false),
    tls12: srv::server_config(&certs, "good2", true),
    certs,
    case: 0,
  };
  // nothing may run forever: a stuck scenario is reported as such, it is not a verdict
  let stuck = n("stuck", 120);
  std::thread::spawn(move || {
    let mut last = (u64::MAX, Instant::now());
    loop {
      std::thread::sleep(Duration::from_millis(200));
      let c = STARTED.load(Ordering::SeqCst);
      if c != last.0 {
        last = (c, Instant::now());
      } else if last.1.elapsed() > Duration::from_secs(stuck) {
        println!("STUCK {}", first + c.wrapping_sub(1));
        println!("{}", util::SCENARIO.lock().map(|s| s.clone()).unwrap_or_default());
        std::process::exit(5);
      }
    }
  });
  let limit = Duration::from_secs(n("limit", 600));
  let t0 = Instant::now();
  let mut hits: BTreeMap<&'static str, u64> = BTreeMap::new();
  let mut viol: BTreeMap<String, (u64, String, u64)> = BTreeMap::new();
  let mut distinct = HashSet::new();
  let mut samples = vec![];
  let mut errors: Vec<(u64, String)> = vec![];
  let (mut decided, mut cases) = (0u64, 0u64);
  for i in first..last {
    if t0.elapsed() > limit {
      break;
    }
    cx.case = i;
    STARTED.fetch_add(1, Ordering::SeqCst);
    let mut r = Rng::new(seed.wrapping_mul(0x9e37_79b1).wrapping_add(i).wrapping_mul(0x1000_0000_01b3) ^ fnv(prop.as_bytes()));
    let mut o = Obs::default();
    let ran = match prop.as_str() {
      "C17" => send::c17(&cx, &mut r, &mut o),
      "C18" => send::c18(&cx, &mut r, &mut o),
      "C19" => recv::c19(&cx, &mut r, &mut o),
      "C20" => handshake::c20(&cx, &mut r, &mut o),
      "C21" => reconnect::c21(&cx, &mut r, &mut o),
      "C22" => stall::c22(&cx, &mut r, &mut o),
      "C23" => misc::c23(&cx, &mut r, &mut o),
      "C24" => trust::c24(&cx, &mut r, &mut o),
      "C25" => recv::c25(&cx, &mut r, &mut o),
      "C26" => misc::c26(&cx, &mut r, &mut o),
      "C29" => life::c29(&cx, &mut r, &mut o),
      "C30" => life::c30(&cx, &mut r, &mut o),
      "C33" => cancel::c33(&cx, &mut r, &mut o),
      _ => {
        eprintln!("no such property {prop}");
        std::process::exit(3);
      }
    };
    cases += 1;
    for (k, v) in o.hits {
      *hits.entry(k).or_default() += v;
    }
    match ran {
      Ok(desc) => {
        decided += 1;
        if distinct.insert(fnv(desc.as_bytes())) && samples.len() < 3 && desc.len() < 1500 && i % 7 == 3 {
          samples.push(desc.clone());
        }
        for v in o.viol {
          let e = viol.entry(v.sig.clone()).or_insert((0, format!("{} [scenario: {}]", v.msg, desc), i));
          e.0 += 1;
        }
        if cmd == "one" {
          println!("{desc}");
        }
      }
      Err(e) => {
        if cmd == "one" {
          println!("ERR {e}");
        }
        errors.push((i, e));
      }
    }
  }
  let mut j = String::new();
  let _ = write!(
    j,
    "{{\"prop\":{},\"seed\":{seed},\"cases\":{cases},\"decided\":{decided},\"distinct\":{},\"seconds\":{:.2},\"hits\":{{",
    json_str(&prop),
    distinct.len(),
    t0.elapsed().as_secs_f64()
  );
  for (i, (k, v)) in hits.iter().enumerate() {
    let _ = write!(j, "{}{}:{v}", if i > 0 { "," } else { "" }, json_str(k));
  }
  j.push_str("},\"samples\":[");
  for (i, s) in samples.iter().enumerate() {
    let _ = write!(j, "{}{}", if i > 0 { "," } else { "" }, json_str(s));
  }
  j.push_str("],\"errors\":[");
  for (i, (c, e)) in errors.iter().take(20).enumerate() {
    let _ = write!(j, "{}{{\"case\":{c},\"msg\":{}}}", if i > 0 { "," } else { "" }, json_str(e));
  }
  let _ = write!(j, "],\"error_count\":{},\"violations\":[", errors.len());
  for (i, (sig, (n, msg, case))) in viol.iter().enumerate() {
    let _ = write!(
      j,
      "{}{{\"sig\":{},\"count\":{n},\"case\":{case},\"msg\":{}}}",
      if i > 0 { "," } else { "" },
      json_str(sig),
      json_str(msg)
    );
  }
  j.push_str("]}\n");
  let out = s("out", "");
  if out.is_empty() {
    print!("{j}");
  } else {
    std::fs::write(out, j).expect("write result");
  }
  std::process::exit(if cmd == "one" && !viol.is_empty() { 1 } else { 0 });
}
