use crate::hooks;
use crate::srv::*;
use crate::Cx;
use futures_util::stream::{FuturesUnordered, StreamExt};
use mon::rng::Rng;
use std::future::Future;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::thread::JoinHandle;
use std::time::{Duration, Instant};
use tmi::client::{Backoff, ConnectError, ReconnectError};
use tmi::{Client, Credentials};
use tokio_rustls::rustls::ServerConfig;

/// How long nothing at all may happen before a pending call counts as hanging.
pub const IDLE: Duration = Duration::from_secs(8);

/// Panics of the crate under test, as text (the scenario decides what they mean).
pub static PANICS: Mutex<Vec<String>> = Mutex::new(vec![]);

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let msg = info
      .payload()
      .downcast_ref::<&str>()
      .map(|s| s.to_string())
      .or_else(|| info.payload().downcast_ref::<String>().cloned())
      .unwrap_or_default();
    if at.starts_with("src/") || at.contains("/cli/src/") || at.contains("/mon/src/") {
      eprintln!("HARNESS-PANIC {at}: {msg}");
      std::process::exit(3);
    }
    PANICS.lock().unwrap().push(format!("{at}: {msg}"));
  }));
}

pub fn rt(paused: bool, threads: usize) -> tokio::runtime::Runtime {
  tokio::runtime::Builder::new_current_thread()
    .enable_all()
    .start_paused(paused)
    .max_blocking_threads(threads)
    .build()
    .expect("runtime")
}

/// Run the client side; a panic inside the crate becomes an error text.
pub fn client_side<T>(paused: bool, f: impl Future<Output = T>) -> Result<T, String> {
  client_side_on(paused, 512, f)
}

/// With a limited number of threads for blocking calls.
pub fn client_side_on<T>(paused: bool, threads: usize, f: impl Future<Output = T>) -> Result<T, String> {
  PANICS.lock().unwrap().clear();
  let rt = rt(paused, threads);
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(f)));
  rt.shutdown_timeout(Duration::from_secs(5));
  r.map_err(|_| PANICS.lock().unwrap().join("; "))
}

pub static SERVER_ACTIVITY: AtomicU64 = AtomicU64::new(0);

pub fn activity() -> u64 {
  let client = hooks::net().as_ref().map(|n| n.activity).unwrap_or(0);
  client + (SERVER_ACTIVITY.load(Ordering::SeqCst) << 32)
}

/// Await `fut`, but give up (`None`) once neither side has done anything for `IDLE`.
/// The future is only polled when it was woken, so a lost wakeup is not papered over.
pub async fn quiet<F: Future>(fut: F) -> Option<F::Output> {
  let mut set = FuturesUnordered::new();
  set.push(fut);
  let mut last = (activity(), Instant::now());
  loop {
    tokio::select! {
      biased;
      r = set.next() => return r,
      _ = tokio::time::sleep(Duration::from_millis(10)) => {
        let a = activity();
        if a != last.0 {
          last = (a, Instant::now());
        } else if last.1.elapsed() > IDLE {
          return None;
        }
      }
    }
  }
}

pub fn kind(e: &ConnectError) -> String {
  match e {
    ConnectError::Read(e) => format!("Read({e:?})"),
    ConnectError::Io(e) => format!("Io({e:?})"),
    ConnectError::Dns(e) => format!("Dns({e:?})"),
    ConnectError::Tls(e) => format!("Tls({e:?})"),
    ConnectError::Open(e) => format!("Open({e:?})"),
    ConnectError::Timeout => "Timeout".into(),
    ConnectError::Welcome(m) => format!("Welcome({:?})", m.raw()),
    ConnectError::Auth => "Auth".into(),
    ConnectError::Notice(m) => format!("Notice({:?})", m.raw()),
  }
}

pub fn credentials(r: &mut Rng) -> Credentials {
  if r.pct(25) {
    return Credentials::anon();
  }
  let mut login = word(r, 3, 25);
  if r.pct(20) {
    login = login.chars().map(|c| if r.pct(40) { c.to_ascii_uppercase() } else { c }).collect();
  }
  if r.pct(15) {
    login = match r.below(9) {
      0 => format!("#{login}"),
      1 => format!("@{login}"),
      2 => format!("_{login}__"),
      3 => format!("{}-é.🦀", login),
      4 => format!("justinfan{}", r.range(10_000, 99_999)),
      5 => format!("{login}/:;={login}"),
      6 => format!("oauth:{login}"),
      7 => word(r, 60, 300),
      _ => word(r, 1, 2),
    };
  }
  let mut token = alnum(r, 30);
  if r.pct(10) {
    token = match r.below(5) {
      0 => format!("oauth:{token}"),
      1 => format!("OAuth:{token}"),
      2 => format!("{token}oauth:{token}"),
      3 => format!("#{token}:é"),
      _ => alnum(r, 500),
    };
  }
  if r.pct(20) {
    token = token.chars().map(|c| if r.pct(40) { c.to_ascii_uppercase() } else { c }).collect();
  }
  if r.pct(50) {
    token = format!("oauth:{token}");
  }
  Credentials::new(login, token)
}

pub fn alnum(r: &mut Rng, n: usize) -> String {
  (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789") as char).collect()
}

pub fn word(r: &mut Rng, lo: usize, hi: usize) -> String {
  let n = r.range(lo, hi);
  let mut s = alnum(r, n);
  if r.pct(20) {
    s.push('_');
  }
  s
}

pub fn fast_backoff(r: &mut Rng) -> Backoff {
  Backoff {
    max_tries: Some(r.range(1, 4) as u64),
    initial_delay: Duration::from_millis(r.below(3) as u64),
    delay_multiplier: r.range(1, 2) as u32,
    max_delay: Duration::from_millis(3),
  }
}

pub fn cut(r: &mut Rng) -> Cut {
  *r.pick(&[Cut::Whole, Cut::Lines, Cut::Random, Cut::Random, Cut::Bytes])
}

/// What a scripted server does with one connection.
#[derive(Clone, Debug)]
pub enum Step {
  /// wait for this many lines in total
  Lines(usize),
  /// send these bytes
  Send(Vec<u8>),
  Close(Close),
  /// half a TLS record, then TCP FIN
  HalfRecord,
  /// wait until the scenario raises this flag
  Flag(usize),
  Sleep(u64),
  /// do not even read for this many microseconds
  Pause(u64),
  /// read this many bytes at a time, this many microseconds apart, for so long
  Trickle(usize, u64, u64),
}

#[derive(Clone)]
pub struct Script {
  pub cfg: Arc<ServerConfig>,
  /// close the TCP connection before (0) or during (1) the TLS handshake
  pub no_tls: Option<(u8, Close)>,
  /// no TLS at all: talk IRC over TCP
  pub plain_text: bool,
  /// wait for this flag before answering the ClientHello
  pub hold: Option<usize>,
  /// send only so many bytes of the TLS handshake's first flight before this flag
  pub part_tls: Option<(usize, usize)>,
  pub steps: Vec<Step>,
  pub records: Cut,
  pub segments: Cut,
  pub rcvbuf: Option<i32>,
  pub seed: u64,
}

/// What the server saw on one connection.
#[derive(Clone, Debug, Default)]
pub struct ConnLog {
  pub established: bool,
  pub plain: Vec<u8>,
  /// plaintext received before the first byte was sent back
  pub before_reply: usize,
  pub sni: Option<String>,
  pub end: String,
  pub steps_done: usize,
  pub steps_total: usize,
  pub records: u64,
  pub segments: u64,
}

pub type Scripts = Arc<Mutex<std::collections::VecDeque<Script>>>;

pub struct Server {
  pub scripts: Scripts,
  pub stop: Arc<AtomicBool>,
  pub flags: Arc<Vec<AtomicBool>>,
  pub logs: Arc<Mutex<Vec<ConnLog>>>,
  pub accepted: Arc<AtomicU64>,
  pub gen: Arc<AtomicU64>,
  /// the server deliberately leaves the client's bytes unread
  pub held: AtomicBool,
  pub idles: Arc<Mutex<Vec<Arc<Idle>>>>,
  handle: Option<JoinHandle<()>>,
}

fn serve(
  k: usize,
  sock: std::net::TcpStream,
  s: Script,
  stop: &AtomicBool,
  flags: &[AtomicBool],
  logs: &Mutex<Vec<ConnLog>>,
  idle: Arc<Idle>,
) {
  let mut r = Rng::new(s.seed);
  if let Some(b) = s.rcvbuf {
    unsafe {
      libc::setsockopt(
        std::os::fd::AsRawFd::as_raw_fd(&sock),
        libc::SOL_SOCKET,
        libc::SO_RCVBUF,
        &b as *const _ as _,
        4,
      );
    }
  }
  let mut p = Peer::new(sock, s.cfg.clone());
  p.idle = idle;
  p.idle.fd.store(std::os::fd::AsRawFd::as_raw_fd(&p.sock), Ordering::SeqCst);
  let publish = |p: &Peer, before: usize, steps: usize| {
    let mut g = logs.lock().unwrap();
    let l = &mut g[k];
    if l.plain.len() != p.plain.len() {
      SERVER_ACTIVITY.fetch_add(1, Ordering::SeqCst);
      l.plain = p.plain.clone();
    }
    l.established = p.established();
    l.before_reply = before;
    l.sni = p.sni();
    l.end = p.end.as_ref().map(|e| format!("{e:?}")).unwrap_or_default();
    l.steps_done = steps;
    l.steps_total = s.steps.len();
    l.records = p.records;
    l.segments = p.segments;
  };
  match s.no_tls {
    Some((0, how)) => {
      p.close(how);
      publish(&p, 0, 0);
      return;
    }
    Some((_, how)) => {
      // swallow the ClientHello first
      let t = Instant::now();
      while !poll_in(std::os::fd::AsRawFd::as_raw_fd(&p.sock), 20) {
        if stop.load(Ordering::SeqCst) || t.elapsed() > Duration::from_secs(30) {
          return;
        }
      }
      use std::io::Read;
      let mut b = [0; 4096];
      let _ = p.sock.read(&mut b);
      p.close(how);
      publish(&p, 0, 0);
      return;
    }
    None => {}
  }
  if s.plain_text {
    use std::io::{Read, Write};
    let _ = p.sock.set_read_timeout(Some(Duration::from_millis(2)));
    let mut b = [0; 4096];
    for st in &s.steps {
      if let Step::Send(d) = st {
        let _ = p.sock.write_all(d);
      }
    }
    while !stop.load(Ordering::SeqCst) {
      match p.sock.read(&mut b) {
        Ok(0) => break,
        Ok(n) => {
          p.plain.extend_from_slice(&b[..n]);
          SERVER_ACTIVITY.fetch_add(1, Ordering::SeqCst);
        }
        Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {}
        Err(_) => break,
      }
    }
    publish(&p, 0, 0);
    return;
  }
  if let Some(f) = s.hold {
    while !stop.load(Ordering::SeqCst) {
      let g = p.idle.gen.load(Ordering::SeqCst);
      if flags[f].load(Ordering::SeqCst) {
        break;
      }
      p.idle.at.store(g, Ordering::SeqCst);
      std::thread::sleep(Duration::from_micros(200));
    }
    p.idle.busy();
  }
  if let Some((n, f)) = s.part_tls {
    p.part_handshake(n, &|| flags[f].load(Ordering::SeqCst), stop);
  }
  p.handshake(stop);
  publish(&p, 0, 0);
  let mut before = None;
  let mut done = 0;
  'steps: for st in &s.steps {
    if p.end.is_some() && !matches!(st, Step::Send(_) | Step::Close(_)) {
      break;
    }
    match st {
      Step::Lines(n) => {
        while p.lines() < *n {
          if let Pump::Ended = p.pump(20) {
            break 'steps;
          }
          publish(&p, before.unwrap_or(p.plain.len()), done);
          if stop.load(Ordering::SeqCst) {
            break 'steps;
          }
        }
      }
      Step::Send(b) => {
        before.get_or_insert(p.plain.len());
        SERVER_ACTIVITY.fetch_add(1, Ordering::SeqCst);
        // keep reading while sending large amounts, so that both directions progress
        for c in b.chunks(8192) {
          if !p.send(c, s.records, s.segments, &mut r) {
            break;
          }
          SERVER_ACTIVITY.fetch_add(1, Ordering::SeqCst);
        }
      }
      Step::Close(c) => {
        p.close(*c);
        SERVER_ACTIVITY.fetch_add(1, Ordering::SeqCst);
      }
      Step::HalfRecord => {
        p.half_record();
        SERVER_ACTIVITY.fetch_add(1, Ordering::SeqCst);
      }
      Step::Flag(f) => {
        loop {
          let g = p.idle.gen.load(Ordering::SeqCst);
          if flags[*f].load(Ordering::SeqCst) {
            break;
          }
          if stop.load(Ordering::SeqCst) {
            break 'steps;
          }
          if let Pump::Ended = p.pump_at(g, 1) {
            std::thread::sleep(Duration::from_millis(2));
          }
          publish(&p, before.unwrap_or(p.plain.len()), done);
        }
        p.idle.busy();
        SERVER_ACTIVITY.fetch_add(1, Ordering::SeqCst);
      }
      Step::Sleep(us) | Step::Pause(us) => std::thread::sleep(Duration::from_micros(*us)),
      Step::Trickle(n, gap, total) => {
        let t = Instant::now();
        while t.elapsed() < Duration::from_micros(*total) && p.end.is_none() && !stop.load(Ordering::SeqCst) {
          p.chunk = *n;
          p.pump(1);
          p.chunk = usize::MAX;
          std::thread::sleep(Duration::from_micros(*gap));
        }
        publish(&p, before.unwrap_or(p.plain.len()), done);
      }
    }
    done += 1;
    publish(&p, before.unwrap_or(p.plain.len()), done);
  }
  // record everything the client sends from here on
  while p.end.is_none() && !stop.load(Ordering::SeqCst) {
    p.pump(2);
    publish(&p, before.unwrap_or(p.plain.len()), done);
  }
  if stop.load(Ordering::SeqCst) && p.end.is_none() {
    // what is already here still counts
    while let Pump::Data = p.pump(0) {}
  }
  publish(&p, before.unwrap_or(p.plain.len()), done);
  p.idle.at.store(u64::MAX, Ordering::SeqCst);
  // hold the connection until the scenario is over
  while !stop.load(Ordering::SeqCst) {
    std::thread::sleep(Duration::from_millis(1));
  }
}

impl Server {
  /// Serve one connection per script, in the order they come in.
  pub fn start(cx: &Cx, scripts: Vec<Script>) -> Server {
    let stop = Arc::new(AtomicBool::new(false));
    let queue: Scripts = Arc::new(Mutex::new(scripts.into()));
    // a connection nobody asked for is served too, and shows up in the logs
    let fallback = Script {
      cfg: cx.tls13.clone(),
      no_tls: None,
      plain_text: false,
      hold: None,
      part_tls: None,
      steps: vec![],
      records: Cut::Whole,
      segments: Cut::Whole,
      rcvbuf: None,
      seed: 1,
    };
    let q = queue.clone();
    let flags: Arc<Vec<AtomicBool>> = Arc::new((0..128).map(|_| AtomicBool::new(false)).collect());
    let logs: Arc<Mutex<Vec<ConnLog>>> = Arc::default();
    let accepted = Arc::new(AtomicU64::new(0));
    let gen = Arc::new(AtomicU64::new(1));
    let idles: Arc<Mutex<Vec<Arc<Idle>>>> = Arc::default();
    let (gn, ids) = (gen.clone(), idles.clone());
    let l = cx.listener.clone();
    let (st, fl, lg, ac) = (stop.clone(), flags.clone(), logs.clone(), accepted.clone());
    let handle = std::thread::spawn(move || {
      let mut hs = vec![];
      loop {
        let Some(sock) = accept_tcp(&l, &st) else { break };
        let idle = Arc::new(Idle {
          gen: gn.clone(),
          ..Default::default()
        });
        ids.lock().unwrap().push(idle.clone());
        let s = q.lock().unwrap().pop_front().unwrap_or_else(|| fallback.clone());
        let k = {
          let mut g = lg.lock().unwrap();
          g.push(ConnLog::default());
          g.len() - 1
        };
        ac.fetch_add(1, Ordering::SeqCst);
        SERVER_ACTIVITY.fetch_add(1, Ordering::SeqCst);
        let (st, fl, lg) = (st.clone(), fl.clone(), lg.clone());
        hs.push(std::thread::spawn(move || serve(k, sock, s, &st, &fl, &lg, idle)));
      }
      for h in hs {
        let _ = h.join();
      }
    });
    Server {
      scripts: queue,
      stop,
      flags,
      logs,
      accepted,
      gen,
      held: AtomicBool::new(false),
      idles,
      handle: Some(handle),
    }
  }

  pub fn raise(&self, f: usize) {
    self.flags[f].store(true, Ordering::SeqCst);
    self.gen.fetch_add(1, Ordering::SeqCst);
  }

  pub fn log(&self, k: usize) -> ConnLog {
    self.logs.lock().unwrap().get(k).cloned().unwrap_or_default()
  }

  /// Every connection made so far has been accepted (and has taken its script).
  pub fn caught_up(&self) {
    let t = Instant::now();
    while self.accepted.load(Ordering::SeqCst) < hooks::with(|n| n.reaching) && t.elapsed() < Duration::from_secs(20) {
      std::thread::sleep(Duration::from_micros(100));
    }
  }

  /// Nothing is under way between the client and this server: whatever happens next must come
  /// from a timer.
  pub fn settled(&self) -> bool {
    let (fd, sends, connects) = {
      let g = hooks::net();
      let Some(n) = g.as_ref() else { return false };
      if n.busy {
        return n.dns_blocked;
      }
      let Some(s) = n.live.and_then(|fd| n.fds.get(&fd).map(|s| (fd, s))) else {
        return true;
      };
      if s.1.over || matches!(s.1.plan.connect, hooks::ConnectPlan::To(_)) {
        return true;
      }
      (s.0, s.1.sends, n.reaching)
    };
    if sends == 0 || self.accepted.load(Ordering::SeqCst) < connects {
      return false;
    }
    if hooks::unsent(fd) > 0 {
      return false;
    }
    let gen = self.gen.load(Ordering::SeqCst);
    let ids = self.idles.lock().unwrap();
    let Some(i) = ids.last() else { return false };
    let sfd = i.fd.load(Ordering::SeqCst);
    let at = i.at.load(Ordering::SeqCst);
    if at == 0 || at < gen {
      return false;
    }
    // the held-back handshake leaves the client's bytes in the socket
    let held = self.held.load(Ordering::SeqCst);
    if !held && at != u64::MAX && (hooks::unread(sfd) > 0 || i.at.load(Ordering::SeqCst) != at) {
      return false;
    }
    hooks::unsent(sfd) == 0 && hooks::unread(fd) == 0
  }

  /// Wait (as part of the client's runtime) until connection `k` has received a line for
  /// which `f` holds; false if nothing happens any more.
  pub async fn wait(&self, k: usize, f: impl Fn(&ConnLog) -> bool) -> bool {
    quiet(async {
      loop {
        if f(&self.log(k)) {
          return;
        }
        // where the clock is paused the sleep below takes no time
        std::thread::sleep(Duration::from_micros(100));
        tokio::time::sleep(Duration::from_millis(1)).await;
      }
    })
    .await
    .is_some()
  }

  pub fn finish(mut self) -> Vec<ConnLog> {
    self.stop.store(true, Ordering::SeqCst);
    if let Some(h) = self.handle.take() {
      let _ = h.join();
    }
    let g = self.logs.lock().unwrap();
    g.clone()
  }
}

impl Drop for Server {
  fn drop(&mut self) {
    self.stop.store(true, Ordering::SeqCst);
    if let Some(h) = self.handle.take() {
      let _ = h.join();
    }
  }
}

pub fn nick(c: &Credentials) -> String {
  c.login().to_string()
}

/// The steps of a server which completes the handshake.
pub fn good_steps(nick: &str, extra: &[u8], r: &mut Rng) -> Vec<Step> {
  let mut v = vec![];
  let w = welcome(nick);
  match r.below(4) {
    // both replies in one go
    0 => {
      v.push(Step::Lines(3));
      let mut b = ACK.as_bytes().to_vec();
      b.extend_from_slice(w.as_bytes());
      b.extend_from_slice(extra);
      v.push(Step::Send(b));
    }
    1 => {
      v.push(Step::Lines(1));
      v.push(Step::Send(ACK.into()));
      v.push(Step::Lines(3));
      let mut b = w.into_bytes();
      b.extend_from_slice(extra);
      v.push(Step::Send(b));
    }
    _ => {
      v.push(Step::Lines(3));
      v.push(Step::Send(ACK.into()));
      if r.pct(50) {
        v.push(Step::Sleep(r.below(2000) as u64));
      }
      v.push(Step::Send(w.into_bytes()));
      v.push(Step::Send(extra.to_vec()));
    }
  }
  v
}

pub fn script(cx: &Cx, steps: Vec<Step>, r: &mut Rng) -> Script {
  Script {
    cfg: cx.good(r),
    no_tls: None,
    plain_text: false,
    hold: None,
    part_tls: None,
    steps,
    records: cut(r),
    segments: *r.pick(&[Cut::Whole, Cut::Whole, Cut::Random, Cut::Bytes]),
    rcvbuf: None,
    seed: r.next(),
  }
}

pub fn cause(e: &ReconnectError) -> String {
  kind(&e.cause)
}

pub async fn connect(c: &Credentials, b: Backoff, timeout: Duration) -> Result<Client, ConnectError> {
  Client::builder().credentials(c.clone()).backoff(b).timeout(timeout).connect().await
}

pub fn show(b: &[u8]) -> String {
  let s = String::from_utf8_lossy(b);
  if s.len() > 400 {
    let mut i = 200;
    while !s.is_char_boundary(i) {
      i += 1;
    }
    let mut k = s.len() - 150;
    while !s.is_char_boundary(k) {
      k += 1;
    }
    format!("{:?}…({} bytes)…{:?}", &s[..i], b.len(), &s[k..])
  } else {
    format!("{s:?}")
  }
}

pub static SCENARIO: Mutex<String> = Mutex::new(String::new());

/// What is being run now, for a report if it gets stuck.
pub fn scenario(s: &str) {
  *SCENARIO.lock().unwrap() = s.to_string();
}
