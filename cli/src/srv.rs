//! The other end of the wire: a blocking TLS peer under full control of the scenario.

use mon::rng::Rng;
use std::io::{Read, Write};
use std::net::{Ipv4Addr, SocketAddrV4, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio_rustls::rustls::{self, Certificate, PrivateKey, ServerConfig, ServerConnection};

pub fn server_config(dir: &str, name: &str, only12: bool) -> Arc<ServerConfig> {
  let read = |ext: &str| std::fs::read(format!("{dir}/{name}.{ext}")).expect("certificate file");
  let certs = rustls_pemfile::certs(&mut &read("pem")[..]).expect("pem");
  let key = rustls_pemfile::pkcs8_private_keys(&mut &read("key")[..]).expect("key").remove(0);
  let versions: &[&rustls::SupportedProtocolVersion] = if only12 {
    &[&rustls::version::TLS12]
  } else {
    &[&rustls::version::TLS13, &rustls::version::TLS12]
  };
  let c = ServerConfig::builder()
    .with_safe_default_cipher_suites()
    .with_safe_default_kx_groups()
    .with_protocol_versions(versions)
    .expect("versions")
    .with_no_client_auth()
    .with_single_cert(certs.into_iter().map(Certificate).collect(), PrivateKey(key))
    .expect("server config");
  Arc::new(c)
}

pub fn listen(ip: [u8; 4]) -> TcpListener {
  let a = SocketAddrV4::new(Ipv4Addr::from(ip), crate::hooks::PORT);
  let t0 = Instant::now();
  loop {
    match TcpListener::bind(a) {
      Ok(l) => return l,
      Err(e) => {
        if t0.elapsed() > Duration::from_secs(20) {
          eprintln!("HARNESS: bind {a}: {e}");
          std::process::exit(3);
        }
        std::thread::sleep(Duration::from_millis(200));
      }
    }
  }
}

pub fn poll_in(fd: i32, ms: i32) -> bool {
  let mut p = libc::pollfd {
    fd,
    events: libc::POLLIN,
    revents: 0,
  };
  unsafe { libc::poll(&mut p, 1, ms) > 0 }
}

/// Wait for a TCP connection, or for `stop`.
pub fn accept_tcp(l: &TcpListener, stop: &AtomicBool) -> Option<TcpStream> {
  loop {
    if poll_in(l.as_raw_fd(), 2) {
      if let Ok((s, _)) = l.accept() {
        let _ = s.set_nodelay(true);
        return Some(s);
      }
    }
    if stop.load(Ordering::SeqCst) {
      return None;
    }
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
  /// close_notify
  Clean,
  /// TCP EOF without close_notify
  Eof,
  Io(String),
  Tls(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Close {
  /// close_notify, then TCP FIN
  Notify,
  /// close_notify, but the TCP connection stays open
  NotifyOnly,
  /// TCP FIN
  Fin,
  /// TCP RST
  Rst,
}

/// How plaintext becomes TLS records and ciphertext becomes TCP segments.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cut {
  Whole,
  Lines,
  Random,
  Bytes,
}

pub struct Peer {
  pub sock: TcpStream,
  pub tls: ServerConnection,
  pub plain: Vec<u8>,
  pub end: Option<End>,
  pub records: u64,
  pub segments: u64,
  /// at most this many bytes per read
  pub chunk: usize,
  /// tells the scenario whether this side is waiting for something
  pub idle: Arc<Idle>,
}

/// `at` is the generation of flags at which this side had nothing left to do; 0: busy.
#[derive(Default)]
pub struct Idle {
  pub gen: Arc<AtomicU64>,
  pub at: AtomicU64,
  pub fd: AtomicI32,
}

impl Idle {
  pub fn busy(&self) {
    self.at.store(0, Ordering::SeqCst);
  }
}

pub enum Pump {
  Data,
  Nothing,
  Ended,
}

impl Peer {
  pub fn new(sock: TcpStream, cfg: Arc<ServerConfig>) -> Peer {
    let mut tls = ServerConnection::new(cfg).expect("server connection");
    tls.set_buffer_limit(None);
    Peer {
      sock,
      tls,
      plain: vec![],
      end: None,
      records: 0,
      segments: 0,
      chunk: usize::MAX,
      idle: Arc::default(),
    }
  }

  /// Accept and complete the TLS handshake; `None` if stopped before a connection came in.
  pub fn accept(l: &TcpListener, cfg: Arc<ServerConfig>, stop: &AtomicBool) -> Option<Peer> {
    let s = accept_tcp(l, stop)?;
    let mut p = Peer::new(s, cfg);
    p.handshake(stop);
    Some(p)
  }

  pub fn handshake(&mut self, stop: &AtomicBool) {
    while self.tls.is_handshaking() && self.end.is_none() && !stop.load(Ordering::SeqCst) {
      self.pump(20);
    }
    self.flush();
  }

  /// Answer the ClientHello with only `n` bytes, hold the rest back until `go`.
  pub fn part_handshake(&mut self, n: usize, go: &dyn Fn() -> bool, stop: &AtomicBool) {
    let t = Instant::now();
    while !self.tls.wants_write() && !stop.load(Ordering::SeqCst) && t.elapsed() < Duration::from_secs(30) {
      if poll_in(self.sock.as_raw_fd(), 5) {
        let _ = self.tls.read_tls(&mut self.sock);
        let _ = self.tls.process_new_packets();
      }
    }
    let mut out = vec![];
    while self.tls.wants_write() {
      let _ = self.tls.write_tls(&mut out);
    }
    let n = n.min(out.len().saturating_sub(1));
    let _ = self.sock.write_all(&out[..n]);
    while !stop.load(Ordering::SeqCst) {
      let g = self.idle.gen.load(Ordering::SeqCst);
      if go() {
        break;
      }
      self.idle.at.store(g, Ordering::SeqCst);
      std::thread::sleep(Duration::from_micros(200));
    }
    self.idle.busy();
    let _ = self.sock.write_all(&out[n..]);
  }

  pub fn established(&self) -> bool {
    !self.tls.is_handshaking()
  }

  pub fn sni(&self) -> Option<String> {
    self.tls.server_name().map(|s| s.to_string())
  }

  pub fn flush(&mut self) {
    while self.tls.wants_write() && !matches!(self.end, Some(End::Io(_))) {
      if let Err(e) = self.tls.write_tls(&mut self.sock) {
        self.end.get_or_insert(End::Io(e.to_string()));
      }
    }
  }

  /// Read what is there, waiting at most `ms`.
  pub fn pump(&mut self, ms: i32) -> Pump {
    let g = self.idle.gen.load(Ordering::SeqCst);
    self.pump_at(g, ms)
  }

  /// `gen`: the generation of flags seen before deciding that there is nothing but reading to do.
  pub fn pump_at(&mut self, gen: u64, ms: i32) -> Pump {
    if self.end.is_some() {
      return Pump::Ended;
    }
    self.flush();
    let fd = self.sock.as_raw_fd();
    if !poll_in(fd, 0) {
      self.idle.at.store(gen, Ordering::SeqCst);
      if !poll_in(fd, ms) {
        return Pump::Nothing;
      }
    }
    self.idle.busy();
    match self.tls.read_tls(&mut (&mut self.sock).take(self.chunk as u64)) {
      Ok(0) => {
        self.end = Some(End::Eof);
      }
      Ok(_) => {}
      Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
      Err(e) => {
        self.end = Some(End::Io(e.to_string()));
      }
    }
    let before = self.plain.len();
    match self.tls.process_new_packets() {
      Ok(st) => {
        let n = st.plaintext_bytes_to_read();
        if n > 0 {
          let mut b = vec![0; n];
          self.tls.reader().read_exact(&mut b).expect("buffered plaintext");
          self.plain.extend_from_slice(&b);
        }
        if st.peer_has_closed() {
          self.end = Some(End::Clean);
        }
      }
      Err(e) => {
        self.flush();
        self.end = Some(End::Tls(e.to_string()));
      }
    }
    if self.plain.len() > before {
      Pump::Data
    } else if self.end.is_some() {
      Pump::Ended
    } else {
      Pump::Nothing
    }
  }

  pub fn lines(&self) -> usize {
    self.plain.windows(2).filter(|w| w == b"\r\n").count()
  }

  /// Read until `n` lines are there in total; false if the connection ended or `stop` came first.
  pub fn read_lines(&mut self, n: usize, stop: &AtomicBool) -> bool {
    while self.lines() < n {
      if let Pump::Ended = self.pump(20) {
        return self.lines() >= n;
      }
      if stop.load(Ordering::SeqCst) {
        return false;
      }
    }
    true
  }

  /// Plaintext into ciphertext, in records as `cut` says.
  fn encrypt(&mut self, data: &[u8], cut: Cut, r: &mut Rng) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < data.len() {
      let n = match cut {
        Cut::Whole => data.len() - i,
        Cut::Lines => data[i..].iter().position(|b| *b == b'\n').map(|p| p + 1).unwrap_or(data.len() - i),
        Cut::Random => {
          let m = *r.pick(&[1, 2, 3, 7, 40, 300, 2000]);
          r.range(1, m)
        }
        Cut::Bytes => 1,
      }
      .min(data.len() - i);
      self.tls.writer().write_all(&data[i..i + n]).expect("tls writer");
      while self.tls.wants_write() {
        self.tls.write_tls(&mut out).expect("to memory");
      }
      self.records += 1;
      i += n;
    }
    out
  }

  /// Send plaintext; false if the connection broke.
  pub fn send(&mut self, data: &[u8], records: Cut, segments: Cut, r: &mut Rng) -> bool {
    self.flush();
    let c = self.encrypt(data, records, r);
    let mut i = 0;
    while i < c.len() {
      let n = match segments {
        Cut::Whole | Cut::Lines => c.len() - i,
        Cut::Random => {
          let m = *r.pick(&[1, 3, 5, 20, 100, 1400, 5000]);
          r.range(1, m)
        }
        Cut::Bytes => 1,
      }
      .min(c.len() - i);
      if let Err(e) = self.sock.write_all(&c[i..i + n]) {
        self.end.get_or_insert(End::Io(e.to_string()));
        return false;
      }
      self.segments += 1;
      i += n;
      if segments != Cut::Whole && r.pct(10) {
        std::thread::sleep(Duration::from_micros(r.below(600) as u64));
      } else if segments != Cut::Whole && r.pct(50) {
        std::thread::yield_now();
      }
    }
    true
  }

  pub fn half_record(&mut self) {
    self.flush();
    let c = self.encrypt(b":a!a@a PRIVMSG #c :never completed\r\n", Cut::Whole, &mut Rng::new(1));
    let _ = self.sock.write_all(&c[..c.len() / 2]);
    let _ = self.sock.shutdown(std::net::Shutdown::Write);
  }

  pub fn close(&mut self, how: Close) {
    match how {
      Close::Notify | Close::NotifyOnly => {
        self.tls.send_close_notify();
        self.flush();
        if how == Close::Notify {
          let _ = self.sock.shutdown(std::net::Shutdown::Write);
        }
      }
      Close::Fin => {
        self.flush();
        let _ = self.sock.shutdown(std::net::Shutdown::Write);
      }
      Close::Rst => {
        let l = libc::linger {
          l_onoff: 1,
          l_linger: 0,
        };
        unsafe {
          libc::setsockopt(
            self.sock.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as _,
            std::mem::size_of::<libc::linger>() as _,
          );
          // closing with linger 0 resets; the Rust handle keeps a duplicate alive, so
          // disconnect explicitly
          let mut sa: libc::sockaddr = std::mem::zeroed();
          sa.sa_family = libc::AF_UNSPEC as _;
          libc::syscall(
            libc::SYS_connect,
            self.sock.as_raw_fd(),
            &sa as *const _,
            std::mem::size_of::<libc::sockaddr>(),
          );
        }
        self.end.get_or_insert(End::Io("reset by scenario".into()));
      }
    }
  }
}

pub const ACK: &str = ":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n";

pub fn welcome(nick: &str) -> String {
  format!(":tmi.twitch.tv 001 {nick} :Welcome, GLHF!\r\n")
}
