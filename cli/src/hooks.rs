//! The network as the client sees it: interposed libc calls which redirect the Twitch host
//! to a loopback address, record what the client does with its sockets, and inject faults.
//!
//! Only sockets which were connected to the Twitch port are touched; everything else goes
//! straight to the kernel.

use libc::{c_char, c_int, c_void, size_t, ssize_t};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ffi::CStr;
use std::sync::{Condvar, Mutex, MutexGuard};

pub const PORT: u16 = 6697;
pub const HOST: &str = "irc.chat.twitch.tv";

#[derive(Clone, Debug, Default)]
pub enum ConnectPlan {
  #[default]
  Real,
  Fail(c_int),
  /// connect to this port instead (a listener which never completes the connection)
  To(u16),
}

/// What happens to one connection attempt of the client, in order of attempts.
#[derive(Clone, Debug, Default)]
pub struct Plan {
  /// fail name resolution with this EAI code
  pub dns: Option<c_int>,
  /// name resolution does not come back before `Net::release`
  pub dns_block: bool,
  pub connect: ConnectPlan,
  /// fail sends once this many send calls have succeeded
  pub send_fail: Option<(usize, c_int)>,
  /// kernel send buffer of the client's socket
  pub sndbuf: Option<c_int>,
}

#[derive(Clone, Debug)]
pub struct FdState {
  pub attempt: usize,
  pub plan: Plan,
  pub sends: usize,
  pub sent: u64,
  pub received: u64,
  /// recv fails with this instead of reporting EOF
  pub recv_fail_at_eof: Option<c_int>,
  /// EOF or an error was returned to the client
  pub over: bool,
}

#[derive(Default)]
pub struct Net {
  pub ip: [u8; 4],
  pub dns: Vec<(String, String)>,
  pub connects: Vec<String>,
  pub attempts: usize,
  pub plans: VecDeque<Plan>,
  pub fds: HashMap<c_int, FdState>,
  /// fd of the attempt which is currently being worked on
  pub live: Option<c_int>,
  /// name resolution or connection of an attempt is in progress
  pub busy: bool,
  /// attempts which ended inside a hook (never reached a server): attempt index, reason
  pub failed: Vec<(usize, String)>,
  /// counts every call of the client on its sockets
  pub activity: u64,
  /// a name resolution is being held up
  pub dns_blocked: bool,
  /// connections which were really made to the server
  pub reaching: u64,
  /// sends held up by a plan with EAGAIN
  pub blocked: u64,
  /// lets blocked name resolutions go
  pub release: bool,
  /// sockets the client's thread has made and not closed
  pub sockets: HashSet<c_int>,
  /// every byte the client put on a socket, encrypted or not
  pub raw: Vec<u8>,
  current: Plan,
}

static NET: Mutex<Option<Net>> = Mutex::new(None);
static CHANGED: Condvar = Condvar::new();

pub fn net() -> MutexGuard<'static, Option<Net>> {
  NET.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn with<T>(f: impl FnOnce(&mut Net) -> T) -> T {
  let mut g = net();
  let r = f(g.get_or_insert_with(Net::default));
  CHANGED.notify_all();
  r
}

/// Forget the previous scenario.
pub fn reset(ip: [u8; 4], plans: Vec<Plan>) {
  with(|n| {
    let fds = std::mem::take(&mut n.fds);
    *n = Net {
      ip,
      plans: plans.into(),
      ..Default::default()
    };
    // sockets of a leaked client stay known, so that their faults stay theirs
    n.fds = fds;
    n.fds.clear();
  });
}

fn errno(e: c_int) {
  unsafe { *libc::__errno_location() = e }
}

struct Info {
  ai: libc::addrinfo,
  sa: libc::sockaddr_in,
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(
  node: *const c_char,
  service: *const c_char,
  _hints: *const libc::addrinfo,
  res: *mut *mut libc::addrinfo,
) -> c_int {
  let s = |p: *const c_char| {
    if p.is_null() {
      String::new()
    } else {
      CStr::from_ptr(p).to_string_lossy().into_owned()
    }
  };
  let (node, service) = (s(node), s(service));
  let (block, fail, ip) = with(|n| {
    n.dns.push((node.clone(), service));
    n.activity += 1;
    n.busy = true;
    n.current = n.plans.pop_front().unwrap_or_default();
    let fail = n.current.dns;
    if let Some(e) = fail {
      let k = n.attempts;
      n.attempts += 1;
      n.busy = false;
      n.failed.push((k, format!("dns {e}")));
    }
    (n.current.dns_block, fail, n.ip)
  });
  if block {
    let mut g = net();
    if let Some(n) = g.as_mut() {
      n.dns_blocked = true;
    }
    while g.as_ref().is_some_and(|n| !n.release) {
      g = CHANGED.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    return libc::EAI_AGAIN;
  }
  if let Some(e) = fail {
    return e;
  }
  let mut b = Box::new(Info {
    ai: std::mem::zeroed(),
    sa: std::mem::zeroed(),
  });
  b.sa.sin_family = libc::AF_INET as _;
  b.sa.sin_addr.s_addr = u32::from_ne_bytes(ip);
  b.ai.ai_family = libc::AF_INET;
  b.ai.ai_socktype = libc::SOCK_STREAM;
  b.ai.ai_protocol = libc::IPPROTO_TCP;
  b.ai.ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as _;
  b.ai.ai_addr = &mut b.sa as *mut _ as *mut libc::sockaddr;
  let p = Box::into_raw(b);
  *res = &mut (*p).ai;
  0
}

#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(res: *mut libc::addrinfo) {
  if !res.is_null() {
    drop(Box::from_raw(res as *mut Info));
  }
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> c_int {
  let mut text = String::new();
  let mut ours = false;
  let mut to = None;
  if !addr.is_null() && (*addr).sa_family as c_int == libc::AF_INET {
    let a = &*(addr as *const libc::sockaddr_in);
    let b = a.sin_addr.s_addr.to_ne_bytes();
    text = format!("{}.{}.{}.{}:{}", b[0], b[1], b[2], b[3], u16::from_be(a.sin_port));
    ours = true;
  } else if !addr.is_null() && (*addr).sa_family as c_int == libc::AF_INET6 {
    text = "ipv6".into();
    ours = true;
  }
  if ours {
    let p = with(|n| {
      n.connects.push(text);
      n.activity += 1;
      n.busy = false;
      let attempt = n.attempts;
      n.attempts += 1;
      let plan = std::mem::take(&mut n.current);
      if let ConnectPlan::Fail(e) = plan.connect {
        n.failed.push((attempt, format!("connect {e}")));
        return Err(e);
      }
      n.live = Some(fd);
      let sndbuf = plan.sndbuf;
      if let ConnectPlan::To(p) = plan.connect {
        to = Some(p);
      } else {
        n.reaching += 1;
      }
      n.fds.insert(
        fd,
        FdState {
          attempt,
          plan,
          sends: 0,
          sent: 0,
          received: 0,
          recv_fail_at_eof: None,
          over: false,
        },
      );
      Ok(sndbuf)
    });
    match p {
      Err(e) => {
        errno(e);
        return -1;
      }
      Ok(Some(b)) => {
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &b as *const _ as _, 4);
      }
      Ok(None) => {}
    }
  }
  if let Some(p) = to {
    let mut a = *(addr as *const libc::sockaddr_in);
    a.sin_port = p.to_be();
    return libc::syscall(libc::SYS_connect, fd, &a as *const _, len) as c_int;
  }
  libc::syscall(libc::SYS_connect, fd, addr, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
  let fd = libc::syscall(libc::SYS_socket, domain, ty, proto) as c_int;
  if fd >= 0 && (domain == libc::AF_INET || domain == libc::AF_INET6) {
    if let Some(n) = net().as_mut() {
      n.sockets.insert(fd);
    }
  }
  fd
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
  {
    let mut g = net();
    if let Some(n) = g.as_mut() {
      n.sockets.remove(&fd);
      if n.fds.remove(&fd).is_some() {
        n.activity += 1;
        if n.live == Some(fd) {
          n.live = None;
        }
      }
    }
  }
  libc::syscall(libc::SYS_close, fd) as c_int
}

enum Send {
  Fail(c_int),
  Go,
}

fn before_send(fd: c_int) -> Option<Send> {
  let mut g = net();
  let n = g.as_mut()?;
  let s = n.fds.get_mut(&fd)?;
  n.activity += 1;
  if let Some((k, e)) = s.plan.send_fail {
    if s.sends >= k {
      if e == libc::EAGAIN {
        n.blocked += 1;
      } else if !s.over {
        s.over = true;
        n.failed.push((s.attempt, format!("send {e}")));
      }
      return Some(Send::Fail(e));
    }
  }
  Some(Send::Go)
}

fn after_send(fd: c_int, r: ssize_t, bytes: *const u8) {
  if r > 0 {
    if let Some(n) = net().as_mut() {
      if let Some(s) = n.fds.get_mut(&fd) {
        s.sends += 1;
        s.sent += r as u64;
        if !bytes.is_null() && n.raw.len() < 1 << 20 {
          n.raw.extend_from_slice(unsafe { std::slice::from_raw_parts(bytes, r as usize) });
        }
      }
    }
  }
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
  match before_send(fd) {
    None => return libc::syscall(libc::SYS_sendto, fd, buf, len, flags, 0usize, 0usize) as ssize_t,
    Some(Send::Fail(e)) => {
      errno(e);
      return -1;
    }
    Some(Send::Go) => {}
  }
  let r = libc::syscall(libc::SYS_sendto, fd, buf, len, flags, 0usize, 0usize) as ssize_t;
  after_send(fd, r, buf as *const u8);
  r
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
  match before_send(fd) {
    None => return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t,
    Some(Send::Fail(e)) => {
      errno(e);
      return -1;
    }
    Some(Send::Go) => {}
  }
  let r = libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t;
  let mut left = r.max(0) as usize;
  for i in 0..cnt as usize {
    let v = &*iov.add(i);
    let k = v.iov_len.min(left);
    left -= k;
    if let Some(n) = net().as_mut() {
      if k > 0 && n.raw.len() < 1 << 20 {
        n.raw.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, k));
      }
    }
  }
  after_send(fd, r, std::ptr::null());
  r
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
  let plan = {
    let mut g = net();
    g.as_mut().and_then(|n| {
      let s = n.fds.get_mut(&fd)?;
      n.activity += 1;
      Some(s.recv_fail_at_eof)
    })
  };
  let Some(fail) = plan else {
    return libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, 0usize, 0usize) as ssize_t;
  };
  let r = libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, 0usize, 0usize) as ssize_t;
  let e = *libc::__errno_location();
  let mut out = e;
  let mut ret = r;
  {
    let mut g = net();
    if let Some(s) = g.as_mut().and_then(|n| n.fds.get_mut(&fd)) {
      if r > 0 {
        s.received += r as u64;
      }
      if r <= 0 {
        if let Some(f) = fail.filter(|_| r == 0) {
          // everything that had arrived was delivered first
          ret = -1;
          out = f;
          s.over = true;
        } else if r == 0 || (e != libc::EAGAIN && e != libc::EINTR) {
          s.over = true;
        }
      }
    }
  }
  CHANGED.notify_all();
  errno(out);
  ret
}

/// Bytes the client has not read yet on `fd`.
pub fn unread(fd: c_int) -> usize {
  let mut n: c_int = 0;
  unsafe { libc::ioctl(fd, libc::FIONREAD, &mut n) };
  n.max(0) as usize
}

/// Bytes the kernel has not delivered to the peer yet.
pub fn unsent(fd: c_int) -> usize {
  let mut n: c_int = 0;
  unsafe { libc::ioctl(fd, libc::TIOCOUTQ, &mut n) };
  n.max(0) as usize
}

static OUTPUT: Mutex<Vec<u8>> = Mutex::new(vec![]);
static CAPTURE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Record what is written to stdout and stderr.
pub fn capture_output(on: bool) {
  CAPTURE.store(on, std::sync::atomic::Ordering::SeqCst);
}

pub fn take_output() -> Vec<u8> {
  std::mem::take(&mut *OUTPUT.lock().unwrap_or_else(|e| e.into_inner()))
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
  if (fd == 1 || fd == 2) && CAPTURE.load(std::sync::atomic::Ordering::SeqCst) {
    let mut g = OUTPUT.lock().unwrap_or_else(|e| e.into_inner());
    if g.len() < 1 << 20 {
      g.extend_from_slice(std::slice::from_raw_parts(buf as *const u8, len));
    }
  }
  libc::syscall(libc::SYS_write, fd, buf, len) as ssize_t
}
