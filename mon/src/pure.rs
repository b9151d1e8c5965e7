//! C16: the result of parsing a line depends on the line alone. The result of every input is
//! first recorded in a fresh process that has parsed nothing else; the same input is then
//! parsed after other inputs, at the same and other addresses, on new and old threads, on
//! several threads at once, and read from several threads at once.

use crate::gen::{hex, Dict, Gen};
use crate::oracle::{dump_all, dump_lean, dump_owned};
use crate::rng::{fnv, Rng};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::{Arc, Barrier, Mutex};
use tmi::{IrcMessage, IrcMessageRef};
#[cfg(feature = "typed")]
use tmi::Message;

/// Wrapper that lets the harness compile whatever the crate says about its types; whether
/// they are `Send`/`Sync` is observed separately.
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

#[macro_export]
macro_rules! implements {
  ($t:ty: $b:path) => {{
    #[allow(dead_code)]
    trait No {
      const IT: bool = false;
    }
    impl<T: ?Sized> No for T {}
    struct W<T: ?Sized>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    impl<T: ?Sized + $b> W<T> {
      const IT: bool = true;
    }
    <W<$t>>::IT
  }};
}

fn auto_traits() -> Vec<(&'static str, bool)> {
  #[allow(unused_mut)]
  let mut v = vec![
    ("IrcMessage: Send", implements!(IrcMessage: Send)),
    ("IrcMessage: Sync", implements!(IrcMessage: Sync)),
    ("IrcMessageRef: Send", implements!(IrcMessageRef<'static>: Send)),
    ("IrcMessageRef: Sync", implements!(IrcMessageRef<'static>: Sync)),
    ("Command: Send", implements!(tmi::Command<'static>: Send)),
    ("Command: Sync", implements!(tmi::Command<'static>: Sync)),
    ("Tag: Send", implements!(tmi::Tag<'static>: Send)),
    ("Tag: Sync", implements!(tmi::Tag<'static>: Sync)),
    ("Prefix: Send", implements!(tmi::Prefix<'static>: Send)),
    ("Prefix: Sync", implements!(tmi::Prefix<'static>: Sync)),
  ];
  #[cfg(feature = "typed")]
  v.extend([
    ("Message: Send", implements!(Message<'static>: Send)),
    ("Message: Sync", implements!(Message<'static>: Sync)),
    ("MessageParseError: Send", implements!(tmi::MessageParseError: Send)),
    ("MessageParseError: Sync", implements!(tmi::MessageParseError: Sync)),
  ]);
  v
}

/// A buffer that holds one input after the other at one address.
struct Spot {
  buf: Vec<u8>,
}

impl Spot {
  fn new(max: usize) -> Spot {
    Spot { buf: vec![b' '; max + 192] }
  }
  fn at<'a>(&'a mut self, s: &str, align: usize) -> &'a str {
    let base = self.buf.as_ptr() as usize;
    let start = (64 - base % 64) % 64 + align % 64;
    self.buf[start..start + s.len()].copy_from_slice(s.as_bytes());
    std::str::from_utf8(&self.buf[start..start + s.len()]).expect("copied str")
  }
}

fn mutate_same_len(r: &mut Rng, s: &str) -> String {
  let mut b = s.as_bytes().to_vec();
  for _ in 0..30 {
    if b.is_empty() {
      break;
    }
    let i = r.below(b.len());
    let c = b[i];
    let n = match c {
      b'0'..=b'9' => b'0' + r.below(10) as u8,
      b'a'..=b'z' => b'a' + r.below(26) as u8,
      b'A'..=b'Z' => b'A' + r.below(26) as u8,
      b';' | b'=' | b' ' | b':' | b'!' | b'@' | b'#' | b'/' | b',' | b'-' | b'\\' if r.pct(25) => {
        *r.pick(b";= :!@#/,-\\a")
      }
      _ => continue,
    };
    if n != c {
      b[i] = n;
      if r.pct(70) {
        break;
      }
    }
  }
  String::from_utf8(b).expect("ascii for ascii")
}

/// The same length and mostly the same layout, other boundaries inside: what a memo keyed by place, length or prefix mixes up.
fn twin(r: &mut Rng, s: &str) -> String {
  let Some((head, rest)) = s.strip_prefix('@').and_then(|l| l.split_once(' ')) else {
    return mutate_same_len(r, s);
  };
  let mut tags: Vec<String> = head.split(';').map(str::to_string).collect();
  match r.below(10) {
    // tags in another order
    0 => {
      let k = r.below(tags.len());
      tags.rotate_left(k);
    }
    1 => {
      let (i, j) = (r.below(tags.len()), r.below(tags.len()));
      tags.swap(i, j);
    }
    // two tags of one shape exchange their values
    2 => {
      let i = r.below(tags.len());
      let val = |t: &str| t.split_once('=').map(|x| (x.0.to_string(), x.1.to_string()));
      if let Some((ki, vi)) = val(&tags[i]) {
        let same: Vec<usize> = (0..tags.len())
          .filter(|&j| j != i && val(&tags[j]).is_some_and(|(_, v)| v.len() == vi.len() && v != vi))
          .collect();
        if !same.is_empty() {
          let j = *r.pick(&same);
          let (kj, vj) = val(&tags[j]).unwrap();
          tags[i] = format!("{ki}={vj}");
          tags[j] = format!("{kj}={vi}");
        }
      }
    }
    _ => {
      // rather a value with structure
      let long: Vec<usize> = (0..tags.len())
        .filter(|&i| tags[i].split_once('=').is_some_and(|(_, v)| v.len() > 2))
        .collect();
      let rich: Vec<usize> = long.iter().copied().filter(|&i| tags[i].contains([',', '/', '\\', '-'])).collect();
      let from = if !rich.is_empty() && r.pct(70) { &rich } else { &long };
      if !from.is_empty() {
        let i = *r.pick(from);
        let tag = tags[i].clone();
        let (k, v) = tag.split_once('=').unwrap();
        let mut cs: Vec<char> = v.chars().collect();
        let new: String = match r.below(4) {
          // items in another order
          0 | 1 => {
            let sep = [',', '/'].into_iter().find(|c| v.contains(*c)).unwrap_or('-');
            let mut items: Vec<&str> = v.split(sep).collect();
            let k = r.below(items.len());
            let k = k.max(1) % items.len();
            items.rotate_left(k);
            items.join(&sep.to_string())
          }
          // an escape appears or goes away
          2 => {
            let at: Vec<usize> = (0..cs.len() - cs.len().min(1)).filter(|&i| cs[i].is_ascii() && cs[i + 1].is_ascii()).collect();
            if !at.is_empty() {
              let esc: Vec<usize> = at.iter().copied().filter(|&i| cs[i] == '\\').collect();
              if !esc.is_empty() && r.pct(50) {
                cs[*r.pick(&esc)] = 'q';
              } else {
                let i = *r.pick(&at);
                cs[i] = '\\';
                cs[i + 1] = *r.pick(&['s', ':', '\\', 'n', 'x']);
              }
            }
            cs.into_iter().collect()
          }
          _ => {
            r.shuffle(&mut cs);
            cs.into_iter().collect()
          }
        };
        tags[i] = format!("{k}={new}");
      }
    }
  }
  format!("@{} {rest}", tags.join(";"))
}

/// The value of one tag replaced by that of another line.
fn cross(r: &mut Rng, s: &str, other: &str) -> String {
  let parts = |l: &str| -> Vec<String> {
    match l.strip_prefix('@').and_then(|l| l.split_once(' ')) {
      Some((t, _)) => t.split(';').map(str::to_string).collect(),
      None => vec![],
    }
  };
  let (mut a, b) = (parts(s), parts(other));
  if a.is_empty() || b.is_empty() {
    return mutate_same_len(r, s);
  }
  let rest = s.split_once(' ').map(|x| x.1).unwrap_or("");
  for _ in 0..12 {
    let i = r.below(a.len());
    let Some((k, _)) = a[i].split_once('=') else { continue };
    if let Some(v) = b.iter().find(|x| x.split_once('=').map(|y| y.0) == Some(k)) {
      if *v != a[i] {
        a[i] = v.clone();
        break;
      }
    }
  }
  format!("@{} {rest}", a.join(";"))
}

pub struct Corpus {
  pub lines: Vec<String>,
  pub max: usize,
}

pub fn corpus(seed: u64, n: usize, d: Dict, tiny: bool) -> Corpus {
  let mut g = Gen::new(seed ^ 0xc16, d);
  g.tiny = tiny;
  g.big = false;
  let mut r = Rng::new(seed ^ 0xc1616);
  let mut lines: Vec<String> = vec![];
  const CMDS: &[&str] = &[
    "PRIVMSG", "PRIVMSG", "PRIVMSG", "USERNOTICE", "USERNOTICE", "USERNOTICE", "CLEARCHAT", "CLEARMSG",
    "ROOMSTATE", "USERSTATE", "GLOBALUSERSTATE", "WHISPER", "NOTICE", "JOIN", "PART", "PING", "PONG", "353",
  ];
  while lines.len() < n {
    let base = if r.pct(80) {
      let c = *r.pick(CMDS);
      g.line(Some(c))
    } else {
      g.raw_case()
    };
    lines.push(base.clone());
    let kin = r.below(6);
    for _ in 0..kin {
      let from = if r.pct(60) { base.clone() } else { lines[lines.len() - 1].clone() };
      let s = if r.pct(45) {
        twin(&mut r, &from)
      } else if r.pct(60) {
        mutate_same_len(&mut r, &from)
      } else {
        let c = *r.pick(CMDS);
        let o = g.line(Some(c));
        cross(&mut r, &from, &o)
      };
      lines.push(s);
    }
    if r.pct(10) {
      lines.push(base);
    }
  }
  let max = lines.iter().map(|l| l.len()).max().unwrap_or(0);
  Corpus { lines, max }
}

fn digest(s: &str) -> u64 {
  fnv(dump_all(s).as_bytes()).max(2)
}

/// The complete result, that of a borrowed parse only, that of an owned parse only.
const MODES: usize = 3;
fn digest_as(mode: usize, s: &str) -> u64 {
  match mode {
    0 => digest(s),
    m => fnv(dump_lean(s, m == 2).as_bytes()).max(2),
  }
}

fn align_of(s: &str) -> usize {
  // the same for all inputs of one length
  s.len() * 7 % 64
}

/// 0: never ran, 1: died
#[cfg(not(miri))]
fn baseline_forked(c: &Corpus, procs: usize) -> Vec<u64> {
  let n = c.lines.len();
  unsafe {
    let p = libc::mmap(
      std::ptr::null_mut(),
      MODES * n * 8,
      libc::PROT_READ | libc::PROT_WRITE,
      libc::MAP_SHARED | libc::MAP_ANONYMOUS,
      -1,
      0,
    ) as *mut u64;
    assert!(p as *mut libc::c_void != libc::MAP_FAILED);
    let mut kids = vec![];
    for w in 0..procs {
      let k = libc::fork();
      assert!(k >= 0, "fork");
      if k == 0 {
        let mut i = w;
        while i < n {
          let c1 = libc::fork();
          if c1 == 0 {
            let mut spot = Spot::new(c.max);
            let s = &c.lines[i];
            let s = spot.at(s, align_of(s));
            for m in 0..MODES {
              p.add(m * n + i).write_volatile(digest_as(m, s));
            }
            libc::_exit(0);
          }
          if c1 < 0 {
            libc::_exit(9);
          }
          let mut st = 0;
          libc::waitpid(c1, &mut st, 0);
          for m in 0..MODES {
            if p.add(m * n + i).read_volatile() == 0 {
              p.add(m * n + i).write_volatile(1);
            }
          }
          i += procs;
        }
        libc::_exit(0);
      }
      kids.push(k);
    }
    for k in kids {
      let mut st = 0;
      libc::waitpid(k, &mut st, 0);
      assert!(st == 0, "baseline worker ended with {st}");
    }
    let v = std::slice::from_raw_parts(p, MODES * n).to_vec();
    libc::munmap(p as _, MODES * n * 8);
    v
  }
}

/// Digest of `s` in a new process which parsed `before` first.
#[cfg(not(miri))]
fn after(before: &[&str], s: &str, max: usize) -> u64 {
  unsafe {
    let p = libc::mmap(
      std::ptr::null_mut(),
      8,
      libc::PROT_READ | libc::PROT_WRITE,
      libc::MAP_SHARED | libc::MAP_ANONYMOUS,
      -1,
      0,
    ) as *mut u64;
    let k = libc::fork();
    if k == 0 {
      let mut spot = Spot::new(max);
      for b in before {
        digest(spot.at(b, align_of(b)));
      }
      p.write_volatile(digest(spot.at(s, align_of(s))));
      libc::_exit(0);
    }
    let mut st = 0;
    libc::waitpid(k, &mut st, 0);
    let v = p.read_volatile();
    libc::munmap(p as _, 8);
    v
  }
}

#[derive(Default)]
struct Log {
  compared: BTreeMap<&'static str, u64>,
  viol: BTreeMap<&'static str, (u64, String, String)>,
}

impl Log {
  fn bad(&mut self, phase: &'static str, s: &str, msg: String) {
    let e = self.viol.entry(phase).or_insert((0, msg.clone(), s.to_string()));
    e.0 += 1;
    if s.len() < e.2.len() {
      e.1 = msg;
      e.2 = s.to_string();
    }
  }
  fn merge(&mut self, o: Log) {
    for (k, v) in o.compared {
      *self.compared.entry(k).or_default() += v;
    }
    for (k, v) in o.viol {
      match self.viol.get_mut(k) {
        None => {
          self.viol.insert(k, v);
        }
        Some(e) => {
          e.0 += v.0;
          if v.2.len() < e.2.len() {
            e.1 = v.1;
            e.2 = v.2;
          }
        }
      }
    }
  }
}

/// Everything one thread checks while parsing in the given order.
fn pass(phase: &'static str, c: &Corpus, base: &[u64], order: impl Iterator<Item = usize>, spot: &mut Spot, shift: usize) -> Log {
  pass_as(0, phase, c, base, order, spot, shift)
}

fn pass_as(mode: usize, phase: &'static str, c: &Corpus, base: &[u64], order: impl Iterator<Item = usize>, spot: &mut Spot, shift: usize) -> Log {
  let base = &base[mode * c.lines.len()..][..c.lines.len()];
  let mut l = Log::default();
  for i in order {
    let s = &c.lines[i];
    if base[i] < 2 {
      continue;
    }
    // a line buffer that is used again starts all lines at one address, whatever their length
    let align = if mode == 0 { align_of(s) + shift } else { 0 };
    let h = digest_as(mode, spot.at(s, align));
    *l.compared.entry(phase).or_default() += 1;
    if h != base[i] {
      l.bad(phase, s, format!("parsed {phase} the result differs from that of a fresh process"));
    }
  }
  l
}

pub struct Opt {
  pub seed: u64,
  pub cases: usize,
  pub threads: usize,
  pub fork: bool,
  pub tiny: bool,
  pub filler: usize,
}

/// Returns the JSON report.
pub fn run(o: &Opt, d: Dict) -> String {
  let c = corpus(o.seed, o.cases, d, o.tiny);
  let n = c.lines.len();
  let mut log = Log::default();
  // before the first parse in this process
  #[cfg(not(miri))]
  let base = if o.fork { baseline_forked(&c, o.threads) } else { seq_base(&c) };
  #[cfg(miri)]
  let base = seq_base(&c);
  let died = base[..n].iter().filter(|b| **b < 2).count();
  let mut r = Rng::new(o.seed ^ 0x1616);

  // one thread: in order at one address, shuffled, repeated, elsewhere
  let mut spot = Spot::new(c.max);
  let l = pass("in sequence at one address", &c, &base, 0..n, &mut spot, 0);
  #[cfg(not(miri))]
  if o.fork && !l.viol.is_empty() {
    witness(&c, &base, &mut log);
  }
  log.merge(l);
  log.merge(pass_as(1, "one after the other in one buffer", &c, &base, 0..n, &mut spot, 0));
  log.merge(pass_as(2, "one after the other, owned", &c, &base, 0..n, &mut spot, 0));
  let mut order: Vec<usize> = (0..n).collect();
  if !o.tiny {
    // every two neighbours back and forth
    let zigzag = || (1..n).flat_map(|i| [i - 1, i, i - 1]);
    log.merge(pass_as(1, "back and forth in one buffer", &c, &base, zigzag(), &mut spot, 0));
    log.merge(pass_as(2, "back and forth, owned", &c, &base, zigzag(), &mut spot, 0));
    r.shuffle(&mut order);
    log.merge(pass("in another order", &c, &base, order.iter().copied(), &mut spot, 0));
    log.merge(pass("in reverse order, each twice", &c, &base, (0..2 * n).rev().map(|i| i / 2), &mut spot, 0));
    let mut other = Spot::new(c.max);
    log.merge(pass("at other addresses", &c, &base, order.iter().copied(), &mut other, 13));
  }
  // after many parses
  if o.filler > 0 {
    for i in 0..o.filler {
      let s = match i % 4 {
        0 => "PING",
        1 => "@a=b;c=d :x!x@x PRIVMSG #c :t",
        2 => ":a",
        _ => "@ ",
      };
      std::hint::black_box(IrcMessageRef::parse(s).is_some());
      if i % 64 == 0 {
        let _ = std::hint::black_box(IrcMessage::parse("@badges=a/1;badge-info=a/2 :x PRIVMSG #c :t"));
      }
    }
    log.merge(pass("after many parses", &c, &base, order.iter().copied(), &mut spot, 0));
  }
  // several threads, each with its own order; then threads that start anew for each piece
  let t = o.threads.max(2);
  let total = Mutex::new(log);
  let gate = Barrier::new(t);
  let piece = if o.tiny { 6 } else { 512 };
  std::thread::scope(|sc| {
    for k in 0..t {
      let (c, base, total, gate) = (&c, &base, &total, &gate);
      let mut order = order.clone();
      let mut r = Rng::new(o.seed ^ (k as u64) << 32 ^ 0x77);
      sc.spawn(move || {
        r.shuffle(&mut order);
        let mut spot = Spot::new(c.max);
        gate.wait();
        let mut l = pass("on several threads at once", c, base, order.iter().copied(), &mut spot, 0);
        // all threads on the same few lines
        gate.wait();
        let few: Vec<usize> = (0..piece.min(n) * 4).map(|i| (i / 4 * 31) % n).collect();
        l.merge(pass("on several threads, the same lines", c, base, few.iter().copied(), &mut spot, 0));
        total.lock().unwrap().merge(l);
      });
    }
  });
  if !o.tiny {
    std::thread::scope(|sc| {
      for k in 0..t {
        let (c, base, total, order) = (&c, &base, &total, &order);
        sc.spawn(move || {
          for ch in order.chunks(piece).skip(k).step_by(t) {
            let l = std::thread::scope(|s2| {
              s2.spawn(|| {
                let mut spot = Spot::new(c.max);
                pass("on a new thread", c, base, ch.iter().copied(), &mut spot, 0)
              })
              .join()
              .expect("pass")
            });
            total.lock().unwrap().merge(l);
          }
        });
      }
    });
  }
  let mut log = total.into_inner().unwrap();
  log.merge(shared(&c, t, piece, o.seed));
  for (name, ok) in auto_traits() {
    *log.compared.entry("thread-safety markers").or_default() += 1;
    if !ok {
      log.bad("thread-safety markers", "", format!("{name} no longer holds"));
    }
  }

  let distinct: std::collections::HashSet<u64> = c.lines.iter().map(|l| fnv(l.as_bytes())).collect();
  let results: std::collections::HashSet<u64> = base[..n].iter().copied().collect();
  let all = base[..n].iter().fold(0u64, |h, b| (h ^ b).wrapping_mul(0x0100_0000_01b3).rotate_left(5));
  let mut j = String::new();
  let _ = write!(
    j,
    "{{\"all\":\"{all:016x}\",\"lines\":{n},\"died\":{died},\"distinct\":{},\"results\":{},\"threads\":{t},\"compared\":{{",
    distinct.len(),
    results.len()
  );
  for (i, (k, v)) in log.compared.iter().enumerate() {
    let _ = write!(j, "{}\"{k}\":{v}", if i > 0 { "," } else { "" });
  }
  j.push_str("},\"samples\":[");
  for (i, s) in c.lines.iter().filter(|s| s.len() < 300).take(3).enumerate() {
    let _ = write!(j, "{}\"{}\"", if i > 0 { "," } else { "" }, hex(s.as_bytes()));
  }
  j.push_str("],\"violations\":[");
  for (i, (k, (n, m, s))) in log.viol.iter().enumerate() {
    let _ = write!(
      j,
      "{}{{\"sig\":\"{k}\",\"count\":{n},\"msg\":\"{}\",\"hex\":\"{}\"}}",
      if i > 0 { "," } else { "" },
      hex(m.as_bytes()),
      hex(s.as_bytes())
    );
  }
  j.push_str("]}");
  j
}

fn seq_base(c: &Corpus) -> Vec<u64> {
  (0..MODES)
    .flat_map(|m| {
      c.lines.iter().map(move |s| {
        // each input has an address of its own here
        let s = s.clone();
        digest_as(m, &s)
      })
    })
    .collect()
}

/// A short history that changes the result of a line.
#[cfg(not(miri))]
fn witness(c: &Corpus, base: &[u64], log: &mut Log) {
  let mut tries = 0;
  for i in 1..c.lines.len() {
    let s = &c.lines[i];
    let lo = i.saturating_sub(12);
    let before: Vec<&str> = c.lines[lo..i].iter().map(|x| x.as_str()).collect();
    tries += 1;
    if tries > 3000 {
      return;
    }
    let h = after(&before, s, c.max);
    if h < 2 || h == base[i] {
      continue;
    }
    for b in before.iter().rev() {
      let h = after(&[b], s, c.max);
      if h >= 2 && h != base[i] {
        log.bad("after another line", s, format!("parsed after {b:?}, {s:?} gives another result"));
        return;
      }
    }
    log.bad("after another line", s, format!("parsed after {} lines such as {:?}, {s:?} gives another result", before.len(), before[0]));
    return;
  }
}

/// Owned messages read by several threads at once, moved between threads and dropped there.
fn shared(c: &Corpus, t: usize, piece: usize, seed: u64) -> Log {
  let mut log = Log::default();
  let limit = if piece < 100 { 2 } else { 12 };
  let phase = "read from several threads at once";
  for (round, ch) in c.lines.chunks(piece).take(limit).enumerate() {
    // made here, read there
    let items: Vec<(&str, Arc<Share<Option<IrcMessage>>>)> = ch
      .iter()
      .map(|s| {
        let m = crate::guarded(|| IrcMessage::parse(s.as_str())).ok().flatten();
        (s.as_str(), Arc::new(Share(m)))
      })
      .collect();
    // what a message of the same line, read by this thread alone, answers
    let want: Vec<u64> = ch
      .iter()
      .map(|s| {
        let m = crate::guarded(|| IrcMessage::parse(s.as_str())).ok().flatten();
        answers(&m)
      })
      .collect();
    let gate = Barrier::new(t);
    let total = Mutex::new(Log::default());
    std::thread::scope(|sc| {
      for k in 0..t {
        let mut mine: Vec<_> = items.clone();
        let (want, gate, total) = (&want, &gate, &total);
        sc.spawn(move || {
          let mut order: Vec<usize> = (0..mine.len()).collect();
          if k % 2 == 1 {
            Rng::new(seed ^ (k * 1000 + round) as u64).shuffle(&mut order);
          }
          let mut l = Log::default();
          gate.wait();
          for i in order {
            let h = answers(&mine[i].1 .0);
            *l.compared.entry(phase).or_default() += 1;
            if h != want[i] {
              l.bad(phase, mine[i].0, "an owned message answers differently when other threads read it too".into());
            }
          }
          // the last reader frees
          mine.clear();
          total.lock().unwrap().merge(l);
        });
      }
      drop(items);
    });
    log.merge(total.into_inner().unwrap());
  }
  log
}

fn answers(m: &Option<IrcMessage>) -> u64 {
  let r = crate::guarded(|| {
    let mut out = String::new();
    if let Some(m) = m {
      dump_owned(m, &mut out);
      #[cfg(feature = "typed")]
      if let Ok(t) = m.as_typed() {
        // a typed message is read twice, and its clone dropped
        let c = t.clone();
        let _ = write!(out, "{}", crate::oracle::typed::summary(&Ok(c)));
      }
    }
    fnv(out.as_bytes())
  });
  r.unwrap_or(7)
}
