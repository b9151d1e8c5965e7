//! Coverage-guided workload generation: the compiler's edge counters and comparisons say
//! which inputs reached something new; those are kept and mutated further.
//!
//! The monitors decide exactly as in the generated workload; this only changes what they see.

use crate::gen::Gen;
use std::sync::atomic::{AtomicUsize, Ordering};

const MAX_REGIONS: usize = 4096;
static START: [AtomicUsize; MAX_REGIONS] = [const { AtomicUsize::new(0) }; MAX_REGIONS];
static STOP: [AtomicUsize; MAX_REGIONS] = [const { AtomicUsize::new(0) }; MAX_REGIONS];
static REGIONS: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
  if a.is_null() || a == b {
    return;
  }
  for s in START.iter().take(REGIONS.load(Ordering::SeqCst)) {
    if s.load(Ordering::SeqCst) == a as usize {
      return;
    }
  }
  let k = REGIONS.load(Ordering::SeqCst);
  if k < MAX_REGIONS {
    START[k].store(a as usize, Ordering::SeqCst);
    STOP[k].store(b as usize, Ordering::SeqCst);
    REGIONS.store(k + 1, Ordering::SeqCst);
  }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

/// How close comparisons with constants came: one bit per (constant, width, equal bits).
const CMP: usize = 1 << 16;
static mut CMPS: [u8; CMP] = [0; CMP];

#[inline(always)]
fn near(c: u64, v: u64, width: u64) {
  let eq = (c ^ v).count_ones() as u64;
  // also how far off the value is: lengths and counts grow step by step
  let far = 64 - c.abs_diff(v).leading_zeros() as u64;
  let h = (c.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ width.wrapping_mul(0xff51_afd7_ed55_8ccd)).rotate_left(29);
  for k in [h.wrapping_add(eq.wrapping_mul(0x1234_5677)), h.wrapping_add((far + 100).wrapping_mul(0x7654_3211))] {
    let k = (k ^ (k >> 31)) as usize % CMP;
    unsafe {
      let p = (&raw mut CMPS) as *mut u8;
      *p.add(k) = 1;
    }
  }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(_: u8, _: u8) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(c: u16, v: u16) {
  near(c as u64, v as u64, 2)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(c: u32, v: u32) {
  near(c as u64, v as u64, 4)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(c: u64, v: u64) {
  near(c, v, 8)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_: u64, _: *const u64) {}

/// What has been reached so far.
pub struct Fuzzer {
  seen: Vec<u8>,
  near: Vec<u8>,
  corpus: Vec<String>,
  /// how many inputs were kept for reaching something new
  pub kept: u64,
  pub edges: usize,
  pub points: usize,
}

fn bucket(n: u8) -> u8 {
  match n {
    0 => 0,
    1 => 1,
    2 => 2,
    3 => 4,
    4..=7 => 8,
    8..=15 => 16,
    16..=31 => 32,
    32..=127 => 64,
    _ => 128,
  }
}

impl Fuzzer {
  pub fn new() -> Fuzzer {
    let n: usize = (0..REGIONS.load(Ordering::SeqCst))
      .map(|k| STOP[k].load(Ordering::SeqCst) - START[k].load(Ordering::SeqCst))
      .sum();
    if n == 0 {
      eprintln!("HARNESS: this build has no coverage counters");
      std::process::exit(3);
    }
    Fuzzer {
      seen: vec![0; n],
      near: vec![0; CMP],
      corpus: vec![],
      kept: 0,
      edges: 0,
      points: n,
    }
  }

  /// The next input.
  pub fn next(&mut self, prop: &str, g: &mut Gen) -> String {
    if self.corpus.len() < 30 || g.r.pct(12) {
      return crate::generate(prop, g);
    }
    let pick = |g: &mut Gen, c: &[String]| {
      // recent finds more often, long ones less often
      let n = c.len();
      let mut best: Option<&String> = None;
      for _ in 0..3 {
        let k = if g.r.pct(50) { n - 1 - g.r.below(n.min(40)) } else { g.r.below(n) };
        if best.is_none_or(|b| c[k].len() < b.len()) {
          best = Some(&c[k]);
        }
        if g.r.pct(10) {
          break;
        }
      }
      best.unwrap().clone()
    };
    let mut s = pick(g, &self.corpus);
    let other = pick(g, &self.corpus);
    for _ in 0..g.r.range(1, 4) {
      s = match g.r.below(10) {
        0..=2 => g.mutate(s),
        3..=6 => tags(g, s, &other),
        7 => {
          // repeat a piece, so that lengths and counts grow
          let c: Vec<char> = s.chars().collect();
          let a = g.r.below(c.len() + 1);
          let b = (a + g.r.below(40)).min(c.len());
          let n = if g.r.pct(90) { g.r.range(1, 8) } else { *g.r.pick(&[16, 64, 300]) };
          if c.len() + (b - a) * n > 20_000 {
            s
          } else {
            let mut o: String = c[..b].iter().collect();
            for _ in 0..n {
              o.extend(&c[a..b]);
            }
            o.extend(&c[b..]);
            o
          }
        }
        8 => {
          // the head of one, the tail of another
          let cut = |g: &mut Gen, s: &str| {
            let mut k = g.r.below(s.len() + 1);
            while !s.is_char_boundary(k) {
              k -= 1;
            }
            k
          };
          let (a, b) = (cut(g, &s), cut(g, &other));
          format!("{}{}", &s[..a], &other[b..])
        }
        _ => {
          let mut k = g.r.below(s.len() + 1);
          while !s.is_char_boundary(k) {
            k -= 1;
          }
          let w = match g.r.below(3) {
            0 if !g.d.words.is_empty() => g.r.pick(&g.d.words).clone(),
            1 => g.num(),
            _ => g.esc_text(),
          };
          format!("{}{w}{}", &s[..k], &s[k..])
        }
      };
    }
    if s.len() > 40_000 {
      let mut k = 40_000;
      while !s.is_char_boundary(k) {
        k -= 1;
      }
      s.truncate(k);
    }
    s
  }

  pub fn before(&mut self) {
    for k in 0..REGIONS.load(Ordering::SeqCst) {
      let (a, b) = (START[k].load(Ordering::SeqCst), STOP[k].load(Ordering::SeqCst));
      unsafe { std::ptr::write_bytes(a as *mut u8, 0, b - a) }
    }
    unsafe { std::ptr::write_bytes((&raw mut CMPS) as *mut u8, 0, CMP) }
  }

  pub fn after(&mut self, s: &str) {
    let mut new = false;
    let mut i = 0;
    for k in 0..REGIONS.load(Ordering::SeqCst) {
      let (a, b) = (START[k].load(Ordering::SeqCst), STOP[k].load(Ordering::SeqCst));
      let c = unsafe { std::slice::from_raw_parts(a as *const u8, b - a) };
      for x in c {
        if *x != 0 {
          let m = bucket(*x);
          if self.seen[i] & m == 0 {
            if self.seen[i] == 0 {
              self.edges += 1;
            }
            self.seen[i] |= m;
            new = true;
          }
        }
        i += 1;
      }
    }
    let c = unsafe { std::slice::from_raw_parts((&raw const CMPS) as *const u8, CMP) };
    for (n, x) in self.near.chunks_exact_mut(8).zip(c.chunks_exact(8)) {
      let (p, q) = (u64::from_ne_bytes(n[..].try_into().unwrap()), u64::from_ne_bytes(x.try_into().unwrap()));
      if q & !p != 0 {
        n.copy_from_slice(&(p | q).to_ne_bytes());
        new = true;
      }
    }
    if new && s.len() <= 40_000 {
      self.kept += 1;
      self.corpus.push(s.to_string());
    }
  }
}

impl Default for Fuzzer {
  fn default() -> Self {
    Self::new()
  }
}

/// Rearrange the tags of a line.
fn tags(g: &mut Gen, s: String, other: &str) -> String {
  let split = |s: &str| -> (Vec<String>, String) {
    match s.strip_prefix('@').and_then(|r| r.split_once(' ')) {
      Some((t, r)) => (t.split(';').map(|t| t.to_string()).collect(), r.to_string()),
      None => (vec![], s.to_string()),
    }
  };
  let (mut t, rest) = split(&s);
  let (u, urest) = split(other);
  if t.len() > 2_000 {
    return s;
  }
  for _ in 0..g.r.range(1, 3) {
    let at = g.r.below(t.len() + 1);
    match g.r.below(9) {
      0 if !u.is_empty() => t.insert(at, g.r.pick(&u).clone()),
      1 if !t.is_empty() => {
        let x = g.r.pick(&t).clone();
        t.insert(at, x)
      }
      2 if at < t.len() => {
        t.remove(at);
      }
      3 if at < t.len() => {
        let b = g.r.below(t.len());
        t.swap(at, b)
      }
      // another value
      4 | 5 if at < t.len() => {
        let k = t[at].split('=').next().unwrap_or("").to_string();
        let v = match g.r.below(8) {
          0 => g.num(),
          1 => g.esc_text(),
          2 => g.badges(),
          3 => g.badge_info(),
          4 => String::new(),
          5 if !g.d.words.is_empty() => g.r.pick(&g.d.words).replace([' ', ';'], ""),
          6 => t[g.r.below(t.len())].split_once('=').map(|x| x.1.to_string()).unwrap_or_default(),
          _ => g.mutate(t[at].split_once('=').map(|x| x.1.to_string()).unwrap_or_default()).replace([' ', ';'], "_"),
        };
        t[at] = format!("{k}={v}");
      }
      // another key
      6 if at < t.len() => {
        let all = crate::oracle::TAGS;
        let k = all[g.r.below(all.len())].1;
        let v = t[at].split_once('=').map(|x| x.1.to_string()).unwrap_or_default();
        t[at] = format!("{k}={v}");
      }
      _ => {
        let all = crate::oracle::TAGS;
        let k = all[g.r.below(all.len())].1;
        let v = if g.r.pct(50) { g.num() } else { g.esc_text() };
        t.insert(at, format!("{k}={v}"));
      }
    }
  }
  let rest = if g.r.pct(10) { urest } else { rest };
  if t.is_empty() {
    rest
  } else {
    format!("@{} {rest}", t.join(";"))
  }
}
