use mon::gen::{hex, unhex_str, Dict, Gen, SWEEP_PATTERNS};
use mon::rng::{fnv, Rng};
use mon::{check, Viol};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

struct Args(HashMap<String, String>);

impl Args {
  fn parse() -> (String, Args) {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut m = HashMap::new();
    while let Some(k) = it.next() {
      let k = k.trim_start_matches("--").to_string();
      let v = it.next().unwrap_or_default();
      m.insert(k, v);
    }
    (cmd, Args(m))
  }
  fn s(&self, k: &str, d: &str) -> String {
    self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
  }
  fn n(&self, k: &str, d: u64) -> u64 {
    self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
  }
}

fn json_str(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 || c as u32 == 127 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn main() {
  mon::install_hook();
  let (cmd, a) = Args::parse();
  match cmd.as_str() {
    "run" => run(&a),
    "digest" => digest(&a),
    "emit" => {
      // the input of one digest case
      let mut c = Corpus::new(&a);
      let want = a.n("index", 0);
      for i in 0..=want {
        let s = c.next();
        if i == want {
          println!("{}", hex(s.as_bytes()));
        }
      }
    }
    "dumpf" => {
      let s = input(&a);
      print!("{}", mon::oracle::dump_raw(&s));
      #[cfg(feature = "typed")]
      {
        let (t, j) = mon::oracle::dump_typed(&s);
        print!("\n--\n{t}\n--\n{j}");
      }
    }
    "dump" => print!("{}", mon::oracle::dump(&input(&a))),
    "check" => {
      let s = input(&a);
      let o = check(&a.s("prop", ""), &s);
      for v in &o.viol {
        println!("{} :: {}", v.sig, v.msg);
      }
      println!("decided={} outcome={}", o.decided, o.outcome);
      std::process::exit(if o.viol.is_empty() { 0 } else { 1 });
    }
    "interp" => interp(&a),
    "pure" => {
      let o = mon::pure::Opt {
        seed: a.n("seed", 1),
        cases: a.n("cases", 4000) as usize,
        threads: a.n("threads", 8) as usize,
        fork: a.n("fork", 1) == 1 && !cfg!(miri),
        tiny: a.n("tiny", 0) == 1,
        filler: a.n("filler", 300_000) as usize,
      };
      println!("REPORT {}", mon::pure::run(&o, dict(&a)));
    }
    _ => {
      eprintln!("usage: mon run|digest|emit|dump|check|interp|pure --key value ...");
      std::process::exit(3);
    }
  }
}

fn input(a: &Args) -> String {
  let h = a.s("hex", "");
  if h.is_empty() {
    let f = a.s("file", "");
    let t = std::fs::read_to_string(&f).expect("read replay");
    return unhex_str(t.trim());
  }
  unhex_str(&h)
}

fn dict(a: &Args) -> Dict {
  Dict::load(&a.s("dict", ""))
}

/// The deterministic corpus of the build comparison (C04): a sweep, then generated cases.
struct Corpus {
  g: Gen,
  sweep: u64,
  max: usize,
  i: u64,
}

impl Corpus {
  fn new(a: &Args) -> Corpus {
    let mut g = Gen::new(a.n("seed", 1) ^ 0xc04, dict(a));
    g.tiny = a.n("tiny", 0) == 1;
    g.big = !g.tiny;
    let max = a.n("sweep", 0) as usize;
    Corpus {
      g,
      sweep: sweep_size(max),
      max,
      i: 0,
    }
  }
  fn next(&mut self) -> String {
    let i = self.i;
    self.i += 1;
    if i < self.sweep {
      sweep_at(self.max, i)
    } else {
      self.g.raw_case()
    }
  }
}

fn sweep_size(max: usize) -> u64 {
  (SWEEP_PATTERNS * (max * (max + 1) / 2)) as u64
}

fn sweep_at(max: usize, i: u64) -> String {
  let per = (max * (max + 1) / 2) as u64;
  let p = (i / per) as usize;
  let k = (i % per) as usize;
  // k = len*(len-1)/2 + at
  let mut len = (((8.0 * k as f64 + 1.0).sqrt() + 1.0) / 2.0) as usize;
  while len * (len - 1) / 2 > k {
    len -= 1;
  }
  while (len + 1) * len / 2 <= k {
    len += 1;
  }
  mon::gen::sweep_case(p, len, k - len * (len - 1) / 2)
}

fn digest(a: &Args) {
  let mut c = Corpus::new(a);
  let n = a.n("cases", 1000) + c.sweep;
  let mut out: Vec<u8> = vec![];
  let mut distinct = HashSet::new();
  let mut accepted = 0u64;
  let mut typed = 0u64;
  let split = a.n("split", 0) == 1;
  for _ in 0..n {
    let s = c.next();
    if split {
      // 24 bytes: what all features offer, the typed part, the serialized part (0: not built)
      let d = mon::oracle::dump_raw(&s);
      out.extend_from_slice(&fnv(d.as_bytes()).to_le_bytes());
      #[cfg(feature = "typed")]
      let (t, j) = mon::oracle::dump_typed(&s);
      #[cfg(not(feature = "typed"))]
      let (t, j) = (String::new(), String::new());
      for x in [&t, &j] {
        out.extend_from_slice(&fnv(x.as_bytes()).to_le_bytes());
      }
      if !d.is_empty() {
        accepted += 1;
        distinct.insert(fnv(s.as_bytes()));
        typed += !j.is_empty() as u64;
      }
      continue;
    }
    let d = mon::oracle::dump(&s);
    if !d.starts_with("rejected") && !d.starts_with("panic") {
      accepted += 1;
      distinct.insert(fnv(s.as_bytes()));
      if d.contains("\ntyped ") && !d.contains("\ntyped error") {
        typed += 1;
      }
    }
    out.extend_from_slice(&fnv(d.as_bytes()).to_le_bytes());
  }
  let f = a.s("out", "");
  if f.is_empty() {
    println!("DIGEST {}", hex(&out));
  } else {
    std::fs::write(f, &out).expect("write digest");
  }
  println!(
    "{{\"cases\":{n},\"accepted\":{accepted},\"typed\":{typed},\"distinct\":{}}}",
    distinct.len()
  );
}

/// The small corpus for interpreters (Miri): single thread, no files, no mapping.
fn interp(a: &Args) {
  let n = a.n("cases", 40);
  let prop = a.s("prop", "C02");
  let mut g = Gen::new(a.n("seed", 1) ^ 0x317, Dict::default());
  g.tiny = true;
  g.big = false;
  let mut r = Rng::new(a.n("seed", 1));
  let (mut execs, mut slices, mut accepted) = (0, 0, 0);
  mon::oracle::fixed();
  for i in 0..n {
    let s = match i % 4 {
      // delimiters around the vector widths
      0 => {
        let len = *r.pick(&[1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 80, 95, 96, 97, 127, 128, 129, 130, 161]);
        let at = r.below(len);
        mon::gen::sweep_case(r.below(SWEEP_PATTERNS), len, at)
      }
      1 => g.noise(),
      _ => g.line(None),
    };
    if a.n("trace", 0) == 1 {
      println!("CASE {i} {}", hex(s.as_bytes()));
    }
    let o = check(&prop, &s);
    for v in &o.viol {
      println!("VIOL {} {} :: {}", hex(s.as_bytes()), v.sig, v.msg);
    }
    execs += o.hits.get("executions").copied().unwrap_or(1);
    slices += o.hits.get("slices checked").copied().unwrap_or(0);
    accepted += o.hits.get("accepted").copied().unwrap_or(0);
  }
  println!("INTERP cases={n} executions={execs} accepted={accepted} slices={slices}");
}

// ---------------------------------------------------------------------------------------

/// The input a thread is working on, in a file mapping, so that it survives the process.
struct Slot {
  p: *mut u8,
}
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}

const SLOT: usize = 1 << 21;

impl Slot {
  #[cfg(not(miri))]
  fn new(path: &str) -> Slot {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
      .read(true)
      .write(true)
      .create(true)
      .truncate(true)
      .open(path)
      .expect("slot");
    f.set_len(SLOT as u64).expect("slot");
    let p = unsafe {
      libc::mmap(
        std::ptr::null_mut(),
        SLOT,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED,
        f.as_raw_fd(),
        0,
      )
    };
    assert!(p != libc::MAP_FAILED);
    Slot { p: p as *mut u8 }
  }
  #[cfg(miri)]
  fn new(_: &str) -> Slot {
    unimplemented!()
  }
  fn set(&self, s: &str) {
    let n = s.len().min(SLOT - 16);
    unsafe {
      (self.p as *mut u64).write_volatile(0);
      std::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(16), n);
      (self.p as *mut u64).write_volatile(n as u64 + 1);
    }
  }
  fn clear(&self) {
    unsafe { (self.p as *mut u64).write_volatile(0) }
  }
  fn get(&self) -> Option<Vec<u8>> {
    unsafe {
      let n = (self.p as *const u64).read_volatile();
      if n == 0 {
        return None;
      }
      Some(std::slice::from_raw_parts(self.p.add(16), n as usize - 1).to_vec())
    }
  }
}

#[derive(Default)]
struct Found {
  cases: u64,
  decided: u64,
  distinct: HashSet<u64>,
  hits: BTreeMap<&'static str, u64>,
  samples: Vec<(String, String)>,
  viol: BTreeMap<String, (u64, Viol, String)>,
}

impl Found {
  fn merge(&mut self, o: Found) {
    self.cases += o.cases;
    self.decided += o.decided;
    self.distinct.extend(o.distinct);
    for (k, v) in o.hits {
      *self.hits.entry(k).or_default() += v;
    }
    self.samples.extend(o.samples);
    for (k, v) in o.viol {
      match self.viol.get_mut(&k) {
        None => {
          self.viol.insert(k, v);
        }
        Some(e) => {
          let n = e.0 + v.0;
          if v.2.len() < e.2.len() {
            *e = v;
          }
          e.0 = n;
        }
      }
    }
  }
}

#[cfg(not(miri))]
fn thread_cpu(t: libc::pthread_t) -> Option<f64> {
  unsafe {
    let mut c: libc::clockid_t = 0;
    if libc::pthread_getcpuclockid(t, &mut c) != 0 {
      return None;
    }
    let mut ts: libc::timespec = std::mem::zeroed();
    if libc::clock_gettime(c, &mut ts) != 0 {
      return None;
    }
    Some(ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9)
  }
}
#[cfg(not(miri))]
fn myself() -> u64 {
  unsafe { libc::pthread_self() as u64 }
}
#[cfg(miri)]
fn thread_cpu(_: u64) -> Option<f64> {
  None
}
#[cfg(miri)]
fn myself() -> u64 {
  0
}

fn run(a: &Args) {
  let prop = a.s("prop", "");
  let seed = a.n("seed", 1);
  let cases = a.n("cases", 10_000);
  // the counters are the process's
  let threads = if cfg!(feature = "fuzz") { 1 } else { a.n("threads", 8).max(1) };
  let sweep_max = if mon::sweeps(&prop) { a.n("sweep", 0) as usize } else { 0 };
  let sweep_n = sweep_size(sweep_max);
  let limit = a.n("limit", 600) as f64;
  let hang = a.n("hang", 30) as f64;
  let out = a.s("out", "");
  let slots = a.s("slots", "/tmp");
  let d = dict(a);
  let t0 = Instant::now();

  let total = Arc::new(Mutex::new(Found::default()));
  let done = Arc::new(AtomicUsize::new(0));
  let stop = Arc::new(AtomicBool::new(false));
  let mut watch: Vec<(Arc<Slot>, Arc<AtomicUsize>, Arc<Mutex<Option<u64>>>)> = vec![];
  let mut hs = vec![];
  for t in 0..threads {
    let slot = Arc::new(Slot::new(&format!("{slots}/cur.{t}")));
    let case = Arc::new(AtomicUsize::new(0));
    let tid: Arc<Mutex<Option<u64>>> = Arc::default();
    watch.push((slot.clone(), case.clone(), tid.clone()));
    let (prop, d, total, done, stop) = (prop.clone(), d.clone(), total.clone(), done.clone(), stop.clone());
    hs.push(
      std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
          *tid.lock().unwrap() = Some(myself());
          let mut g = Gen::new(
            seed.wrapping_mul(0x1000_0000_01b3) ^ fnv(prop.as_bytes()) ^ (t << 40),
            d,
          );
          let mut f = Found::default();
          let per_case = |s: String, f: &mut Found| {
            slot.set(&s);
            case.fetch_add(1, Ordering::Relaxed);
            let o = check(&prop, &s);
            slot.clear();
            f.cases += 1;
            for (k, v) in o.hits {
              *f.hits.entry(k).or_default() += v;
            }
            if o.decided {
              f.decided += 1;
              let new = f.distinct.len() < 3_000_000 && f.distinct.insert(fnv(s.as_bytes()));
              if new && f.samples.len() < 3 && s.len() < 400 && f.decided % 37 == 5 {
                f.samples.push((s.clone(), o.outcome));
              }
            }
            for v in o.viol {
              let e = f.viol.entry(v.sig.clone()).or_insert((0, v.clone(), s.clone()));
              e.0 += 1;
              if s.len() < e.2.len() {
                e.1 = v;
                e.2 = s.clone();
              }
            }
          };
          let mut i = t;
          while i < sweep_n && !stop.load(Ordering::Relaxed) {
            per_case(sweep_at(sweep_max, i), &mut f);
            i += threads;
          }
          let mine = cases / threads + 1;
          #[cfg(feature = "fuzz")]
          let mut fz = mon::fuzz::Fuzzer::new();
          for _ in 0..mine {
            if stop.load(Ordering::Relaxed) {
              break;
            }
            #[cfg(feature = "fuzz")]
            {
              let s = fz.next(&prop, &mut g);
              let seen = s.clone();
              fz.before();
              per_case(s, &mut f);
              fz.after(&seen);
            }
            #[cfg(not(feature = "fuzz"))]
            {
              let s = mon::generate(&prop, &mut g);
              per_case(s, &mut f);
            }
          }
          #[cfg(feature = "fuzz")]
          {
            f.hits.insert("coverage points", fz.points as u64);
            f.hits.insert("coverage points reached", fz.edges as u64);
            f.hits.insert("inputs kept for reaching something new", fz.kept);
          }
          total.lock().unwrap().merge(f);
          done.fetch_add(1, Ordering::SeqCst);
        })
        .unwrap(),
    );
  }
  // watchdog over CPU time per case (not wall time: a loaded machine is not a hang)
  let mut last: Vec<(usize, f64)> = vec![(usize::MAX, 0.0); watch.len()];
  while done.load(Ordering::SeqCst) < threads as usize {
    std::thread::sleep(std::time::Duration::from_millis(20));
    if t0.elapsed().as_secs_f64() > limit {
      stop.store(true, Ordering::Relaxed);
    }
    if hs.iter().filter(|h| h.is_finished()).count() > done.load(Ordering::SeqCst) {
      eprintln!("HARNESS: a worker died");
      std::process::exit(3);
    }
    for (i, (slot, case, tid)) in watch.iter().enumerate() {
      if hs[i].is_finished() {
        continue;
      }
      let Some(t) = *tid.lock().unwrap() else { continue };
      let n = case.load(Ordering::Relaxed);
      let Some(c) = thread_cpu(t as _) else { continue };
      if n != last[i].0 {
        last[i] = (n, c);
      } else if c - last[i].1 > hang {
        if let Some(s) = slot.get() {
          println!("HANG {}", hex(&s));
          let _ = std::io::stdout().flush();
          std::process::exit(4);
        }
      }
    }
  }
  let mut f = std::mem::take(&mut *total.lock().unwrap());
  // shrink the witnesses
  let deadline = Instant::now() + std::time::Duration::from_secs(20);
  for (n, (_, v, s)) in f.viol.values_mut().enumerate() {
    if n < 6 && s.len() < 5000 {
      let (nv, ns) = shrink(&prop, v, s, deadline);
      *v = nv;
      *s = ns;
    }
  }
  let mut j = String::new();
  let _ = write!(
    j,
    "{{\"prop\":{},\"seed\":{seed},\"cases\":{},\"sweep\":{sweep_n},\"decided\":{},\"distinct\":{},\"seconds\":{:.2},\"hits\":{{",
    json_str(&prop),
    f.cases,
    f.decided,
    f.distinct.len(),
    t0.elapsed().as_secs_f64()
  );
  for (i, (k, v)) in f.hits.iter().enumerate() {
    let _ = write!(j, "{}{}:{v}", if i > 0 { "," } else { "" }, json_str(k));
  }
  j.push_str("},\"samples\":[");
  for (i, (s, o)) in f.samples.iter().take(8).enumerate() {
    let _ = write!(
      j,
      "{}{{\"input\":{},\"outcome\":{}}}",
      if i > 0 { "," } else { "" },
      json_str(s),
      json_str(o)
    );
  }
  j.push_str("],\"violations\":[");
  for (i, (sig, (n, v, s))) in f.viol.iter().enumerate() {
    let _ = write!(
      j,
      "{}{{\"sig\":{},\"count\":{n},\"msg\":{},\"hex\":\"{}\"}}",
      if i > 0 { "," } else { "" },
      json_str(sig),
      json_str(&v.msg),
      hex(s.as_bytes())
    );
  }
  j.push_str("]}\n");
  if out.is_empty() {
    print!("{j}");
  } else {
    std::fs::write(out, j).expect("write result");
  }
}

/// Remove pieces of the input as long as the same disagreement remains.
fn shrink(prop: &str, v: &Viol, s: &str, deadline: Instant) -> (Viol, String) {
  let mut best: Vec<char> = s.chars().collect();
  let mut bv = v.clone();
  let mut step = (best.len() / 2).max(1);
  loop {
    let mut changed = false;
    let mut i = 0;
    while i < best.len() {
      if Instant::now() > deadline {
        return (bv, best.into_iter().collect());
      }
      let mut c = best.clone();
      c.drain(i..(i + step).min(best.len()));
      let t: String = c.iter().collect();
      let o = check(prop, &t);
      if let Some(nv) = o.viol.into_iter().find(|x| x.sig == v.sig) {
        best = c;
        bv = nv;
        changed = true;
      } else {
        i += step;
      }
    }
    if step == 1 && !changed {
      break;
    }
    step = (step / 2).max(1);
  }
  (bv, best.into_iter().collect())
}
