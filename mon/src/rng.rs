//! Deterministic PRNG (splitmix64); every random choice of a run derives from VERIF_SEED.

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
    r.next();
    r.next();
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    if n == 0 {
      return 0;
    }
    (self.next() % n as u64) as usize
  }
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.below(hi - lo + 1)
  }
  /// true with probability `p` percent
  pub fn pct(&mut self, p: usize) -> bool {
    self.below(100) < p
  }
  pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
    &s[self.below(s.len())]
  }
  pub fn shuffle<T>(&mut self, s: &mut [T]) {
    for i in (1..s.len()).rev() {
      s.swap(i, self.below(i + 1));
    }
  }
}

pub fn fnv(bytes: &[u8]) -> u64 {
  let mut h = 0xcbf2_9ce4_8422_2325u64;
  for b in bytes {
    h ^= *b as u64;
    h = h.wrapping_mul(0x0100_0000_01b3);
  }
  h ^ (h >> 29)
}
