//! Deterministic random numbers (splitmix64): every random choice of a case
//! follows from (seed, check, case index).

pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}

impl Rng {
  pub fn new(seed: u64) -> Self {
    Rng(mix(seed.wrapping_add(0x9E3779B97F4A7C15)))
  }

  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    mix(self.0)
  }

  pub fn below(&mut self, n: usize) -> usize {
    if n == 0 {
      return 0;
    }
    (self.next() % (n as u64)) as usize
  }

  /// Between `lo` and `hi`, both included
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.below(hi - lo + 1)
  }

  /// True in `pct` out of 100 calls
  pub fn pct(&mut self, pct: usize) -> bool {
    self.below(100) < pct
  }

  pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
    &items[self.below(items.len())]
  }

  pub fn weighted(&mut self, weights: &[u32]) -> usize {
    let total: u64 = weights.iter().map(|w| *w as u64).sum();
    let mut at = self.next() % total.max(1);
    for (i, w) in weights.iter().enumerate() {
      if at < *w as u64 {
        return i;
      }
      at -= *w as u64;
    }
    weights.len() - 1
  }
}
