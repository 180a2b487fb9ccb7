//! Deterministic pseudo random numbers (xoshiro256**), seeded by strings.

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
  *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
  let mut z = *x;
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
  z ^ (z >> 31)
}

pub fn hash(s: &[u8]) -> u64 {
  let mut h = 0xcbf2_9ce4_8422_2325u64;
  for b in s {
    h ^= *b as u64;
    h = h.wrapping_mul(0x0000_0100_0000_01b3);
  }
  h
}

impl Rng {
  pub fn new(seed: &str) -> Rng {
    let mut x = hash(seed.as_bytes());
    Rng([splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)])
  }
  pub fn next(&mut self) -> u64 {
    let s = &mut self.0;
    let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = s[3].rotate_left(45);
    r
  }
  /// 0..n
  pub fn below(&mut self, n: usize) -> usize {
    if n == 0 {
      0
    } else {
      (self.next() % n as u64) as usize
    }
  }
  /// a..=b
  pub fn range(&mut self, a: usize, b: usize) -> usize {
    a + self.below(b - a + 1)
  }
  pub fn chance(&mut self, percent: usize) -> bool {
    self.below(100) < percent
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    &v[self.below(v.len())]
  }
  pub fn shuffle<T>(&mut self, v: &mut [T]) {
    for i in (1..v.len()).rev() {
      v.swap(i, self.below(i + 1));
    }
  }
}
