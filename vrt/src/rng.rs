/// splitmix64: deterministic, tiny, good enough for schedule choices.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
  pub fn new(seed: u64) -> Rng {
    let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
    r.next();
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    if n <= 1 {
      return 0;
    }
    ((self.next() >> 11) % (n as u64)) as usize
  }
  /// true with probability permille/1000
  pub fn chance(&mut self, permille: u32) -> bool {
    permille > 0 && (self.next() >> 11) % 1000 < permille as u64
  }
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    lo + self.below((hi - lo + 1) as usize) as i64
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    &v[self.below(v.len())]
  }
}
pub fn mix(a: u64, b: u64) -> u64 {
  Rng::new(a.wrapping_mul(0x100_0000_01b3) ^ b.rotate_left(17)).next()
}
