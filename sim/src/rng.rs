//! The only source of randomness in a simulated run: splitmix64 seeded from the run seed.
#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(mut z: u64) -> u64 {
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
  z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
  mix(a.wrapping_mul(0x9e3779b97f4a7c15) ^ mix(b.wrapping_add(0x632be59bd9b4e019)))
}
impl Rng {
  pub fn new(seed: u64) -> Rng {
    Rng(mix(seed ^ 0x5851f42d4c957f2d))
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
    mix(self.0)
  }
  /// uniform in 0..n (n > 0)
  pub fn below(&mut self, n: usize) -> usize {
    (self.next() % (n.max(1) as u64)) as usize
  }
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.below(hi - lo + 1)
  }
  /// true with probability num/den
  pub fn chance(&mut self, num: usize, den: usize) -> bool {
    self.below(den) < num
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    let i = self.below(v.len());
    &v[i]
  }
}
