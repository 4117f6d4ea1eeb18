//! The only source of randomness: splitmix64 / xorshift-multiply, seeded explicitly.
#[derive(Clone, Debug)]
pub struct Rng(u64);

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
#[inline]
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(a.wrapping_mul(0x9E3779B97F4A7C15) ^ mix(b.wrapping_add(0x632BE59BD9B4E019)))
}

impl Rng {
    pub const fn zero() -> Self { Rng(0) }
    pub fn new(seed: u64) -> Self { Rng(mix(seed ^ 0x5851F42D4C957F2D)) }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { return 0; }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    #[inline]
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// inclusive
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.us(s.len())] }
    /// index by weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 { return i; }
            r -= *x as u64;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { v.swap(i, self.us(i + 1)); }
    }
}
