//! Stand-in for MetroHash: a weak 64-bit hash that an SMT solver can invert.  The checks that use it must hold for
//! any hash function, so a weak one only makes collisions reachable.
use std::hash::{BuildHasherDefault, Hasher};
/// harnesses whose data is concrete use a hash without easy collisions (FNV)
pub static STRONG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[derive(Clone, Copy, Debug, Default)]
pub struct MetroHash64 { h: u64, n: u64 }
impl MetroHash64 {
    pub fn new() -> Self { Self::default() }
    pub fn with_seed(s: u64) -> Self { MetroHash64 { h: s, n: 0 } }
}
impl Hasher for MetroHash64 {
    fn write(&mut self, b: &[u8]) {
        if STRONG.load(std::sync::atomic::Ordering::Relaxed) {
            let mut h = self.h;
            for x in b {
                h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
            }
            self.h = h;
            self.n += b.len() as u64;
            return;
        }
        for x in b {
            self.h = self.h.rotate_left(8) ^ (*x as u64);
            self.n += 1;
        }
    }
    fn finish(&self) -> u64 { self.h ^ self.n.rotate_left(56) }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct MetroHash128 { h: MetroHash64 }
impl MetroHash128 {
    pub fn new() -> Self { Self::default() }
    pub fn finish128(&self) -> (u64, u64) { (self.h.finish(), self.h.n) }
}
impl Hasher for MetroHash128 {
    fn write(&mut self, b: &[u8]) { self.h.write(b) }
    fn finish(&self) -> u64 { self.h.finish() }
}
pub type MetroHash = MetroHash64;
pub type MetroBuildHasher = BuildHasherDefault<MetroHash64>;
