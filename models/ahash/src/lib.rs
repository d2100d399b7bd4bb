//! Verification model of `ahash` (see /verif/DESIGN.md, "model crates").
//!
//! `RandomState::hash_one` is an arbitrary *but consistent* function of the
//! hashed bytes: byte-wise folding masked by a process-wide mask which the
//! harness may leave symbolic.  Mask 0 makes every pair of values collide, mask
//! 0xff.. spreads them; the interners under test must be right for all of them.
use std::hash::{BuildHasher, Hasher};

static mut MASK: u64 = u64::MAX;

/// Choose the hash mask (called once, by the harness, before anything is hashed)
pub fn set_mask(mask: u64) {
    unsafe { MASK = mask }
}

#[derive(Clone, Debug, Default)]
pub struct RandomState;
impl RandomState {
    pub fn new() -> Self {
        RandomState
    }
    pub fn hash_one<T: std::hash::Hash>(&self, x: T) -> u64 {
        let mut h = AHasher(0);
        x.hash(&mut h);
        h.finish()
    }
    pub fn with_seeds(_: u64, _: u64, _: u64, _: u64) -> Self {
        RandomState
    }
    pub fn with_seed(_: usize) -> Self {
        RandomState
    }
}
impl BuildHasher for RandomState {
    type Hasher = AHasher;
    fn build_hasher(&self) -> AHasher {
        AHasher(0)
    }
}

#[derive(Clone, Debug, Default)]
pub struct AHasher(u64);
impl Hasher for AHasher {
    fn finish(&self) -> u64 {
        self.0 & unsafe { MASK }
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = self.0.rotate_left(3) ^ i;
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
