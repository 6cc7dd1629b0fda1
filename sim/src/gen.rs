//! Labelled generation: every choice is a raw 64-bit draw named by a label, a function of (seed, label) unless
//! overridden. Raw 0 is the simplest choice, so minimisation is "override labels to 0".
use std::cell::RefCell;
use std::collections::BTreeMap;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hstr(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(mix(s))
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u() % n }
    }
    pub fn f(&mut self) -> f32 {
        (self.u() >> 40) as f32 / (1u64 << 24) as f32
    }
    pub fn s(&mut self) -> f32 {
        self.f() * 2.0 - 1.0
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    /// log-uniform integer in [1, hi]
    pub fn log(&mut self, hi: u64) -> u64 {
        let bits = 64 - hi.max(1).leading_zeros() as u64;
        let b = self.below(bits) + 1;
        (1 + self.below(1u64 << b)).min(hi.max(1))
    }
}
pub struct Gen<'a> {
    pub seed: u64,
    pub over: &'a BTreeMap<String, u64>,
    pub used: RefCell<Vec<String>>,
}
impl<'a> Gen<'a> {
    pub fn new(seed: u64, over: &'a BTreeMap<String, u64>) -> Self {
        Gen { seed, over, used: RefCell::new(Vec::new()) }
    }
    pub fn raw(&self, l: &str) -> u64 {
        self.used.borrow_mut().push(l.to_string());
        match self.over.get(l) {
            Some(v) => *v,
            None => mix(self.seed ^ hstr(l)),
        }
    }
    pub fn pick<T: Clone>(&self, l: &str, v: &[T]) -> T {
        v[(self.raw(l) % v.len() as u64) as usize].clone()
    }
    pub fn range(&self, l: &str, lo: usize, hi: usize) -> usize {
        lo + (self.raw(l) % (hi - lo + 1) as u64) as usize
    }
    pub fn f(&self, l: &str, lo: f32, hi: f32) -> f32 {
        lo + (hi - lo) * ((self.raw(l) >> 40) as f32 / (1u64 << 24) as f32)
    }
    pub fn chance(&self, l: &str, num: u64, den: u64) -> bool {
        let r = self.raw(l);
        r != 0 && r % den < num
    }
    pub fn rng(&self, l: &str) -> Rng {
        Rng::new(self.raw(l))
    }
}
