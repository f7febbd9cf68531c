//! Stands in for the process half of mc's engine.

pub use crate::space::*;
use std::sync::atomic::AtomicU64;

pub struct Shared(AtomicU64);
pub const USER: usize = 0;
pub static SHARED: Shared = Shared(AtomicU64::new(0));

pub fn shared() -> &'static Shared {
    &SHARED
}

impl Shared {
    pub fn word(&self, _: usize) -> &AtomicU64 {
        &self.0
    }
    pub fn exclusive<T>(&self, f: impl FnOnce(&Shared) -> T) -> T {
        f(self)
    }
}
