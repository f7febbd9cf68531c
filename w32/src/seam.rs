//! Stands in for mc's interposed libc: there is none in WebAssembly.

pub fn set_random_seed(_: Option<u64>) {}
pub fn random_seed_used() -> bool {
    false
}
