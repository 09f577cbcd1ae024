#![allow(clippy::all, static_mut_refs, dead_code, unused_imports, unused_unsafe)]
extern crate alloc;
#[macro_use]
#[path = "../../harness/src/nd.rs"]
pub mod nd;
#[path = "../../harness/src/util.rs"]
pub mod util;
#[cfg(not(kani))]
#[path = "../../harness/src/track.rs"]
pub mod track;
pub mod threads;

#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, fn(), &'static str)> { threads::LIST.to_vec() }
