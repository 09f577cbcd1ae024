#![allow(clippy::all, static_mut_refs, dead_code, unused_imports, unused_unsafe)]
extern crate alloc;
#[macro_use]
pub mod nd;
pub mod util;
#[cfg(not(kani))]
pub mod track;
#[cfg(not(kani))]
#[global_allocator]
static GLOBAL: track::Track = track::Track;
pub mod bump_sync;
pub mod bump_unsync;
pub mod leak;
pub mod exit;
pub mod fixed_vec;
pub mod uninit;
pub mod rc;
pub mod boxed;
pub mod cmp;
pub mod unsz;
pub mod fill;
pub mod ext;

#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, fn(), &'static str)> {
    let mut v: Vec<(&'static str, fn(), &'static str)> = Vec::new();
    v.extend_from_slice(bump_sync::LIST);
    v.extend_from_slice(bump_unsync::LIST);
    v.extend_from_slice(leak::LIST);
    v.extend_from_slice(exit::LIST);
    v.extend_from_slice(fixed_vec::LIST);
    v.extend_from_slice(uninit::LIST);
    v.extend_from_slice(rc::LIST);
    v.extend_from_slice(boxed::LIST);
    v.extend_from_slice(cmp::LIST);
    v.extend_from_slice(unsz::LIST);
    v.extend_from_slice(fill::LIST);
    v.extend_from_slice(ext::LIST);
    v
}
