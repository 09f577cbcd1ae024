#![no_std]
extern crate alloc;
pub mod nd;
pub mod exit;
pub mod arena;
pub mod fill;
pub mod hist;
pub mod own;
pub mod rc;
pub mod vec;
pub mod uninit;
pub mod util;
#[cfg(not(feature = "symbolic"))]
pub fn all() -> alloc::vec::Vec<(&'static str, extern "C-unwind" fn())> {
    [exit::LIST, vec::LIST, rc::LIST, own::LIST, fill::LIST, arena::LIST, uninit::LIST, hist::LIST].concat()
}
