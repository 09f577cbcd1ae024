//! Symbolic scalars, assertions and panics.  With the feature `symbolic` they
//! are external functions which the executor implements; natively the values
//! of a counterexample are replayed.
#[cfg(feature = "symbolic")]
mod imp {
    extern "C-unwind" {
        fn vb_u8() -> u8;
        fn vb_assert(c: bool, msg: *const u8, len: usize);
        fn vb_assume(c: bool);
        fn vb_cover(c: bool, msg: *const u8, len: usize);
        fn vb_panic() -> !;
        fn vb_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool;
        fn vb_may_abort();
        fn vb_heap() -> usize;
    }
    pub fn u8() -> u8 { unsafe { vb_u8() } }
    pub fn assume(c: bool) { unsafe { vb_assume(c) } }
    /// The asserted property.
    pub fn check(c: bool, m: &'static str) { unsafe { vb_assert(c, m.as_ptr(), m.len()) } }
    /// Witness: some path has to reach this with `c`.
    pub fn cover(c: bool, m: &'static str) { unsafe { vb_cover(c, m.as_ptr(), m.len()) } }
    pub fn boom() -> ! { unsafe { vb_panic() } }
    /// From here on the process may abort.
    pub fn may_abort() { unsafe { vb_may_abort() } }
    /// Number of live heap allocations.
    pub fn heap() -> usize { unsafe { vb_heap() } }
    extern "C-unwind" fn tramp<F: FnOnce()>(p: *mut u8) {
        let f = unsafe { core::ptr::read(p as *mut F) };
        f()
    }
    /// Whether `f` panics.
    pub fn catch<F: FnOnce()>(f: F) -> bool {
        let mut f = core::mem::ManuallyDrop::new(f);
        unsafe { vb_catch(tramp::<F>, &mut f as *mut _ as *mut u8) }
    }
}
#[cfg(not(feature = "symbolic"))]
mod imp {
    extern crate std;
    use std::{alloc::*, cell::{Cell, RefCell}, eprintln, panic, process::exit, sync::atomic::{AtomicUsize, Ordering}, vec::Vec};
    std::thread_local!(pub static VALS: RefCell<Vec<u8>> = RefCell::new(Vec::new()));
    std::thread_local!(static ABORT_OK: Cell<bool> = Cell::new(false));
    pub struct Counting;
    static LIVE: AtomicUsize = AtomicUsize::new(0);
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Ordering::Relaxed); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Ordering::Relaxed); System.dealloc(p, l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { System.realloc(p, l, n) }
    }
    pub fn u8() -> u8 { VALS.with(|v| { let mut v = v.borrow_mut(); if v.is_empty() { 0 } else { v.remove(0) } }) }
    pub fn assume(c: bool) { if !c { eprintln!("REPLAY-ASSUME-FAILED"); exit(77) } }
    pub fn check(c: bool, m: &'static str) { if !c { eprintln!("REPLAY-BROKEN {}", m); exit(10) } }
    pub fn cover(c: bool, m: &'static str) { if c { eprintln!("COVERED {}", m) } }
    pub fn boom() -> ! { panic::panic_any(0u8) }
    pub fn may_abort() { ABORT_OK.with(|a| a.set(true)) }
    pub fn abort_ok() -> bool { ABORT_OK.with(|a| a.get()) }
    pub fn heap() -> usize { LIVE.load(Ordering::Relaxed) }
    pub fn catch<F: FnOnce()>(f: F) -> bool {
        match panic::catch_unwind(panic::AssertUnwindSafe(f)) { Ok(()) => false, Err(e) => { drop(e); true } }
    }
}
pub use imp::*;
/// A value in `0..n`.
pub fn below(n: u8) -> u8 { let v = u8(); assume(v < n); v }
/// The same, as one path for each value.
pub fn pick(n: u8) -> u8 { let v = below(n); let mut i = 0; while i + 1 < n { if v == i { return i } i += 1; } i }
pub fn bool() -> bool { below(2) == 1 }
/// Register harnesses: `name, tier;`
#[macro_export]
macro_rules! harnesses {
    ($($name:ident, $tier:ident;)*) => {
        #[cfg(not(feature = "symbolic"))]
        pub const LIST: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    }
}
