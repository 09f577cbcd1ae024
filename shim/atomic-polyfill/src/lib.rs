//! Stand-in for `atomic-polyfill`: the same interface, but before every atomic
//! operation other threads may run (`HOOK`), and weak compare-exchanges may
//! fail spuriously (`WEAK_FAILS`).
#![no_std]
#![allow(static_mut_refs)]
pub use core::sync::atomic::{compiler_fence, fence, AtomicPtr, Ordering};
use core::cell::UnsafeCell;

fn no_hook() {}
fn no_weak() -> bool { false }
pub static mut HOOK: fn() = no_hook;
pub static mut WEAK_FAILS: fn() -> bool = no_weak;
fn others() { unsafe { HOOK() } }

macro_rules! atomic {
    ($($name:ident $t:ty),*) => { $(
#[repr(transparent)]
pub struct $name(UnsafeCell<$t>);
unsafe impl Sync for $name {}
impl core::panic::RefUnwindSafe for $name {}
impl Default for $name { fn default() -> Self { Self::new(Default::default()) } }
impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
impl core::fmt::Debug for $name {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(&unsafe { *self.0.get() }, f) }
}
impl $name {
    pub const fn new(v: $t) -> Self { $name(UnsafeCell::new(v)) }
    pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
    pub fn into_inner(self) -> $t { self.0.into_inner() }
    pub fn as_ptr(&self) -> *mut $t { self.0.get() }
    pub fn load(&self, _: Ordering) -> $t { others(); unsafe { *self.0.get() } }
    pub fn store(&self, v: $t, _: Ordering) { others(); unsafe { *self.0.get() = v } }
    fn rmw(&self, f: impl FnOnce($t) -> $t) -> $t {
        others();
        unsafe { let old = *self.0.get(); *self.0.get() = f(old); old }
    }
    pub fn swap(&self, v: $t, _: Ordering) -> $t { self.rmw(|_| v) }
    pub fn compare_exchange(&self, old: $t, new: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
        others();
        unsafe {
            let cur = *self.0.get();
            if cur == old { *self.0.get() = new; Ok(cur) } else { Err(cur) }
        }
    }
    pub fn compare_exchange_weak(&self, old: $t, new: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
        others();
        if unsafe { WEAK_FAILS() } { return Err(unsafe { *self.0.get() }); }
        unsafe {
            let cur = *self.0.get();
            if cur == old { *self.0.get() = new; Ok(cur) } else { Err(cur) }
        }
    }
    pub fn compare_and_swap(&self, old: $t, new: $t, o: Ordering) -> $t {
        match self.compare_exchange(old, new, o, o) { Ok(v) | Err(v) => v }
    }
    pub fn fetch_and(&self, v: $t, _: Ordering) -> $t { self.rmw(|o| o & v) }
    pub fn fetch_nand(&self, v: $t, _: Ordering) -> $t { self.rmw(|o| !(o & v)) }
    pub fn fetch_or(&self, v: $t, _: Ordering) -> $t { self.rmw(|o| o | v) }
    pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t { self.rmw(|o| o ^ v) }
    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
        let mut prev = self.load(l);
        while let Some(next) = f(prev) {
            match self.compare_exchange_weak(prev, next, s, l) {
                x @ Ok(_) => return x,
                Err(p) => prev = p,
            }
        }
        Err(prev)
    }
}
    )* };
}
macro_rules! number {
    ($($name:ident $t:ty),*) => { atomic!($($name $t),*); $(
impl $name {
    pub fn fetch_add(&self, v: $t, _: Ordering) -> $t { self.rmw(|o| o.wrapping_add(v)) }
    pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t { self.rmw(|o| o.wrapping_sub(v)) }
    pub fn fetch_max(&self, v: $t, _: Ordering) -> $t { self.rmw(|o| o.max(v)) }
    pub fn fetch_min(&self, v: $t, _: Ordering) -> $t { self.rmw(|o| o.min(v)) }
}
    )* };
}
number!(AtomicUsize usize, AtomicIsize isize, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64,
    AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64);
atomic!(AtomicBool bool);
