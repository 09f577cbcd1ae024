//! `leaked::Alloca` and `leaked::LeakBox`.
use crate::nd;
use crate::util::*;
use core::alloc::Layout;
use core::mem::MaybeUninit;
use static_alloc::leaked::{Alloca, LeakBox};

// ---- C10 ---------------------------------------------------------------------
/// Every length is either refused or represents a valid array layout.
fn new_any<T>() {
    let n = nd::usize();
    let r = Alloca::<T>::new(n);
    witness!(r.is_none(), "refused");
    witness!(r.is_some(), "accepted");
    prop!(r.is_none() || Layout::array::<T>(n).is_ok(), "an unrepresentable array is refused");
    prop!(r.is_some() || n >= (isize::MAX as usize - 64) / core::mem::size_of::<T>(), "a representable one is accepted");
}
pub fn c10_new_u8() { new_any::<u8>() }
pub fn c10_new_u64() { new_any::<u64>() }
pub fn c10_new_u24() { new_any::<[u8; 3]>() }
pub fn c10_new_zst() {
    let n = nd::usize();
    prop!(Alloca::<()>::new(n).is_some() || n == usize::MAX, "any number of zero-sized elements is representable");
    witness!(n > 1 << 63, "many");
}

/// The closure gets exactly `n` aligned, writable elements, and runs once.
fn run<T: Copy + PartialEq>(n: usize, v: T, w: T) {
    let mut calls = 0;
    let a = Alloca::<T>::new(n).unwrap();
    let marker = nd::u8();
    let r = a.run(|s| {
        calls += 1;
        prop!(s.len() == n, "the slice has the requested length");
        prop!(s.as_ptr() as usize % core::mem::align_of::<T>() == 0, "aligned");
        if n > 0 {
            s[0] = MaybeUninit::new(v);
            s[n - 1] = MaybeUninit::new(w);
            prop!(n == 1 || unsafe { s[0].assume_init() } == v, "first element holds its value");
            prop!(unsafe { s[n - 1].assume_init() } == w, "last element holds its value");
        }
        marker
    });
    prop!(calls == 1, "the closure runs exactly once");
    prop!(r == marker, "the result is passed through");
}
/// All lengths up to `hi` (each one a separate symbolic path).
fn run_upto<T: Copy + PartialEq>(hi: usize, v: T, w: T) {
    let n = nd::upto(hi);
    let mut k = 0;
    while k <= hi {
        if n == k { run::<T>(k, v, w); }
        k += 1;
    }
    witness!(n == hi, "largest");
    witness!(n == 0, "smallest");
}
/// Lengths around every power of two.
fn run_pow2<T: Copy + PartialEq>(lo: u32, hi: u32, v: T, w: T) {
    let n = nd::usize();
    let mut p = lo;
    while p <= hi {
        let c = (1usize << p) / core::mem::size_of::<T>();
        if n == c - 1 { run::<T>(c - 1, v, w); }
        if n == c && p < 20 { run::<T>(c, v, w); }
        p += 1;
    }
    witness!(n == (1usize << hi) / core::mem::size_of::<T>() - 1, "largest");
}
pub fn c10_run_u8() { run_upto::<u8>(20, nd::u8(), nd::u8()) }
pub fn c10_run_u16() { run_upto::<u16>(12, nd::u16(), nd::u16()) }
pub fn c10_run_u64() { run_upto::<u64>(5, nd::u64(), nd::u64()) }
pub fn c10_run_a16() { run_upto::<A16>(5, A16(nd::u64()), A16(nd::u64())) }
pub fn c10_run_a32() { run_upto::<A32>(4, A32(nd::u8()), A32(nd::u8())) }
pub fn c10_run_u24() { run_upto::<[u8; 3]>(8, [nd::u8(), 1, nd::u8()], [2, nd::u8(), nd::u8()]) }
pub fn c10_run_u16x2() { run_upto::<[u16; 2]>(6, [nd::u16(), nd::u16()], [nd::u16(), 3]) }
pub fn c10_run_pow2_small() { run_pow2::<u8>(3, 11, nd::u8(), nd::u8()) }
pub fn c10_run_zst() {
    let n = nd::usize();
    nd::assume(n < usize::MAX);
    let r = Alloca::<()>::new(n).unwrap().run(|s| s.len());
    prop!(r == n, "the slice has the requested length");
    witness!(n > 1, "many");
}

// ---- C13 ---------------------------------------------------------------------
/// A value in a LeakBox is dropped exactly once or handed out exactly once.
pub fn c13_ownership() {
    reset_drops();
    let x = nd::u8();
    let mut slot = MaybeUninit::<D>::uninit();
    let at = slot.as_mut_ptr() as usize;
    let b = LeakBox::write(LeakBox::from(&mut slot), D(x));
    prop!(addr(&*b) == at && b.0 == x && drops() == 0, "stored in the given slot");
    prop!(b.as_ref().0 == x, "as_ref");
    match nd::below(6) {
        0 => { drop(b); prop!(drops() == 1 && log(0) == x, "dropping the box drops the value"); }
        1 => { let v = LeakBox::take(b); prop!(v.0 == x && drops() == 0, "take returns the value undropped"); core::mem::forget(v); }
        2 => { let r = LeakBox::leak(b); prop!(r.0 == x && drops() == 0, "leak keeps the value alive"); r.0 = !x; prop!(addr(r) == at, "in place"); }
        3 => {
            let p = LeakBox::into_raw(b);
            prop!(p as usize == at && drops() == 0, "into_raw does not drop");
            let b = unsafe { LeakBox::from_raw(p) };
            prop!(b.0 == x, "from_raw restores the value");
            drop(b);
            prop!(drops() == 1 && log(0) == x, "and its ownership");
        }
        4 => { core::mem::forget(b); prop!(drops() == 0, "forgetting leaks"); }
        _ => {
            let mut b = b;
            b.0 = x ^ 1;
            b.as_mut().0 ^= 2;
            drop(b);
            prop!(drops() == 1 && log(0) == x ^ 3, "writes go to the boxed value");
        }
    }
    witness!(true, "end");
}
/// Replacing the value through the box drops the old one only.
pub fn c13_replace() {
    reset_drops();
    let mut slot = MaybeUninit::<D>::uninit();
    let mut b = LeakBox::write(LeakBox::from(&mut slot), D(nd::u8()));
    let old = b.0;
    *b = D(nd::u8());
    let new = b.0;
    prop!(drops() == 1 && log(0) == old, "assignment drops the old value");
    drop(b);
    prop!(drops() == 2 && log(1) == new, "then the new one");
    witness!(old != new, "distinct");
}
/// Unsized boxes drop each element once, in order, and only those.
pub fn c13_slice() {
    reset_drops();
    let n = nd::upto(3);
    let x = nd::u8();
    let mut v = core::mem::ManuallyDrop::new([D(x), D(x ^ 1), D(x ^ 2)]);
    let p: &mut [D] = &mut v[..n];
    let b = unsafe { LeakBox::from_mut_unchecked(p) };
    prop!(b.len() == n, "length");
    drop(b);
    prop!(drops() == n, "each element is dropped once");
    if n > 0 { prop!(log(0) == x, "in order"); }
    if n > 2 { prop!(log(2) == x ^ 2, "in order"); }
    witness!(n == 3, "all");
}
pub fn c13_copy() {
    let mut a = nd::u64();
    let v = a;
    let mut b = LeakBox::from_mut(&mut a);
    prop!(*b == v, "reads the value");
    *b = v.wrapping_add(1);
    drop(b);
    prop!(a == v.wrapping_add(1), "writes back to the original");
    witness!(true, "end");
}
pub fn c13_uninit() {
    reset_drops();
    let mut slot = MaybeUninit::<D>::uninit();
    drop(LeakBox::from(&mut slot));
    prop!(drops() == 0, "uninitialised slots are not dropped");
    let mut slots = [MaybeUninit::<D>::uninit(), MaybeUninit::uninit()];
    let b: LeakBox<'_, [MaybeUninit<D>]> = LeakBox::from(&mut slots[..]);
    prop!(b.len() == 2, "length");
    drop(b);
    prop!(drops() == 0, "uninitialised slots are not dropped");
    let x = nd::u8();
    let mut slot = MaybeUninit::new(D(x));
    let b = unsafe { LeakBox::assume_init(LeakBox::from(&mut slot)) };
    prop!(b.0 == x, "assume_init keeps the value");
    drop(b);
    prop!(drops() == 1, "and owns it");
    witness!(true, "end");
}
pub fn c13_zst() {
    reset_drops();
    let mut slot = MaybeUninit::<Z>::uninit();
    let b = LeakBox::write(LeakBox::from(&mut slot), Z);
    if nd::bool() { drop(b); prop!(drops() == 1, "dropped once"); }
    else { let z = LeakBox::take(b); prop!(drops() == 0, "moved out"); drop(z); prop!(drops() == 1, "dropped once"); }
    witness!(true, "end");
}
pub fn c13_pin() {
    reset_drops();
    let x = nd::u8();
    let p: &'static mut MaybeUninit<D> = unsafe { static mut S: MaybeUninit<D> = MaybeUninit::uninit(); &mut *core::ptr::addr_of_mut!(S) };
    let at = p as *const _ as usize;
    let pinned = LeakBox::into_pin(LeakBox::write(LeakBox::from(p), D(x)));
    prop!(addr(&*pinned) == at && pinned.0 == x && drops() == 0, "pinned in place");
    drop(pinned);
    prop!(drops() == 1 && log(0) == x, "dropped once");
    witness!(true, "end");
}

harnesses! {
    c10_new_u8, 3, quick, normal;
    c10_new_u64, 3, quick, normal;
    c10_new_u24, 3, quick, normal;
    c10_new_zst, 3, quick, normal;
    c10_run_u8, 24, quick, normal;
    c10_run_u16, 16, quick, normal;
    c10_run_u64, 16, quick, normal;
    c10_run_a16, 16, quick, normal;
    c10_run_a32, 16, quick, normal;
    c10_run_u24, 16, quick, normal;
    c10_run_u16x2, 16, quick, normal;
    c10_run_pow2_small, 16, quick, normal;
    c10_run_zst, 3, quick, normal;
    c13_ownership, 5, quick, normal;
    c13_replace, 5, quick, normal;
    c13_slice, 5, quick, normal;
    c13_copy, 5, quick, normal;
    c13_uninit, 5, quick, normal;
    c13_zst, 5, quick, normal;
    c13_pin, 5, quick, normal;
}
