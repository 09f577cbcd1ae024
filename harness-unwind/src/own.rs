//! Owners of one value whose destructor panics, closures that panic (C29),
//! and scratch arrays of every size class (C10).
use crate::{nd, util::*};
use core::mem::MaybeUninit;
use core::pin::Pin;
use static_alloc::leaked::{Alloca, LeakBox};
use static_alloc::{unsync, Bump};
use without_alloc::boxed::Box;
use without_alloc::Uninit;

/// One owner goes away in any way while its value may panic.
fn leak_box<T: Elem + 'static>() {
    dlog().boom[0] = nd::below(3);
    let boom = dlog().boom[0];
    let way = nd::below(7);
    let bump: unsync::Bump<[u128; 6]> = unsync::Bump::uninit();
    let p = nd::catch(|| {
        let mut b = bump.bump_box::<T>().map(|b| LeakBox::write(b, T::make(0))).ok().unwrap();
        nd::check(b.id() == 0, "the value is stored");
        match way {
            0 => drop(b),
            // The old value panics while it is replaced.
            1 => {
                let p = nd::catch(|| *b = T::make(1));
                nd::check(p == (boom == 0) && dropped(0) == 1 && dropped(1) == 0 && b.id() == 1, "replaced, with the old value dropped once");
                if p { dlog().boom[0] = NO; }
                drop(b)
            }
            2 => { let v = LeakBox::take(b); nd::check(v.id() == 0, "the value is moved out"); }
            3 => { let r = LeakBox::leak(b); nd::check(r.id() == 0, "the value is still there"); }
            4 => { let r = LeakBox::into_raw(b); drop(unsafe { LeakBox::from_raw(r) }) }
            5 => { let v = core::mem::replace(&mut *b, T::make(1)); drop(b); nd::check(dropped(1) == 1 && dropped(0) == 0, "only the value inside is dropped"); drop(v) }
            _ => { let mut w = bump.bump_box::<T>().map(|b| LeakBox::write(b, T::make(2))).ok().unwrap(); core::mem::swap(&mut *b, &mut *w); nd::check(b.id() == 2 && w.id() == 0, "swapped"); drop(b) }
        }
    });
    if way == 6 {
        nd::check(dropped(0) == 1 && dropped(2) == 1 && p == (boom == 0 || boom == 2), "both values are dropped once");
    } else {
        nd::check(dropped(0) == (way != 3) as u8, "the value is dropped exactly once unless it was leaked");
        nd::check(dropped(1) == (way == 1 || way == 5) as u8, "and so is its replacement");
        nd::check(way == 1 || p == (way != 3 && boom == 0 || way == 5 && boom == 1), "only a destructor panics");
    }
    // The arena goes on.
    nd::check(bump.bump_box::<u8>().is_ok(), "the arena stays usable");
    nd::cover(p && way == 5 && boom == 1, "a value panics, the one outside is dropped by unwinding");
}
fn boxed<T: Elem>() {
    dlog().boom[0] = nd::below(3);
    let boom = dlog().boom[0];
    let way = nd::below(6);
    let mut mem: MaybeUninit<T> = MaybeUninit::uninit();
    let at = mem.as_ptr() as usize;
    let mut back = None;
    let p = nd::catch(|| {
        let mut b = Box::new(T::make(0), Uninit::from(&mut mem));
        nd::check(b.id() == 0, "the value is stored");
        match way {
            0 => drop(b),
            1 => {
                let p = nd::catch(|| *b = T::make(1));
                nd::check(p == (boom == 0) && dropped(0) == 1 && dropped(1) == 0 && b.id() == 1, "replaced, with the old value dropped once");
                if p { dlog().boom[0] = NO; }
                drop(b)
            }
            2 => { let (v, m) = Box::take(b); nd::check(v.id() == 0, "the value is moved out"); back = Some(m.as_ptr() as usize); drop(v); }
            3 => { let r = Box::leak(b); nd::check(r.id() == 0, "the value is still there"); }
            4 => { let r = Box::into_raw(b); back = Some(r.as_ptr() as usize); drop(unsafe { Box::from_raw(r) }) }
            _ => {
                // The memory is used for another value after the first was moved out.
                let (v, m) = Box::take(b);
                let c = Box::new(T::make(1), m);
                nd::check(v.id() == 0 && c.id() == 1, "two values");
                if nd::bool() { drop(c); drop(v) } else { drop(v); drop(c) }
            }
        }
    });
    nd::check(back.is_none() || back == Some(at), "the memory is the same");
    nd::check(dropped(0) == (way != 3) as u8, "the value is dropped exactly once unless it was leaked");
    nd::check(dropped(1) == (way == 1 || way == 5) as u8, "and so is its replacement");
    nd::check(way == 1 || p == (way != 3 && boom == 0 || way == 5 && boom == 1), "only a destructor panics");
    nd::cover(p && way == 5, "the second value panics");
}
/// Unsized contents: one element panics, all others are dropped once.
fn slices() {
    dlog().boom[0] = nd::below(4);
    let n = nd::below(4) as usize;
    let way = nd::below(3);
    let mut mem: [MaybeUninit<D>; 3] = [const { MaybeUninit::uninit() }; 3];
    for i in 0..n { mem[i].write(D(i as u8)); }
    let s: &mut [D] = unsafe { core::slice::from_raw_parts_mut(mem.as_mut_ptr() as *mut D, n) };
    let p = nd::catch(|| match way {
        0 => drop(unsafe { LeakBox::from_mut_unchecked(s) }),
        1 => drop(unsafe { Box::from_raw(Uninit::from_maybe_uninit_slice(core::slice::from_raw_parts_mut(s.as_mut_ptr() as *mut MaybeUninit<D>, n))) }),
        _ => if n > 0 { let t: &mut dyn Any = &mut s[0]; let b = unsafe { LeakBox::from_mut_unchecked(t) }; b.touch(); }
    });
    for i in 0..n { nd::check(dropped(i as u8) == (way < 2 || i == 0) as u8, "every element is dropped exactly once"); }
    nd::check(p == ((dlog().boom[0] as usize) < if way < 2 { n } else { n.min(1) }), "the panic propagates");
    nd::cover(p && n == 3 && way == 1 && dlog().boom[0] == 0, "the first element panics");
}
trait Any { fn touch(&self) {} }
impl Any for D {}
/// A value that is stored directly in a new owner, or handed back.
fn sync_leak<T: Elem>() {
    dlog().boom[0] = nd::below(4);
    let bump: Bump<[u8; 70]> = Bump::uninit();
    let mut n = 0;
    let mut live = [false; 3];
    for i in 0..3 {
        // A value that finds no room is dropped at once.
        let p = nd::catch(|| match bump.leak_box(T::make(i)) {
            Some(b) => {
                nd::check(b.id() == i && dropped(i) == 0, "stored");
                if nd::bool() { core::mem::forget(b); live[i as usize] = true }
            }
            None => { nd::check(dropped(i) == 1, "what cannot be stored is dropped"); n += 1; }
        });
        nd::check(dropped(i) == !live[i as usize] as u8, "dropped exactly once unless forgotten");
        nd::check(p == (!live[i as usize] && dlog().boom[0] == i), "only a destructor panics");
    }
    let p = nd::catch(|| match bump.leak(T::make(3)) {
        Ok(v) => nd::check(v.id() == 3, "stored"),
        Err(e) => { let v = e.into_inner(); nd::check(v.id() == 3 && dropped(3) == 0, "handed back"); }
    });
    nd::check(p == (dropped(3) == 1 && dlog().boom[0] == 3), "only a destructor panics");
    nd::cover(live[0] && !live[1], "one forgotten");
}
/// A closure that panics inside of a scratch array.
fn alloca() {
    dlog().boom[0] = nd::below(4);
    let n = nd::below(4) as usize;
    let at = nd::below(4) as usize;
    let drops = nd::bool();
    let a = Alloca::<D>::new(n).unwrap();
    let mut ran = 0;
    let p = nd::catch(|| {
        let r = a.run(|s| {
            ran += 1;
            nd::check(s.len() == n, "as many elements as asked for");
            for i in 0..n {
                if i == at { nd::boom() }
                s[i].write(D(i as u8));
            }
            if drops { for i in 0..n { unsafe { s[i].assume_init_drop() } } }
            40 + n
        });
        nd::check(r == 40 + n, "the result is returned");
    });
    nd::check(ran == 1, "the closure runs once");
    let b = dlog().boom[0] as usize;
    nd::check(p == (at < n || drops && b < n), "the panic propagates");
    for i in 0..n { nd::check(dropped(i as u8) == (drops && at >= n && (b >= n || i <= b)) as u8, "nothing but the closure drops elements"); }
    nd::cover(p && at == 2, "the closure panics");
    nd::cover(p && at == 3 && n == 3, "a destructor panics");
}
/// A chain of arenas is released while unwinding.
fn chain() {
    use static_alloc::unsync::Chain;
    let before = nd::heap();
    let n = nd::below(3);
    let (merged, more) = (nd::bool(), nd::below(2));
    dlog().boom[0] = nd::below(3);
    let p = nd::catch(|| {
        let c = Chain::new(40).ok().unwrap();
        for _ in 0..n { c.chain(Chain::new(33).ok().unwrap()); }
        if merged {
            let d = Chain::new(40).ok().unwrap();
            for _ in 0..=more { d.chain(Chain::new(20).ok().unwrap()); }
            c.chain(d);
        }
        let b = c.bump_box::<D>().map(|b| LeakBox::write(b, D(0))).ok().unwrap();
        let w = c.bump_box::<D>().map(|b| LeakBox::write(b, D(1))).ok().unwrap();
        nd::check(b.id() == 0 && w.id() == 1, "values in the chain");
    });
    nd::check(p == (dlog().boom[0] < 2), "the panic propagates");
    nd::check(dropped(0) == 1 && dropped(1) == 1, "values are dropped once");
    nd::check(nd::heap() == before, "every link is released");
    nd::cover(p && n == 2 && merged, "five links");
}
/// Pinned owners.
fn pinned() {
    dlog().boom[0] = nd::below(2);
    static mut MEM: MaybeUninit<D> = MaybeUninit::uninit();
    let p = nd::catch(|| {
        let b: LeakBox<'static, D> = LeakBox::write(LeakBox::from(unsafe { &mut *(&raw mut MEM) }), D(0));
        let mut b: Pin<LeakBox<'static, D>> = LeakBox::into_pin(b);
        nd::check(b.id() == 0 && b.as_mut().get_mut().0 == 0, "pinned");
        b.set(D(1));
    });
    nd::check(dropped(0) == 1 && dropped(1) == 1, "both values are dropped once");
    nd::check(p, "the panic propagates");
    nd::cover(p, "a panic");
}

/// Scratch arrays of every size class: lengths around each power of two.
fn scratch<T: Copy + PartialEq + 'static>(x: T, y: T, low: u8, high: u8) {
    let k = low + nd::pick(high - low + 1);
    let d = nd::pick(5) as usize;
    let size = core::mem::size_of::<T>();
    let len = ((1usize << k) / size + d).saturating_sub(3);
    scratch_of(x, y, len);
    nd::cover(d == 3 && k == 20, "a megabyte");
}
/// Every length below `64 * n`.
fn every<T: Copy + PartialEq + 'static>(x: T, y: T, n: u8) {
    let len = nd::pick(n) as usize * 64 + nd::pick(64) as usize;
    scratch_of(x, y, len);
    nd::cover(len == n as usize * 64 - 1, "the longest");
}
fn scratch_of<T: Copy + PartialEq + 'static>(x: T, y: T, len: usize) {
    let size = core::mem::size_of::<T>();
    let a = static_alloc::leaked::Alloca::<T>::new(len).unwrap();
    let mut ran = 0;
    let p = nd::catch(|| {
        let r = a.run(|s| {
            ran += 1;
            nd::check(s.len() == len, "exactly the requested elements");
            nd::check(s.as_ptr() as usize % core::mem::align_of::<T>() == 0, "aligned");
            if len > 0 {
                s[0] = MaybeUninit::new(x);
                s[len - 1] = MaybeUninit::new(y);
                nd::check(unsafe { s[len - 1].assume_init() } == y, "the last element holds what was written");
                nd::check(len == 1 || unsafe { s[0].assume_init() } == x, "the first element holds what was written");
            }
            len ^ 1
        });
        nd::check(r == len ^ 1, "the result is returned");
    });
    nd::check(ran == !p as u8, "the closure runs once, or not at all");
    nd::check(p == ((len + 1) * size > 1 << 20), "refused exactly if it is larger than the largest class");
}
#[repr(align(32))]
#[derive(Clone, Copy, PartialEq)]
struct Al32([u64; 4]);
#[no_mangle]
pub extern "C-unwind" fn c10_classes_u8() { scratch::<u8>(nd::u8(), nd::u8(), 3, 20) }
#[no_mangle]
pub extern "C-unwind" fn c10_classes_u24() { scratch::<[u8; 3]>([nd::u8(), 1, nd::u8()], [nd::u8(); 3], 3, 20) }
#[no_mangle]
pub extern "C-unwind" fn c10_classes_u64() { scratch::<u64>(nd::u8() as u64, 1 + ((nd::u8() as u64) << 56), 3, 21) }
#[no_mangle]
pub extern "C-unwind" fn c10_classes_a32() { scratch::<Al32>(Al32([nd::u8() as u64; 4]), Al32([1, 2, 3, nd::u8() as u64]), 5, 21) }
#[no_mangle]
pub extern "C-unwind" fn c10_every_u8() { every::<u8>(nd::u8(), nd::u8(), 18) }
#[no_mangle]
pub extern "C-unwind" fn c10_every_u16() { every::<u16>(nd::u8() as u16, 256 * nd::u8() as u16, 9) }
#[no_mangle]
pub extern "C-unwind" fn c10_every_u24() { every::<[u8; 3]>([nd::u8(), 1, nd::u8()], [nd::u8(); 3], 6) }
#[no_mangle]
pub extern "C-unwind" fn c10_every_a32() { every::<Al32>(Al32([nd::u8() as u64; 4]), Al32([1, 2, 3, nd::u8() as u64]), 1) }
#[no_mangle]
pub extern "C-unwind" fn c10_every_u8_long() { every::<u8>(nd::u8(), nd::u8(), 130) }

#[no_mangle]
pub extern "C-unwind" fn c13_ways_byte() { leak_box::<D>() }
#[no_mangle]
pub extern "C-unwind" fn c13_ways_wide() { leak_box::<W>() }
#[no_mangle]
pub extern "C-unwind" fn c13_slices() { slices() }
#[no_mangle]
pub extern "C-unwind" fn c13_arena() { sync_leak::<W>() }
#[no_mangle]
pub extern "C-unwind" fn c22_ways_byte() { boxed::<D>() }
#[no_mangle]
pub extern "C-unwind" fn c22_ways_wide() { boxed::<W>() }
#[no_mangle]
pub extern "C-unwind" fn c22_slices() { slices() }
#[no_mangle]
pub extern "C-unwind" fn c29_leakbox_byte() { leak_box::<D>() }
#[no_mangle]
pub extern "C-unwind" fn c29_leakbox_wide() { leak_box::<W>() }
#[no_mangle]
pub extern "C-unwind" fn c29_box_byte() { boxed::<D>() }
#[no_mangle]
pub extern "C-unwind" fn c29_box_wide() { boxed::<W>() }
#[no_mangle]
pub extern "C-unwind" fn c29_slices() { slices() }
#[no_mangle]
pub extern "C-unwind" fn c29_arena_byte() { sync_leak::<D>() }
#[no_mangle]
pub extern "C-unwind" fn c29_arena_wide() { sync_leak::<W>() }
#[no_mangle]
pub extern "C-unwind" fn c29_alloca() { alloca() }
#[no_mangle]
pub extern "C-unwind" fn c29_chain() { chain() }
#[no_mangle]
pub extern "C-unwind" fn c29_pinned() { pinned() }

crate::harnesses! {
    c10_classes_u8, quick;
    c10_classes_u24, quick;
    c10_classes_u64, quick;
    c10_classes_a32, quick;
    c10_every_u8, quick;
    c10_every_u16, quick;
    c10_every_u24, quick;
    c10_every_a32, quick;
    c10_every_u8_long, thorough;
    c13_ways_byte, quick;
    c13_ways_wide, quick;
    c13_slices, quick;
    c13_arena, quick;
    c22_ways_byte, quick;
    c22_ways_wide, quick;
    c22_slices, quick;
    c29_leakbox_byte, quick;
    c29_leakbox_wide, quick;
    c29_box_byte, quick;
    c29_box_wide, quick;
    c29_slices, quick;
    c29_arena_byte, quick;
    c29_arena_wide, quick;
    c29_alloca, quick;
    c29_chain, quick;
    c29_pinned, quick;
}
