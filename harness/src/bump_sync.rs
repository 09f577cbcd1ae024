//! The synchronised `static_alloc::Bump`.
use crate::nd;
use crate::util::*;
use core::alloc::{GlobalAlloc, Layout};
use core::ptr::NonNull;
use core::mem::MaybeUninit;
use alloc_traits::{AllocTime, LocalAlloc, NonZeroLayout};
use static_alloc::bump::{Bump, Failure, Level};
use static_alloc::leaked::LeakBox;

const fn sz<T>() -> usize { core::mem::size_of::<T>() }

/// Brings `b` to an arbitrary reachable level by one byte-aligned allocation
/// of `l0 >= 1` bytes; returns (arena base address, l0).
fn pre<T>(b: &Bump<T>) -> (usize, usize) {
    let l0 = nd::usize();
    nd::assume(l0 >= 1 && l0 <= sz::<T>());
    let p0 = b.alloc(layout(l0, 1));
    prop!(p0.is_some(), "a byte-aligned request that fits the fresh arena succeeds");
    (p0.unwrap().as_ptr() as usize, l0)
}

#[derive(Clone, Copy, PartialEq)]
enum Via { Alloc, GetLayout, GetLayoutAt, AllocAt, Global, Local, Zeroed, LocalZeroed }

fn request<T>(b: &Bump<T>, l: Layout, via: Via) -> Option<(*mut u8, Option<Level>)> {
    match via {
        Via::Alloc => b.alloc(l).map(|p| (p.as_ptr(), None)),
        Via::GetLayout => b.get_layout(l).map(|a| (a.ptr.as_ptr(), Some(a.level))),
        Via::GetLayoutAt => match b.get_layout_at(l, b.level()) {
            Ok(a) => Some((a.ptr.as_ptr(), Some(a.level))),
            Err(e) => { prop!(e == Failure::Exhausted, "only exhaustion at the current level"); None }
        },
        Via::AllocAt => match b.alloc_at(l, b.level()) {
            Ok(a) => Some((a.ptr.as_ptr(), Some(a.level))),
            Err(e) => { prop!(e == Failure::Exhausted, "only exhaustion at the current level"); None }
        },
        Via::Global | Via::Zeroed => {
            let p = unsafe { if via == Via::Zeroed { GlobalAlloc::alloc_zeroed(b, l) } else { GlobalAlloc::alloc(b, l) } };
            if p.is_null() { None } else { Some((p, None)) }
        }
        Via::Local | Via::LocalZeroed => {
            let l = NonZeroLayout::from_layout(l.into()).unwrap();
            let a = if via == Via::Local { LocalAlloc::alloc(b, l) } else { LocalAlloc::alloc_zeroed(b, l) };
            a.map(|a| {
                prop!(a.layout == l, "the allocation reports the requested layout");
                (a.ptr.as_ptr(), None)
            })
        }
    }
}

/// C01/C03: one allocation from an arbitrary reachable level.
/// `complete`: additionally demand success exactly when the request fits.
fn step<T, const N: usize>(via: Via, complete: bool, l: impl FnOnce() -> Layout) {
    let cap = sz::<T>();
    let mut arena = Arena::<N>::new();
    let b: &Bump<T> = arena.place(Bump::uninit());
    let obj = addr(b);
    let (base, l0) = pre(b);
    let before = b.level();
    let l = l();
    let got = request(b, l, via);
    witness!(got.is_some(), "success");
    witness!(got.is_none(), "failure");
    if complete {
        let want = first_fit(base + l0, base + cap, l);
        prop!(got.is_some() == want.is_some(), "succeeds exactly when the aligned request fits the rest");
    }
    match got {
        None => prop!(b.level() == before, "failure leaves the level unchanged"),
        Some((p, lvl)) => {
            let a = p as usize;
            prop!(a % l.align() == 0, "aligned");
            prop!(inside(a, l.size(), obj, sz::<Bump<T>>()), "inside the allocator's object");
            prop!(inside(a, l.size(), base, cap), "inside the storage");
            prop!(disjoint(a, l.size(), base, l0), "disjoint from the earlier allocation");
            let after = b.level();
            prop!(after > before, "level strictly increases");
            if let Some(l) = lvl { prop!(l == after, "reported level is the level after the allocation"); }
            // Using the memory never disturbs the allocator.
            let k = nd::below(l.size());
            unsafe { p.add(k).write(0xA5) };
            prop!(b.level() == after, "writing to the allocation leaves the allocator alone");
        }
    }
}
pub fn c01_alloc_37() { step::<[u8; 37], 80>(Via::Alloc, false, any_layout) }
pub fn c01_get_layout_37() { step::<[u8; 37], 80>(Via::GetLayout, false, any_layout) }
pub fn c01_get_layout_at_37() { step::<[u8; 37], 80>(Via::GetLayoutAt, false, any_layout) }
pub fn c01_alloc_at_a16() { step::<[u128; 2], 96>(Via::AllocAt, false, any_layout) }
pub fn c01_global_37() { step::<[u8; 37], 80>(Via::Global, false, any_layout) }
pub fn c01_local_37() { step::<[u8; 37], 80>(Via::Local, false, any_layout) }
pub fn c01_alloc_u64x4() { step::<[u64; 4], 80>(Via::Alloc, false, any_layout) }
/// Alignments beyond any page.
pub fn c01_alloc_huge_align() {
    // In static memory: a local one of this size is too much for the solver.
    static PAGE: Bump<[u8; 8400]> = Bump::uninit();
    let b = &PAGE;
    let (base, l0) = pre(b);
    let l = any_layout();
    let r = b.alloc(l);
    prop!(r.is_some() == first_fit(base + l0, base + 8400, l).is_some(), "succeeds exactly when the aligned request fits the rest");
    witness!(r.is_some() && l.align() == 8192, "huge alignment");
    if let Some(p) = r {
        prop!(p.as_ptr() as usize % l.align() == 0, "aligned");
        prop!(inside(p.as_ptr() as usize, l.size(), base, 8400), "inside the storage");
    }
}
pub fn c01_alloc_big() { step::<[u8; 1000], 1280>(Via::Alloc, false, any_layout) }

pub fn c03_alloc_37() { step::<[u8; 37], 80>(Via::Alloc, true, any_layout) }
pub fn c03_get_layout_a16() { step::<[u128; 2], 96>(Via::GetLayout, true, any_layout) }
pub fn c03_alloc_at_u64x4() { step::<[u64; 4], 80>(Via::AllocAt, true, any_layout) }
pub fn c03_get_layout_at_37() { step::<[u8; 37], 80>(Via::GetLayoutAt, true, any_layout) }
pub fn c03_global_37() { step::<[u8; 37], 80>(Via::Global, true, any_layout) }
pub fn c03_local_37() { step::<[u8; 37], 80>(Via::Local, true, any_layout) }

/// From the very start: an arena always serves one value of its own type, and
/// is then full.
fn own<T: Copy, const N: usize>() {
    let mut arena = Arena::<N>::new();
    let b: &Bump<T> = arena.place(Bump::uninit());
    let l = Layout::new::<T>();
    let r = b.alloc(l);
    prop!(r.is_some(), "an arena can hold one value of its own type");
    prop!(b.alloc(layout(1, 1)).is_none(), "and is then full");
    prop!(b.get::<T>().is_none(), "no second value fits");
    witness!(true, "end");
}
/// The typed requests, at any level.
fn typed<V: Copy + PartialEq, T, const N: usize>(v: V) {
    let mut arena = Arena::<N>::new();
    let b: &Bump<T> = arena.place(Bump::uninit());
    let (base, l0) = pre(b);
    let before = b.level();
    let want = first_fit(base + l0, base + sz::<T>(), Layout::new::<V>());
    let got = match nd::below(3) {
        0 => b.get::<V>().map(|a| { prop!(a.level == b.level(), "reported level is the level after the allocation"); addr(a.ptr.as_ptr()) }),
        1 => b.leak(v).ok().map(|r| { prop!(*r == v, "the value"); addr(r) }),
        _ => b.leak_box(v).map(|x| { prop!(*x == v, "the value"); addr(&*x) }),
    };
    prop!(got == want, "succeeds exactly when the value fits, and places it right behind the level");
    prop!((b.level() > before) == got.is_some() && b.level() >= before, "only success consumes memory");
    witness!(got.is_some(), "success");
    witness!(got.is_none(), "failure");
}
pub fn c03_typed_u16x2() { typed::<[u16; 2], [u8; 9], 48>([nd::u16(), nd::u16()]) }
pub fn c03_typed_u16x3() { typed::<[u16; 3], [u8; 13], 48>([nd::u16(), nd::u16(), nd::u16()]) }
pub fn c03_typed_a16() { typed::<A16, [u8; 40], 80>(A16(nd::u64())) }
pub fn c03_own_u8() { own::<u8, 48>() }
pub fn c03_own_u128() { own::<u128, 80>() }
pub fn c03_own_a32() { own::<A32, 128>() }
pub fn c03_own_37() { own::<[u8; 37], 80>() }
pub fn c03_own_u16x3() { own::<[u16; 3], 80>() }
pub fn c03_zero_capacity() {
    let b = Bump::<()>::uninit();
    prop!(b.alloc(any_layout()).is_none(), "an empty arena serves nothing");
    prop!(b.leak(()).is_ok(), "but still zero-sized values");
    prop!(b.leak(1u8).is_err(), "no byte fits");
    witness!(true, "end");
}
/// Two requests from a fresh arena, nothing else assumed.
pub fn c03_two_from_fresh() {
    let mut arena = Arena::<64>::new();
    let b: &Bump<[u8; 20]> = arena.place(Bump::uninit());
    let (l1, l2) = (any_layout(), any_layout());
    let before = b.level();
    let r1 = b.alloc(l1);
    let mid = b.level();
    if r1.is_none() { prop!(mid == before, "failure leaves the level unchanged"); }
    let r2 = b.alloc(l2);
    witness!(r1.is_none() && r2.is_some(), "a failure does not poison the arena");
    witness!(r1.is_some() && r2.is_some(), "both");
    if let (Some(a), Some(c)) = (r1, r2) {
        let (a, c) = (a.as_ptr() as usize, c.as_ptr() as usize);
        prop!(disjoint(a, l1.size(), c, l2.size()), "two live allocations never overlap");
        prop!(a + l1.size() <= c, "and grow upward");
        prop!(inside(a, l1.size(), addr(b), sz::<Bump<[u8; 20]>>()), "first inside");
        prop!(inside(c, l2.size(), addr(b), sz::<Bump<[u8; 20]>>()), "second inside");
    }
}

// ---- C04 ------------------------------------------------------------------
/// Any level of an arena of this kind, be it below, at or above the current one
/// (a level may have been observed before a reset, or in another arena).
fn foreign<T>() -> (Level, usize) {
    let twin = Bump::<T>::uninit();
    let n = nd::upto(sz::<T>());
    if n > 0 { prop!(twin.alloc(layout(n, 1)).is_some(), "fits"); }
    (twin.level(), n)
}
/// A request at a level recorded earlier, possibly stale.
fn at_level<T, const N: usize>(raw: bool) {
    let cap = sz::<T>();
    let mut arena = Arena::<N>::new();
    let b: &Bump<T> = arena.place(Bump::uninit());
    let lv0 = b.level();
    let (high, n) = foreign::<T>();
    let (base, l0) = pre(b);
    let lv1 = b.level();
    let second = nd::bool();
    let mut used = l0;
    if second {
        let l1 = nd::usize();
        nd::assume(l1 >= 1 && l1 <= cap);
        let r = b.get_layout(layout(l1, 1));
        nd::assume(r.is_some());
        used += l1;
    }
    let lv2 = b.level();
    let pick = nd::below(4);
    let at = if pick == 0 { lv0 } else if pick == 1 { lv1 } else if pick == 2 { high } else { lv2 };
    let l = any_layout();
    let r = if raw { b.alloc_at(l, at) } else { b.get_layout_at(l, at) };
    witness!(r.is_ok(), "success");
    witness!(matches!(r, Err(Failure::Mismatch { .. })), "mismatch");
    match r {
        Ok(a) => {
            prop!(at == lv2, "succeeds only at the current level");
            let p = a.ptr.as_ptr() as usize;
            prop!(first_fit(base + used, base + cap, l) == Some(p), "placed at the first aligned byte after the level");
            prop!(a.level == b.level() && a.level > lv2, "reports the new level");
        }
        Err(e) => {
            prop!(b.level() == lv2, "failure leaves the level unchanged");
            match e {
                Failure::Mismatch { observed } => {
                    prop!(at != lv2 && observed == lv2, "a mismatch reports the level that was observed");
                }
                Failure::Exhausted => {
                    let from = if pick == 2 && n > used { n } else { used };
                    prop!(first_fit(base + from, base + cap, l).is_none(), "exhausted only if it does not fit");
                }
            }
        }
    }
}
pub fn c04_alloc_at_13() { at_level::<[u8; 13], 56>(true) }
pub fn c04_get_layout_at_13() { at_level::<[u8; 13], 56>(false) }

fn typed_at<V: Copy + PartialEq, T, const N: usize>(v: V) {
    let mut arena = Arena::<N>::new();
    let b: &Bump<T> = arena.place(Bump::uninit());
    let lv0 = b.level();
    let (high, n) = foreign::<T>();
    let (base, l0) = pre(b);
    let lv1 = b.level();
    let pick = nd::below(3);
    let at = if pick == 0 { lv0 } else if pick == 1 { high } else { lv1 };
    let fit = first_fit(base + l0, base + sz::<T>(), Layout::new::<V>());
    let which = nd::below(3);
    let r: Result<(usize, Option<Level>), Failure> = match which {
        0 => b.get_at::<V>(at).map(|a| (addr(a.ptr.as_ptr()), Some(a.level))),
        1 => match b.leak_at(v, at) {
            Ok((r, l)) => { prop!(*r == v, "the leaked value is stored"); Ok((addr(r), Some(l))) }
            Err(e) => { prop!(e.into_inner() == v, "the value is handed back"); Err(e.kind()) }
        },
        _ => match b.leak_box_at(v, at) {
            Ok(bx) => { prop!(*bx == v, "the boxed value is stored"); Ok((addr(&*bx), None)) }
            Err(e) => Err(e),
        },
    };
    match r {
        Ok((p, l)) => {
            prop!(at == lv1, "succeeds only at the current level");
            prop!(p % core::mem::align_of::<V>() == 0, "aligned");
            if sz::<V>() != 0 {
                prop!(fit == Some(p), "placed at the first aligned byte after the level");
                prop!(b.level() > lv1, "level increases");
            } else {
                prop!(b.level() == lv1, "zero-sized values consume nothing");
            }
            if let Some(l) = l { prop!(l == b.level(), "reports the new level"); }
        }
        Err(Failure::Mismatch { observed }) => {
            prop!(at != lv1 && observed == lv1 && b.level() == lv1, "a mismatch reports the observed level");
        }
        Err(Failure::Exhausted) => {
            let from = if pick == 1 && n > l0 { n } else { l0 };
            let fit = first_fit(base + from, base + sz::<T>(), Layout::new::<V>());
            prop!(sz::<V>() != 0 && fit.is_none() && b.level() == lv1, "exhausted only if it does not fit");
        }
    }
    witness!(true, "end");
}
pub fn c04_typed_u32() { typed_at::<u32, [u8; 9], 48>(nd::u32()) }
pub fn c04_typed_u16x3() { typed_at::<[u16; 3], [u8; 13], 48>([nd::u16(), nd::u16(), nd::u16()]) }
pub fn c04_typed_u16x2() { typed_at::<[u16; 2], [u8; 9], 48>([nd::u16(), nd::u16()]) }
pub fn c04_typed_a16() { typed_at::<A16, [u8; 40], 80>(A16(nd::u64())) }
pub fn c04_typed_zst() { typed_at::<(), [u8; 3], 48>(()) }

// ---- C05 ------------------------------------------------------------------
/// Values moved into the arena read back unchanged, for as long as the arena
/// lives, whatever is allocated afterwards; they are never dropped by it.
fn leak_two<V: PartialEq, W: PartialEq + Copy, T, const N: usize>(mk: fn() -> (V, V), w: W) {
    reset_drops();
    let mut arena = Arena::<N>::new();
    let b: &Bump<T> = arena.place(Bump::uninit());
    if nd::bool() { pre(b); }
    let (v, same) = mk();
    let at = nd::bool();
    let lvl = b.level();
    let r = if at { b.leak_at(v, b.level()).map(|(r, _)| r) } else { b.leak(v) };
    match r {
        Ok(r) => {
            let a1 = addr(r);
            prop!(*r == same, "the value reads back unchanged");
            prop!(a1 % core::mem::align_of::<V>() == 0, "aligned");
            let second = b.leak(w);
            witness!(second.is_ok(), "two values");
            if let Ok(s) = second {
                prop!(*s == w, "second value");
                prop!(disjoint(a1, sz::<V>(), addr(s), sz::<W>()), "no overlap");
            }
            prop!(*r == same, "unchanged by the later allocation");
            prop!(drops() == 0, "nothing is dropped");
        }
        Err(e) => {
            witness!(true, "failure");
            prop!(e.kind() == Failure::Exhausted, "the only reason is exhaustion");
            prop!(b.level() == lvl, "level unchanged");
            let back = e.into_inner();
            prop!(back == same, "failure returns the very value");
            prop!(drops() == 0, "and does not drop it");
            core::mem::forget(back);
        }
    }
    core::mem::forget(same);
}
pub fn c05_leak_u16_u8() { leak_two::<u16, u8, [u8; 9], 48>(|| { let v = nd::u16(); (v, v) }, nd::u8()) }
pub fn c05_leak_arr_u64() { leak_two::<[u8; 3], u64, [u8; 21], 64>(|| { let v = [nd::u8(), nd::u8(), nd::u8()]; (v, v) }, nd::u64()) }
pub fn c05_leak_d_u32() { leak_two::<D, u32, [u8; 9], 48>(|| { let v = nd::u8(); (D(v), D(v)) }, nd::u32()) }
pub fn c05_leak_a16() { leak_two::<A16, u8, [u8; 40], 80>(|| { let v = A16(nd::u64()); (v, v) }, nd::u8()) }
pub fn c05_leak_u16x2() { leak_two::<[u16; 2], u8, [u8; 9], 48>(|| { let v = [nd::u16(), nd::u16()]; (v, v) }, nd::u8()) }

pub fn c05_leak_zst() {
    reset_drops();
    let b = Bump::<[u8; 4]>::uninit();
    let n = nd::upto(4);
    if n > 0 { prop!(b.alloc(layout(n, 1)).is_some(), "fits"); }
    let lvl = b.level();
    let ok = match nd::below(3) {
        0 => b.leak(Z).is_ok(),
        1 => b.leak_at(Z, lvl).is_ok(),
        _ => { let a = b.get::<Z>(); prop!(a.is_some(), "get"); prop!(a.unwrap().level == lvl, "level"); true }
    };
    prop!(ok, "zero-sized values always fit, even in a full arena");
    prop!(b.level() == lvl, "and consume nothing");
    prop!(drops() == 0, "and are not dropped");
    witness!(n == 4, "full arena");
}
/// At a level of any kind: a value that is not stored is handed back, alive.
fn stale<V, T>(v: V) {
    reset_drops();
    let b = Bump::<T>::uninit();
    let n = nd::upto(sz::<T>());
    if n > 0 { prop!(b.alloc(layout(n, 1)).is_some(), "fits"); }
    let (at, _) = foreign::<T>();
    let lvl = b.level();
    if nd::bool() {
        match b.leak_at(v, at) {
            Ok((r, l)) => { prop!(at == lvl && l == b.level(), "only at the current level"); prop!(drops() == 0, "not dropped"); unsafe { core::ptr::drop_in_place(r) } }
            Err(e) => {
                prop!(sz::<V>() != 0 || at != lvl, "zero-sized values always fit");
                prop!(e.kind() != Failure::Exhausted || sz::<V>() != 0, "zero-sized values always fit");
                prop!(drops() == 0, "handed back alive");
                if nd::bool() { drop(e) } else { let back = e.into_inner(); prop!(drops() == 0, "handed back alive"); drop(back) }
            }
        }
    } else {
        let r = b.leak_box_at(v, at);
        prop!(r.is_err() || at == lvl, "only at the current level");
        prop!(drops() == r.is_err() as usize, "dropped at once, or owned by the box");
        drop(r);
    }
    prop!(drops() == 1, "dropped exactly once in the end");
    witness!(at < lvl, "past");
    witness!(at > lvl, "ahead");
    witness!(at == lvl, "current");
}
pub fn c05_stale_zst() { stale::<Z, [u8; 4]>(Z) }
pub fn c05_stale_d() { stale::<D, [u8; 4]>(D(nd::u8())) }
/// leak_box: owns the value, drops it exactly once; on failure the value is
/// dropped exactly once by the call.
pub fn c05_leak_box() {
    reset_drops();
    let mut arena = Arena::<48>::new();
    let b: &Bump<[u8; 9]> = arena.place(Bump::uninit());
    let (_, l0) = pre(b);
    let v = nd::u8();
    let at = nd::bool();
    let bx = if at { b.leak_box_at(D(v), b.level()).ok() } else { b.leak_box(D(v)) };
    prop!(bx.is_some() == (l0 < 9), "succeeds exactly if a byte is left");
    witness!(bx.is_some(), "some");
    witness!(bx.is_none(), "none");
    match bx {
        None => prop!(drops() == 1, "a value that could not be placed is dropped once"),
        Some(mut bx) => {
            prop!(bx.0 == v, "content");
            prop!(drops() == 0, "still alive");
            let more = b.leak(7u8);
            bx.0 = bx.0.wrapping_add(1);
            if let Ok(m) = more { prop!(*m == 7, "neighbour untouched"); }
            drop(bx);
            prop!(drops() == 1 && log(0) == v.wrapping_add(1), "dropped exactly once, in its final state");
        }
    }
}
/// The explicit steps: get + leak / boxed / uninit.
pub fn c05_allocation_steps() {
    reset_drops();
    let mut arena = Arena::<64>::new();
    let b: &Bump<[u8; 17]> = arena.place(Bump::uninit());
    pre(b);
    let v = nd::u32();
    let a = b.get::<u32>();
    nd::assume(a.is_some());
    let a = a.unwrap();
    prop!(a.level == b.level(), "level");
    let p = addr(a.ptr.as_ptr());
    prop!(p % 4 == 0 && inside(p, 4, addr(b), sz::<Bump<[u8; 17]>>()), "placement");
    match nd::below(3) {
        0 => { let r = unsafe { a.leak(v) }; prop!(*r == v && addr(r) == p, "leak"); }
        1 => { let r = unsafe { a.boxed(v) }; prop!(*r == v && addr(&*r) == p, "boxed"); }
        _ => { let r = unsafe { a.uninit() }; prop!(addr(r) == p, "uninit"); r.write(v); prop!(unsafe { r.assume_init() } == v, "uninit value"); }
    }
    witness!(true, "end");
}

/// Values put explicitly into memory that held others before: the old bytes
/// are never taken for a value.
pub fn c05_stale_memory() {
    reset_drops();
    let mut arena = Arena::<64>::new();
    let b: &mut Bump<[u8; 9]> = arena.place(Bump::uninit());
    if nd::bool() { prop!(b.leak(D(nd::u8())).is_ok(), "first"); prop!(b.leak(D(nd::u8())).is_ok(), "second"); b.reset(); }
    let v = nd::u8();
    match nd::below(5) {
        0 => { let a = b.get::<D>().unwrap(); let r = unsafe { a.leak(D(v)) }; prop!(r.0 == v && drops() == 0, "leak drops nothing"); }
        1 => {
            let a = b.get::<D>().unwrap(); let r = unsafe { a.boxed(D(v)) };
            prop!(r.0 == v && drops() == 0, "boxed drops nothing");
            drop(r); prop!(drops() == 1 && log(0) == v, "and then its own value once");
        }
        2 => { let r = b.leak(D(v)).unwrap(); prop!(r.0 == v && drops() == 0, "leak value drops nothing"); }
        3 => {
            let r = b.leak_box(D(v)).unwrap(); prop!(r.0 == v && drops() == 0, "leak_box drops nothing");
            drop(r); prop!(drops() == 1 && log(0) == v, "and then its own value once");
        }
        _ => {
            let l = b.level();
            let r = b.leak_box_at(D(v), l).ok().unwrap(); prop!(r.0 == v && drops() == 0, "leak_box_at drops nothing");
            drop(r); prop!(drops() == 1 && log(0) == v, "and then its own value once");
        }
    }
    witness!(true, "end");
}

// ---- C06: allocator contracts ----------------------------------------------
fn fill_sym(p: *mut u8, n: usize) -> [u8; 4] {
    // At most four bytes carry symbolic content; the rest is fixed.
    let mut c = [0u8; 4];
    let mut i = 0;
    while i < 4 { if i < n { c[i] = nd::u8(); unsafe { p.add(i).write(c[i]) } } i += 1; }
    c
}
/// realloc through the global interface: old size up to 4, new size arbitrary.
fn realloc_global(align: usize) {
    let mut arena = Arena::<64>::new();
    let guard = arena.guard();
    let b: &Bump<[u8; 24]> = arena.place(Bump::uninit());
    pre(b);
    let old = layout(1 + nd::below(4), align);
    let p = unsafe { GlobalAlloc::alloc(b, old) };
    nd::assume(!p.is_null());
    let c = fill_sym(p, old.size());
    // Something is allocated behind it.
    let behind = nd::bool();
    let q = if behind { let q = unsafe { GlobalAlloc::alloc(b, layout(1, 1)) }; nd::assume(!q.is_null()); unsafe { q.write(0x77) }; q } else { core::ptr::null_mut() };
    let lvl = b.level();
    let new = nd::usize();
    nd::assume(new > 0);
    let r = unsafe { GlobalAlloc::realloc(b, p, old, new) };
    witness!(r.is_null(), "refused");
    witness!(!r.is_null() && r != p, "moved");
    witness!(r == p, "in place");
    if r.is_null() {
        prop!(b.level() == lvl, "a refused realloc consumes nothing");
        prop!(new > old.size(), "shrinking never fails");
        let i = nd::below(old.size());
        prop!(unsafe { *p.add(i) } == c[i], "the old allocation is untouched");
    } else {
        let a = r as usize;
        prop!(a % align == 0, "aligned as before");
        prop!(inside(a, new, addr(b), sz::<Bump<[u8; 24]>>()), "inside the arena");
        let keep = if new < old.size() { new } else { old.size() };
        let i = nd::below(keep);
        prop!(unsafe { *r.add(i) } == c[i], "contents preserved up to the smaller size");
        // Grown memory is really exclusive and writable.
        let j = nd::below(new);
        unsafe { r.add(j).write(0x11) };
        if behind {
            prop!(disjoint(a, new, q as usize, 1), "does not grow into a neighbour");
            prop!(unsafe { *q } == 0x77, "neighbour untouched");
        }
        let after = b.level();
        let n = b.alloc(layout(1, 1));
        if let Some(n) = n { prop!(disjoint(a, new, n.as_ptr() as usize, 1), "later allocations do not overlap the reallocated block"); }
        prop!(after >= lvl, "level never decreases");
    }
    guard.check(addr(b), sz::<Bump<[u8; 24]>>());
}
pub fn c06_realloc_global_a1() { realloc_global(1) }
pub fn c06_realloc_global_a4() { realloc_global(4) }

/// realloc through the local interface: alignment may change too.
pub fn c06_realloc_local() {
    let mut arena = Arena::<64>::new();
    let guard = arena.guard();
    let b: &Bump<[u8; 24]> = arena.place(Bump::uninit());
    pre(b);
    let old = NonZeroLayout::from_layout(small_layout(4, 4).into()).unwrap();
    let a = LocalAlloc::alloc(b, old);
    nd::assume(a.is_some());
    let a = a.unwrap();
    let p = a.ptr.as_ptr();
    let c = fill_sym(p, old.size().get());
    let behind = nd::bool();
    let q = if behind { let q = b.alloc(layout(1, 1)); nd::assume(q.is_some()); unsafe { q.unwrap().as_ptr().write(0x77); } q.unwrap().as_ptr() } else { core::ptr::null_mut() };
    let lvl = b.level();
    let newl = any_layout();
    let new = NonZeroLayout::from_layout(newl.into()).unwrap();
    let r = unsafe { LocalAlloc::realloc(b, a, new) };
    witness!(r.is_none(), "refused");
    witness!(r.is_some() && r.unwrap().ptr.as_ptr() != p, "moved");
    witness!(r.is_some() && r.unwrap().ptr.as_ptr() == p, "in place");
    match r {
        None => {
            prop!(b.level() == lvl, "a refused realloc consumes nothing");
            let i = nd::below(old.size().get());
            prop!(unsafe { *p.add(i) } == c[i], "the old allocation is untouched");
        }
        Some(n) => {
            prop!(n.layout == new, "reports the new layout");
            let r = n.ptr.as_ptr();
            prop!(r as usize % newl.align() == 0, "aligned for the new layout");
            prop!(inside(r as usize, newl.size(), addr(b), sz::<Bump<[u8; 24]>>()), "inside the arena");
            let keep = if newl.size() < old.size().get() { newl.size() } else { old.size().get() };
            let i = nd::below(keep);
            prop!(unsafe { *r.add(i) } == c[i], "contents preserved up to the smaller size");
            if behind {
                prop!(disjoint(r as usize, newl.size(), q as usize, 1), "does not grow into a neighbour");
                prop!(unsafe { *q } == 0x77, "neighbour untouched");
            }
            let n2 = b.alloc(layout(1, 1));
            if let Some(n2) = n2 { prop!(disjoint(r as usize, newl.size(), n2.as_ptr() as usize, 1), "later allocations do not overlap"); }
        }
    }
    guard.check(addr(b), sz::<Bump<[u8; 24]>>());
}
/// dealloc never invalidates other live allocations (a bump allocator may
/// ignore it, but must not recycle memory that is still in use).
pub fn c06_dealloc() {
    let mut arena = Arena::<64>::new();
    let b: &Bump<[u8; 19]> = arena.place(Bump::uninit());
    let l1 = small_layout(6, 4);
    let l2 = small_layout(6, 4);
    let l3 = small_layout(6, 4);
    let p1 = unsafe { GlobalAlloc::alloc(b, l1) };
    let p2 = unsafe { GlobalAlloc::alloc(b, l2) };
    nd::assume(!p1.is_null() && !p2.is_null());
    let first = nd::bool();
    let local = nd::bool();
    let (dp, dl) = if first { (p1, l1) } else { (p2, l2) };
    let (kp, kl) = if first { (p2, l2) } else { (p1, l1) };
    unsafe {
        if local {
            let l = NonZeroLayout::from_layout(dl.into()).unwrap();
            LocalAlloc::dealloc(b, alloc_traits::Allocation { ptr: NonNull::new(dp).unwrap(), layout: l, lifetime: AllocTime::default() });
        } else { GlobalAlloc::dealloc(b, dp, dl) }
    }
    let p3 = unsafe { GlobalAlloc::alloc(b, l3) };
    witness!(!p3.is_null(), "third");
    if !p3.is_null() {
        prop!(disjoint(p3 as usize, l3.size(), kp as usize, kl.size()), "memory still in use is not handed out again");
    }
}
/// alloc_zeroed zeroes even memory used before a reset.
fn zeroed(via: Via) {
    let mut b: Bump<[u8; 10]> = Bump::new([0xEE; 10]);
    let n = nd::upto(4);
    if n > 0 { prop!(b.alloc(layout(n, 1)).is_some(), "fits"); }
    let l = small_layout(12, 4);
    let r = request(&b, l, via);
    witness!(r.is_some() && l.size() > 4, "some");
    if let Some((p, _)) = r {
        prop!(p as usize % l.align() == 0, "aligned");
        let i = nd::below(l.size());
        prop!(unsafe { *p.add(i) } == 0, "zeroed");
    }
}
pub fn c06_zeroed_global() { zeroed(Via::Zeroed) }
pub fn c06_zeroed_local() { zeroed(Via::LocalZeroed) }

// ---- C07 --------------------------------------------------------------------
/// reset: everything is available again, bytes are kept.
pub fn c07_reset() {
    let mut arena = Arena::<64>::new();
    let b: &mut Bump<[u8; 11]> = arena.place(Bump::uninit());
    let fresh = b.level();
    let l1 = any_layout();
    let p1 = b.alloc(l1);
    let mark = nd::u8();
    let mut k = 0;
    if let Some(p) = p1 { k = nd::below(l1.size()); unsafe { p.as_ptr().add(k).write(mark) } }
    if nd::bool() { let _ = b.alloc(any_layout()); }
    b.reset();
    prop!(b.level() == fresh, "level is that of a fresh arena");
    let p2 = b.alloc(l1);
    prop!(p2 == p1, "the same request is served identically after a reset");
    witness!(p2.is_some(), "some");
    if let Some(p) = p2 { prop!(unsafe { *p.as_ptr().add(k) } == mark, "the backing bytes are kept"); }
    b.reset();
    prop!(b.alloc(layout(11, 1)).is_some(), "the full capacity is available again");
}
pub fn c07_zeroed() {
    let b: Bump<[u8; 11]> = Bump::zeroed();
    let l = small_layout(11, 8);
    let r = b.alloc(l);
    witness!(r.is_some(), "some");
    if let Some(p) = r {
        let i = nd::below(l.size());
        prop!(unsafe { *p.as_ptr().add(i) } == 0, "a zeroed arena hands out zeroed memory");
    }
}
pub fn c07_new_keeps_bytes() {
    let v = [nd::u8(), nd::u8(), nd::u8(), nd::u8()];
    let mut b: Bump<[u8; 4]> = Bump::new(v);
    let moved = b; // moving the allocator moves its bytes
    b = moved;
    let p = b.alloc(layout(4, 1));
    prop!(p.is_some(), "full capacity");
    let i = nd::below(4);
    prop!(unsafe { *p.unwrap().as_ptr().add(i) } == v[i], "the provided bytes are what is handed out");
    witness!(true, "end");
}

harnesses! {
    c01_alloc_37, 3, quick, normal;
    c01_get_layout_37, 3, quick, normal;
    c01_get_layout_at_37, 3, quick, normal;
    c01_alloc_at_a16, 3, quick, normal;
    c01_global_37, 3, quick, normal;
    c01_local_37, 3, quick, normal;
    c01_alloc_u64x4, 3, quick, normal;
    c01_alloc_big, 3, thorough, normal;
    c01_alloc_huge_align, 3, quick, normal;
    c03_alloc_37, 3, quick, normal;
    c03_get_layout_a16, 3, quick, normal;
    c03_alloc_at_u64x4, 3, quick, normal;
    c03_get_layout_at_37, 3, thorough, normal;
    c03_global_37, 3, quick, normal;
    c03_local_37, 3, quick, normal;
    c03_own_u8, 3, quick, normal;
    c03_own_u128, 3, quick, normal;
    c03_own_a32, 3, quick, normal;
    c03_own_37, 3, quick, normal;
    c03_typed_u16x2, 8, quick, normal;
    c03_typed_u16x3, 8, quick, normal;
    c03_typed_a16, 3, quick, normal;
    c03_own_u16x3, 3, quick, normal;
    c03_zero_capacity, 3, quick, normal;
    c03_two_from_fresh, 3, quick, normal;
    c04_alloc_at_13, 3, quick, normal;
    c04_get_layout_at_13, 3, quick, normal;
    c04_typed_u32, 3, quick, normal;
    c04_typed_u16x3, 8, quick, normal;
    c04_typed_u16x2, 8, quick, normal;
    c04_typed_a16, 3, quick, normal;
    c04_typed_zst, 3, quick, normal;
    c05_leak_u16_u8, 5, quick, normal;
    c05_leak_arr_u64, 5, quick, normal;
    c05_leak_d_u32, 5, quick, normal;
    c05_leak_a16, 5, quick, normal;
    c05_leak_u16x2, 5, quick, normal;
    c05_leak_zst, 5, quick, normal;
    c05_leak_box, 5, quick, normal;
    c05_stale_zst, 5, quick, normal;
    c05_stale_d, 5, quick, normal;
    c05_stale_memory, 5, quick, normal;
    c05_allocation_steps, 5, quick, normal;
    c06_realloc_global_a1, 6, quick, normal;
    c06_realloc_global_a4, 6, quick, normal;
    c06_realloc_local, 6, quick, normal;
    c06_dealloc, 6, quick, normal;
    c06_zeroed_global, 14, quick, normal;
    c06_zeroed_local, 14, quick, normal;
    c07_reset, 3, quick, normal;
    c07_zeroed, 3, quick, normal;
    c07_new_keeps_bytes, 5, quick, normal;
}
