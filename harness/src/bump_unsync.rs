//! The unsynchronised allocators: `unsync::Bump`, `unsync::MemBump`,
//! `unsync::Chain`.
use crate::nd;
use crate::util::*;
use core::alloc::Layout;
use core::mem::MaybeUninit;
use static_alloc::bump::{Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{Bump, Chain, MemBump};

const fn sz<T>() -> usize { core::mem::size_of::<T>() }

/// Arbitrary level by one byte-aligned allocation of `l0` bytes.
fn pre(b: &MemBump) -> (usize, usize) {
    let l0 = nd::usize();
    nd::assume(l0 >= 1 && l0 <= b.capacity());
    let p = b.alloc(layout(l0, 1));
    prop!(p.is_some(), "a byte-aligned request that fits the fresh arena succeeds");
    prop!(p.unwrap() == b.data_ptr(), "allocation starts at the start of the data");
    (b.data_ptr().as_ptr() as usize, l0)
}
/// One untyped allocation from an arbitrary reachable level; `mem`/`memlen` is
/// the region the allocator owns.
fn step(b: &MemBump, mem: usize, memlen: usize, at: bool, l: Layout) {
    let cap = b.capacity();
    let (base, l0) = pre(b);
    prop!(inside(base, cap, mem, memlen), "the data lies inside the allocator's memory");
    let before = b.level();
    let want = first_fit(base + l0, base + cap, l);
    let got = if at {
        match b.alloc_at(l, before) { Ok(p) => Some(p), Err(e) => { prop!(e == Failure::Exhausted, "only exhaustion at the current level"); None } }
    } else { b.alloc(l) };
    witness!(got.is_some(), "success");
    witness!(got.is_none(), "failure");
    prop!(got.is_some() == want.is_some(), "succeeds exactly when the aligned request fits the rest");
    match got {
        None => prop!(b.level() == before, "failure leaves the level unchanged"),
        Some(p) => {
            let a = p.as_ptr() as usize;
            prop!(a % l.align() == 0, "aligned");
            prop!(inside(a, l.size(), base, cap), "inside the data");
            prop!(disjoint(a, l.size(), base, l0), "disjoint from the earlier allocation");
            let after = b.level();
            prop!(after > before, "level strictly increases");
            let k = nd::below(l.size());
            unsafe { p.as_ptr().add(k).write(0xA5) };
            prop!(b.level() == after, "writing to the allocation leaves the allocator alone");
            prop!(b.capacity() == cap, "capacity is constant");
        }
    }
}
fn step_t<T, const N: usize>(at: bool) {
    let mut arena = Arena::<N>::new();
    let b: &Bump<T> = arena.place(Bump::uninit());
    prop!(b.capacity() >= sz::<T>(), "capacity covers the type");
    step(b, addr(b), sz::<Bump<T>>(), at, any_layout());
}
pub fn c08_step_37() { step_t::<[u8; 37], 80>(false) }
pub fn c08_step_at_u64x4() { step_t::<[u64; 4], 80>(true) }
pub fn c08_step_a16() { step_t::<[u128; 2], 128>(false) }
pub fn c08_step_a32() { step_t::<A32, 192>(true) }
pub fn c08_step_from_mem() {
    let mut arena = Arena::<48>::new();
    let m = arena.bytes();
    let (p, n) = (m.as_ptr() as usize, m.len());
    let r = MemBump::from_mem(m);
    nd::assume(r.is_ok());
    let b = r.unwrap();
    nd::assume(b.capacity() > 0);
    step(&b, p, n, false, any_layout());
}
pub fn c08_step_mem_new() {
    let cap = nd::usize();
    nd::assume(cap >= 1 && cap <= 20);
    let b = MemBump::new(cap);
    prop!(b.capacity() >= cap, "at least the requested capacity");
    step(&b, addr(&*b), core::mem::size_of_val(&*b), false, any_layout());
}
/// A fresh arena serves one value of its own type.
fn own<T, const N: usize>() {
    let mut arena = Arena::<N>::new();
    let b: &Bump<T> = arena.place(Bump::uninit());
    let r = b.bump_box::<T>();
    prop!(r.is_ok(), "an arena can hold one value of its own type");
    let p = addr(&*r.unwrap());
    prop!(p % core::mem::align_of::<T>() == 0 && inside(p, sz::<T>(), addr(b), sz::<Bump<T>>()), "placement");
    witness!(true, "end");
}
pub fn c08_own_u8() { own::<u8, 48>() }
pub fn c08_own_u64() { own::<u64, 48>() }
pub fn c08_own_u16x3() { own::<[u16; 3], 48>() }
pub fn c08_own_a16() { own::<A16, 96>() }
pub fn c08_own_a32() { own::<A32, 192>() }
/// Dereferencing never needs more than the object itself.
pub fn c08_fresh_new() {
    let cap = nd::usize();
    nd::assume(cap <= 20);
    let b = MemBump::new(cap);
    let l = any_layout();
    let r = b.alloc(l);
    witness!(r.is_some(), "some");
    prop!(r.is_none() || l.size() <= b.capacity(), "a fresh arena never serves more than its capacity");
    if nd::bool() { let n = b.capacity(); if n > 0 && r.is_none() { prop!(b.alloc(layout(n, 1)).is_some(), "all of it is available"); } }
}

/// Typed requests: get / get_at / bump_box, possibly at stale levels.
fn typed<V: Copy + PartialEq, T, const N: usize>(v: V) {
    let mut arena = Arena::<N>::new();
    let b: &Bump<T> = arena.place(Bump::uninit());
    let lv0 = b.level();
    let (base, l0) = pre(b);
    let cap = b.capacity();
    let lv1 = b.level();
    let want = first_fit(base + l0, base + cap, Layout::new::<V>());
    let which = nd::below(3);
    let stale = nd::bool();
    let at = if stale { lv0 } else { lv1 };
    let r: Result<(usize, Option<Level>), Failure> = match which {
        0 => b.get::<V>().map(|a| (addr(a.ptr.as_ptr()), Some(a.level))).ok_or(Failure::Exhausted),
        1 => b.get_at::<V>(at).map(|a| (addr(a.ptr.as_ptr()), Some(a.level))),
        _ => b.bump_box::<V>().map(|bx| {
            let bx = LeakBox::write(bx, v);
            prop!(*bx == v, "value is stored");
            let a = addr(&*bx);
            prop!(LeakBox::take(bx) == v, "and returned");
            (a, None)
        }),
    };
    witness!(r.is_ok(), "ok");
    witness!(r.is_err(), "err");
    match r {
        Ok((p, l)) => {
            prop!(which != 1 || at == lv1, "succeeds only at the current level");
            prop!(want == Some(p), "placed at the first aligned byte after the level");
            prop!(b.level() > lv1, "level increases");
            if let Some(l) = l { prop!(l == b.level(), "reports the new level"); }
            // The same allocation can be reacquired by its level.
            let again = unsafe { b.get_unchecked::<V>(lv1) };
            prop!(addr(again.ptr.as_ptr()) == p, "reacquiring at the level of the allocation gives the same memory");
        }
        Err(Failure::Mismatch { observed }) => prop!(which == 1 && at != lv1 && observed == lv1 && b.level() == lv1, "a mismatch reports the observed level"),
        Err(Failure::Exhausted) => prop!(want.is_none() && b.level() == lv1, "exhausted only if it does not fit"),
    }
}
pub fn c12_typed_u8() { typed::<u8, [u8; 9], 48>(nd::u8()) }
pub fn c12_typed_u32() { typed::<u32, [u8; 11], 48>(nd::u32()) }
pub fn c12_typed_u16x3() { typed::<[u16; 3], [u8; 13], 48>([nd::u16(), nd::u16(), nd::u16()]) }
pub fn c12_typed_u16x2() { typed::<[u16; 2], [u8; 9], 48>([nd::u16(), nd::u16()]) }
pub fn c12_typed_a16() { typed::<A16, [u8; 40], 80>(A16(nd::u64())) }
/// Any level of an arena of this kind, be it below, at or above the current one
/// (a level may have been observed before a reset, or in another arena).
fn foreign<T>() -> (Level, usize) {
    let twin = Bump::<T>::uninit();
    let n = nd::upto(twin.capacity());
    if n > 0 { prop!(twin.alloc(layout(n, 1)).is_some(), "fits"); }
    (twin.level(), n)
}
/// Untyped requests at stale levels.
pub fn c04_unsync_stale() {
    let mut arena = Arena::<48>::new();
    let b: &Bump<[u8; 13]> = arena.place(Bump::uninit());
    let lv0 = b.level();
    let (high, n) = foreign::<[u8; 13]>();
    let (base, l0) = pre(b);
    let lv1 = b.level();
    let pick = nd::below(3);
    let at = if pick == 0 { lv0 } else if pick == 1 { high } else { lv1 };
    let l = any_layout();
    let r = b.alloc_at(l, at);
    witness!(matches!(r, Err(Failure::Mismatch { .. })), "mismatch");
    match r {
        Ok(p) => prop!(at == lv1 && first_fit(base + l0, base + 13, l) == Some(p.as_ptr() as usize), "succeeds only at the current level, placed right after it"),
        Err(Failure::Mismatch { observed }) => prop!(at != lv1 && observed == lv1 && b.level() == lv1, "a mismatch reports the observed level"),
        Err(Failure::Exhausted) => {
            let from = if pick == 1 && n > l0 { n } else { l0 };
            prop!(first_fit(base + from, base + b.capacity(), l).is_none() && b.level() == lv1, "exhausted only if it does not fit");
        }
    }
}
/// Typed requests at any level.
fn typed_at<V, T, const N: usize>() {
    let mut arena = Arena::<N>::new();
    let b: &Bump<T> = arena.place(Bump::uninit());
    let lv0 = b.level();
    let (high, n) = foreign::<T>();
    let (base, l0) = pre(b);
    let end = base + b.capacity();
    let lv1 = b.level();
    let pick = nd::below(3);
    let at = if pick == 0 { lv0 } else if pick == 1 { high } else { lv1 };
    let r = b.get_at::<V>(at).map(|a| (addr(a.ptr.as_ptr()), a.level));
    witness!(matches!(r, Err(Failure::Mismatch { .. })) && at > lv1, "a level of the past");
    match r {
        Ok((p, l)) => {
            prop!(at == lv1, "succeeds only at the current level");
            prop!(p % core::mem::align_of::<V>() == 0, "aligned");
            if sz::<V>() != 0 { prop!(first_fit(base + l0, end, Layout::new::<V>()) == Some(p) && b.level() > lv1, "placed at the first aligned byte after the level"); }
            else { prop!(b.level() == lv1, "zero-sized values consume nothing"); }
            prop!(l == b.level(), "reports the new level");
        }
        Err(Failure::Mismatch { observed }) => prop!(at != lv1 && observed == lv1 && b.level() == lv1, "a mismatch reports the observed level"),
        Err(Failure::Exhausted) => {
            let from = if pick == 1 && n > l0 { n } else { l0 };
            prop!(sz::<V>() != 0 && first_fit(base + from, end, Layout::new::<V>()).is_none() && b.level() == lv1, "exhausted only if it does not fit");
        }
    }
}
pub fn c04_unsync_typed_u32() { typed_at::<u32, [u8; 11], 48>() }
pub fn c04_unsync_typed_u16x3() { typed_at::<[u16; 3], [u8; 13], 48>() }
pub fn c04_unsync_typed_zst() { typed_at::<(), [u8; 5], 48>() }
/// Zero sized values.
pub fn c12_zst() {
    let b: Bump<[u8; 4]> = Bump::uninit();
    let n = nd::upto(4);
    if n > 0 { prop!(b.alloc(layout(n, 1)).is_some(), "fits"); }
    let lvl = b.level();
    match nd::below(3) {
        0 => { let a = b.get::<()>(); prop!(a.is_some() && a.unwrap().level == lvl, "get"); }
        1 => { let a = b.get_at::<()>(lvl); prop!(a.is_ok() && a.unwrap().level == lvl, "get_at"); }
        _ => prop!(b.bump_box::<[u64; 0]>().is_ok(), "bump_box"),
    }
    prop!(b.level() == lvl, "zero-sized values consume nothing");
    witness!(n == 4, "full");
}
/// bump_array for every length.
fn array<V: Copy, T, const N: usize>() {
    let mut arena = Arena::<N>::new();
    let b: &Bump<T> = arena.place(Bump::uninit());
    let (base, l0) = pre(b);
    let cap = b.capacity();
    let lvl = b.level();
    let n = nd::usize();
    let r = b.bump_array::<V>(n);
    witness!(r.is_ok(), "ok");
    let want = match n.checked_mul(sz::<V>()) {
        Some(0) => Some(0),
        Some(s) if s <= isize::MAX as usize - 64 => first_fit(base + l0, base + cap, layout(s, core::mem::align_of::<V>())),
        _ => None,
    };
    match r {
        Ok(s) => {
            prop!(want.is_some(), "succeeds only if it fits");
            prop!(s.len() == n, "the slice has the requested length");
            let a = s.as_ptr() as usize;
            prop!(a % core::mem::align_of::<V>() == 0, "aligned");
            if n * sz::<V>() != 0 {
                prop!(inside(a, n * sz::<V>(), base, cap), "inside the data");
                prop!(disjoint(a, n * sz::<V>(), base, l0), "disjoint from the earlier allocation");
                prop!(b.level() > lvl, "level increases");
                let next = b.alloc(layout(1, 1));
                if let Some(x) = next { prop!(disjoint(a, n * sz::<V>(), x.as_ptr() as usize, 1), "disjoint from the next one"); }
            } else { prop!(b.level() == lvl, "an empty array consumes nothing"); }
        }
        Err(e) => {
            prop!(e == Failure::Exhausted && want.is_none() && b.level() == lvl, "fails only if it does not fit, and changes nothing");
        }
    }
}
pub fn c12_array_u8() { array::<u8, [u8; 13], 48>() }
pub fn c12_array_u32() { array::<u32, [u8; 17], 48>() }
pub fn c12_array_u16x2() { array::<[u16; 2], [u8; 13], 48>() }
pub fn c12_array_u24() { array::<[u8; 3], [u8; 13], 48>() }
pub fn c12_array_zst() { array::<(), [u8; 5], 48>() }

/// reset / zeroed of the unsynchronised arena.
pub fn c07_unsync_reset() {
    let mut b: Bump<[u8; 11]> = Bump::uninit();
    let fresh = b.level();
    let l = any_layout();
    let p1 = b.alloc(l);
    let _ = b.alloc(any_layout());
    b.reset();
    prop!(b.level() == fresh, "level is that of a fresh arena");
    let p2 = b.alloc(l);
    prop!(p1 == p2, "the same request is served identically after a reset");
    witness!(p2.is_some(), "some");
    b.reset();
    prop!(b.alloc(layout(11, 1)).is_some(), "the full capacity is available again");
}
pub fn c07_unsync_zeroed() {
    let b: Bump<[u8; 11]> = Bump::zeroed();
    prop!(b.level() == Bump::<[u8; 11]>::uninit().level(), "fresh level");
    let l = small_layout(11, 8);
    let r = b.alloc(l);
    witness!(r.is_some(), "some");
    if let Some(p) = r { let i = nd::below(l.size()); prop!(unsafe { *p.as_ptr().add(i) } == 0, "a zeroed arena hands out zeroed memory"); }
}

// ---- C09 ---------------------------------------------------------------------
/// Wrapping foreign memory: any start address, length and prior content.
pub fn c09_from_mem() {
    let mut arena = Arena::<48>::new();
    arena.0[nd::below(48)] = nd::u8();
    arena.0[nd::below(48)] = nd::u8();
    arena.0[nd::below(48)] = nd::u8();
    let m = arena.bytes();
    let (p, n) = (m.as_ptr() as usize, m.len());
    let hdr = sz::<usize>();
    let pad = (8 - p % 8) % 8;
    let r = MemBump::from_mem(m);
    witness!(r.is_ok(), "ok");
    witness!(r.is_err(), "err");
    prop!(r.is_ok() == (n >= pad + hdr), "succeeds exactly when an aligned header fits");
    if let Ok(b) = r {
        prop!(b.level() == Bump::<()>::uninit().level(), "starts empty, whatever the memory held");
        let o = addr(&*b);
        prop!(o % core::mem::align_of::<usize>() == 0, "header aligned");
        prop!(inside(o, core::mem::size_of_val(&*b), p, n), "uses only the given memory");
        prop!(b.capacity() + hdr + pad <= n && b.capacity() + hdr + pad + 8 > n, "wastes less than one word at either end");
        let d = b.data_ptr().as_ptr() as usize;
        prop!(inside(d, b.capacity(), p, n) && disjoint(d, b.capacity(), o, hdr), "data is inside the memory and apart from the header");
    }
}
/// into_mem / from_mem_unchecked hand the arena over without loss.
pub fn c09_roundtrip() {
    let mut arena = Arena::<48>::new();
    let m = arena.bytes();
    let (p, n) = (m.as_ptr() as usize, m.len());
    let r = MemBump::from_mem(m);
    nd::assume(r.is_ok());
    let b = r.unwrap();
    nd::assume(b.capacity() >= 1);
    let (_, l0) = pre(&b);
    let k = nd::below(l0);
    let v = nd::u8();
    unsafe { b.data_ptr().as_ptr().add(k).write(v) };
    let (cap, lvl, o) = (b.capacity(), b.level(), addr(&*b));
    let back = MemBump::into_mem(b);
    prop!(inside(back.as_ptr() as usize, back.len(), p, n), "only memory that was given is returned");
    prop!(back.as_ptr() as usize == o && back.len() >= cap + sz::<usize>(), "all memory in use is returned");
    let b = unsafe { MemBump::from_mem_unchecked(back) };
    prop!(b.capacity() == cap && b.level() == lvl && addr(&*b) == o, "the arena continues where it left off");
    prop!(unsafe { b.data_ptr().as_ptr().add(k).read() } == v, "contents are kept");
    let next = b.alloc(layout(1, 1));
    prop!(next.is_some() == (l0 < cap), "and serves exactly the rest");
    if let Some(x) = next { prop!(x.as_ptr() as usize == b.data_ptr().as_ptr() as usize + l0, "after the earlier allocation"); }
    witness!(next.is_some(), "some");
}

// ---- C11 ---------------------------------------------------------------------
fn chain(n: usize) -> Option<Chain> {
    let r = Chain::new(n);
    if let Ok(c) = &r {
        prop!(c.capacity() >= n, "at least the requested capacity");
        prop!(c.remaining_capacity() == c.capacity(), "all of it is free");
    }
    r.ok()
}
/// Values of all links stay valid and never overlap; capacity is accounted for.
fn chain_values<A: Copy + PartialEq, B: Copy + PartialEq>(a: A, b: B, s1: usize, s2: usize) {
    let c = match chain(s1) { Some(c) => core::mem::ManuallyDrop::new(c), None => return };
    let x = c.bump_box::<A>();
    prop!(x.is_ok() || c.remaining_capacity() == c.capacity(), "failure consumes nothing");
    prop!(x.is_ok() == (s1 >= sz::<A>()) || c.capacity() > s1, "served exactly if it fits the fresh link");
    let x = match x { Ok(x) => Some(LeakBox::write(x, a)), Err(_) => None };
    if x.is_some() { prop!(c.remaining_capacity() + sz::<A>() <= c.capacity(), "consumes capacity"); }
    let n = match chain(s2) { Some(c) => c, None => return };
    c.chain(n);
    let rem = c.remaining_capacity();
    prop!(rem >= s2, "the new link is used first");
    let y = c.bump_box::<B>();
    witness!(y.is_ok() && x.is_some(), "both");
    if let Ok(y) = y {
        let y = LeakBox::write(y, b);
        prop!(c.remaining_capacity() + sz::<B>() <= rem, "consumes capacity of the newest link");
        prop!(*y == b, "newest value");
        prop!(addr(&*y) % core::mem::align_of::<B>() == 0, "aligned");
        if let Some(x) = &x { prop!(disjoint(addr(&**x), sz::<A>(), addr(&*y), sz::<B>()), "values never overlap"); }
    } else { prop!(c.remaining_capacity() == rem, "failure consumes nothing"); }
    if let Some(x) = &x { prop!(**x == a, "values of older links stay valid"); }
}
pub fn c11_values_u8_u64() { chain_values::<u8, u64>(nd::u8(), nd::u64(), 1, 13) }
pub fn c11_values_u32_u16() { chain_values::<u32, u16>(nd::u32(), nd::u16(), 5, 4) }
pub fn c11_values_u16x2_u8() { chain_values::<[u16; 2], u8>([nd::u16(), nd::u16()], nd::u8(), 5, 4) }
/// Values in one link; exact capacities.
pub fn c11_same_link() {
    let s = nd::upto(20);
    let c = match chain(s) { Some(c) => core::mem::ManuallyDrop::new(c), None => return };
    let x = c.bump_box::<u32>();
    let y = c.bump_box::<u32>();
    let z = c.bump_box::<u8>();
    witness!(z.is_ok() && y.is_ok(), "all");
    prop!(x.is_ok() == (s >= 4) || s < 8, "a large enough link serves the first");
    if let (Ok(x), Ok(y)) = (&x, &y) {
        prop!(disjoint(x.as_ptr() as usize, 4, y.as_ptr() as usize, 4), "values never overlap");
    }
    if let (Ok(y), Ok(z)) = (&y, &z) {
        prop!(disjoint(y.as_ptr() as usize, 4, z.as_ptr() as usize, 1), "values never overlap");
    }
    let used = x.is_ok() as usize * 4 + y.is_ok() as usize * 4 + z.is_ok() as usize;
    prop!(c.remaining_capacity() + used <= c.capacity(), "remaining capacity accounts for everything served");
    if y.is_err() { prop!(c.remaining_capacity() < 8, "refused only if it does not fit"); }
}
/// Sizes no allocator can provide are refused, not mishandled.
pub fn c11_huge() {
    let s = nd::usize();
    nd::assume(s > isize::MAX as usize - 64);
    let r = Chain::new(s);
    witness!(r.is_err(), "refused");
    prop!(s <= isize::MAX as usize || r.is_err(), "an unrepresentable size is refused");
    if let Err(e) = &r { prop!(e.allocation_size() >= s, "the error tells a size that was needed"); }
    core::mem::forget(r);
}
/// Dropping a chain releases every link, and none twice.
pub fn c11_drop2() {
    let (a, b) = match (chain(8), chain(16)) { (Some(a), Some(b)) => (a, b), _ => return };
    a.chain(b);
    drop(a);
    witness!(true, "end");
}
pub fn c11_drop2_frees() {
    let (a, b) = match (chain(8), chain(16)) { (Some(a), Some(b)) => (a, b), _ => return };
    let f = frees();
    a.chain(b);
    prop!(frees() == f, "links live as long as the chain");
    drop(a);
    prop!(frees() == f + 2, "every link is released once");
    witness!(true, "end");
}
/// Chaining a chain of two: nothing is leaked once all are dropped.
pub fn c11_merge_frees() {
    let (a, b, d) = match (chain(8), chain(8), chain(8)) { (Some(a), Some(b), Some(d)) => (a, b, d), _ => return };
    let f = frees();
    b.chain(d);
    a.chain(b);
    prop!(frees() <= f + 1, "the own links live as long as the chain");
    drop(a);
    prop!(frees() == f + 3, "every link is released once");
    witness!(true, "end");
}
/// The tail of a chained chain is released, its head is taken over.
pub fn c11_merge() {
    let (a, b, d) = match (chain(8), chain(8), chain(8)) { (Some(a), Some(b), Some(d)) => (a, b, d), _ => return };
    let a = core::mem::ManuallyDrop::new(a);
    let v = nd::u8();
    let x = LeakBox::write(a.bump_box::<u8>().unwrap(), v);
    b.chain(d);
    let pd = b.bump_box::<u64>().unwrap().as_ptr();
    a.chain(b);
    prop!(*x == v && unsafe { let _: u64 = pd.cast::<u64>().read(); true }, "values of older links stay valid");
    prop!(a.bump_box::<u8>().is_err(), "the head of the chained chain is in use");
    witness!(true, "end");
}
/// Three links.
pub fn c11_three_links() {
    let (a, b, d) = match (chain(8), chain(8), chain(16)) { (Some(a), Some(b), Some(d)) => (a, b, d), _ => return };
    let a = core::mem::ManuallyDrop::new(a);
    let v = nd::u64();
    let x = LeakBox::write(a.bump_box::<u64>().unwrap(), v);
    a.chain(b);
    let y = LeakBox::write(a.bump_box::<u64>().unwrap(), v ^ 1);
    prop!(a.bump_box::<u8>().is_err(), "the newest link is full");
    a.chain(d);
    let z = LeakBox::write(a.bump_box::<u64>().unwrap(), v ^ 2);
    prop!(*x == v && *y == v ^ 1 && *z == v ^ 2, "all values of all links are intact");
    witness!(true, "end");
}

harnesses! {
    c04_unsync_stale, 3, quick, normal;
    c04_unsync_typed_u32, 3, quick, normal;
    c04_unsync_typed_u16x3, 3, quick, normal;
    c04_unsync_typed_zst, 3, quick, normal;
    c07_unsync_reset, 3, quick, normal;
    c07_unsync_zeroed, 3, quick, normal;
    c08_step_37, 3, quick, normal;
    c08_step_at_u64x4, 3, quick, normal;
    c08_step_a16, 3, quick, normal;
    c08_step_a32, 3, quick, normal;
    c08_step_from_mem, 10, quick, normal;
    c08_step_mem_new, 3, quick, normal;
    c08_own_u8, 3, quick, normal;
    c08_own_u64, 3, quick, normal;
    c08_own_u16x3, 3, quick, normal;
    c08_own_a16, 3, quick, normal;
    c08_own_a32, 3, quick, normal;
    c08_fresh_new, 3, quick, normal;
    c09_from_mem, 10, quick, normal;
    c09_roundtrip, 10, quick, normal;
    c11_values_u8_u64, 3, quick, normal;
    c11_values_u32_u16, 3, quick, normal;
    c11_values_u16x2_u8, 8, quick, normal;
    c11_same_link, 2, quick, normal;
    c11_huge, 2, quick, normal;
    c11_drop2, 4, quick, normal;
    c11_drop2_frees, 4, quick, frees;
    c11_merge_frees, 4, quick, frees;
    c11_merge, 3, quick, normal;
    c11_three_links, 3, quick, normal;
    c12_typed_u8, 3, quick, normal;
    c12_typed_u32, 3, quick, normal;
    c12_typed_u16x3, 8, quick, normal;
    c12_typed_u16x2, 8, quick, normal;
    c12_typed_a16, 3, quick, normal;
    c12_zst, 3, quick, normal;
    c12_array_u8, 3, quick, normal;
    c12_array_u32, 3, quick, normal;
    c12_array_u16x2, 3, quick, normal;
    c12_array_u24, 3, quick, normal;
    c12_array_zst, 3, quick, normal;
}
