//! `without_alloc::boxed::Box`: owns its value, not its memory.
use crate::nd;
use crate::util::*;
use core::mem::MaybeUninit;
use core::ptr::NonNull;
use without_alloc::boxed::Box;
use without_alloc::Uninit;

/// Create / use / dissolve.
fn own<T>(mk: fn(u8) -> T, id: fn(&T) -> u8, set: fn(&mut T, u8)) {
    reset_drops();
    let mut arena = Arena::<64>::new();
    let extra = nd::below(9);
    let p = unsafe { arena.ptr().add(16) };
    let n = core::mem::size_of::<T>() + extra;
    let x = nd::u8();
    let mem = unsafe { Uninit::from_memory(NonNull::new_unchecked(p), n) }.cast::<T>().unwrap();
    let mut b = if nd::bool() { Box::new(mk(x), mem) } else { mem.into_box(mk(x)) };
    let q = p as usize;
    prop!(addr::<T>(&*b) == q && id(&*b) == x && id(AsRef::<T>::as_ref(&b)) == x && drops() == 0, "the value is stored in the given memory");
    let mut now = x;
    if nd::bool() { now = nd::u8(); set(&mut *b, now); prop!(id(core::borrow::Borrow::<T>::borrow(&b)) == now, "written through"); }
    let op = nd::below(6);
    match op {
        0 => { drop(b); prop!(drops() == 1 && log(0) == now, "dropping the box drops the value once"); }
        1 => {
            let (v, mem) = Box::take(b);
            prop!(id(&v) == now && drops() == 0, "take returns the value undropped");
            prop!(mem.as_ptr() as usize == q && mem.size() == n, "with all of the memory");
            drop(v);
            let c = Box::new(mk(!now), mem);
            prop!(drops() == 1 && id(&*c) == !now, "which can be reused");
            drop(c);
            prop!(drops() == 2 && log(1) == !now, "each value is dropped once");
        }
        2 => {
            let raw = Box::into_raw(b);
            prop!(raw.as_ptr() as usize == q && raw.size() == n && drops() == 0, "into_raw returns all memory and drops nothing");
            let b = unsafe { Box::from_raw(raw) };
            prop!(id(&*b) == now, "from_raw restores the box");
            drop(b);
            prop!(drops() == 1 && log(0) == now, "and its ownership");
        }
        3 => { let r = Box::leak(b); prop!(id(r) == now && addr::<T>(r) == q && drops() == 0, "leak keeps the value alive, in place"); set(r, 9); }
        4 => { core::mem::forget(b); prop!(drops() == 0, "forgetting drops nothing"); }
        _ => {
            // Moving the box around does not move the value.
            let c = Some(b);
            let b = c.unwrap();
            prop!(addr::<T>(&*b) == q && id(&*b) == now, "the value stays in place");
        }
    }
    witness!(op == 1 && extra == 3 && now != x, "taken");
    witness!(op == 5, "moved");
}
pub fn c22_own_d() { own::<D>(D, |d| d.0, |d, x| d.0 = x) }
#[repr(align(8))]
pub struct E2(u32, u8, u16);
impl Drop for E2 { fn drop(&mut self) { unsafe { if DROPS < 8 { DROP_LOG[DROPS] = self.1; } DROPS += 1; } } }
pub fn c22_own_big() { own::<E2>(|x| E2(1, x, 3), |d| { prop!(d.0 == 1 && d.2 == 3, "intact"); d.1 }, |d, x| d.1 = x) }

/// Zero-sized values are owned like any other.
pub fn c22_zst() {
    reset_drops();
    let op = nd::below(3);
    let b = Box::new(Z, Uninit::invent_for_zst());
    prop!(drops() == 0, "not dropped");
    match op {
        0 => { drop(b); prop!(drops() == 1, "dropped once"); }
        1 => { let (v, _) = Box::take(b); prop!(drops() == 0, "taken"); drop(v); prop!(drops() == 1, "dropped once"); }
        _ => { let r = Box::into_raw(b); prop!(drops() == 0, "raw"); drop(unsafe { Box::from_raw(r) }); prop!(drops() == 1, "dropped once"); }
    }
    witness!(op == 2, "raw");
}
/// Unsized contents: slices and trait objects are dropped completely.
pub fn c22_dyn() {
    trait Tr { fn id(&self) -> u8; }
    impl Tr for D { fn id(&self) -> u8 { self.0 } }
    reset_drops();
    let x = nd::u8();
    let mut slot = MaybeUninit::<D>::uninit();
    let at = slot.as_ptr() as usize;
    let b = Box::new(D(x), Uninit::from(&mut slot));
    let b: Box<'_, dyn Tr> = unsize::CoerceUnsize::unsize(b, unsize::Coercion!(to dyn Tr));
    prop!(b.id() == x && addr(&*b) == at && drops() == 0, "the same value behind the trait object");
    let op = nd::below(3);
    match op {
        0 => { drop(b); prop!(drops() == 1 && log(0) == x, "dropped once"); }
        1 => { let r = Box::leak(b); prop!(r.id() == x && drops() == 0, "leaked"); }
        _ => { let r = Box::into_raw(b); prop!(r.size() == 1 && drops() == 0, "raw"); drop(unsafe { Box::from_raw(r) }); prop!(drops() == 1, "dropped once"); }
    }
    witness!(op == 1, "leak");
}
pub fn c22_slice() {
    reset_drops();
    let (x, y, z) = (nd::u8(), nd::u8(), nd::u8());
    let mut slot = MaybeUninit::<[D; 3]>::uninit();
    let at = slot.as_ptr() as usize;
    let b = Box::new([D(x), D(y), D(z)], Uninit::from(&mut slot));
    let mut b: Box<'_, [D]> = unsize::CoerceUnsize::unsize(b, unsize::Coercion::to_slice());
    prop!(b.len() == 3 && addr(&*b) == at && b[0].0 == x && b[1].0 == y && b[2].0 == z, "all elements");
    b[1].0 = !y;
    drop(b);
    prop!(drops() == 3 && log(0) == x && log(1) == !y && log(2) == z, "every element dropped once, in order");
    witness!(x != y, "distinct");
}

harnesses! {
    c22_own_d, 5, quick, normal;
    c22_own_big, 5, quick, normal;
    c22_zst, 3, quick, normal;
    c22_dyn, 5, quick, normal;
    c22_slice, 5, quick, normal;
}
