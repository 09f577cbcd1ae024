//! `without_alloc::Uninit` and `UninitView`: splitting and casting partitions
//! memory, for any start address, length and request.
use crate::nd;
use crate::util::*;
use core::alloc::Layout;
use core::mem::MaybeUninit;
use core::ptr::NonNull;
use without_alloc::Uninit;
use without_alloc::uninit::UninitView;

const fn sz<T>() -> usize { core::mem::size_of::<T>() }
const fn al<T>() -> usize { core::mem::align_of::<T>() }

/// Memory at any address and of any length inside an arena.
fn mem<const N: usize>(a: &mut Arena<N>) -> (Uninit<'_, ()>, usize, usize) {
    let s = a.bytes();
    let (p, n) = (s.as_ptr() as usize, s.len());
    let u = unsafe { Uninit::from_memory(NonNull::new_unchecked(s.as_mut_ptr() as *mut u8), n) };
    prop!(u.size() == n && u.byte_capacity() == n && u.as_ptr() as usize == p, "covers the given memory");
    (u, p, n)
}
/// `head` and `tail` are exactly the two parts of `[p, p+n)`.
fn parts(head: (usize, usize), tail: (usize, usize), p: usize, n: usize) {
    prop!(head.0 == p, "the first part starts where the memory starts");
    prop!(tail.0 == head.0 + head.1, "the second part starts where the first ends");
    prop!(head.1 + tail.1 == n, "no byte is lost or duplicated");
}
fn at<T: ?Sized>(u: &Uninit<'_, T>) -> (usize, usize) { (u.as_ptr() as *const u8 as usize, u.size()) }
fn vat<T: ?Sized>(u: &UninitView<'_, T>) -> (usize, usize) { (u.as_ptr() as *const u8 as usize, u.size()) }

pub fn c21_fits() {
    let mut a = Arena::<40>::new();
    let (u, p, n) = mem(&mut a);
    let l = if nd::bool() { any_layout() } else { layout(0, 1 << nd::below(12)) };
    let want = p & (l.align() - 1) == 0 && l.size() <= n;
    prop!(u.fits(l) == want, "fits exactly if aligned and large enough");
    prop!(u.borrow().fits(l) == want, "views agree");
    witness!(want && l.align() > 1, "fits");
}
pub fn c21_split_layout() {
    let mut a = Arena::<40>::new();
    let (mut u, p, n) = mem(&mut a);
    let l = any_layout();
    let want = first_fit(p, p + n, l);
    let view = nd::bool();
    let r;
    let rest;
    if view {
        let mut v = u.borrow();
        let s = v.split_layout(l);
        r = s.map(|s| vat(&s));
        rest = vat(&v);
    } else {
        let s = u.split_layout(l);
        r = s.map(|s| at(&s));
        rest = at(&u);
    }
    witness!(r.is_some() && rest.1 > 0, "padded");
    prop!(r.is_some() == want.is_some(), "succeeds exactly if the layout fits behind its padding");
    match r {
        Some(s) => { prop!(Some(s.0) == want && s.1 >= l.size(), "the split part is aligned and large enough"); parts(rest, s, p, n); }
        None => prop!(rest == (p, n), "failure changes nothing"),
    }
}
fn split_cast<U>() {
    let mut a = Arena::<40>::new();
    let (mut u, p, n) = mem(&mut a);
    let want = first_fit(p, p + n, Layout::new::<U>());
    match nd::below(4) {
        0 => match u.split_cast::<U>() {
            Some(s) => { prop!(want == Some(at(&s).0) && at(&s).1 >= sz::<U>(), "the split part is aligned and large enough"); parts(at(&u), at(&s), p, n); }
            None => prop!(want.is_none() && at(&u) == (p, n), "fails only if it cannot fit, and changes nothing"),
        },
        1 => { let mut v = u.borrow(); match v.split_cast::<U>() {
            Some(s) => { prop!(want == Some(vat(&s).0) && vat(&s).1 >= sz::<U>(), "the split part is aligned and large enough"); parts(vat(&v), vat(&s), p, n); }
            None => prop!(want.is_none() && vat(&v) == (p, n), "fails only if it cannot fit, and changes nothing"),
        } }
        2 => match u.split_slice::<U>() {
            Some(s) => { prop!(at(&s).0 % al::<U>() == 0, "aligned"); prop!(s.capacity() == at(&s).1 / sz::<U>(), "as many elements as fit"); parts(at(&u), at(&s), p, n); prop!(at(&u).1 < al::<U>(), "only padding is skipped"); }
            None => prop!((al::<U>() - p % al::<U>()) % al::<U>() > n && at(&u) == (p, n), "fails only if no aligned address is inside"),
        },
        _ => { let mut v = u.borrow(); match v.split_slice::<U>() {
            Some(s) => { prop!(vat(&s).0 % al::<U>() == 0, "aligned"); prop!(s.capacity() == vat(&s).1 / sz::<U>(), "as many elements as fit"); parts(vat(&v), vat(&s), p, n); prop!(vat(&v).1 < al::<U>(), "only padding is skipped"); }
            None => prop!((al::<U>() - p % al::<U>()) % al::<U>() > n && vat(&v) == (p, n), "fails only if no aligned address is inside"),
        } }
    }
    witness!(want.is_some() && (want != Some(p) || al::<U>() == 1), "padded");
}
pub fn c21_split_cast_u8() { split_cast::<u8>() }
pub fn c21_split_cast_u32() { split_cast::<u32>() }
pub fn c21_split_cast_u16x3() { split_cast::<[u16; 3]>() }
pub fn c21_split_cast_u16x2() { split_cast::<[u16; 2]>() }
pub fn c21_split_cast_u64() { split_cast::<u64>() }
pub fn c21_split_cast_u24() { split_cast::<[u8; 3]>() }

/// Byte splits of typed memory.
fn at_byte<T>() {
    let mut a = Arena::<40>::new();
    let (u, p, n) = mem(&mut a);
    let want = p % al::<T>() == 0 && n >= sz::<T>();
    let c = u.cast::<T>();
    prop!(c.is_ok() == want, "a cast succeeds exactly if the type fits");
    let mut t = match c { Ok(t) => t, Err(u) => { prop!(at(&u) == (p, n), "a failed cast returns the memory"); return; } };
    prop!(at(&t) == (p, n), "a cast keeps the memory");
    let k = nd::usize();
    witness!(k == sz::<T>() && n > k, "exact");
    if nd::bool() {
        match t.split_at_byte(k) {
            Some(s) => { prop!(k <= n && k >= sz::<T>() && at(&t).1 == k, "only splits behind the value"); parts(at(&t), at(&s), p, n); }
            None => prop!((k > n || k < sz::<T>()) && at(&t) == (p, n), "failure changes nothing"),
        }
    } else if nd::bool() {
        let s = t.split_to_fit();
        prop!(at(&t).1 == sz::<T>(), "keeps exactly the value");
        parts(at(&t), at(&s), p, n);
    } else {
        let mut v = t.borrow();
        match v.split_at_byte(k) {
            Some(s) => { prop!(k <= n && k >= sz::<T>() && vat(&v).1 == k, "only splits behind the value"); parts(vat(&v), vat(&s), p, n); }
            None => prop!((k > n || k < sz::<T>()) && vat(&v) == (p, n), "failure changes nothing"),
        }
        let mut v = t.borrow();
        let s = v.split_to_fit();
        prop!(vat(&v).1 == sz::<T>(), "keeps exactly the value");
        parts(vat(&v), vat(&s), p, n);
    }
}
pub fn c21_at_byte_unit() { at_byte::<()>() }
pub fn c21_at_byte_u8() { at_byte::<u8>() }
pub fn c21_at_byte_u16() { at_byte::<u16>() }
pub fn c21_at_byte_u16x3() { at_byte::<[u16; 3]>() }
pub fn c21_at_byte_u16x2() { at_byte::<[u16; 2]>() }
pub fn c21_at_byte_u64() { at_byte::<u64>() }
pub fn c21_at_byte_u24() { at_byte::<[u8; 3]>() }

/// Element splits of slices; the slice pointer always describes its own part.
fn own<T>(u: &Uninit<'_, [T]>) {
    prop!(u.capacity() == u.size() / sz::<T>(), "capacity is what fits");
    prop!(unsafe { (&*(u.as_ptr() as *const [MaybeUninit<T>])).len() } <= u.capacity(), "the slice pointer stays within its memory");
}
fn vown<T>(u: &UninitView<'_, [T]>) {
    prop!(u.capacity() == u.size() / sz::<T>(), "capacity is what fits");
    prop!(unsafe { (&*(u.as_ptr() as *const [MaybeUninit<T>])).len() } <= u.capacity(), "the slice pointer stays within its memory");
}
fn slice<T>(view: bool) {
    let mut a = Arena::<40>::new();
    let (u, p, n) = mem(&mut a);
    let c = u.cast_slice::<T>();
    prop!(c.is_ok() == (p % al::<T>() == 0), "a slice cast succeeds exactly if aligned");
    let mut t = match c { Ok(t) => t, Err(u) => { prop!(at(&u) == (p, n), "a failed cast returns the memory"); return; } };
    prop!(at(&t) == (p, n), "a cast keeps the memory");
    own(&t);
    let cap = n / sz::<T>();
    let k = nd::usize();
    witness!(k == 2 && cap > 2, "middle");
    let op = nd::below(4);
    if view {
        let mut v = t.borrow();
        vown(&v);
        match op {
            0 => match v.split_at(k) {
                Some(s) => { prop!(k <= cap && vat(&v).1 == k * sz::<T>(), "splits after k elements"); parts(vat(&v), vat(&s), p, n); vown(&v); vown(&s); }
                None => prop!(k > cap && vat(&v) == (p, n), "fails only out of bounds"),
            },
            1 => match v.split_first() {
                Some(s) => { prop!(cap >= 1 && vat(&s) == (p, sz::<T>()), "the first element"); parts(vat(&s), vat(&v), p, n); vown(&v); }
                None => prop!(cap == 0 && vat(&v) == (p, n), "fails only when empty"),
            },
            2 => match v.split_last() {
                Some(s) => { prop!(cap >= 1 && vat(&v).1 == (cap - 1) * sz::<T>(), "the last element"); parts(vat(&v), vat(&s), p, n); vown(&v); }
                None => prop!(cap == 0 && vat(&v) == (p, n), "fails only when empty"),
            },
            _ => { let s = v.shrink_to_fit(); prop!(vat(&v).1 == cap * sz::<T>(), "keeps all elements"); parts(vat(&v), vat(&s), p, n); vown(&v); prop!(v.into_maybe_uninit_slice().len() == cap, "view"); }
        }
    } else {
        match op {
            0 => match t.split_at(k) {
                Some(s) => { prop!(k <= cap && at(&t).1 == k * sz::<T>(), "splits after k elements"); parts(at(&t), at(&s), p, n); own(&t); own(&s); }
                None => prop!(k > cap && at(&t) == (p, n), "fails only out of bounds"),
            },
            1 => match t.split_first() {
                Some(s) => { prop!(cap >= 1 && at(&s) == (p, sz::<T>()), "the first element"); parts(at(&s), at(&t), p, n); own(&t); }
                None => prop!(cap == 0 && at(&t) == (p, n), "fails only when empty"),
            },
            2 => match t.split_last() {
                Some(s) => { prop!(cap >= 1 && at(&t).1 == (cap - 1) * sz::<T>(), "the last element"); parts(at(&t), at(&s), p, n); own(&t); }
                None => prop!(cap == 0 && at(&t) == (p, n), "fails only when empty"),
            },
            _ => { let s = t.shrink_to_fit(); prop!(at(&t).1 == cap * sz::<T>(), "keeps all elements"); parts(at(&t), at(&s), p, n); own(&t); let m = t.into_maybe_uninit_slice(); prop!(m.len() == cap && m.as_ptr() as usize == p, "all elements"); }
        }
    }
}
pub fn c21_slice_u8() { slice::<u8>(false) }
pub fn c21_slice_u16() { slice::<u16>(false) }
pub fn c21_slice_u24() { slice::<[u8; 3]>(false) }
pub fn c21_slice_u16x2() { slice::<[u16; 2]>(false) }
pub fn c21_slice_u64() { slice::<u64>(false) }
pub fn c21_view_u8() { slice::<u8>(true) }
pub fn c21_view_u32() { slice::<u32>(true) }
pub fn c21_view_u24() { slice::<[u8; 3]>(true) }
pub fn c21_view_u16x2() { slice::<[u16; 2]>(true) }

/// References made from a part cover exactly that part.
pub fn c21_into_mut() {
    let mut a = Arena::<40>::new();
    let p = unsafe { a.ptr().add(8) };
    let n = nd::upto(12);
    let u = unsafe { Uninit::from_memory(NonNull::new_unchecked(p), n) };
    let mut head = u.cast_slice::<u16>().unwrap();
    let k = nd::upto(6);
    let tail = head.split_at(k);
    let tail = match tail { Some(t) => t, None => return };
    let (t0, tn) = at(&tail);
    let h: &mut [u16] = unsafe { head.into_mut() };
    let t: &mut [u16] = unsafe { tail.into_mut() };
    prop!(h.len() == k, "the head has its own elements only");
    prop!(t.len() == (n - 2 * k) / 2, "the tail has the rest");
    prop!(h.as_ptr() as usize == p as usize && t.as_ptr() as usize == t0 && tn == n - 2 * k, "placement");
    prop!(disjoint(h.as_ptr() as usize, 2 * h.len(), t.as_ptr() as usize, 2 * t.len()), "the two references never alias");
    witness!(k == 2 && n > 6, "middle");
}
/// Initialising, reading, and the std conversions.
pub fn c21_values() {
    let x = nd::u64();
    let mut slot = MaybeUninit::<u64>::uninit();
    let p = slot.as_ptr() as usize;
    let mut u = Uninit::from(&mut slot);
    prop!(at(&u) == (p, 8), "covers the slot");
    { let r = u.borrow_mut().init(x); prop!(*r == x && addr(r) == p, "init writes the value"); }
    prop!(unsafe { u.read() } == x && unsafe { *u.as_ref() } == x, "and it can be read");
    prop!(unsafe { *u.borrow().into_ref() } == x, "also through a view");
    unsafe { *u.as_mut() ^= 1 };
    let m = u.into_maybe_uninit();
    prop!(unsafe { m.assume_init() } == x ^ 1, "and converted back");
    let mut slots = [MaybeUninit::<u16>::uninit(); 5];
    let n = nd::upto(5);
    let q = slots.as_ptr() as usize;
    let u = Uninit::from(&mut slots[..n]);
    prop!(at(&u) == (q, 2 * n) && u.capacity() == n, "slices too");
    prop!(UninitView::from(&slots[..n]).capacity() == n, "and views");
    witness!(n == 4, "some");
    // Views and their owners name the same memory.
    let mut slot = MaybeUninit::<[u16; 3]>::uninit();
    let p = slot.as_ptr() as usize;
    let u = Uninit::from_maybe_uninit(&mut slot);
    let v = u.borrow();
    prop!(vat(&v) == (p, 6) && v.as_non_null().as_ptr() as usize == p && u.as_non_null().as_ptr() as usize == p, "pointers agree");
    prop!(v.into_maybe_uninit().as_ptr() as usize == p, "reference of a view");
    prop!(v.cast::<u32>().is_ok() == (p % 4 == 0), "views are cast alike");
    match v.cast::<u8>() { Ok(c) => prop!(vat(&c) == (p, 6), "a cast keeps the memory"), Err(_) => prop!(false, "a byte fits") }
    match u.borrow().cast::<u64>() { Ok(_) => prop!(false, "too large"), Err(w) => prop!(vat(&w) == (p, 6), "a failed cast returns the memory") }
    let w = unsafe { Uninit::from_view(v) };
    prop!(at(&w) == (p, 6), "owned again");
    let b = w.as_memory();
    prop!(at(&b) == (p, 6), "bytes of the same memory");
    match b.cast::<[u16; 3]>() {
        Ok(c) => {
            let x = [nd::u8() as u16, 7, 9];
            let r: &[u16; 3] = c.init(x);
            prop!(*r == x && addr(r) == p, "and back");
        }
        Err(_) => prop!(false, "the same type fits again"),
    }
    prop!(unsafe { slot.assume_init()[1] } == 7, "in place");
}
pub fn c21_empty() {
    let mut e: Uninit<'_, [u32]> = Uninit::empty();
    prop!(e.capacity() == 0 && e.size() == 0 && e.as_begin_ptr() as usize % 4 == 0, "an empty slice is aligned and empty");
    prop!(e.split_first().is_none() && e.split_last().is_none() && e.split_at(1).is_none(), "nothing to split");
    prop!(e.split_at(0).is_some(), "except nothing");
    let mut v: UninitView<'_, [u32]> = UninitView::empty();
    prop!(v.capacity() == 0 && v.size() == 0 && v.as_begin_ptr() as usize % 4 == 0, "an empty view is aligned and empty");
    prop!(v.split_first().is_none() && v.split_last().is_none() && v.split_at(1).is_none(), "nothing to split");
    prop!(v.as_ptr().len() == 0 && e.as_ptr().len() == 0, "their pointers cover nothing");
    prop!(v.into_maybe_uninit_slice().len() == 0 && e.into_maybe_uninit_slice().len() == 0, "nor do their slices");
    let y = UninitView::<[A32; 0]>::invent_for_zst();
    prop!(y.as_ptr() as usize % 32 == 0 && y.size() == 0, "zero-sized values need no memory, but alignment");
    let z = Uninit::<[A32; 0]>::invent_for_zst();
    prop!(z.as_ptr() as usize % 32 == 0 && z.size() == 0, "zero-sized values need no memory, but alignment");
    witness!(true, "end");
}

harnesses! {
    c21_fits, 3, quick, normal;
    c21_split_layout, 3, quick, normal;
    c21_split_cast_u8, 10, quick, normal;
    c21_split_cast_u32, 10, quick, normal;
    c21_split_cast_u16x3, 10, quick, normal;
    c21_split_cast_u16x2, 10, quick, normal;
    c21_split_cast_u64, 10, quick, normal;
    c21_split_cast_u24, 10, quick, normal;
    c21_at_byte_unit, 3, quick, normal;
    c21_at_byte_u8, 3, quick, normal;
    c21_at_byte_u16, 3, quick, normal;
    c21_at_byte_u16x3, 3, quick, normal;
    c21_at_byte_u16x2, 3, quick, normal;
    c21_at_byte_u64, 3, quick, normal;
    c21_at_byte_u24, 3, quick, normal;
    c21_slice_u8, 8, quick, normal;
    c21_slice_u16, 8, quick, normal;
    c21_slice_u24, 8, quick, normal;
    c21_slice_u16x2, 8, quick, normal;
    c21_slice_u64, 8, quick, normal;
    c21_view_u8, 8, quick, normal;
    c21_view_u32, 8, quick, normal;
    c21_view_u24, 8, quick, normal;
    c21_view_u16x2, 8, quick, normal;
    c21_into_mut, 3, quick, normal;
    c21_values, 10, quick, normal;
    c21_empty, 3, quick, normal;
}
