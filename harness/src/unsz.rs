//! `unsize`: every pointer coercion keeps address, value, and ownership.
use crate::nd;
use crate::util::*;
use core::pin::Pin;
use core::ptr::NonNull;
use std::rc::Rc;
use std::sync::Arc;
use unsize_repo::{Coercion, CoerceUnsized};

pub trait Tr { fn id(&self) -> u8; fn set(&mut self, x: u8); }
impl Tr for D { fn id(&self) -> u8 { self.0 } fn set(&mut self, x: u8) { self.0 = x } }
impl Tr for u8 { fn id(&self) -> u8 { *self } fn set(&mut self, x: u8) { *self = x } }
impl Tr for A16 { fn id(&self) -> u8 { self.0 as u8 } fn set(&mut self, x: u8) { self.0 = x as u64 } }
/// An unrelated implementation, so that tables differ.
impl Tr for [u8; 2] { fn id(&self) -> u8 { !self[0] } fn set(&mut self, x: u8) { self[0] = !x } }

macro_rules! tr { () => { unsize_repo::Coercion!(to dyn Tr) } }

fn refs<T: Tr + 'static>(mut v: T) {
    let id = v.id();
    let x = nd::u8();
    let at = addr(&v);
    {
        let r: &dyn Tr = (&v).unsize(tr!());
        prop!(addr(r) == at && r.id() == id, "a shared reference");
        prop!(core::mem::size_of_val(r) == core::mem::size_of::<T>() && core::mem::align_of_val(r) == core::mem::align_of::<T>(), "describes the original type");
    }
    {
        let r: &mut dyn Tr = (&mut v).unsize(tr!());
        prop!(addr(r) == at && r.id() == id, "a mutable reference");
        r.set(x);
    }
    let now = v.id();
    let p: NonNull<dyn Tr> = NonNull::from(&mut v).unsize(tr!());
    prop!(addr(p.as_ptr()) == at && unsafe { p.as_ref() }.id() == now, "a non-null pointer");
    let q: *mut dyn Tr = (&mut v as *mut T).unsize(tr!());
    prop!(addr(q) == at && unsafe { (*q).id() } == now, "a raw mutable pointer");
    let q: *const dyn Tr = (&v as *const T).unsize(tr!());
    prop!(addr(q) == at && unsafe { (*q).id() } == now, "a raw pointer");
    let r: Pin<&mut dyn Tr> = unsafe { Pin::new_unchecked(&mut v) }.unsize(tr!());
    prop!(addr(&*r) == at && r.id() == now, "a pinned reference");
    witness!(now == x, "written");
}
pub fn c25_refs_u8() { refs::<u8>(nd::u8()) }
pub fn c25_refs_d() { refs::<D>(D(nd::u8())) }
pub fn c25_refs_a16() { refs::<A16>(A16(nd::u64())) }
pub fn c25_refs_arr() { refs::<[u8; 2]>([nd::u8(), nd::u8()]) }

/// Owning pointers keep their one value.
pub fn c25_box() {
    reset_drops();
    let x = nd::u8();
    let b = Box::new(D(x));
    let at = addr::<D>(&*b);
    let b: Box<dyn Tr> = b.unsize(tr!());
    prop!(addr::<dyn Tr>(&*b) == at && b.id() == x && drops() == 0, "the same value");
    if nd::bool() { drop(b); prop!(drops() == 1 && log(0) == x, "dropped once"); }
    else { let r = Box::leak(b); r.set(!x); prop!(r.id() == !x && drops() == 0, "leaked"); }
    witness!(drops() == 1, "dropped");
}
pub fn c25_rc() {
    reset_drops();
    let x = nd::u8();
    let a = Rc::new(D(x));
    let at = addr::<D>(&*a);
    let keep = if nd::bool() { Some(a.clone()) } else { None };
    let w = Rc::downgrade(&a);
    let n = 1 + keep.is_some() as usize;
    let b: Rc<dyn Tr> = a.unsize(tr!());
    prop!(addr::<dyn Tr>(&*b) == at && b.id() == x && drops() == 0, "the same value");
    prop!(Rc::strong_count(&b) == n && Rc::weak_count(&b) == 1, "the counts are unchanged");
    let v: std::rc::Weak<dyn Tr> = w.unsize(tr!());
    prop!(v.upgrade().unwrap().id() == x && Rc::weak_count(&b) == 1, "weak pointers too");
    drop(b);
    prop!(drops() == 2 - n && v.upgrade().is_some() == keep.is_some(), "dropped with the last owner");
    drop(keep);
    prop!(drops() == 1 && log(0) == x && v.upgrade().is_none(), "dropped once");
    witness!(n == 2, "shared");
}
pub fn c25_arc() {
    reset_drops();
    let x = nd::u8();
    let a = Arc::new(D(x));
    let at = addr::<D>(&*a);
    let keep = if nd::bool() { Some(a.clone()) } else { None };
    let w = Arc::downgrade(&a);
    let n = 1 + keep.is_some() as usize;
    let b: Arc<dyn Tr> = a.unsize(tr!());
    prop!(addr::<dyn Tr>(&*b) == at && b.id() == x && drops() == 0, "the same value");
    prop!(Arc::strong_count(&b) == n && Arc::weak_count(&b) == 1, "the counts are unchanged");
    let v: std::sync::Weak<dyn Tr> = w.unsize(tr!());
    prop!(v.upgrade().unwrap().id() == x, "weak pointers too");
    drop(b);
    prop!(drops() == 2 - n && v.upgrade().is_some() == keep.is_some(), "dropped with the last owner");
    drop(keep);
    prop!(drops() == 1 && log(0) == x && v.upgrade().is_none(), "dropped once");
    witness!(n == 2, "shared");
}
/// A weak pointer whose value is gone can still be coerced.
pub fn c25_weak_dangling() {
    reset_drops();
    let a = Rc::new(D(nd::u8()));
    let w = Rc::downgrade(&a);
    drop(a);
    let v: std::rc::Weak<dyn Tr> = w.unsize(tr!());
    prop!(v.upgrade().is_none() && v.strong_count() == 0 && drops() == 1, "still dangling");
    drop(v);
    prop!(drops() == 1, "not dropped again");
    witness!(true, "end");
}
/// Arrays become slices of all their elements; other named coercions.
pub fn c25_slice() {
    let mut a = [nd::u8(), nd::u8(), nd::u8()];
    let at = a.as_ptr() as usize;
    let b = a;
    let s: &mut [u8] = (&mut a).unsize(Coercion::to_slice());
    prop!(s.len() == 3 && s.as_ptr() as usize == at, "all elements, in place");
    let i = nd::below(3);
    prop!(s[i] == b[i], "the same elements");
    let z: &[u32] = (&[0u32; 0]).unsize(Coercion::to_slice());
    prop!(z.is_empty(), "none");
    let u: &[()] = (&[(); 3]).unsize(Coercion::to_slice());
    prop!(u.len() == 3, "elements without a size count");
    let mut e = [[0u16; 0]; 2];
    let m: &mut [[u16; 0]] = (&mut e).unsize(Coercion::to_slice());
    prop!(m.len() == 2 && m.as_ptr() as usize % 2 == 0, "elements without a size count");
    witness!(i == 2, "last");
}
pub fn c25_named() {
    let x = nd::u8();
    let v = D(x);
    let d: &dyn core::any::Any = (&v).unsize(Coercion::to_any());
    prop!(d.downcast_ref::<D>().map(|d| d.0) == Some(x) && d.downcast_ref::<u8>().is_none(), "any");
    let f = move |y: u8| x ^ y;
    let g: &dyn Fn(u8) -> u8 = (&f).unsize(Coercion::<_, dyn Fn(u8) -> u8>::to_fn());
    let y = nd::u8();
    prop!(g(y) == x ^ y, "functions");
    let mut it = [x, y].into_iter();
    let i: &mut dyn Iterator<Item = u8> = (&mut it).unsize(Coercion::to_iterator());
    prop!(i.next() == Some(x) && i.next() == Some(y) && i.next().is_none(), "iterators");
    witness!(x != y, "distinct");
}
/// A weak pointer of the thread-safe kind whose value is gone.
pub fn c25_weak_dangling_arc() {
    reset_drops();
    let a = Arc::new(D(nd::u8()));
    let w = Arc::downgrade(&a);
    drop(a);
    let v: std::sync::Weak<dyn Tr> = w.unsize(tr!());
    prop!(v.upgrade().is_none() && v.strong_count() == 0 && drops() == 1, "still dangling");
    let v2 = v.clone();
    drop(v);
    prop!(v2.upgrade().is_none() && drops() == 1, "not dropped again");
    // One that never had a value.
    let n: std::rc::Weak<dyn Tr> = std::rc::Weak::<D>::new().unsize(tr!());
    prop!(n.upgrade().is_none(), "nothing to upgrade to");
    witness!(true, "end");
}
/// Functions of every number of arguments, by reference, mutable and consuming.
pub fn c25_functions() {
    let (x, y) = (nd::u8(), nd::u8());
    let a = [nd::u8(), nd::u8(), nd::u8(), nd::u8(), nd::u8(), nd::u8()];
    let f0 = move || x;
    let g: &dyn Fn() -> u8 = (&f0).unsize(Coercion::<_, dyn Fn() -> u8>::to_fn());
    prop!(g() == x, "no arguments");
    let f2 = move |p: u8, q: u8| (x, p, q);
    let g: &dyn Fn(u8, u8) -> (u8, u8, u8) = (&f2).unsize(Coercion::<_, dyn Fn(u8, u8) -> (u8, u8, u8)>::to_fn());
    prop!(g(a[0], a[1]) == (x, a[0], a[1]), "two");
    let f6 = move |p: u8, q: u8, r: u8, s: u8, t: u8, u: u8| [p, q, r, s, t, u];
    type F6 = dyn Fn(u8, u8, u8, u8, u8, u8) -> [u8; 6];
    let g: &F6 = (&f6).unsize(Coercion::<_, F6>::to_fn());
    prop!(g(a[0], a[1], a[2], a[3], a[4], a[5]) == a, "six");
    let mut sum = y;
    {
        let mut add = |p: u8| { sum = sum.wrapping_add(p); sum };
        let g: &mut dyn FnMut(u8) -> u8 = (&mut add).unsize(Coercion::<_, dyn FnMut(u8) -> u8>::to_fn_mut());
        prop!(g(x) == y.wrapping_add(x) && g(a[0]) == y.wrapping_add(x).wrapping_add(a[0]), "with state");
    }
    prop!(sum == y.wrapping_add(x).wrapping_add(a[0]), "the original state");
    reset_drops();
    let owned = D(y);
    let once: Box<dyn FnOnce(u8) -> D> = Box::new(move |p: u8| { let d = owned; D(d.0 ^ p) }).unsize(Coercion::<_, dyn FnOnce(u8) -> D>::to_fn_once());
    let call = nd::bool();
    if call {
        let d = once(x);
        prop!(d.0 == x ^ y && drops() == 1 && log(0) == y, "consumed with what it captured");
    } else {
        drop(once);
        prop!(drops() == 1 && log(0) == y, "dropped with what it captured");
    }
    witness!(call, "called");
}
/// Futures, and values that are formatted through the coerced pointer.
pub fn c25_future_fmt() {
    use core::fmt::Write;
    use core::future::Future;
    use core::task::{Context, Poll, Waker};
    struct Twice(u8, bool);
    impl Future for Twice {
        type Output = u8;
        fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u8> {
            if self.1 { Poll::Ready(self.0) } else { self.1 = true; Poll::Pending }
        }
    }
    let x = nd::u8();
    let mut t = Twice(x, nd::bool());
    let ready = t.1;
    let at = addr(&t);
    {
        let mut f: Pin<&mut dyn Future<Output = u8>> = Pin::new(&mut t).unsize(Coercion::<_, dyn Future<Output = u8>>::to_future());
        prop!(addr::<dyn Future<Output = u8>>(&*f) == at, "in place");
        let mut cx = Context::from_waker(Waker::noop());
        if !ready { prop!(f.as_mut().poll(&mut cx).is_pending(), "pending first"); }
        prop!(f.as_mut().poll(&mut cx) == Poll::Ready(x), "the result");
    }
    prop!(t.1, "the same future");
    struct Fm(u8);
    static mut SEEN: u32 = 0;
    impl core::fmt::Debug for Fm { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { unsafe { SEEN = 256 + self.0 as u32 } Ok(()) } }
    impl core::fmt::Display for Fm { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { unsafe { SEEN = 512 + self.0 as u32 } Ok(()) } }
    struct Sink;
    impl Write for Sink { fn write_str(&mut self, _: &str) -> core::fmt::Result { Ok(()) } }
    let v = Fm(x);
    let d: &dyn core::fmt::Debug = (&v).unsize(Coercion::to_debug());
    prop!(write!(Sink, "{:?}", d).is_ok() && unsafe { SEEN } == 256 + x as u32, "debug");
    let d: Box<dyn core::fmt::Display> = Box::new(v).unsize(Coercion::to_display());
    prop!(write!(Sink, "{}", d).is_ok() && unsafe { SEEN } == 512 + x as u32, "display");
    witness!(!ready, "pending");
}
/// The pointers of `without-alloc`.
pub fn c25_without_alloc() {
    use core::mem::MaybeUninit;
    use unsize::CoerceUnsize as _;
    reset_drops();
    let x = nd::u8();
    let mut slot = MaybeUninit::<(D, u32)>::uninit();
    let at = slot.as_ptr() as usize;
    let u = without_alloc::Uninit::from(&mut slot).cast::<D>().unwrap();
    let n = u.size();
    let coerced = nd::bool();
    if coerced {
        let b = without_alloc::boxed::Box::new(D(x), u);
        let b: without_alloc::boxed::Box<'_, dyn Tr> = b.unsize(unsize::Coercion!(to dyn Tr));
        prop!(addr::<dyn Tr>(&*b) == at && b.id() == x, "the same value");
        let raw = without_alloc::boxed::Box::into_raw(b);
        prop!(raw.size() == n && drops() == 0, "all of the memory");
        drop(unsafe { without_alloc::boxed::Box::from_raw(raw) });
        prop!(drops() == 1 && log(0) == x, "dropped once");
    } else {
        let v: without_alloc::Uninit<'_, dyn Tr> = u.unsize(unsize::Coercion!(to dyn Tr));
        prop!(v.size() == n && addr(v.as_ptr()) == at, "the same memory");
        let p = v.as_ptr() as *mut D;
        unsafe { p.write(D(x)) };
        prop!(unsafe { v.as_ref() }.id() == x && drops() == 0, "once initialised, of the original type");
        let m = v.as_memory();
        prop!(m.size() == n && m.as_ptr() as usize == at, "all of the memory");
    }
    witness!(coerced, "box");
}

harnesses! {
    c25_refs_u8, 3, quick, normal;
    c25_refs_d, 3, quick, normal;
    c25_refs_a16, 3, quick, normal;
    c25_refs_arr, 3, quick, normal;
    c25_box, 9, quick, normal;
    c25_rc, 9, quick, normal;
    c25_arc, 9, quick, normal;
    c25_weak_dangling, 9, quick, normal;
    c25_slice, 3, quick, normal;
    c25_named, 3, quick, normal;
    c25_without_alloc, 9, quick, normal;
    c25_weak_dangling_arc, 9, quick, normal;
    c25_functions, 9, quick, normal;
    c25_future_fmt, 9, quick, normal;
}
