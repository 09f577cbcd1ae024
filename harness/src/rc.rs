//! `without_alloc::rc`: counts and ownership follow the handles that exist.
use crate::nd;
use crate::util::*;
use core::cell::Cell;
use core::mem::MaybeUninit;
use core::ptr::NonNull;
use without_alloc::rc::{Rc, Weak};
use without_alloc::Uninit;

const fn sz<T>() -> usize { core::mem::size_of::<T>() }

/// Element types with an identity and counted drops.
pub trait V: Sized { fn mk(x: u8) -> Self; fn id(&self) -> u8; fn set(&mut self, x: u8); const LOGGED: bool; }
impl V for D { fn mk(x: u8) -> D { D(x) } fn id(&self) -> u8 { self.0 } fn set(&mut self, x: u8) { self.0 = x } const LOGGED: bool = true; }
/// A larger, over-aligned value.
#[repr(align(16))]
pub struct Big(u64, u8);
impl Drop for Big { fn drop(&mut self) { unsafe { if DROPS < 8 { DROP_LOG[DROPS] = self.1; } DROPS += 1; } } }
impl V for Big { fn mk(x: u8) -> Big { Big(!(x as u64), x) } fn id(&self) -> u8 { prop!(self.0 == !(self.1 as u64), "the value is intact"); self.1 } fn set(&mut self, x: u8) { self.0 = !(x as u64); self.1 = x } const LOGGED: bool = true; }

fn memory<'a, T, const N: usize>(arena: &'a mut Arena<N>, extra: usize) -> (Uninit<'a, ()>, usize, usize) {
    let p = unsafe { arena.ptr().add(16) };
    let n = Rc::<T>::layout().size() + extra;
    (unsafe { Uninit::from_memory(NonNull::new_unchecked(p), n) }, p as usize, n)
}

/// The handles that exist.  All handles of a kind are interchangeable, so one
/// of each kind stands for all of them: `handle` moves one out, `keep` one in.
struct World<'a, T> {
    rc: MaybeUninit<Rc<'a, T>>,
    wk: MaybeUninit<Weak<'a, T>>,
    s: usize,
    k: usize,
    val: u8,
    dropped: usize,
    at: usize,
    len: usize,
}
impl<'a, T: V> World<'a, T> {
    fn weak_total(&self) -> usize { self.k + (self.s > 0) as usize }
    fn rc(&self) -> &Rc<'a, T> { unsafe { self.rc.assume_init_ref() } }
    fn wk(&self) -> &Weak<'a, T> { unsafe { self.wk.assume_init_ref() } }
    fn take_rc(&mut self) -> Rc<'a, T> { self.s -= 1; unsafe { self.rc.assume_init_read() } }
    fn take_wk(&mut self) -> Weak<'a, T> { self.k -= 1; unsafe { self.wk.assume_init_read() } }
    fn keep_rc(&mut self, r: Rc<'a, T>) { self.s += 1; self.rc = MaybeUninit::new(r); }
    fn keep_wk(&mut self, w: Weak<'a, T>) { self.k += 1; self.wk = MaybeUninit::new(w); }
    fn check(&self) {
        let (s, w) = (self.s, self.weak_total());
        if s > 0 {
            let r = self.rc();
            prop!(Rc::strong_count(r) == s, "strong count is the number of strong handles");
            prop!(Rc::weak_count(r) == w, "weak count is the number of weak handles, all strong ones counting as one");
            prop!(r.id() == self.val && addr::<T>(&**r) == self.at, "all strong handles see the one value");
        }
        if self.k > 0 {
            let r = self.wk();
            prop!(r.strong_count() == s, "strong count seen by weak handles");
            prop!(r.weak_count() == w, "weak count seen by weak handles");
        }
        prop!(drops() == self.dropped, "the value is dropped exactly when its last owner is");
    }
    fn step(&mut self, op: usize) {
        let (s, k, w) = (self.s, self.k, self.weak_total());
        match op {
            0 => if s > 0 {
                let r = self.rc().clone();
                prop!(Rc::ptr_eq(&r, self.rc()), "a clone points to the same value");
                self.keep_rc(r);
            },
            1 => if s > 0 { let r = Rc::downgrade(self.rc()); self.keep_wk(r); },
            2 => if k > 0 { let r = self.wk().clone(); self.keep_wk(r); },
            3 => if k > 0 {
                let r = self.wk().upgrade();
                prop!(r.is_some() == (s > 0), "upgrade succeeds exactly while the value lives");
                if let Some(r) = r { self.keep_rc(r); }
            },
            4 => if s > 0 {
                drop(self.take_rc());
                if s == 1 { self.dropped += 1; prop!(log(0) == self.val, "the very value is dropped"); }
            },
            5 => if k > 0 { drop(self.take_wk()) },
            6 => if s > 0 {
                match Rc::try_unwrap(self.take_rc()) {
                    Ok((v, weak)) => {
                        prop!(s == 1, "only the last strong handle can be unwrapped");
                        prop!(v.id() == self.val && drops() == self.dropped, "and gives the value, undropped");
                        core::mem::forget(v);
                        self.keep_wk(weak);
                    }
                    Err(r) => { prop!(s != 1, "the last strong handle can be unwrapped"); self.keep_rc(r); }
                }
            },
            7 => if s > 0 {
                match Rc::into_raw(self.take_rc()) {
                    Ok(mem) => {
                        prop!(s == 1 && w == 1, "only a unique handle gives up its memory");
                        prop!(mem.as_ptr() as usize == self.at && mem.size() == self.len, "all of the original memory");
                        prop!(drops() == self.dropped, "the value is not dropped");
                        prop!(unsafe { mem.as_ref() }.id() == self.val, "and still there");
                        self.keep_rc(unsafe { Rc::from_raw(mem) });
                    }
                    Err(r) => { prop!(s != 1 || w != 1, "a unique handle gives up its memory"); self.keep_rc(r); }
                }
            },
            8 => if k > 0 {
                match self.take_wk().try_unwrap() {
                    Ok(mem) => {
                        prop!(s == 0 && w == 1, "memory is only handed out when nobody else refers to it");
                        prop!(mem.as_ptr() as usize == self.at && mem.size() == self.len, "all of the original memory");
                    }
                    Err(r) => { prop!(s != 0 || w != 1, "the last handle can have the memory"); self.keep_wk(r); }
                }
            },
            _ => if s > 0 {
                let x = nd::u8();
                match Rc::get_mut(unsafe { self.rc.assume_init_mut() }) {
                    Some(v) => { prop!(s == 1 && w == 1, "only a unique handle gives mutable access"); v.set(x); self.val = x; }
                    None => prop!(s != 1 || w != 1, "a unique handle gives mutable access"),
                }
            },
        }
    }
    /// Dispose of everything that is left.
    fn end(mut self, most: usize) {
        let (s, val, dropped) = (self.s, self.val, self.dropped);
        let mut i = 0;
        while i < most { if self.k > 0 { drop(self.take_wk()); } i += 1; }
        prop!(drops() == dropped, "weak handles never drop the value");
        let mut i = 0;
        while i < most { if self.s > 0 { drop(self.take_rc()); } i += 1; }
        prop!(self.s == 0 && self.k == 0, "harness: enough steps");
        prop!(drops() == dropped + (s > 0) as usize, "the last strong handle drops it exactly once");
        prop!(s == 0 || log(0) == val, "the very value is dropped");
    }
}
fn fresh<'a, T: V, const N: usize>(arena: &'a mut Arena<N>) -> World<'a, T> {
    reset_drops();
    let val = nd::u8();
    let (mem, at, len) = memory::<T, N>(arena, nd::below(3));
    let rc = Rc::new(T::mk(val), mem);
    World { rc: MaybeUninit::new(rc), wk: MaybeUninit::uninit(), s: 1, k: 0, val, dropped: 0, at, len }
}
/// One arbitrary operation from every combination of up to four handles each.
fn step<T: V>() {
    let mut arena = Arena::<96>::new();
    let mut w = fresh::<T, 96>(&mut arena);
    let (s, k) = (nd::upto(4), nd::upto(4));
    let mut i = 0;
    while i < 4 { if i < k { let r = Rc::downgrade(w.rc()); w.keep_wk(r); } i += 1; }
    let mut i = 1;
    while i < 4 { if i < s { let r = w.rc().clone(); w.keep_rc(r); } i += 1; }
    if s == 0 { drop(w.take_rc()); w.dropped = 1; }
    w.check();
    let op = nd::below(10);
    w.step(op);
    w.check();
    witness!(op == 3 && w.s == 2 && w.k == 2, "upgrade");
    witness!(op == 6 && w.s == 0 && w.k == 2, "unwrap");
    witness!(op == 8 && w.s == 0 && w.k == 0, "memory");
    w.end(5);
}
pub fn c19_step() { step::<D>() }
pub fn c19_step_big() { step::<Big>() }
/// Histories.
fn seq<const K: usize>() {
    let mut arena = Arena::<96>::new();
    let mut w = fresh::<D, 96>(&mut arena);
    let mut i = 0;
    while i < K { let op = nd::below(10); w.step(op); w.check(); i += 1; }
    witness!(w.dropped == 1 && w.k == 1, "dropped, and still weakly referenced");
    w.end(K + 1);
}
pub fn c19_seq3() { seq::<3>() }
pub fn c19_seq4() { seq::<4>() }
pub fn c19_seq6() { seq::<6>() }

/// The layout holds the value, is never empty, and is what `new` requires.
fn lay<T: V>() {
    let l = Rc::<T>::layout();
    prop!(l.size() >= sz::<T>() && l.size() > 0 && l.align() >= core::mem::align_of::<T>(), "layout holds the value");
    let mut arena = Arena::<96>::new();
    let (off, n) = (nd::below(33), nd::upto(48));
    let p = unsafe { arena.ptr().add(8 + off) };
    let mem = unsafe { Uninit::from_memory(NonNull::new_unchecked(p), n) };
    let ok = mem.fits(l);
    prop!(ok == (p as usize % l.align() == 0 && n >= l.size()), "fits");
    nd::assume(ok);
    reset_drops();
    let rc = Rc::new(T::mk(7), mem);
    prop!(rc.id() == 7 && addr::<T>(&*rc) == p as usize, "value in the given memory");
    witness!(n > l.size() && off > 0, "larger");
    drop(rc);
    prop!(drops() == 1, "dropped once");
}
pub fn c19_layout_d() { lay::<D>() }
pub fn c19_layout_big() { lay::<Big>() }
/// Memory that does not fit is refused by a panic, before the value is stored.
pub fn c19_new_misfit() {
    let mut arena = Arena::<96>::new();
    let (off, n) = (nd::below(33), nd::upto(48));
    let p = unsafe { arena.ptr().add(8 + off) };
    let mem = unsafe { Uninit::from_memory(NonNull::new_unchecked(p), n) };
    let l = Rc::<u64>::layout();
    nd::assume(p as usize % 8 != 0 || n < l.size());
    let _ = Rc::new(nd::u64(), mem);
    prop!(false, "memory that does not fit was accepted");
}

// ---- C20 -----------------------------------------------------------------------
/// A value that holds a weak handle to itself, and tries everything with it
/// while it is being dropped.
struct Own<'a> { me: Cell<Option<Weak<'a, Own<'a>>>>, op: u8, canary: u32 }
static mut SEEN: u32 = 0;
static mut GOT_MEMORY: bool = false;
static mut UPGRADED: bool = false;
impl Drop for Own<'_> {
    fn drop(&mut self) {
        unsafe { DROPS += 1; }
        if let Some(w) = self.me.take() {
            prop!(w.strong_count() == 0, "no strong handle while the value is dropped");
            match self.op {
                0 => match w.try_unwrap() {
                    Ok(mem) => unsafe {
                        GOT_MEMORY = true;
                        // What a caller may do with memory it owns.
                        (mem.as_ptr() as *mut u8).write_bytes(0, core::mem::size_of::<Own>());
                    },
                    Err(w) => core::mem::forget(w),
                },
                1 => { if let Some(r) = w.upgrade() { unsafe { UPGRADED = true; } core::mem::forget(r); } }
                2 => { let c = w.clone(); drop(w); if c.try_unwrap().is_ok() { unsafe { GOT_MEMORY = true; } } }
                3 => drop(w),
                _ => self.me.set(Some(w)),
            }
        }
        unsafe { SEEN = self.canary; }
    }
}
pub fn c20_self_weak() {
    let mut arena = Arena::<128>::new();
    reset_drops();
    unsafe { SEEN = 0; GOT_MEMORY = false; UPGRADED = false; }
    let (mem, at, len) = memory::<Own, 128>(&mut arena, 0);
    let op = nd::upto(4) as u8;
    let x = nd::u32();
    let rc = Rc::new(Own { me: Cell::new(None), op, canary: x }, mem);
    let extra = nd::bool();
    rc.me.set(Some(Rc::downgrade(&rc)));
    let other = if extra { Some(Rc::downgrade(&rc)) } else { None };
    drop(rc);
    prop!(drops() == 1, "dropped once");
    prop!(unsafe { !GOT_MEMORY }, "the memory is not handed out while the value in it is being dropped");
    prop!(unsafe { !UPGRADED }, "a value being dropped cannot be revived");
    prop!(unsafe { SEEN } == x, "the value is intact throughout its drop");
    witness!(extra && op == 0, "other weak");
    witness!(!extra && op == 0, "only weak");
    if let Some(w) = other {
        // Whether our handle is the last one depends on what the drop kept alive.
        let last = op == 1 || op == 2 || op == 3;
        prop!(w.strong_count() == 0 && w.weak_count() == if last || op == 4 { 1 } else { 2 }, "the counts are exact afterwards");
        match w.try_unwrap() {
            Ok(m) => prop!(op != 0 && m.as_ptr() as usize == at && m.size() == len, "the last handle gets the memory"),
            Err(w) => { prop!(op == 0, "the last handle gets the memory"); core::mem::forget(w); }
        }
    }
}
/// A value that drops another strong handle to a different value, and clones
/// weak ones, in its own drop.
struct Node<'a> { next: Cell<Option<Rc<'a, Node<'a>>>>, id: u8 }
impl Drop for Node<'_> { fn drop(&mut self) { unsafe { if DROPS < 8 { DROP_LOG[DROPS] = self.id; } DROPS += 1; } } }
pub fn c20_chain() {
    let mut a = Arena::<96>::new();
    let mut b = Arena::<96>::new();
    reset_drops();
    let (ma, _, _) = memory::<Node, 96>(&mut a, 0);
    let (mb, _, _) = memory::<Node, 96>(&mut b, 0);
    let (x, y) = (nd::u8(), nd::u8());
    nd::assume(x != y);
    let inner = Rc::new(Node { next: Cell::new(None), id: x }, ma);
    let keep = if nd::bool() { Some(inner.clone()) } else { None };
    let w = Rc::downgrade(&inner);
    let outer = Rc::new(Node { next: Cell::new(Some(inner)), id: y }, mb);
    let wo = Rc::downgrade(&outer);
    drop(outer);
    let kept = keep.is_some();
    prop!(drops() == if kept { 1 } else { 2 } && log(0) == y, "the outer value is dropped, and what only it owned");
    prop!(w.strong_count() == kept as usize && w.weak_count() == 1 + kept as usize, "inner counts");
    prop!(wo.strong_count() == 0 && wo.weak_count() == 1, "outer counts");
    witness!(kept, "kept");
    prop!(w.upgrade().is_some() == kept, "upgrade");
    drop(keep);
    prop!(drops() == 2 && log(1) == x, "both dropped once in the end");
    prop!(w.try_unwrap().is_ok() && wo.try_unwrap().is_ok(), "both memories can be recovered");
}

harnesses! {
    c19_step, 7, quick, normal;
    c19_step_big, 7, quick, normal;
    c19_seq3, 8, quick, normal;
    c19_seq4, 8, quick, normal;
    c19_seq6, 9, thorough, normal;
    c19_layout_d, 5, quick, normal;
    c19_layout_big, 5, quick, normal;
    c19_new_misfit, 3, quick, must_panic;
    c20_self_weak, 5, quick, normal;
    c20_chain, 5, quick, normal;
}
