//! Histories of shared handles, with and without a destructor that panics
//! (C19, C29), and handles inside of the value that is dropped (C20).
use crate::{nd, util::*};
use core::mem::MaybeUninit;
use without_alloc::rc::{Rc, Weak};
use without_alloc::Uninit;

#[repr(align(16))]
struct Mem([MaybeUninit<u8>; 112]);
const NS: usize = 3;
const NW: usize = 2;
/// The handles that exist, and what has become of the value `id`.
struct H<'a, T> { s: [Option<Rc<'a, T>>; NS], w: [Option<Weak<'a, T>>; NW], id: u8, at: usize, len: usize, moved: bool, mem: Option<Uninit<'a, ()>> }

impl<'a, T: Elem> H<'a, T> {
    fn strong(&self) -> usize { self.s.iter().flatten().count() }
    fn weak(&self) -> usize { self.w.iter().flatten().count() }
    fn check(&self) {
        let (s, w) = (self.strong(), self.weak());
        for rc in self.s.iter().flatten() {
            nd::check(Rc::strong_count(rc) == s, "strong count of a strong handle");
            nd::check(Rc::weak_count(rc) == w + 1, "weak count of a strong handle");
            nd::check(rc.id() == self.id, "the value is intact");
        }
        for k in self.w.iter().flatten() {
            nd::check(Weak::strong_count(k) == s, "strong count of a weak handle");
            nd::check(Weak::weak_count(k) == w + (s > 0) as usize, "weak count of a weak handle");
        }
        let gone = self.mem.is_none() && s == 0 && !self.moved;
        nd::check(dropped(self.id) == (gone || self.moved) as u8 || self.mem.is_some(), "the value is dropped exactly if the last strong handle has gone");
    }
    fn free_s(&self) -> usize { let i = self.s.iter().position(|x| x.is_none()); nd::assume(i.is_some()); i.unwrap() }
    fn free_w(&self) -> usize { let i = self.w.iter().position(|x| x.is_none()); nd::assume(i.is_some()); i.unwrap() }
    /// Handles of one kind are interchangeable up to where they are kept.
    fn any_s(&self) -> usize { let i = nd::below(NS as u8) as usize; nd::assume(self.s[i].is_some()); i }
    fn any_w(&self) -> usize { let i = nd::below(NW as u8) as usize; nd::assume(self.w[i].is_some()); i }
    fn back(&mut self, m: Uninit<'a, ()>) {
        nd::check(m.as_ptr() as usize == self.at && m.size() == self.len, "all of the memory comes back");
        self.mem = Some(m);
    }
    fn step(&mut self) {
        match nd::below(11) {
            0 => { let (i, j) = (self.any_s(), self.free_s()); self.s[j] = self.s[i].clone(); }
            1 => {
                let i = self.any_s();
                let last = self.strong() == 1;
                let rc = self.s[i].take();
                let p = nd::catch(|| drop(rc));
                nd::check(p == (last && dlog().boom[0] == self.id), "only the destructor of the value panics");
            }
            2 => { let (i, j) = (self.any_s(), self.free_w()); self.w[j] = self.s[i].as_ref().map(Rc::downgrade); }
            3 => {
                let (i, j) = (self.any_w(), self.free_s());
                let up = self.w[i].as_ref().unwrap().upgrade();
                nd::check(up.is_some() == (self.strong() > 0), "upgrading works exactly while the value lives");
                self.s[j] = up;
            }
            4 => { let i = self.any_w(); self.w[i] = None; }
            5 => { let (i, j) = (self.any_w(), self.free_w()); self.w[j] = self.w[i].clone(); }
            6 => {
                let (i, j) = (self.any_s(), self.free_w());
                let s = self.strong();
                match Rc::try_unwrap(self.s[i].take().unwrap()) {
                    Ok((v, weak)) => {
                        nd::check(s == 1, "only a single strong handle gives up the value");
                        nd::check(v.id() == self.id, "it is the value");
                        self.w[j] = Some(weak);
                        self.moved = true;
                        nd::check(nd::catch(|| drop(v)) == (dlog().boom[0] == self.id), "only the destructor of the value panics");
                    }
                    Err(rc) => { nd::check(s != 1, "a single strong handle gives up the value"); self.s[i] = Some(rc); }
                }
            }
            7 => {
                let i = self.any_w();
                let alone = self.strong() == 0 && self.weak() == 1;
                match self.w[i].take().unwrap().try_unwrap() {
                    Ok(m) => { nd::check(alone, "only the last handle of all gives up the memory"); self.back(m); }
                    Err(k) => { nd::check(!alone, "the last handle of all gives up the memory"); self.w[i] = Some(k); }
                }
            }
            8 => {
                let i = self.any_s();
                let alone = self.strong() == 1 && self.weak() == 0;
                match Rc::into_raw(self.s[i].take().unwrap()) {
                    Ok(m) => {
                        nd::check(alone, "only the last handle of all gives up the memory with the value");
                        nd::check(m.as_ptr() as usize == self.at && m.size() == self.len, "all of the memory comes back");
                        nd::check(dropped(self.id) == 0 && unsafe { m.as_ref() }.id() == self.id, "with the value");
                        self.s[i] = Some(unsafe { Rc::from_raw(m) });
                    }
                    Err(rc) => { nd::check(!alone, "the last handle of all gives up the memory with the value"); self.s[i] = Some(rc); }
                }
            }
            9 => {
                let i = self.any_s();
                let alone = self.strong() == 1 && self.weak() == 0;
                let got = Rc::get_mut(self.s[i].as_mut().unwrap()).map(|v| v.id());
                nd::check(got == if alone { Some(self.id) } else { None }, "unique access exactly for a single handle");
            }
            _ => {
                // The memory is used again.
                nd::assume(self.mem.is_some() && self.id < 6);
                self.id += 1;
                self.moved = false;
                self.s = [const { None }; NS];
                self.s[0] = Some(Rc::new(T::make(self.id), self.mem.take().unwrap()));
            }
        }
    }
}

fn history<T: Elem>(steps: usize, many: bool, panics: bool) {
    if panics { dlog().boom[0] = 0; }
    let mut mem = Mem([MaybeUninit::uninit(); 112]);
    let need = Rc::<T>::layout().size();
    let len = need + nd::below(2) as usize * 3;
    let m = Uninit::from_maybe_uninit_slice(&mut mem.0[16..16 + len]).as_memory();
    let at = m.as_ptr() as usize;
    let mut h = H { s: [const { None }; NS], w: [const { None }; NW], id: 0, at, len, moved: false, mem: None };
    h.s[0] = Some(Rc::new(T::make(0), m));
    h.check();
    if many {
        for i in 1..1 + nd::below(NS as u8) as usize { h.s[i] = h.s[i - 1].clone(); h.check(); }
        for i in 0..nd::below(NW as u8 + 1) as usize { h.w[i] = h.s[0].as_ref().map(Rc::downgrade); h.check(); }
    }
    for _ in 0..steps { h.step(); h.check(); }
    nd::cover(h.mem.is_some(), "the memory is recovered");
    nd::cover(h.strong() == 0 && h.weak() == 2, "only weak handles are left");
    nd::cover(h.strong() == 3 && h.weak() == 1, "many handles");
    // Whatever is left goes, in any of two orders.
    let id = h.id;
    let lives = h.mem.is_none() && h.strong() > 0;
    let H { s, w, .. } = h;
    let p = if nd::bool() { let p = nd::catch(|| drop(s)); drop(w); p } else { drop(w); nd::catch(|| drop(s)) };
    nd::check(p == (lives && dlog().boom[0] == id), "only the destructor of the value panics");
    for i in 0..id + 1 { nd::check(dropped(i) == 1, "every value is dropped exactly once"); }
}

/// What a destructor may do with handles of its own value.
struct Own<'a> { id: u8, w: [core::cell::Cell<Option<Weak<'a, Own<'a>>>>; 2], act: u8 }
impl Drop for Own<'_> {
    fn drop(&mut self) {
        let id = self.id;
        let k = self.w[0].take().unwrap();
        match self.act {
            0 => self.w[0].set(Some(k)),
            1 => drop(k),
            2 => { let c = k.clone(); drop(k); self.w[1].set(Some(c)); }
            3 => { nd::check(k.upgrade().is_none(), "the value that is being dropped cannot be shared again"); drop(k) }
            4 => { self.w[1].take(); match k.try_unwrap() { Ok(_) => nd::check(false, "the memory is not given up before the value is dropped"), Err(k) => drop(k) } }
            _ => {
                self.w[1].take();
                nd::check(k.strong_count() == 0, "no strong handle exists");
                core::mem::forget(k);
            }
        }
        nd::check(self.id == id, "the value is intact while it is dropped");
        record(id);
    }
}
/// The value keeps weak handles to itself and uses them while it is dropped,
/// possibly with a panic; others may exist outside.
fn own(panics: bool) {
    if panics { dlog().boom[0] = 0; }
    let act = nd::below(6);
    let outside = nd::bool();
    let second = nd::bool();
    let mut mem = Mem([MaybeUninit::uninit(); 112]);
    let len = Rc::<Own>::layout().size();
    let m = Uninit::from_maybe_uninit_slice(&mut mem.0[16..16 + len]).as_memory();
    let at = m.as_ptr() as usize;
    let rc = Rc::new(Own { id: 0, w: [core::cell::Cell::new(None), core::cell::Cell::new(None)], act }, m);
    rc.w[0].set(Some(Rc::downgrade(&rc)));
    if second { rc.w[1].set(Some(Rc::downgrade(&rc))); }
    let k = if outside { Some(Rc::downgrade(&rc)) } else { None };
    let p = nd::catch(|| drop(rc));
    nd::check(p == panics, "only the destructor panics");
    nd::check(dropped(0) == 1, "the value is dropped exactly once");
    if let Some(k) = k {
        nd::check(k.upgrade().is_none() && k.strong_count() == 0, "it cannot be revived");
        match k.try_unwrap() {
            Ok(m) => nd::check(act != 5 && m.as_ptr() as usize == at && m.size() == len, "the last handle gives up the memory"),
            Err(_) => nd::check(act == 5, "the last handle gives up the memory"),
        }
    }
    nd::cover(act == 4 && outside && second, "the destructor tries to take the memory");
    nd::cover(act == 3 && !outside, "the destructor tries to revive the value");
}
/// A value that keeps another one alive: both are dropped once.
struct Next<'a>(u8, Option<Rc<'a, Next<'a>>>);
impl Drop for Next<'_> { fn drop(&mut self) { record(self.0) } }
fn list(panics: bool) {
    if panics { dlog().boom[0] = nd::below(3); }
    let mut mem = [Mem([MaybeUninit::uninit(); 112]), Mem([MaybeUninit::uninit(); 112]), Mem([MaybeUninit::uninit(); 112])];
    let [a, b, c] = &mut mem;
    let mk = |m: &'_ mut Mem| -> Uninit<'_, ()> { unsafe { core::mem::transmute(Uninit::from_maybe_uninit_slice(&mut m.0[..]).as_memory()) } };
    let r0 = Rc::new(Next(0, None), mk(a));
    let k0 = Rc::downgrade(&r0);
    let keep = if nd::bool() { Some(r0.clone()) } else { None };
    let r1 = Rc::new(Next(1, Some(r0)), mk(b));
    let k1 = Rc::downgrade(&r1);
    let r2 = Rc::new(Next(2, Some(r1)), mk(c));
    let p = nd::catch(|| drop(r2));
    nd::check(dropped(2) == 1 && dropped(1) == 1, "dropping the first drops the second");
    nd::check(dropped(0) == keep.is_none() as u8, "and the third unless it is shared");
    nd::check(k1.strong_count() == 0 && k1.upgrade().is_none(), "no handle is left");
    nd::check(k0.strong_count() == keep.is_some() as usize, "the handle that was inside is gone");
    nd::check(k1.try_unwrap().is_ok(), "the memory of the second can be recovered");
    nd::check(p == (dlog().boom[0] < 3 && (dlog().boom[0] != 0 || keep.is_none())), "only a destructor panics");
    let q = nd::catch(|| drop(keep));
    nd::check(dropped(0) == 1, "every value is dropped exactly once");
    nd::check(q == (dlog().boom[0] == 0 && !p), "only a destructor panics");
    nd::check(k0.try_unwrap().is_ok(), "the memory of the third can be recovered");
    nd::cover(panics == p, "the end");
}
/// Memory that cannot hold the value is refused, with the value dropped once.
fn refused<T: Elem>(boom: bool) {
    if boom { dlog().boom[0] = NO; }
    let mut mem = Mem([MaybeUninit::uninit(); 112]);
    let need = Rc::<T>::layout();
    let (off, len) = (nd::below(17) as usize, nd::below(80) as usize);
    let at = &mem as *const _ as usize + off;
    let m = Uninit::from_maybe_uninit_slice(&mut mem.0[off..off + len]).as_memory();
    let p = nd::catch(|| { let rc = Rc::new(T::make(0), m); nd::check(rc.id() == 0, "stored"); });
    nd::check(p == (at % need.align() != 0 || len < need.size()), "memory that cannot hold the value is refused");
    nd::check(dropped(0) == 1, "the value is dropped exactly once");
    nd::cover(p && len >= need.size(), "misaligned");
    nd::cover(!p, "fits");
}

#[no_mangle]
pub extern "C-unwind" fn c19_history_byte() { history::<D>(4, false, false) }
#[no_mangle]
pub extern "C-unwind" fn c19_history_wide() { history::<W>(2, true, false) }
#[no_mangle]
pub extern "C-unwind" fn c19_history_5() { history::<D>(5, false, false) }
#[no_mangle]
pub extern "C-unwind" fn c19_history_many() { history::<D>(4, true, false) }
#[no_mangle]
pub extern "C-unwind" fn c19_refused_byte() { refused::<D>(false) }
#[no_mangle]
pub extern "C-unwind" fn c19_refused_wide() { refused::<W>(false) }
#[no_mangle]
pub extern "C-unwind" fn c20_own() { own(false) }
#[no_mangle]
pub extern "C-unwind" fn c20_list() { list(false) }
#[no_mangle]
pub extern "C-unwind" fn c29_rc_history() { history::<D>(2, true, true) }
#[no_mangle]
pub extern "C-unwind" fn c29_rc_history_1() { history::<D>(3, false, true) }
#[no_mangle]
pub extern "C-unwind" fn c29_rc_history_3() { history::<D>(3, true, true) }
#[no_mangle]
pub extern "C-unwind" fn c29_rc_own() { own(true) }
#[no_mangle]
pub extern "C-unwind" fn c29_rc_list() { list(true) }

crate::harnesses! {
    c19_history_byte, quick;
    c19_history_wide, quick;
    c19_history_5, thorough;
    c19_history_many, thorough;
    c19_refused_byte, quick;
    c19_refused_wide, quick;
    c20_own, quick;
    c20_list, quick;
    c29_rc_history, quick;
    c29_rc_history_1, quick;
    c29_rc_history_3, thorough;
    c29_rc_own, quick;
    c29_rc_list, quick;
}
