//! Containers that are filled by iterators and whose elements may panic (C30),
//! and histories of fills (C24).
extern crate alloc;
use crate::{nd, util::*};
use alloc::{boxed::Box, collections::VecDeque, vec::Vec};
use fill::Fill;

/// A few items, or many.
fn some(few: u8) -> u8 { let n = nd::below(few + 1); if n == few { 100 } else { n } }
/// Which elements there are, by id, in order.
pub struct M { ids: [u8; 12], n: usize }
impl M {
    fn push(&mut self, id: u8) { self.ids[self.n] = id; self.n += 1; }
    fn whole(&self) { for i in 0..self.n { nd::check(dropped(self.ids[i]) == 0, "what is inside has not been dropped"); } }
}
/// `left` items with ids from `next`; panics instead of the item `at`.  After
/// its end it yields a last item, which nobody may ask for.
struct It<'a> { left: u8, pulled: &'a mut u8, at: u8, next: u8, ended: bool, promise: u8 }
impl Iterator for It<'_> {
    type Item = D;
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left as usize;
        match self.promise { 0 => (0, None), 1 => (n, Some(n)), 2 => (n / 2, Some(n + 1)), _ => (n, None) }
    }
    fn next(&mut self) -> Option<D> {
        nd::check(!self.ended, "an exhausted iterator is not asked again");
        if *self.pulled == self.at { nd::boom() }
        if self.left == 0 { self.ended = true; return None }
        self.left -= 1;
        *self.pulled += 1;
        self.next += 1;
        Some(D(self.next - 1))
    }
}
/// The containers.
trait C: Fill<D> {
    fn ids(&self, m: &mut M);
    fn room(&self) -> usize;
}
impl C for Option<D> {
    fn ids(&self, m: &mut M) { if let Some(d) = self { m.push(d.0) } }
    fn room(&self) -> usize { self.is_none() as usize }
}
impl C for Vec<D> {
    fn ids(&self, m: &mut M) { for d in self { m.push(d.0) } }
    fn room(&self) -> usize { self.capacity() - self.len() }
}
impl C for VecDeque<D> {
    fn ids(&self, m: &mut M) { for d in self { m.push(d.0) } }
    fn room(&self) -> usize { self.capacity() - self.len() }
}
fn look<T: C>(c: &T) -> M { let mut m = M { ids: [NO; 12], n: 0 }; c.ids(&mut m); m }

/// Fill a container, and fill it again, by any entry point.
fn fills<T: C>(mut c: T, panics: bool, rounds: u8) {
    if panics { dlog().boom[0] = nd::below(6); }
    let mut next = 3;
    let mut full = false;
    let mut threw = false;
    for _ in 0..rounds {
        let before = look(&c);
        let room = c.room();
        let n = some(4);
        let at = if panics { nd::below(4) } else { NO };
        let mut pulled = 0;
        let it = It { left: n, pulled: &mut pulled, at, next, ended: false, promise: nd::below(4) };
        let how = nd::below(4);
        let mut rest = None;
        let mut count = None;
        let p = nd::catch(|| match how {
            0 => c.fill(it),
            1 => rest = Some(c.fill_and_keep_tail(it).left),
            2 => count = Some(c.fill_count(it)),
            _ => rest = c.checked_fill(it).map(|i| { let l = i.left; core::mem::forget(i); l }),
        });
        let keep = room.min(n as usize).min(at as usize);
        nd::check(pulled as usize == keep, "exactly the items that are kept are pulled");
        nd::check(p == (at as usize <= n as usize && (at as usize) < room), "only the iterator panics");
        let after = look(&c);
        nd::check(after.n == before.n + keep, "every item that was pulled is kept");
        for i in 0..before.n { nd::check(after.ids[i] == before.ids[i], "what was there stays in front"); }
        for i in 0..keep { nd::check(after.ids[before.n + i] == next + i as u8, "new items follow in order"); }
        after.whole();
        if !p {
            if how == 1 { nd::check(rest == Some(n - keep as u8), "the rest is left in the iterator"); }
            if how == 2 { nd::check(count == Some(keep), "counts the items pulled"); }
            if how == 3 {
                nd::check(rest.is_some() == (n as usize >= room), "tells whether the container ran out of room");
                nd::check(rest.is_none() || rest == Some(n - keep as u8), "the rest is left in the iterator");
            }
        }
        threw |= p;
        full |= c.room() == 0;
        next += pulled;
    }
    let m = look(&c);
    let hit = (0..m.n).any(|i| m.ids[i] == dlog().boom[0]);
    let p = nd::catch(|| drop(c));
    nd::check(p == hit, "only a destructor panics");
    for i in 3..next { nd::check(dropped(i) == 1, "every item is dropped exactly once"); }
    nd::check(dlog().n == m.n, "nothing else is dropped");
    nd::cover(full && threw == panics, "a full container");
}
fn option(panics: bool) {
    let c = if nd::bool() { Some(D(0)) } else { None };
    fills(c, panics, 2)
}
fn vec(panics: bool) {
    let mut c = Vec::with_capacity(3);
    for i in 0..nd::below(3) { c.push(D(i)); }
    fills(c, panics, 2)
}
fn deque(panics: bool) {
    let mut c = VecDeque::with_capacity(3);
    // Rotated, so that it wraps around.
    for _ in 0..nd::below(3) { c.push_back(D(9)); core::mem::forget(c.pop_front()); }
    for i in 0..nd::below(3) { c.push_back(D(i)); }
    fills(c, panics, 2)
}

/// Slices: the value that is overwritten is dropped once, even if that panics;
/// what was not pulled stays in the iterator.
fn slice(panics: bool) {
    if panics { dlog().boom[0] = nd::below(8); }
    let len = nd::below(4) as usize;
    let n = some(5);
    let at = if panics { nd::below(5) } else { NO };
    let how = nd::below(3);
    let boom = dlog().boom[0] as usize;
    let mut pulled = 0;
    let mut mem = core::mem::ManuallyDrop::new([D(0), D(1), D(2), D(3)]);
    let mut left = 0;
    let mut rest = None;
    let p = nd::catch(|| {
        let mut s = mem[..len].iter_mut();
        let it = It { left: n, pulled: &mut pulled, at, next: 4, ended: false, promise: nd::below(4) };
        let q = nd::catch(|| match how {
            0 => Fill::<D>::fill(&mut s, it),
            1 => rest = Some(Fill::<D>::fill_and_keep_tail(&mut s, it).left),
            _ => rest = Some(Fill::<D>::fill_count(&mut s, it) as u8),
        });
        left = s.len();
        if q { nd::boom() }
    });
    let pulled = pulled as usize;
    let mut keep = len.min(n as usize).min(at as usize);
    // A destructor panics when its value is overwritten.
    let over = boom < keep;
    if over { keep = boom + 1; }
    nd::check(pulled == keep, "exactly the items that are kept are pulled");
    nd::check(p == (over || at as usize <= n as usize && (at as usize) < len), "the panic propagates");
    nd::check(left == len - keep, "the iterator of the slice is behind what was filled");
    if !p && how == 1 { nd::check(rest == Some(n - keep as u8), "the rest is left in the iterator"); }
    if !p && how == 2 { nd::check(rest == Some(keep as u8), "counts the items pulled"); }
    for i in 0..4 {
        nd::check(mem[i].0 as usize == if i < keep { 4 + i } else { i }, "every item that was pulled is kept, in order");
        nd::check(dropped(i as u8) == (i < keep) as u8, "what is overwritten is dropped exactly once");
    }
    nd::check(dlog().n == keep, "nothing else is dropped");
    nd::cover(keep == 3 && n == 4, "more items than slots");
    nd::cover(over == panics, "overwriting");
}

/// Results: items up to the first error.
fn result(panics: bool) {
    struct R<'a> { it: It<'a>, err: u8, past: bool }
    impl Iterator for R<'_> {
        type Item = Result<D, Box<D>>;
        fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
        fn next(&mut self) -> Option<Self::Item> {
            nd::check(!self.past, "an iterator is not asked again after an error");
            let i = *self.it.pulled;
            let d = self.it.next()?;
            if i == self.err { self.past = true; Some(Err(Box::new(d))) } else { Some(Ok(d)) }
        }
    }
    if panics { dlog().boom[0] = nd::below(7); }
    let boom = dlog().boom[0];
    let heap = nd::heap();
    let have = nd::below(4);
    let n = some(4);
    let err = nd::below(4);
    let at = if panics { nd::below(4) } else { NO };
    let mut pulled = 0;
    // Already an error, or a vector with some values.
    let mut c: Result<Vec<D>, Box<D>> = if have == 3 { Err(Box::new(D(0))) } else { let mut v = Vec::with_capacity(2); for i in 0..have { v.push(D(i)); } Ok(v) };
    let room = if have == 3 { 0 } else { 2 - have };
    let p = nd::catch(|| c.fill(R { it: It { left: n, pulled: &mut pulled, at, next: 3, ended: false, promise: nd::below(4) }, err, past: false }));
    let keep = room.min(n).min(at).min(if err < 3 { err + 1 } else { 3 });
    nd::check(pulled == keep, "exactly the items that are kept are pulled");
    let failed = have < 3 && err < keep;
    // The old contents are dropped when the error replaces them.
    let old = failed && (boom < have || boom >= 3 && boom < 3 + err);
    nd::check(p == (old || at <= n && at < room && !failed), "the panic propagates");
    match &c {
        Ok(v) => {
            nd::check(have < 3 && !failed, "no error occurred");
            nd::check(v.len() == (have + keep) as usize, "every item that was pulled is kept");
            for i in 0..v.len() { nd::check(v[i].0 == if i < have as usize { i as u8 } else { 3 + i as u8 - have }, "in order"); }
            nd::check(dlog().n == 0, "nothing is dropped");
        }
        Err(d) => {
            nd::check(have == 3 || failed, "an error occurred");
            nd::check(d.0 == if have == 3 { 0 } else { 3 + err }, "it is the first error");
            nd::check(dropped(d.0) == 0, "the error has not been dropped");
            if failed { for i in 0..have { nd::check(dropped(i) == 1, "the old contents are dropped once"); } }
        }
    }
    dlog().boom[0] = NO;
    drop(c);
    for i in 0..if have == 3 { 1 } else { have } { nd::check(dropped(i) == 1, "every value is dropped once"); }
    for i in 3..3 + keep { nd::check(dropped(i) == 1, "every value is dropped once"); }
    nd::check(nd::heap() == heap, "the memory is released");
    nd::cover(failed && keep == 2, "an error behind an item");
    nd::cover(old == panics, "the old contents");
}
/// Swapping: both sides keep all values.
fn swap() {
    let (len, n) = (nd::below(4) as usize, nd::below(4) as usize);
    let mut a = core::mem::ManuallyDrop::new([D(0), D(1), D(2)]);
    let mut b = core::mem::ManuallyDrop::new([D(3), D(4), D(5)]);
    let mut s = a[..len].iter_mut();
    let mut t = b[..n].iter_mut();
    Fill::<&mut D>::fill(&mut s, &mut t);
    let k = len.min(n);
    nd::check(s.len() == len - k && t.len() == n - k, "as many as both have");
    for i in 0..3 {
        nd::check(a[i].0 as usize == if i < k { 3 + i } else { i }, "the values of the other side");
        nd::check(b[i].0 as usize == if i < k { i } else { 3 + i }, "the values of the other side");
    }
    nd::check(dlog().n == 0, "nothing is dropped");
    nd::cover(k == 3, "all");
}

#[no_mangle]
pub extern "C-unwind" fn c24_fill_option() { option(false) }
#[no_mangle]
pub extern "C-unwind" fn c24_fill_vec() { vec(false) }
#[no_mangle]
pub extern "C-unwind" fn c24_fill_deque() { deque(false) }
#[no_mangle]
pub extern "C-unwind" fn c24_fill_slice() { slice(false) }
#[no_mangle]
pub extern "C-unwind" fn c24_fill_result() { result(false) }
#[no_mangle]
pub extern "C-unwind" fn c24_fill_swap() { swap() }
#[no_mangle]
pub extern "C-unwind" fn c30_fill_option() { option(true) }
#[no_mangle]
pub extern "C-unwind" fn c30_fill_vec() { vec(true) }
#[no_mangle]
pub extern "C-unwind" fn c30_fill_deque() { deque(true) }
#[no_mangle]
pub extern "C-unwind" fn c30_fill_slice() { slice(true) }
#[no_mangle]
pub extern "C-unwind" fn c30_fill_result() { result(true) }

crate::harnesses! {
    c24_fill_option, quick;
    c24_fill_vec, quick;
    c24_fill_deque, quick;
    c24_fill_slice, quick;
    c24_fill_result, quick;
    c24_fill_swap, quick;
    c30_fill_option, quick;
    c30_fill_vec, quick;
    c30_fill_deque, quick;
    c30_fill_slice, quick;
    c30_fill_result, quick;
}
