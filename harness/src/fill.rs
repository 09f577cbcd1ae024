//! `fill::Fill`: containers pull exactly the items they keep.
use crate::nd;
use crate::util::*;
use std::collections::VecDeque;
use fill::Fill;

/// A source of at most `left` items; counts pulls and polls after its end.
/// Not fused: after the first `None` it would continue.
/// Promises any number of items it can keep its promise for.
pub struct Src { next: u8, left: usize, pulled: usize, polled: usize, after: bool, fused_break: bool, slack: usize, upper: Option<usize> }
impl Src { fn new(first: u8, left: usize) -> Src { Src { next: first, left, pulled: 0, polled: 0, after: false, fused_break: false, slack: nd::usize(), upper: if nd::bool() { Some(nd::usize()) } else { None } } } }
impl Iterator for Src {
    type Item = u8;
    fn size_hint(&self) -> (usize, Option<usize>) { (self.left.saturating_sub(self.slack), self.upper.map(|u| self.left.saturating_add(u))) }
    fn next(&mut self) -> Option<u8> {
        if self.after { self.fused_break = true; }
        self.polled += 1;
        if self.left == 0 { self.after = true; return None; }
        self.left -= 1;
        self.pulled += 1;
        let v = self.next;
        self.next = v.wrapping_add(1);
        Some(v)
    }
}
/// How the container is filled; returns how many items were pulled if known.
fn call<C: Fill<u8>>(c: &mut C, src: &mut Src, how: usize, room: usize) {
    let avail = src.left;
    match how {
        0 => c.fill(&mut *src),
        1 => { let t = c.fill_and_keep_tail(&mut *src); prop!(t.left + t.pulled == avail, "the tail is the rest of the iterator"); }
        2 => prop!(c.fill_count(&mut *src) == if room < avail { room } else { avail }, "the count is the number of items pulled"),
        _ => { let r = c.checked_fill(&mut *src).is_some(); if avail > room { prop!(r, "more items than room is an overflow"); } if avail < room { prop!(!r, "fewer items than room is no overflow"); } if room == 0 { prop!(r, "a full container reports an overflow"); } }
    }
    prop!(src.pulled == if room < avail { room } else { avail }, "pulls exactly the items it keeps");
    prop!(!src.fused_break, "an exhausted iterator is not polled again");
    prop!(room > 0 || src.polled == 0, "a full container does not poll at all");
}
/// A few items, or many.
fn some(few: usize) -> usize { let n = nd::upto(few + 1); if n > few { 1000 } else { n } }
fn source() -> (Src, u8, usize) { let (x, n) = (nd::u8(), some(5)); (Src::new(x, n), x, n) }

pub fn c24_option() {
    let (mut s, x, n) = source();
    let old = if nd::bool() { Some(nd::u8()) } else { None };
    let mut o = old;
    let how = nd::below(4);
    call(&mut o, &mut s, how, old.is_none() as usize);
    prop!(match old { Some(v) => o == Some(v), None => o == if n > 0 { Some(x) } else { None } }, "an empty option takes the first item, a full one keeps its own");
    witness!(old.is_none() && n > 1 && how == 3, "overflow");
}
/// Concrete capacity and entry point; symbolic length, contents and iterator.
fn vec_case(cap: usize, how: usize) {
    let (x, n) = (nd::u8(), some(cap + 1));
    let mut s = Src::new(x, n);
    let len = nd::upto(cap);
    let old = [nd::u8(), nd::u8(), nd::u8()];
    let mut v: Vec<u8> = Vec::with_capacity(cap);
    let cap = v.capacity();
    let mut i = 0;
    while i < 3 { if i < len { unsafe { v.as_mut_ptr().add(i).write(old[i]) } } i += 1; }
    unsafe { v.set_len(len) };
    let at = v.as_ptr() as usize;
    let room = cap - len;
    call(&mut v, &mut s, how, room);
    let got = if n < room { n } else { room };
    prop!(v.len() == len + got && v.capacity() == cap && v.as_ptr() as usize == at, "filled in place, never reallocated");
    let i = nd::below(4);
    if i < len { prop!(v[i] == old[i], "old items are kept"); }
    else if i < v.len() { prop!(v[i] == x.wrapping_add((i - len) as u8), "new items are appended in order"); }
    core::mem::forget(v);
    witness!(got + 1 == n, "overflow");
    witness!(n == 0, "nothing");
}
pub fn c24_vec_fill() { vec_case(3, 0) }
pub fn c24_vec_tail() { vec_case(2, 1) }
pub fn c24_vec_count() { vec_case(2, 2) }
pub fn c24_vec_checked() { vec_case(2, 3) }
/// A ring buffer of capacity two, at a fixed rotation and length.
fn deque(front: usize, len: usize) {
    let (x, n) = (nd::u8(), some(3));
    let mut s = Src::new(x, n);
    let old = nd::u8();
    let mut v: VecDeque<u8> = VecDeque::with_capacity(2);
    let cap = v.capacity();
    let mut i = 0;
    while i < front { v.push_back(0); let _ = v.pop_front(); i += 1; }
    let mut i = 0;
    while i < len { v.push_back(old); i += 1; }
    let room = cap - len;
    v.fill(&mut s);
    let got = if n < room { n } else { room };
    prop!(s.pulled == got, "pulls exactly the items it keeps");
    prop!(room > 0 || s.polled == 0, "a full container does not poll at all");
    prop!(v.len() == len + got && v.capacity() == cap, "filled, never reallocated");
    if got > 0 { prop!(v[len] == x, "new items are appended in order"); }
    if len > 0 { prop!(v[0] == old, "old items are kept"); }
    witness!(n > room, "overflow");
    core::mem::forget(v);
}
pub fn c24_deque_front() { deque(0, 0) }
pub fn c24_deque_wrapped() { deque(1, 1) }
pub fn c24_deque_full() { deque(1, 2) }
/// `()` takes everything.
pub fn c24_unit() {
    let n = nd::upto(4);
    let mut s = Src::new(0, n);
    ().fill((&mut s).map(|_| ()));
    prop!(s.left == 0 && s.pulled == n && s.polled == n + 1, "consumes all items up to the first none");
    let mut t = Src::new(0, n);
    prop!(().fill_count((&mut t).map(|_| ())) == n, "counts all");
    witness!(n == 4, "all");
}
/// Slots of a slice iterator are overwritten in order.
pub fn c24_iter_mut() {
    let (mut s, x, n) = source();
    let old = [nd::u8(), nd::u8(), nd::u8(), nd::u8()];
    let mut a = old;
    let (lo, hi) = (nd::upto(4), nd::upto(4));
    nd::assume(lo <= hi);
    let room = hi - lo;
    let how = nd::below(4);
    let left;
    { let mut it = a[lo..hi].iter_mut(); call(&mut it, &mut s, how, room); left = it.len(); }
    let got = if n < room { n } else { room };
    prop!(left == room - got, "advanced by the number of items");
    let i = nd::below(4);
    let want = if i >= lo && i < lo + got { x.wrapping_add((i - lo) as u8) } else { old[i] };
    prop!(a[i] == want, "exactly the filled slots are overwritten, in order");
    witness!(room == 3 && n == 2, "partial");
    witness!(room == 2 && n == 3, "overflow");
}
/// Filling from mutable references swaps.
pub fn c24_iter_swap() {
    let (old, src) = ([nd::u8(), nd::u8(), nd::u8()], [nd::u8(), nd::u8(), nd::u8(), nd::u8()]);
    let (mut a, mut b) = (old, src);
    let (room, n) = (nd::upto(3), nd::upto(4));
    let (left, rest);
    {
        let mut it = a[..room].iter_mut();
        let mut from = b[..n].iter_mut();
        it.fill(&mut from);
        left = it.len();
        rest = from.len();
    }
    let got = if n < room { n } else { room };
    prop!(left == room - got && rest == n - got, "both sides advance by the number of items");
    let i = nd::below(4);
    if i < 3 { prop!(a[i] == if i < got { src[i] } else { old[i] }, "targets hold the source items"); }
    prop!(b[i] == if i < got { old[i] } else { src[i] }, "sources hold the old values");
    witness!(room == 3 && n == 4, "overflow");
}
/// A result fills its container until the first error.
pub struct RSrc { inner: Src, err_at: usize, err: u8 }
impl Iterator for RSrc {
    type Item = Result<u8, u8>;
    fn next(&mut self) -> Option<Result<u8, u8>> {
        let at = self.inner.pulled;
        let v = self.inner.next()?;
        Some(if at == self.err_at { Err(self.err) } else { Ok(v) })
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.inner.size_hint() }
}
pub fn c24_result_option() {
    let (s, x, n) = source();
    let mut r = RSrc { inner: s, err_at: nd::upto(5), err: nd::u8() };
    let old = if nd::bool() { Some(nd::u8()) } else { None };
    let was_err = nd::bool();
    let e0 = nd::u8();
    let mut c: Result<Option<u8>, u8> = if was_err { Err(e0) } else { Ok(old) };
    c.fill(&mut r);
    let room = if was_err || old.is_some() { 0 } else { 1 };
    let pulls = if n < room { n } else { room };
    prop!(r.inner.pulled == pulls, "pulls only what it keeps, or the first error");
    prop!(room > 0 || r.inner.polled == 0, "a full container does not poll at all");
    prop!(!r.inner.fused_break, "an exhausted iterator is not polled again");
    let want = if was_err { Err(e0) } else if pulls == 1 && r.err_at == 0 { Err(r.err) } else if pulls == 1 { Ok(Some(x)) } else { Ok(old) };
    prop!(c == want, "holds the items, or the first error");
    witness!(pulls == 1 && r.err_at == 0, "error");
    witness!(pulls == 1 && r.err_at == 1, "item");
}
pub fn c24_result_slice() {
    let (s, x, n) = source();
    let mut r = RSrc { inner: s, err_at: nd::upto(5), err: nd::u8() };
    let old = [nd::u8(), nd::u8(), nd::u8()];
    let mut a = old;
    let room = nd::upto(3);
    let got;
    let res;
    {
        let mut c: Result<core::slice::IterMut<u8>, u8> = Ok(a[..room].iter_mut());
        c.fill(&mut r);
        res = match &c { Ok(i) => { got = room - i.len(); None } Err(e) => { got = usize::MAX; Some(*e) } };
    }
    let avail = if n < room { n } else { room };
    let err = r.err_at < avail;
    let oks = if err { r.err_at } else { avail };
    prop!(r.inner.pulled == oks + err as usize, "pulls only what it keeps, and at most one error");
    prop!(res == if err { Some(r.err) } else { None }, "becomes the first error");
    prop!(err || got == oks, "advanced by the number of items");
    prop!(!r.inner.fused_break, "an exhausted iterator is not polled again");
    let i = nd::below(3);
    prop!(a[i] == if i < oks { x.wrapping_add(i as u8) } else { old[i] }, "the items before the error are stored in order");
    witness!(err && oks == 1, "error");
    witness!(!err && n == 4 && room == 2, "overflow");
}

harnesses! {
    c24_option, 8, quick, normal;
    c24_vec_fill, 5, quick, normal;
    c24_vec_tail, 5, quick, normal;
    c24_vec_count, 5, quick, normal;
    c24_vec_checked, 5, quick, normal;
    c24_deque_front, 5, quick, normal;
    c24_deque_wrapped, 5, quick, normal;
    c24_deque_full, 5, quick, normal;
    c24_unit, 8, quick, normal;
    c24_iter_mut, 8, quick, normal;
    c24_iter_swap, 8, quick, normal;
    c24_result_option, 8, quick, normal;
    c24_result_slice, 8, quick, normal;
}
