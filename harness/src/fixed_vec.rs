//! `without_alloc::FixedVec`: one arbitrary operation from an arbitrary state,
//! compared with a reference vector.
use crate::nd;
use crate::util::*;
use core::mem::MaybeUninit;
use core::ops::Bound;
use core::ptr::NonNull;
use without_alloc::{FixedVec, Uninit};

const fn sz<T>() -> usize { core::mem::size_of::<T>() }

/// The reference: at most four elements, identified by a byte.
#[derive(Clone, Copy)]
pub struct Model { len: usize, cap: usize, at: [u8; 4] }
impl Model {
    fn remove(&mut self, i: usize) -> u8 {
        let v = self.at[i];
        let mut k = i;
        while k + 1 < 4 { if k + 1 < self.len { self.at[k] = self.at[k + 1]; } k += 1; }
        self.len -= 1;
        v
    }
}
/// Element types carry their identity in a byte.
pub trait El: Sized {
    fn mk(v: u8) -> Self;
    fn id(&self) -> u8;
}
impl El for u8 { fn mk(v: u8) -> u8 { v } fn id(&self) -> u8 { *self } }
impl El for u16 { fn mk(v: u8) -> u16 { v as u16 * 257 } fn id(&self) -> u8 { prop!(*self as u8 == (*self >> 8) as u8, "elements are intact"); *self as u8 } }
impl El for [u8; 3] { fn mk(v: u8) -> Self { [v, !v, v] } fn id(&self) -> u8 { prop!(self[0] == self[2] && self[1] == !self[0], "elements are intact"); self[0] } }
impl El for [u16; 2] { fn mk(v: u8) -> Self { [v as u16 * 257, !(v as u16)] } fn id(&self) -> u8 { prop!(self[0] == self[0] as u8 as u16 * 257 && self[1] == !(self[0] as u8 as u16), "elements are intact"); self[0] as u8 } }
impl El for D { fn mk(v: u8) -> D { D(v) } fn id(&self) -> u8 { self.0 } }

/// An arbitrary state: any capacity up to four, any fill, any contents, any
/// left-over bytes behind the last full element.
fn start<'a, T: El, const N: usize>(arena: &'a mut Arena<N>) -> (FixedVec<'a, T>, Model) {
    let cap = nd::upto(4);
    let len = nd::upto(4);
    nd::assume(len <= cap);
    let slack = nd::below(sz::<T>());
    start_at(arena, cap, len, slack)
}
fn start_at<'a, T: El, const N: usize>(arena: &'a mut Arena<N>, cap: usize, len: usize, slack: usize) -> (FixedVec<'a, T>, Model) {
    let p = unsafe { arena.ptr().add(8) };
    let at = [nd::u8(), nd::u8(), nd::u8(), nd::u8()];
    let mut i = 0;
    while i < 4 { if i < len { unsafe { (p as *mut T).add(i).write(T::mk(at[i])) } } i += 1; }
    let raw = unsafe { Uninit::from_memory(NonNull::new_unchecked(p), cap * sz::<T>() + slack) };
    let mut v = FixedVec::new(raw.cast_slice::<T>().unwrap());
    prop!(v.len() == 0 && v.is_empty(), "a new vector is empty");
    unsafe { v.set_len(len) };
    (v, Model { len, cap, at })
}
/// The observable state agrees with the model.
fn same<T: El>(v: &FixedVec<'_, T>, m: &Model) {
    prop!(v.len() == m.len, "length");
    prop!(v.is_empty() == (m.len == 0), "is_empty");
    prop!(v.capacity() == m.cap, "capacity");
    let s = v.as_slice();
    prop!(s.len() == m.len, "the slice covers the elements");
    let i = nd::below(4);
    if i < m.len { prop!(s[i].id() == m.at[i], "each element is the expected one"); }
}
fn arena() -> Arena<56> { Arena::new() }

fn push<T: El>() {
    reset_drops();
    let mut a = arena();
    let (mut v, mut m) = start::<T, 56>(&mut a);
    let x = nd::u8();
    let r = v.push(T::mk(x));
    witness!(r.is_ok(), "ok");
    witness!(r.is_err(), "err");
    match r {
        Ok(()) => { prop!(m.len < m.cap, "push succeeds only with room"); m.at[m.len] = x; m.len += 1; }
        Err(e) => { prop!(m.len == m.cap, "push fails only when full"); prop!(e.id() == x, "and returns the value"); core::mem::forget(e); }
    }
    same(&v, &m);
    prop!(drops() == 0, "push drops nothing");
    core::mem::forget(v);
}
fn pop<T: El>() {
    reset_drops();
    let mut a = arena();
    let (mut v, mut m) = start::<T, 56>(&mut a);
    let r = v.pop();
    witness!(r.is_some(), "some");
    match r {
        Some(e) => { prop!(m.len > 0, "pop on empty gives none"); m.len -= 1; prop!(e.id() == m.at[m.len], "pop returns the last element"); core::mem::forget(e); }
        None => prop!(m.len == 0, "pop fails only when empty"),
    }
    same(&v, &m);
    prop!(drops() == 0, "pop drops nothing");
    core::mem::forget(v);
}
fn truncate<T: El>() {
    let mut a = arena();
    let (mut v, mut m) = start::<T, 56>(&mut a);
    let n = nd::usize();
    witness!(n < m.len, "shorter");
    if nd::bool() { v.truncate(n); if n < m.len { m.len = n; } } else { v.clear(); m.len = 0; }
    same(&v, &m);
    core::mem::forget(v);
}
/// An iterator that counts how often it is polled.
struct Src { next: u8, left: usize, polls: usize }
impl<T: El> Iterator for SrcT<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.polls += 1;
        if self.0.left == 0 { None } else { self.0.left -= 1; let v = self.0.next; self.0.next = v.wrapping_add(1); Some(T::mk(v)) }
    }
}
struct SrcT<T>(Src, core::marker::PhantomData<T>);
fn fill<T: El>() {
    let mut a = arena();
    let (mut v, mut m) = start::<T, 56>(&mut a);
    let k = nd::upto(5);
    let x = nd::u8();
    let room = m.cap - m.len;
    let took = if k < room { k } else { room };
    let it = v.fill(SrcT::<T>(Src { next: x, left: k, polls: 0 }, core::marker::PhantomData));
    prop!(it.0.left == k - took, "fill takes as many items as fit and leaves the rest in the iterator");
    prop!(it.0.polls <= room, "fill never polls for an item it has no room for");
    let mut i = 0;
    while i < 4 { if i < took { m.at[m.len] = x.wrapping_add(i as u8); m.len += 1; } i += 1; }
    witness!(it.0.left > 0 && took == 2, "left over");
    same(&v, &m);
    core::mem::forget(v);
}
fn extend<T: El>() {
    let mut a = arena();
    let (mut v, mut m) = start::<T, 56>(&mut a);
    let k = nd::upto(4);
    nd::assume(k <= m.cap - m.len);
    let x = nd::u8();
    v.extend(SrcT::<T>(Src { next: x, left: k, polls: 0 }, core::marker::PhantomData));
    let mut i = 0;
    while i < 4 { if i < k { m.at[m.len] = x.wrapping_add(i as u8); m.len += 1; } i += 1; }
    witness!(k == 3, "three");
    same(&v, &m);
    core::mem::forget(v);
}
pub fn c16_extend_overflow() {
    let mut a = arena();
    let (mut v, m) = start::<u8, 56>(&mut a);
    let k = nd::upto(5);
    nd::assume(k > m.cap - m.len);
    witness!(true, "reached");
    v.extend(SrcT::<u8>(Src { next: 0, left: k, polls: 0 }, core::marker::PhantomData));
    prop!(false, "extending beyond the capacity must not be silently accepted");
}
/// Splitting: the two parts own disjoint memory and exactly the elements.
fn split<T: El>(shrink: bool) {
    reset_drops();
    let mut a = arena();
    let (mut v, m) = start::<T, 56>(&mut a);
    let at = nd::upto(m.cap);
    let begin = v.as_slice().as_ptr() as usize;
    let lo = Model { len: if at < m.len { at } else { m.len }, cap: at, at: m.at };
    let hi_len = m.len - lo.len;
    let x = nd::u8();
    {
        let mut t;
        if shrink { t = v.split_and_shrink_to(at); } else { t = v.split_borrowed(at); }
        prop!(t.len() == hi_len, "the tail has the remaining elements");
        prop!(t.capacity() == m.cap - at, "and the remaining capacity");
        prop!(t.as_slice().as_ptr() as usize == begin + at * sz::<T>(), "the tail starts where the head ends");
        let i = nd::below(4);
        if i < hi_len { prop!(t[i].id() == m.at[at + i], "tail elements are the expected ones"); }
        if t.capacity() > hi_len {
            prop!(t.push(T::mk(x)).is_ok(), "the tail can be used on its own");
            prop!(t[hi_len].id() == x, "the pushed element");
        }
        core::mem::forget(t);
    }
    prop!(v.len() == lo.len, "the head keeps its elements");
    let i = nd::below(4);
    if i < lo.len { prop!(v[i].id() == m.at[i], "head elements are the expected ones"); }
    if shrink {
        prop!(v.capacity() == at, "the head has exactly the split capacity");
        if at > lo.len { prop!(v.push(T::mk(x)).is_ok() && v[lo.len].id() == x, "the head can be used on its own"); }
        else { let r = v.push(T::mk(x)); prop!(r.is_err(), "the head cannot grow into the tail"); core::mem::forget(r); }
    }
    else { prop!(v.capacity() == m.cap, "a borrowed split is temporary"); }
    prop!(drops() == 0, "splitting drops nothing");
    witness!(hi_len == 2 && lo.len == 2, "middle");
    core::mem::forget(v);
}
/// shrink_to_fit returns the left-over bytes and keeps everything else.
fn shrink<T: El>() {
    let mut a = arena();
    let cap = nd::upto(4);
    let len = nd::upto(4);
    nd::assume(len <= cap);
    let slack = nd::below(sz::<T>());
    let (mut v, m) = start_at::<T, 56>(&mut a, cap, len, slack);
    let begin = v.as_slice().as_ptr() as usize;
    let rest = v.shrink_to_fit();
    prop!(rest.size() == slack, "the left-over bytes are returned");
    prop!(rest.as_ptr() as usize == begin + cap * sz::<T>(), "they start behind the last element");
    witness!(len > 1, "some");
    same(&v, &m);
    core::mem::forget(v);
}
/// Views and writes through the slice.
fn view<T: El>() {
    let mut a = arena();
    let (mut v, mut m) = start::<T, 56>(&mut a);
    nd::assume(m.len > 0);
    let i = nd::below(m.len);
    let x = nd::u8();
    let old = match nd::below(4) {
        0 => core::mem::replace(&mut v[i], T::mk(x)),
        1 => core::mem::replace(&mut v.as_mut_slice()[i], T::mk(x)),
        2 => core::mem::replace(&mut AsMut::<[T]>::as_mut(&mut v)[i], T::mk(x)),
        _ => { let p = v.as_mut_ptr(); unsafe { core::mem::replace(&mut *p.add(i), T::mk(x)) } }
    };
    prop!(old.id() == m.at[i], "reads the element");
    core::mem::forget(old);
    m.at[i] = x;
    prop!(AsRef::<[T]>::as_ref(&v).len() == m.len && core::borrow::Borrow::<[T]>::borrow(&v)[i].id() == x && v.as_ptr() as usize == v.as_slice().as_ptr() as usize, "all views agree");
    same(&v, &m);
    witness!(i == 3, "last");
    core::mem::forget(v);
}
/// Any memory can back a vector: alignment padding is skipped.
fn from_unaligned<T: El>() {
    let mut a = arena();
    let s = a.bytes();
    let (p, n) = (s.as_ptr() as usize, s.len());
    let raw = unsafe { Uninit::from_memory(NonNull::new_unchecked(p as *mut u8), n) };
    let al = core::mem::align_of::<T>();
    let pad = (al - p % al) % al;
    let want = if n >= pad { (n - pad) / sz::<T>() } else { 0 };
    let mut v = FixedVec::<T>::from_unaligned(raw);
    prop!(v.len() == 0, "empty");
    prop!(v.capacity() == want, "uses all the aligned room there is");
    let x = nd::u8();
    let r = v.push(T::mk(x));
    prop!(r.is_ok() == (want > 0), "holds elements exactly if there is room");
    if want > 0 {
        let q = v.as_slice().as_ptr() as usize;
        prop!(q == p + pad && v[0].id() == x, "elements start at the first aligned address");
    }
    witness!(want == 2 && pad > 0 || al == 1, "padded");
    core::mem::forget((v, r));
}

pub fn c16_push_u8() { push::<u8>() }
pub fn c16_push_u16() { push::<u16>() }
pub fn c16_push_u16x2() { push::<[u16; 2]>() }
pub fn c16_push_d() { push::<D>() }
pub fn c16_pop_u16() { pop::<u16>() }
pub fn c16_pop_u24() { pop::<[u8; 3]>() }
pub fn c16_pop_d() { pop::<D>() }
pub fn c16_truncate_u8() { truncate::<u8>() }
pub fn c16_truncate_u24() { truncate::<[u8; 3]>() }
pub fn c16_fill_u16() { fill::<u16>() }
pub fn c16_fill_d() { fill::<D>() }
pub fn c16_extend_u8() { extend::<u8>() }
pub fn c16_split_u16() { split::<u16>(false) }
pub fn c16_split_u16x2() { split::<[u16; 2]>(false) }
pub fn c16_split_u24() { split::<[u8; 3]>(true) }
pub fn c16_split_d() { split::<D>(true) }
pub fn c16_shrink_u16() { shrink::<u16>() }
pub fn c16_shrink_u16x2() { shrink::<[u16; 2]>() }
pub fn c16_shrink_u24() { shrink::<[u8; 3]>() }
pub fn c16_view_u16() { view::<u16>() }
pub fn c16_view_u8() { view::<u8>() }
pub fn c16_from_unaligned_u16() { from_unaligned::<u16>() }
pub fn c16_from_unaligned_u16x2() { from_unaligned::<[u16; 2]>() }
pub fn c16_from_unaligned_u8() { from_unaligned::<u8>() }
/// The allocator supplied layouts match the constructors.
pub fn c16_zst() {
    reset_drops();
    let mut v: FixedVec<'_, Z> = FixedVec::new(Uninit::empty());
    prop!(v.capacity() == usize::MAX, "room for any number of zero-sized values");
    let n = nd::upto(3);
    let mut i = 0;
    while i < n { let r = v.push(Z); prop!(r.is_ok(), "push"); i += 1; }
    prop!(v.len() == n && v.as_slice().len() == n && drops() == 0, "all are stored");
    let k = nd::upto(4);
    match nd::below(4) {
        0 => { v.truncate(k); let m = if k < n { k } else { n }; prop!(v.len() == m && drops() == n - m, "truncate drops the rest"); }
        1 => { let r = v.pop(); prop!(r.is_some() == (n > 0), "pop"); core::mem::forget(r); unsafe { DROPS += (n > 0) as usize; } }
        2 => { nd::assume(k <= n); { let mut d = v.drain(..k); if k > 0 { core::mem::forget(d.next()); unsafe { DROPS += 1; } } } prop!(drops() == k && v.len() == n - k, "drain"); }
        _ => { let t = v.split_and_shrink_to(k); let m = if k < n { n - k } else { 0 }; prop!(t.len() == m && v.len() == n - m, "split"); drop(t); prop!(drops() == m, "dropping a part drops its elements"); }
    }
    drop(v);
    prop!(drops() == n, "every value is dropped exactly once");
    witness!(n == 3 && k == 1, "end");
}
/// Any number of values without a size and a destructor.
pub fn c16_zst_many() {
    let n = nd::usize();
    let mut v: FixedVec<'_, ()> = FixedVec::new(Uninit::empty());
    unsafe { v.set_len(n) };
    prop!(v.len() == n && v.as_slice().len() == n && v.capacity() == usize::MAX && v.is_empty() == (n == 0), "all of them");
    match nd::below(5) {
        0 => { let r = v.push(()); prop!(r.is_ok() == (n < usize::MAX), "fails only at the maximum"); prop!(v.len() == if n < usize::MAX { n + 1 } else { n }, "one more"); }
        1 => { let r = v.pop(); prop!(r.is_some() == (n > 0) && v.len() == n.saturating_sub(1), "one less"); }
        2 => { let k = nd::usize(); { let t = v.split_and_shrink_to(k); prop!(t.len() == n.saturating_sub(k), "the tail"); core::mem::forget(t); } prop!(v.len() == n.min(k), "the head"); }
        3 => { let k = nd::usize(); { let t = v.split_borrowed(k); prop!(t.len() == n.saturating_sub(k), "the tail"); core::mem::forget(t); } prop!(v.len() == n.min(k), "the head"); }
        _ => { let _ = v.shrink_to_fit(); prop!(v.len() == n && v.capacity() >= n, "the values stay"); }
    }
    core::mem::forget(v);
    witness!(n == usize::MAX, "the maximum");
}

// ---- C17 ---------------------------------------------------------------------
/// Every element leaves exactly once: returned, dropped by the operation, or
/// dropped with the vector.
fn once(op: u8) {
    reset_drops();
    let mut a = arena();
    let ids = [1u8, 2, 4, 8];
    let (cap, len) = (nd::upto(4), nd::upto(4));
    nd::assume(len <= cap);
    let p = unsafe { a.ptr().add(8) };
    let mut all = 0u8;
    let mut i = 0;
    while i < 4 { if i < len { unsafe { (p as *mut D).add(i).write(D(ids[i])) } all |= ids[i]; } i += 1; }
    let raw = unsafe { Uninit::from_memory(NonNull::new_unchecked(p), cap) };
    let mut v = FixedVec::new(raw.cast_slice::<D>().unwrap());
    unsafe { v.set_len(len) };
    let mut out = 0u8;
    let mut handed = 0;
    let k = nd::upto(4);
    match op {
        0 => { v.truncate(k); prop!(drops() == if k < len { len - k } else { 0 }, "truncate drops exactly the tail"); }
        1 => { v.clear(); prop!(drops() == len, "clear drops everything"); }
        2 => { if let Some(d) = v.pop() { out |= d.0; handed += 1; core::mem::forget(d); } }
        3 => { let r = v.push(D(16)); match r { Ok(()) => all |= 16, Err(d) => core::mem::forget(d) } }
        4 => { nd::assume(k <= cap); let t = v.split_and_shrink_to(k); let n = t.len(); drop(t); prop!(drops() == n, "dropping a part drops its elements"); }
        5 => { nd::assume(k <= cap); let n; { let t = v.split_borrowed(k); n = t.len(); } prop!(drops() == n, "dropping a part drops its elements"); }
        6 => {
            let m = nd::upto(4);
            nd::assume(k <= m && m <= len);
            {
                let mut d = v.drain(k..m);
                if nd::bool() { if let Some(x) = d.next() { out |= x.0; handed += 1; core::mem::forget(x); } }
                if nd::bool() { if let Some(x) = d.next_back() { out |= x.0; handed += 1; core::mem::forget(x); } }
            }
            prop!(drops() + handed == m - k, "drain removes exactly the range");
        }
        7 => {
            // Fill from an owning source that holds too many.
            let room = cap - len;
            let mut src = [Some(D(16)), Some(D(32)), Some(D(64))];
            { let mut n = 0; let _ = v.fill(core::iter::from_fn(|| { if n < 3 { n += 1; src[n - 1].take() } else { None } })); }
            prop!(drops() == 0, "filling drops nothing");
            let mut i = 0;
            while i < 3 {
                prop!(src[i].is_some() == (i >= room), "only what fits is taken from the source");
                if i < room { all |= 16 << i; }
                i += 1;
            }
            core::mem::forget(src);
        }
        _ => {}
    }
    drop(v);
    let mut i = 0;
    while i < 8 {
        if i < drops() { prop!(out & log(i) == 0, "no element leaves twice"); out |= log(i); }
        i += 1;
    }
    prop!(out == all, "every element leaves exactly once");
    witness!(len == 3 && cap == 4, "end");
}
pub fn c17_truncate() { once(0) }
pub fn c17_clear() { once(1) }
pub fn c17_pop() { once(2) }
pub fn c17_push() { once(3) }
pub fn c17_split_shrink() { once(4) }
pub fn c17_split_borrowed() { once(5) }
pub fn c17_drain() { once(6) }
pub fn c17_fill() { once(7) }
pub fn c17_drop() { once(8) }

// ---- C18 ---------------------------------------------------------------------
fn bound(b: u8, n: usize) -> Bound<usize> { match b { 0 => Bound::Included(n), 1 => Bound::Excluded(n), _ => Bound::Unbounded } }
/// Mathematical reading of a range; `None` if it does not denote `s <= e <= len`.
fn span(s: (u8, usize), e: (u8, usize), len: usize) -> Option<(usize, usize)> {
    let lo = match s.0 { 0 => s.1 as u128, 1 => s.1 as u128 + 1, _ => 0 };
    let hi = match e.0 { 0 => e.1 as u128 + 1, 1 => e.1 as u128, _ => len as u128 };
    if lo <= hi && hi <= len as u128 { Some((lo as usize, hi as usize)) } else { None }
}
/// Draining any valid range, consumed from both ends in any order, then dropped.
pub fn c18_drain() {
    let mut a = arena();
    let (mut v, mut m) = start::<u16, 56>(&mut a);
    let s = (nd::u8(), nd::usize());
    let e = (nd::u8(), nd::usize());
    let sp = span(s, e, m.len);
    nd::assume(sp.is_some());
    let (lo, hi) = sp.unwrap();
    let (mut f, mut b) = (lo, hi);
    {
        let mut d = v.drain((bound(s.0, s.1), bound(e.0, e.1)));
        prop!(d.len() == hi - lo && d.is_empty() == (lo == hi), "drains exactly the range");
        let mut i = 0;
        while i < 3 {
            prop!(d.size_hint() == (b - f, Some(b - f)), "size hint is exact");
            match nd::below(4) {
                0 => { let r = d.next(); prop!(r.is_some() == (f < b), "front"); if let Some(x) = r { prop!(x.id() == m.at[f], "in order"); f += 1; } }
                1 => { let r = d.next_back(); prop!(r.is_some() == (f < b), "back"); if let Some(x) = r { b -= 1; prop!(x.id() == m.at[b], "in reverse order"); } }
                2 => { prop!(d.as_slice().len() == b - f, "slice"); if f < b { prop!(d.as_slice()[0].id() == m.at[f] && d.as_mut_slice()[b - f - 1].id() == m.at[b - 1], "remaining elements"); } }
                _ => {}
            }
            i += 1;
        }
    }
    let mut k = hi;
    while k > lo { m.remove(lo); k -= 1; }
    witness!(hi - lo == 2 && m.len == 2 && lo == 1, "middle");
    same(&v, &m);
}
/// A range that is not inside the vector is refused.
pub fn c18_invalid() {
    let mut a = arena();
    let (mut v, m) = start::<u8, 56>(&mut a);
    let s = (nd::u8(), nd::usize());
    let e = (nd::u8(), nd::usize());
    nd::assume(span(s, e, m.len).is_none());
    witness!(true, "reached");
    let _d = v.drain((bound(s.0, s.1), bound(e.0, e.1)));
    prop!(false, "an invalid range must not be drained");
}
/// A leaked drain leaves a valid vector: nothing that was handed out is still
/// in it, and no element is in it twice.
pub fn c18_forget() {
    reset_drops();
    let mut a = arena();
    let p = unsafe { a.ptr().add(8) };
    let len = nd::upto(4);
    let ids = [1u8, 2, 4, 8];
    let mut i = 0;
    while i < 4 { if i < len { unsafe { (p as *mut D).add(i).write(D(ids[i])) } } i += 1; }
    let raw = unsafe { Uninit::from_memory(NonNull::new_unchecked(p), 4) };
    let mut v = FixedVec::new(raw.cast_slice::<D>().unwrap());
    unsafe { v.set_len(len) };
    let (lo, hi) = (nd::upto(4), nd::upto(4));
    nd::assume(lo <= hi && hi <= len);
    let mut out = 0u8;
    {
        let mut d = v.drain(lo..hi);
        if nd::bool() { if let Some(x) = d.next() { out |= x.0; core::mem::forget(x); } }
        if nd::bool() { if let Some(x) = d.next_back() { out |= x.0; core::mem::forget(x); } }
        core::mem::forget(d);
    }
    prop!(v.len() <= len, "never longer");
    drop(v);
    let mut i = 0;
    while i < 8 {
        if i < drops() { prop!(out & log(i) == 0 && (log(i) == 1 || log(i) == 2 || log(i) == 4 || log(i) == 8), "no element leaves twice"); out |= log(i); }
        i += 1;
    }
    witness!(lo == 1 && hi == 3 && len == 4, "end");
}

harnesses! {
    c16_zst_many, 6, quick, normal;
    c16_push_u8, 6, quick, normal;
    c16_push_u16, 6, quick, normal;
    c16_push_u16x2, 6, quick, normal;
    c16_push_d, 6, quick, normal;
    c16_pop_u16, 6, quick, normal;
    c16_pop_u24, 6, quick, normal;
    c16_pop_d, 6, quick, normal;
    c16_truncate_u8, 6, quick, normal;
    c16_truncate_u24, 6, quick, normal;
    c16_fill_u16, 7, quick, normal;
    c16_fill_d, 7, quick, normal;
    c16_extend_u8, 7, quick, normal;
    c16_extend_overflow, 7, quick, must_panic;
    c16_split_u16, 6, quick, normal;
    c16_split_u16x2, 6, quick, normal;
    c16_split_u24, 6, quick, normal;
    c16_split_d, 6, quick, normal;
    c16_shrink_u16, 6, quick, normal;
    c16_shrink_u16x2, 6, quick, normal;
    c16_shrink_u24, 6, quick, normal;
    c16_view_u16, 6, quick, normal;
    c16_view_u8, 6, quick, normal;
    c16_from_unaligned_u16, 6, quick, normal;
    c16_from_unaligned_u16x2, 6, quick, normal;
    c16_from_unaligned_u8, 6, quick, normal;
    c16_zst, 6, quick, normal;
    c17_truncate, 10, quick, normal;
    c17_clear, 10, quick, normal;
    c17_pop, 10, quick, normal;
    c17_push, 10, quick, normal;
    c17_split_shrink, 10, quick, normal;
    c17_split_borrowed, 10, quick, normal;
    c17_drain, 10, quick, normal;
    c17_fill, 10, quick, normal;
    c17_drop, 10, quick, normal;
    c18_drain, 6, quick, normal;
    c18_invalid, 6, quick, must_panic;
    c18_forget, 10, quick, normal;
}
