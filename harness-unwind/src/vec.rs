//! Histories of operations on a fixed vector, with and without panics in
//! destructors and iterators (C16, C17, C18, C28).
use crate::{nd, util::*};
use core::mem::MaybeUninit;
use without_alloc::{FixedVec, Uninit};

const CAP: usize = 3;
/// What a vector has to contain.
struct M { ids: [u8; CAP], len: usize, cap: usize, next: u8, leaked: bool }

/// New elements on demand; `next` panics at the item `at`.
struct It<'a, T> { left: u8, pulled: u8, at: u8, next: &'a mut u8, made: fn(u8) -> T }
impl<T> Iterator for It<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.left == 0 { return None }
        if self.pulled == self.at { nd::boom() }
        self.left -= 1;
        self.pulled += 1;
        *self.next += 1;
        Some((self.made)(*self.next - 1))
    }
}

fn same<T: Elem>(v: &FixedVec<T>, m: &M) {
    nd::check(v.len() == m.len && v.capacity() == m.cap, "length and capacity");
    for i in 0..m.len {
        nd::check(v[i].id() == m.ids[i], "the elements and their order");
        nd::check(dropped(m.ids[i]) == 0, "an element inside has not been dropped");
    }
}
fn gone(m: &M, from: usize, to: usize) {
    for i in from..to { nd::check(dropped(m.ids[i]) == 1, "a removed element is dropped exactly once"); }
}

/// One operation.  With `panics`, elements and iterators may panic.
fn step<T: Elem>(v: &mut FixedVec<T>, m: &mut M, panics: bool) {
    let op = nd::below(9);
    match op {
        0 => {
            let id = m.next;
            m.next += 1;
            match v.push(T::make(id)) {
                Ok(()) => { nd::check(m.len < m.cap, "a full vector refuses"); m.ids[m.len] = id; m.len += 1; }
                Err(x) => { nd::check(m.len == m.cap && x.id() == id, "only a full vector refuses"); core::mem::forget(x); m.leaked = true; }
            }
        }
        1 => match v.pop() {
            Some(x) => {
                nd::check(m.len > 0 && x.id() == m.ids[m.len - 1], "pop returns the last element");
                m.len -= 1;
                let p = nd::catch(|| drop(x));
                nd::check(p == (m.ids[m.len] == dlog().boom[0]), "only a destructor panics");
                gone(m, m.len, m.len + 1);
            }
            None => nd::check(m.len == 0, "pop returns nothing only if there is nothing"),
        },
        2 | 3 => {
            let to = if op == 3 { 0 } else { nd::below(CAP as u8 + 2) as usize };
            let p = nd::catch(|| if op == 3 { v.clear() } else { v.truncate(to) });
            let stop = (to..m.len).rev().find(|i| m.ids[*i] == dlog().boom[0]);
            nd::check(p == stop.is_some(), "only a destructor panics");
            // A panic stops the truncation at that point.
            let keep = stop.unwrap_or(to.min(m.len));
            gone(m, keep, m.len);
            m.len = keep;
        }
        4 => {
            let n = nd::below(4);
            let at = if panics { nd::below(4) } else { NO };
            let before = m.next;
            let room = (m.cap - m.len) as u8;
            let mut rest = 0;
            let p = nd::catch(|| rest = v.fill(It { left: n, pulled: 0, at, next: &mut m.next, made: T::make }).left);
            let pulled = m.next - before;
            nd::check(p == (at < n && at < room), "only the iterator panics");
            nd::check(pulled == n.min(room).min(at), "takes what fits");
            nd::check(p || rest == n - pulled, "the rest stays in the iterator");
            for i in 0..pulled { m.ids[m.len] = before + i; m.len += 1; }
        }
        5 => {
            let (a, b) = (nd::below(CAP as u8 + 1) as usize, nd::below(CAP as u8 + 1) as usize);
            nd::assume(a <= b && b <= m.len);
            let (front, back) = (nd::below(CAP as u8) as usize, nd::below(2) as usize);
            nd::assume(front + back <= b - a);
            let mut p = false;
            let forget = panics && nd::bool();
            let outer = nd::catch(|| {
                let mut d = v.drain(a..b);
                nd::check(d.len() == b - a, "the drain covers the range");
                for i in 0..front {
                    let x = d.next().unwrap();
                    nd::check(x.id() == m.ids[a + i], "drained from the front in order");
                    p |= nd::catch(|| drop(x));
                }
                for i in 0..back {
                    let x = d.next_back().unwrap();
                    nd::check(x.id() == m.ids[b - 1 - i], "drained from the back in order");
                    p |= nd::catch(|| drop(x));
                }
                if forget { core::mem::forget(d); }
            });
            let hit = (a..b).any(|i| m.ids[i] == dlog().boom[0]);
            nd::check(!outer || hit, "only a destructor panics");
            if forget || outer {
                // Elements of the range and behind it may be lost, but not dropped twice.
                m.leaked = true;
                nd::check(v.len() >= a, "what is before the range stays");
                for i in 0..v.len() { m.ids[i] = v[i].id(); nd::check(dropped(m.ids[i]) == 0, "what stays is alive"); }
                m.len = v.len();
            } else {
                gone(m, a, b);
                let cut = b - a;
                for i in b..m.len { m.ids[i - cut] = m.ids[i]; }
                m.len -= cut;
            }
        }
        6 => {
            let at = nd::below(CAP as u8 + 1) as usize;
            nd::assume(at <= m.cap);
            let keep = at.min(m.len);
            let hit = (keep..m.len).any(|i| m.ids[i] == dlog().boom[0]);
            let p = nd::catch(|| {
                let mut t = v.split_borrowed(at);
                nd::check(t.len() == m.len - keep && t.capacity() == m.cap - at, "the tail has what is behind the split");
                for i in 0..t.len() { nd::check(t[i].id() == m.ids[at + i], "the tail keeps its elements"); }
                m.next += 1;
                let r = t.push(T::make(m.next - 1));
                nd::check(r.is_ok() || m.len == m.cap || at == m.cap, "only a full tail refuses");
            });
            nd::check(p == hit || dlog().boom[0] == m.next - 1, "only a destructor panics");
            gone(m, keep, m.len);
            nd::check(dropped(m.next - 1) == 1, "what was put into the tail is dropped");
            m.len = keep;
        }
        7 => {
            let at = nd::below(CAP as u8 + 1) as usize;
            nd::assume(at <= m.cap);
            let keep = at.min(m.len);
            let t = v.split_and_shrink_to(at);
            nd::check(t.len() == m.len - keep && t.capacity() == m.cap - at, "the tail has what is behind the split");
            for i in 0..t.len() { nd::check(t[i].id() == m.ids[at + i], "the tail keeps its elements"); }
            let p = nd::catch(|| drop(t));
            nd::check(p == (keep..m.len).any(|i| m.ids[i] == dlog().boom[0]), "only a destructor panics");
            gone(m, keep, m.len);
            m.len = keep;
            m.cap = at;
        }
        _ => {
            let rest = v.shrink_to_fit();
            nd::check(rest.byte_capacity() == 0, "no memory of an element is given away");
        }
    }
    same(v, m);
}

fn history<T: Elem>(steps: usize, panics: bool) {
    if panics { dlog().boom[0] = nd::below(6); }
    let mut m = M { ids: [NO; CAP], len: 0, cap: CAP, next: 0, leaked: false };
    let mut mem: [MaybeUninit<T>; CAP] = [const { MaybeUninit::uninit() }; CAP];
    let p = nd::catch(|| {
        let mut v: FixedVec<T> = FixedVec::new(Uninit::from(&mut mem[..]));
        let n = nd::below(CAP as u8 + 1);
        for i in 0..n { let _ = v.push(T::make(i)); m.ids[i as usize] = i; }
        m.len = n as usize;
        m.next = n;
        same(&v, &m);
        for _ in 0..steps { step(&mut v, &mut m, panics); }
        nd::cover(m.len == CAP, "a full vector");
        nd::cover(m.len == 0, "an empty vector");
    });
    nd::check(p == (0..m.len).any(|i| m.ids[i] == dlog().boom[0]), "only a destructor panics");
    gone(&m, 0, m.len);
    for i in 0..m.next { nd::check(dropped(i) == 1 || m.leaked && dropped(i) == 0, "every element leaves exactly once"); }
    nd::cover(p == panics, "the drop of the vector");
}

/// Elements without size: the same number is dropped as was put in.
fn zero_sized(steps: usize) {
    let mut mem: [MaybeUninit<Z>; CAP] = [const { MaybeUninit::uninit() }; CAP];
    let mut made = 0;
    let mut len = 0;
    {
        let mut v: FixedVec<Z> = FixedVec::new(Uninit::from(&mut mem[..]));
        let cap = v.capacity();
        for _ in 0..steps {
            match nd::below(7) {
                0 => { made += 1; if v.push(Z).is_ok() { len += 1 } }
                1 => nd::check(v.pop().map(drop).is_some() == (len > 0) && { len -= (len > 0) as usize; true }, "pop returns an element if there is one"),
                2 => { let to = nd::below(4) as usize; v.truncate(to); len = len.min(to); }
                3 => {
                    let n = nd::below(4) as usize;
                    let take = n.min(cap - len);
                    made += take as u8;
                    nd::check(v.fill((0..n).map(|_| Z)).len() == n - take, "takes what fits");
                    len += take;
                }
                4 => {
                    let (a, b) = (nd::below(4) as usize, nd::below(4) as usize);
                    nd::assume(a <= b && b <= len);
                    let k = nd::below(2) as usize;
                    nd::check(v.drain(a..b).take(k).count() == k.min(b - a), "drains elements");
                    len -= b - a;
                }
                5 => { let at = nd::below(4) as usize; nd::assume(at <= cap); let l = v.split_borrowed(at).len(); nd::check(l == len - len.min(at), "splits"); len = len.min(at); }
                _ => { v.clear(); len = 0; }
            }
            nd::check(v.len() == len, "length");
            nd::check(dropped(7) as usize == made as usize - len, "each removed element is dropped once, no other");
        }
        nd::cover(len == 3 && made == 5, "three of five elements inside");
    }
    nd::check(dropped(7) == made, "each element is dropped exactly once");
}

#[no_mangle]
pub extern "C-unwind" fn c17_history_byte() { history::<D>(2, false) }
#[no_mangle]
pub extern "C-unwind" fn c17_history_wide() { history::<W>(2, false) }
#[no_mangle]
pub extern "C-unwind" fn c17_history_zst() { zero_sized(3) }
#[no_mangle]
pub extern "C-unwind" fn c17_history_3() { history::<D>(3, false) }
#[no_mangle]
pub extern "C-unwind" fn c28_vec() { history::<D>(1, true) }
#[no_mangle]
pub extern "C-unwind" fn c28_vec_wide() { history::<W>(1, true) }
#[no_mangle]
pub extern "C-unwind" fn c28_vec_2() { history::<D>(2, true) }

crate::harnesses! {
    c17_history_byte, quick;
    c17_history_wide, quick;
    c17_history_zst, quick;
    c17_history_3, thorough;
    c28_vec, quick;
    c28_vec_wide, quick;
    c28_vec_2, thorough;
}
