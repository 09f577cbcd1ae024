//! Histories of vectors (C16), drains (C18) and requests through the allocator
//! extension (C23).
use crate::{nd, util::*};
use core::mem::{align_of, size_of, ManuallyDrop, MaybeUninit};
use core::ops::Bound;
use static_alloc::Bump;
use without_alloc::{alloc::LocalAllocLeakExt, boxed::Box, rc::Rc, FixedVec, Uninit};

const CAP: usize = 4;
/// A vector limited to some capacity.
#[derive(Clone, Copy)]
struct L { e: [u8; CAP], n: usize, cap: usize, new: u8 }
impl L {
    /// The next new element.
    fn fresh(&mut self) -> u8 { self.new += 5; self.new }
    fn push(&mut self, x: u8) { self.e[self.n] = x; self.n += 1; }
    fn same<T: Elem>(&self, v: &FixedVec<T>) {
        nd::check(v.len() == self.n && v.capacity() == self.cap && v.is_empty() == (self.n == 0), "length and capacity");
        nd::check(v.as_slice().len() == self.n, "the slice has all elements");
        for i in 0..self.n { nd::check(v[i].id() == self.e[i], "elements in order"); }
    }
}
/// `left` items, and any promise about their number that can be kept.
struct Hint<T> { left: u8, next: u8, less: u8, more: u8, of: core::marker::PhantomData<T> }
fn hint<T>(left: usize, next: u8) -> Hint<T> { Hint { left: left as u8, next, less: nd::below(3), more: nd::below(3), of: core::marker::PhantomData } }
impl<T: Elem> Iterator for Hint<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.left == 0 { return None }
        self.left -= 1;
        self.next = self.next.wrapping_add(1);
        Some(T::make(self.next.wrapping_sub(1)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.left.saturating_sub(self.less * CAP as u8) as usize, if self.more == 2 { None } else { Some((self.left + self.more) as usize) })
    }
}
trait Plain: Elem + Copy {}
impl Elem for u8 { fn make(id: u8) -> u8 { id } fn id(&self) -> u8 { *self } }
impl Elem for u32 { fn make(id: u8) -> u32 { id as u32 | (!id as u32) << 24 } fn id(&self) -> u8 { nd::check(*self == u32::make(*self as u8), "the element is intact"); *self as u8 } }
impl Elem for [u8; 3] { fn make(id: u8) -> Self { [id; 3] } fn id(&self) -> u8 { nd::check(self[1] == self[0] && self[2] == self[0], "the element is intact"); self[0] } }
impl Plain for u8 {}
impl Plain for u32 {}
impl Plain for [u8; 3] {}

/// One operation on one of two vectors.
fn op<'a, T: Plain>(v: &mut FixedVec<'a, T>, m: &mut L, other: &mut Option<(FixedVec<'a, T>, L)>) {
    match nd::below(12) {
        0 => { let x = m.fresh(); match v.push(T::make(x)) { Ok(()) => { nd::check(m.n < m.cap, "there is room"); m.push(x) } Err(y) => nd::check(m.n == m.cap && y.id() == x, "handed back") } }
        1 => match v.pop() { Some(x) => { nd::check(m.n > 0 && x.id() == m.e[m.n - 1], "the last element"); m.n -= 1 } None => nd::check(m.n == 0, "empty") },
        2 => { let t = nd::pick(CAP as u8 + 2) as usize; v.truncate(t); m.n = m.n.min(t) }
        3 => { v.clear(); m.n = 0 }
        4 => {
            let k = nd::pick(CAP as u8 + 1) as usize;
            let x = m.fresh();
            let mut it = v.fill(hint::<T>(k, x));
            let took = k.min(m.cap - m.n);
            nd::check(it.next().map(|y| y.id()) == if took < k { Some(x.wrapping_add(took as u8)) } else { None }, "the rest stays in the iterator");
            for i in 0..took { m.push(x.wrapping_add(i as u8)) }
        }
        5 => {
            let k = nd::pick(CAP as u8 + 1) as usize;
            let x = m.fresh();
            let p = nd::catch(|| v.extend(hint::<T>(k, x)));
            nd::check(p == (k > m.cap - m.n), "panics exactly if there is no room");
            for i in 0..k.min(m.cap - m.n) { m.push(x.wrapping_add(i as u8)) }
        }
        6 => {
            // The tail is kept as another vector.
            let at = nd::pick(CAP as u8 + 2) as usize;
            let mut t = None;
            let p = nd::catch(|| t = Some(v.split_and_shrink_to(at)));
            nd::check(p == (at > m.cap), "panics exactly behind the memory");
            if let Some(t) = t {
                let mut r = L { e: [0; CAP], n: 0, cap: m.cap - at, new: 100 };
                for i in at.min(m.n)..m.n { r.push(m.e[i]) }
                m.n = m.n.min(at);
                m.cap = at;
                r.same(&t);
                *other = Some((t, r));
            }
        }
        7 => {
            // The tail is used for a while, its elements do not come back.
            let at = nd::pick(CAP as u8 + 1) as usize;
            nd::assume(at <= m.cap);
            let x = m.fresh();
            {
                let mut t = v.split_borrowed(at);
                let mut r = L { e: [0; CAP], n: 0, cap: m.cap - at, new: 100 };
                for i in at.min(m.n)..m.n { r.push(m.e[i]) }
                r.same(&t);
                if t.push(T::make(x)).is_ok() { nd::check(r.n < r.cap, "there is room"); r.push(x) }
                r.same(&t);
            }
            m.n = m.n.min(at);
        }
        8 => {
            let rest = v.shrink_to_fit();
            nd::check(rest.byte_capacity() == 0, "no memory of an element is given away");
        }
        9 => {
            let (i, j) = (nd::pick(CAP as u8) as usize, nd::pick(CAP as u8) as usize);
            nd::assume(i < m.n && j < m.n);
            v.as_mut_slice().swap(i, j);
            m.e.swap(i, j);
        }
        10 => {
            let (i, x) = (nd::pick(CAP as u8) as usize, m.fresh());
            nd::assume(i < m.n);
            v[i] = T::make(x);
            m.e[i] = x;
        }
        _ => {
            let (a, b) = (nd::pick(CAP as u8 + 1) as usize, nd::pick(CAP as u8 + 1) as usize);
            nd::assume(a <= b && b <= m.n);
            let k = v.drain(a..b).count();
            nd::check(k == b - a, "drained");
            for i in b..m.n { m.e[i - k] = m.e[i]; }
            m.n -= k;
        }
    }
}
fn vectors<T: Plain>(steps: u8) {
    let mut mem: [MaybeUninit<T>; CAP] = [MaybeUninit::uninit(); CAP];
    let mut v: FixedVec<T> = FixedVec::new(Uninit::from(&mut mem[..]));
    let mut m = L { e: [0; CAP], n: 0, cap: CAP, new: 1 };
    let n = nd::pick(CAP as u8 + 1);
    for _ in 0..n { let x = m.fresh(); nd::check(v.push(T::make(x)).is_ok(), "room"); m.push(x) }
    let mut other = None;
    for _ in 0..steps {
        match other.take() {
            Some((mut w, mut k)) => {
                let mut none = None;
                if nd::bool() { op(&mut w, &mut k, &mut none) } else { op(&mut v, &mut m, &mut none) }
                if let Some((x, y)) = none { y.same(&x); }
                k.same(&w);
                other = Some((w, k));
            }
            None => op(&mut v, &mut m, &mut other),
        }
        m.same(&v);
        if let Some((w, k)) = &other { k.same(w); }
    }
    nd::cover(other.is_some() && m.n == 2 && other.as_ref().unwrap().1.n == 2, "two vectors");
}

/// Drains between other operations.
fn drains<T: Elem>(steps: u8) {
    let mut mem: [MaybeUninit<T>; CAP] = [const { MaybeUninit::uninit() }; CAP];
    let mut v: FixedVec<T> = FixedVec::new(Uninit::from(&mut mem[..]));
    let mut m = L { e: [0; CAP], n: 0, cap: CAP, new: 1 };
    // Any bound if there is one drain only.
    let many = steps > 1;
    let mut next = if many { 3 + nd::pick(2) } else { nd::pick(CAP as u8 + 1) };
    for i in 0..next { let _ = v.push(T::make(i)); m.push(i) }
    let mut out = 0;
    for step in 0..steps {
        let (a, b) = (nd::pick(CAP as u8 + 2) as usize, nd::pick(CAP as u8 + 2) as usize);
        if many { nd::assume(a <= b && b <= m.n + 1 && a <= m.n) }
        let (lo, hi) = if many { (0, 0) } else { (nd::below(3), nd::below(3)) };
        let s = match lo { 0 => a, 1 => a + 1, _ => 0 };
        let e = match hi { 0 => b, 1 => b + 1, _ => m.n };
        let lo = match lo { 0 => Bound::Included(a), 1 => Bound::Excluded(a), _ => Bound::Unbounded };
        let hi = match hi { 0 => Bound::Excluded(b), 1 => Bound::Included(b), _ => Bound::Unbounded };
        let ok = s <= e && e <= m.n;
        let mut taken = [false; CAP];
        let p = nd::catch(|| {
            let mut d = v.drain((lo, hi));
            nd::check(ok, "a range outside is refused");
            let (mut s, mut e) = (s, e);
            for _ in 0..if many { 1 } else { 2 } {
                nd::check(d.len() == e - s && d.size_hint() == (e - s, Some(e - s)), "what is left of the range");
                match nd::below(if steps > 2 { 3 } else { 5 }) {
                    // Behind some which are dropped.
                    k @ 3..=4 => {
                        let j = nd::pick(3) as usize;
                        let x = if k == 3 { d.nth(j) } else { d.nth_back(j) };
                        nd::check(x.is_some() == (j < e - s), "the one asked for");
                        let n = (e - s).min(j + 1);
                        if let Some(x) = x {
                            let i = if k == 3 { s + j } else { e - 1 - j };
                            nd::check(x.id() == m.e[i], "the one asked for");
                            taken[i] = true;
                            core::mem::forget(x);
                        }
                        for q in 0..n {
                            let i = if k == 3 { s + q } else { e - 1 - q };
                            nd::check(dropped(m.e[i]) == !taken[i] as u8, "those in front of it are dropped");
                        }
                        if k == 3 { s += n } else { e -= n }
                    }
                    0 => match d.next() { Some(x) => { nd::check(s < e && x.id() == m.e[s], "from the front"); taken[s] = true; s += 1; core::mem::forget(x) } None => nd::check(s == e, "all were handed out") },
                    1 => match d.next_back() { Some(x) => { nd::check(s < e && x.id() == m.e[e - 1], "from the back"); e -= 1; taken[e] = true; core::mem::forget(x) } None => nd::check(s == e, "all were handed out") },
                    _ => break,
                }
            }
        });
        nd::check(p == !ok, "a range outside is refused, all others are not");
        if ok {
            for i in s..e { nd::check(dropped(m.e[i]) == !taken[i] as u8, "dropped exactly if it was not handed out"); }
            for i in e..m.n { m.e[i - (e - s)] = m.e[i]; }
            m.n -= e - s;
            out += e - s;
        }
        m.same(&v);
        for i in 0..m.n { nd::check(dropped(m.e[i]) == 0, "what stays is not dropped"); }
        if step + 1 < steps && nd::bool() && m.n < CAP { let _ = v.push(T::make(next)); m.push(next); next += 1; }
    }
    nd::cover(out == CAP + 1 || steps == 1 && out == 3, "many were drained");
    drop(v);
    for i in 0..m.n { nd::check(dropped(m.e[i]) == 1, "what stayed is dropped once"); }
}

/// Values, vectors and copies in one arena.
fn extension(steps: u8) {
    #[derive(Clone, Copy)]
    enum K<'a> { None, Slice(&'a [u8], [u8; 4]), Words(&'a [u32], [u32; 2]), Str(&'a str, u8), Dyn(&'a dyn Id, u8) }
    trait Id { fn id(&self) -> u8; }
    impl Id for u8 { fn id(&self) -> u8 { *self } }
    impl Id for [u16; 3] { fn id(&self) -> u8 { nd::check(self[1] == 0x1122 && self[2] == self[0] ^ 0x7700, "intact"); self[0] as u8 } }
    impl Id for u64 { fn id(&self) -> u8 { nd::check(*self >> 8 == 1 << 40, "intact"); *self as u8 } }
    let mut at: [MaybeUninit<u128>; 5] = [MaybeUninit::uninit(); 5];
    let off = nd::pick(2) as usize * 8;
    let b: &Bump<[u8; 45]> = unsafe { let p = (at.as_mut_ptr() as *mut u8).add(off) as *mut Bump<[u8; 45]>; p.write(Bump::uninit()); &*p };
    let mut end = { let c: &mut Bump<[u8; 45]> = unsafe { &mut *(b as *const _ as *mut _) }; let p = c.get::<u8>().unwrap().ptr.as_ptr() as usize; c.reset(); p };
    let cap = end + 45;
    let mut boxes: [Option<Box<u64>>; 3] = [None, None, None];
    let mut rcs: [Option<Rc<u16>>; 3] = [None, None, None];
    let mut vecs: [Option<FixedVec<u32>>; 3] = [None, None, None];
    let mut copies: [K; 3] = [K::None; 3];
    let mut vals = [0u8; 3];
    for i in 0..steps as usize {
        let x = nd::u8();
        vals[i] = x;
        // Where a request goes; whether it has room.
        let mut place = |size: usize, align: usize, got: Option<usize>| {
            let p = (end + align - 1) / align * align;
            nd::check(got.is_some() == (p + size <= cap || size == 0), "exactly if there is room");
            if let Some(q) = got {
                nd::check(q % align == 0, "aligned");
                if size > 0 { nd::check(q == p, "behind everything else"); end = p + size; }
            }
        };
        match nd::below(9) {
            0 => { let r = b.boxed(x as u64); place(8, 8, r.as_ref().map(|r| &**r as *const _ as usize)); boxes[i] = r }
            1 => {
                let l = Rc::<u16>::layout();
                let before = b.level();
                let r = b.rc(x as u16);
                nd::check(r.is_some() || before == b.level(), "a refused request changes nothing");
                let p = (end + l.align() - 1) / l.align() * l.align();
                nd::check(r.is_some() == (p + l.size() <= cap), "exactly if there is room");
                if let Some(r) = &r { let q = &**r as *const u16 as usize; nd::check(q >= p && q + 2 <= p + l.size(), "inside of its block"); end = p + l.size(); }
                rcs[i] = r
            }
            2 => {
                let n = nd::below(4) as usize;
                let r = b.fixed_vec::<u32>(n);
                nd::check(r.as_ref().map_or(true, |v| v.capacity() == n && v.len() == 0), "as requested");
                place(4 * n, 4, r.as_ref().map(|v| v.as_slice().as_ptr() as usize));
                vecs[i] = r;
                if let Some(v) = &mut vecs[i] { for _ in 0..n { nd::check(v.push(x as u32).is_ok(), "room") } nd::check(v.push(0).is_err(), "no more") }
            }
            3 => {
                let mut src = [x, 1, x, 3];
                let n = nd::below(5) as usize;
                let r = b.copy_slice(&src[..n]).map(|s| &*s);
                place(n, 1, r.map(|s| s.as_ptr() as usize));
                copies[i] = r.map_or(K::None, |s| { nd::check(s.len() == n, "complete"); K::Slice(s, src) });
                src[0] = !x;
            }
            4 => {
                let mut src = [x as u32, 0xffeeddcc];
                let r = b.copy_slice(&src).map(|s| &*s);
                place(8, 4, r.map(|s| s.as_ptr() as usize));
                copies[i] = r.map_or(K::None, |s| K::Words(s, src));
                src[1] = 0;
            }
            5 => {
                let c = [b'a' + (x & 15), b'-', b'z'];
                vals[i] = c[0];
                let r = b.copy_str(unsafe { core::str::from_utf8_unchecked(&c) });
                place(3, 1, r.map(|s| s.as_ptr() as usize));
                copies[i] = r.map_or(K::None, |s| K::Str(s, c[0]));
            }
            6 => {
                let mut v = ManuallyDrop::new(x);
                let r = unsafe { b.copy_dst::<dyn Id>(&*(&v as &ManuallyDrop<dyn Id>)) }.map(|d| &*d);
                place(1, 1, r.map(|s| s as *const dyn Id as *const u8 as usize));
                copies[i] = r.map_or(K::None, |s| K::Dyn(s, x));
                *v = !x;
            }
            7 => {
                let mut v = ManuallyDrop::new([x as u16, 0x1122, x as u16 ^ 0x7700]);
                let r = unsafe { b.copy_dst::<dyn Id>(&*(&v as &ManuallyDrop<dyn Id>)) }.map(|d| &*d);
                place(6, 2, r.map(|s| s as *const dyn Id as *const u8 as usize));
                copies[i] = r.map_or(K::None, |s| K::Dyn(s, x));
                *v = [0; 3];
            }
            _ => {
                let mut v = ManuallyDrop::new(x as u64 | 1 << 48);
                let r = unsafe { b.copy_dst::<dyn Id>(&*(&v as &ManuallyDrop<dyn Id>)) }.map(|d| &*d);
                place(8, 8, r.map(|s| s as *const dyn Id as *const u8 as usize));
                copies[i] = r.map_or(K::None, |s| K::Dyn(s, x));
                *v = 0;
            }
        }
        for j in 0..=i {
            if let Some(v) = &boxes[j] { nd::check(**v == vals[j] as u64, "boxes keep their values"); }
            if let Some(v) = &rcs[j] { nd::check(**v == vals[j] as u16 && Rc::strong_count(v) == 1, "shared values keep theirs"); }
            if let Some(v) = &vecs[j] { for x in v.as_slice() { nd::check(*x == vals[j] as u32, "vectors keep their elements"); } }
            match copies[j] {
                K::None => {}
                K::Slice(s, src) => for k in 0..s.len() { nd::check(s[k] == src[k], "a copy stays equal to its source") },
                K::Words(s, src) => nd::check(s.len() == 2 && s[0] == src[0] && s[1] == src[1], "a copy stays equal to its source"),
                K::Str(s, c) => nd::check(s.len() == 3 && s.as_bytes()[0] == c && s.as_bytes()[2] == b'z', "a copy stays equal to its source"),
                K::Dyn(s, x) => nd::check(s.id() == x, "a copy behaves as its source"),
            }
        }
    }
    let _ = (size_of::<u8>(), align_of::<u8>());
    nd::cover(boxes[0].is_some() && vecs[1].is_some(), "a vector behind a box");
    nd::cover(rcs[0].is_some() && matches!(copies[1], K::Dyn(..)), "a copy behind a shared value");
}

#[no_mangle]
pub extern "C-unwind" fn c16_history_u8() { vectors::<u8>(2) }
#[no_mangle]
pub extern "C-unwind" fn c16_history_u32() { vectors::<u32>(2) }
#[no_mangle]
pub extern "C-unwind" fn c16_history_3() { vectors::<[u8; 3]>(3) }
#[no_mangle]
pub extern "C-unwind" fn c18_history() { drains::<D>(2) }
#[no_mangle]
pub extern "C-unwind" fn c18_history_wide() { drains::<W>(1) }
#[no_mangle]
pub extern "C-unwind" fn c18_history_3() { drains::<D>(3) }
#[no_mangle]
pub extern "C-unwind" fn c23_history() { extension(2) }
#[no_mangle]
pub extern "C-unwind" fn c23_history_3() { extension(3) }

crate::harnesses! {
    c16_history_u8, quick;
    c16_history_u32, quick;
    c16_history_3, thorough;
    c18_history, quick;
    c18_history_wide, quick;
    c18_history_3, thorough;
    c23_history, quick;
    c23_history_3, thorough;
}
