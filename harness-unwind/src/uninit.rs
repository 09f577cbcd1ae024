//! C21: histories of splits and casts of uninitialised memory: the pieces
//! always partition it, and writing one leaves the others alone.
use crate::nd;
use core::alloc::Layout;
use core::mem::{align_of, size_of, MaybeUninit};
use core::ptr::NonNull;
use without_alloc::Uninit;

#[repr(align(16))]
struct Buf([u8; 48]);
enum P<'a> { None, Raw(Uninit<'a, ()>), One(Uninit<'a, u32>), Many(Uninit<'a, [u16]>) }
impl P<'_> {
    fn at(&self) -> (usize, usize) {
        match self {
            P::None => (0, 0),
            P::Raw(u) => (u.as_ptr() as usize, u.size()),
            P::One(u) => {
                nd::check(u.as_ptr() as usize % 4 == 0 && u.size() >= 4, "a typed piece has room for its type");
                nd::check(u.as_ptr() == u.as_non_null().as_ptr() && u.borrow().as_ptr() == u.as_ptr(), "all pointers to a piece agree");
                (u.as_ptr() as usize, u.size())
            }
            P::Many(u) => {
                nd::check(u.as_begin_ptr() as usize % 2 == 0 && u.capacity() == u.size() / 2, "a slice has as many elements as fit");
                let v = u.borrow();
                nd::check(v.as_begin_ptr() == u.as_begin_ptr() && v.size() == u.size() && v.capacity() == u.capacity(), "a view covers the same piece");
                (u.as_begin_ptr() as usize, u.size())
            }
        }
    }
}
struct Set<'a> { p: [P<'a>; 4], n: usize }
impl<'a> Set<'a> {
    /// Replace piece `i` by what became of it, and add the part behind it.
    fn put(&mut self, i: usize, was: (usize, usize), head: P<'a>, tail: P<'a>) {
        let (h, t) = (head.at(), tail.at());
        match (&head, &tail) {
            (P::None, _) => nd::check(t == was, "nothing is lost or added"),
            (_, P::None) => nd::check(h == was, "nothing is lost or added"),
            _ => nd::check(h.0 == was.0 && h.0 + h.1 == t.0 && h.1 + t.1 == was.1, "the parts partition the piece"),
        }
        self.p[i] = head;
        if !matches!(tail, P::None) { self.p[self.n] = tail; self.n += 1; }
    }
}
fn up(a: usize, al: usize) -> usize { (a + al - 1) / al * al }
/// A count around the interesting ones.
fn count(max: usize) -> usize {
    match nd::pick(5) { 0 => 0, 1 => 1, 2 => 3, 3 => max, _ => max + 1 }
}
fn step<'a>(s: &mut Set<'a>) {
    let i = nd::pick(s.n as u8) as usize;
    let was = s.p[i].at();
    let (a, n) = was;
    match core::mem::replace(&mut s.p[i], P::None) {
        P::None => {}
        P::Raw(mut u) => match nd::below(6) {
            0 => {
                let (size, align) = match nd::pick(4) { 0 => (0, 2), 1 => (3, 1), 2 => (8, 8), _ => (5, 4) };
                let want = up(a, align) + size <= a + n;
                let t = u.split_layout(Layout::from_size_align(size, align).unwrap());
                nd::check(t.is_some() == want, "split off exactly if it fits");
                if let Some(t) = &t { nd::check(t.as_ptr() as usize == up(a, align), "at the first aligned address") }
                s.put(i, was, P::Raw(u), t.map_or(P::None, P::Raw));
            }
            1 => {
                let t = u.split_cast::<u32>();
                nd::check(t.is_some() == (up(a, align_of::<u32>()) + size_of::<u32>() <= a + n), "split off exactly if it fits");
                s.put(i, was, P::Raw(u), t.map_or(P::None, P::One));
            }
            2 => {
                let t = u.split_slice::<u16>();
                nd::check(t.is_some() == (up(a, 2) <= a + n), "split off exactly if aligned");
                s.put(i, was, P::Raw(u), t.map_or(P::None, P::Many));
            }
            3 => {
                let k = count(n);
                let t = u.split_at_byte(k);
                nd::check(t.is_some() == (k <= n), "split exactly inside of the piece");
                nd::check(t.is_none() || u.size() == k, "after that many bytes");
                s.put(i, was, P::Raw(u), t.map_or(P::None, P::Raw));
            }
            4 => {
                let r = u.cast::<u32>();
                nd::check(r.is_ok() == (a % 4 == 0 && n >= 4), "cast exactly if it fits");
                let r = match r { Ok(u) => P::One(u), Err(u) => P::Raw(u) };
                s.put(i, was, r, P::None);
            }
            _ => {
                let r = u.cast_slice::<u16>();
                nd::check(r.is_ok() == (a % 2 == 0), "cast exactly if aligned");
                let r = match r { Ok(u) => P::Many(u), Err(u) => P::Raw(u) };
                s.put(i, was, r, P::None);
            }
        },
        P::One(mut u) => match nd::below(3) {
            0 => {
                let k = count(n);
                let t = u.split_at_byte(k);
                nd::check(t.is_some() == (k >= 4 && k <= n), "split exactly behind the value");
                nd::check(t.is_none() || u.size() == k, "after that many bytes");
                s.put(i, was, P::One(u), t.map_or(P::None, P::Raw));
            }
            1 => { let t = u.split_to_fit(); nd::check(u.size() == 4, "keeps the value"); s.put(i, was, P::One(u), P::Raw(t)); }
            _ => s.put(i, was, P::Raw(u.as_memory()), P::None),
        },
        P::Many(mut u) => match nd::below(5) {
            0 => {
                let k = count(n / 2);
                let t = u.split_at(k);
                nd::check(t.is_some() == (k <= n / 2), "split exactly inside of the piece");
                nd::check(t.is_none() || u.size() == 2 * k, "after that many elements");
                s.put(i, was, P::Many(u), t.map_or(P::None, P::Many));
            }
            1 => match u.split_first() {
                Some(f) => { nd::check(f.size() == 2, "one element"); s.put(i, was, P::Raw(f.as_memory()), P::Many(u)) }
                None => { nd::check(n < 2, "only an empty slice has no first element"); s.put(i, was, P::Many(u), P::None) }
            },
            2 => match u.split_last() {
                Some(l) => { nd::check(l.size() == n - (n / 2 - 1) * 2, "the last element and what is behind it"); s.put(i, was, P::Many(u), P::Raw(l.as_memory())) }
                None => { nd::check(n < 2, "only an empty slice has no last element"); s.put(i, was, P::Many(u), P::None) }
            },
            3 => { let t = u.shrink_to_fit(); nd::check(u.size() == n / 2 * 2, "keeps all elements"); s.put(i, was, P::Many(u), P::Raw(t)); }
            _ => s.put(i, was, P::Raw(u.as_memory()), P::None),
        },
    }
}
fn history(steps: u8, offsets: u8) {
    let mut buf = Buf([0; 48]);
    let base = buf.0.as_mut_ptr();
    let o = match nd::pick(offsets) { 0 => 5, 1 => 4, _ => 10 };
    let n = match nd::pick(offsets) { 0 => 15, 1 => 6, _ => 1 };
    let u = unsafe { Uninit::from_memory(NonNull::new_unchecked(base.add(o)), n) };
    let mut s = Set { p: [P::None, P::None, P::None, P::None], n: 1 };
    s.p[0] = P::Raw(u);
    for _ in 0..steps { step(&mut s); }
    let k = s.n;
    nd::cover(k == steps as usize + 1, "split each time");
    // Fill each piece: every byte belongs to one piece, and to no other.
    let mut at = [(0, 0); 4];
    let (mut one, mut many) = ([false; 4], [false; 4]);
    for (i, p) in s.p.into_iter().enumerate() {
        at[i] = p.at();
        let id = i as u8 + 1;
        match p {
            P::None => {}
            P::Raw(u) => unsafe { core::ptr::write_bytes(u.as_ptr() as *mut u8, id, u.size()) },
            P::One(u) => {
                one[i] = true;
                let r = u.init(u32::from_ne_bytes([id; 4]));
                nd::check(r as *mut u32 as usize == at[i].0, "in place");
            }
            P::Many(u) => {
                let m: &mut [MaybeUninit<u16>] = u.into_maybe_uninit_slice();
                nd::check(m.as_ptr() as usize == at[i].0 && m.len() == at[i].1 / 2, "the reference covers the piece");
                many[i] = true;
                for e in m { *e = MaybeUninit::new(u16::from_ne_bytes([id; 2])); }
            }
        }
    }
    for x in o - 1..o + n + 1 {
        let b = unsafe { *base.add(x) };
        let mut want = 0;
        for i in 0..k.min(4) {
            let (a, len) = at[i];
            let len = if one[i] { 4 } else if many[i] { len / 2 * 2 } else { len };
            if base as usize + x >= a && base as usize + x < a + len { want = i as u8 + 1; }
        }
        nd::check(b == want, "every byte has its own piece only");
    }
}
#[no_mangle]
pub extern "C-unwind" fn c21_history() { history(2, 3) }
#[no_mangle]
pub extern "C-unwind" fn c21_history_3() { history(3, 1) }

crate::harnesses! {
    c21_history, quick;
    c21_history_3, thorough;
}
