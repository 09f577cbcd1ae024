//! `exit_stack::ExitStack`.
use crate::nd;
use crate::util::*;
use core::pin::Pin;
use exit_stack::ExitStack;

/// A larger value, and one with a large alignment.
struct Big(D, [u64; 2]);
#[repr(align(16))]
struct Al16(D);

/// A stack in a plain byte arena, dropped at the end of the scope.
struct Owned<M>(*mut ExitStack<M>);
impl<M> Owned<M> {
    fn new<const N: usize>(a: &mut Arena<N>) -> Self { Owned(a.place_at(core::mem::align_of::<ExitStack<M>>() / 8, ExitStack::new())) }
    fn as_ref<'a>(&'a self) -> Pin<&'a ExitStack<M>> { unsafe { Pin::new_unchecked(&*self.0) } }
    fn as_mut<'a>(&'a mut self) -> Pin<&'a mut ExitStack<M>> { unsafe { Pin::new_unchecked(&mut *self.0) } }
}
impl<M> Drop for Owned<M> { fn drop(&mut self) { unsafe { core::ptr::drop_in_place(self.0) } } }

/// Register one value of kind `k`; returns whether it was taken.
fn reg<M>(s: Pin<&ExitStack<M>>, k: u8, id: u8) -> bool {
    match k {
        0 => match s.slot::<D>() { Some(t) => { let p = t.pin(D(id)); prop!(p.0 == id, "value is stored"); true }, None => false },
        1 => match s.slot::<Big>() { Some(t) => { let p = t.pin(Big(D(id), [id as u64; 2])); prop!(p.0.0 == id && p.1[1] == id as u64, "value is stored"); true }, None => false },
        2 => match s.slot::<Al16>() { Some(t) => { let p = t.pin(Al16(D(id))); prop!(addr(&*p) % 16 == 0 && p.0.0 == id, "value is stored aligned"); true }, None => false },
        // A slot that is abandoned holds no value.
        _ => { let _ = s.slot::<D>(); false }
    }
}
/// Values are dropped exactly once, in reverse order of registration, when the
/// stack is dropped or emptied -- and not before.
fn lifo<const A: u8, const B: u8, const C: u8>(via_pop: bool) {
    reset_drops();
    let mut arena = Arena::<256>::new();
    let ids = [nd::u8(), nd::u8(), nd::u8()];
    let (a, b, c, mut e) = (nd::bool(), true, nd::bool(), false);
    let (mut ra, mut rb, mut rc) = (false, false, false);
    {
        let mut s = Owned::<[u64; 16]>::new(&mut arena);
        if a { ra = reg(s.as_ref(), A, ids[0]); }
        if b { rb = reg(s.as_ref(), B, ids[1]); }
        if c { rc = reg(s.as_ref(), C, ids[2]); }
        prop!(drops() == 0, "values live as long as the stack");
        if via_pop {
            s.as_mut().pop_all();
            prop!(drops() == ra as usize + rb as usize + rc as usize, "pop_all drops every value");
            e = reg(s.as_ref(), A, 99);
        }
    }
    prop!(drops() == ra as usize + rb as usize + rc as usize + e as usize, "every value is dropped exactly once");
    let mut i = 0;
    if rc { prop!(log(i) == ids[2], "in reverse order of registration"); i += 1; }
    if rb { prop!(log(i) == ids[1], "in reverse order of registration"); i += 1; }
    if ra { prop!(log(i) == ids[0], "in reverse order of registration"); i += 1; }
    if e { prop!(log(i) == 99, "later values are dropped later"); }
    witness!(i as u8 == (A < 3) as u8 + (B < 3) as u8 + (C < 3) as u8, "all registered");
}
pub fn c14_lifo_dbd() { lifo::<0, 1, 0>(false) }
pub fn c14_lifo_bad() { lifo::<1, 2, 0>(false) }
pub fn c14_lifo_axd() { lifo::<2, 3, 0>(false) }
pub fn c14_pop_ddb() { lifo::<0, 0, 1>(true) }

/// Pinned values neither move nor change nor overlap while the stack lives.
pub fn c14_pinned() {
    reset_drops();
    let mut arena = Arena::<256>::new(); let o = Owned::<[u64; 16]>::new(&mut arena);
    let s = o.as_ref();
    let (x, y, z) = (nd::u8(), nd::u64(), nd::u8());
    let a = s.slot::<D>().unwrap().pin(D(x));
    let pa = addr(&*a);
    let b = s.slot::<[u64; 2]>().unwrap().pin([y, !y]);
    let pb = addr(&*b);
    let (c, pc) = match s.slot::<Al16>() { Some(t) => { let c = t.pin(Al16(D(z))); let pc = addr(&*c); (Some(c), pc) }, None => (None, 0) };
    prop!(addr(&*a) == pa && a.0 == x, "earlier values keep their place and content");
    prop!(addr(&*b) == pb && b[0] == y && b[1] == !y, "earlier values keep their place and content");
    prop!(disjoint(pa, 1, pb, 16), "values never overlap");
    let base = addr(&*s);
    prop!(inside(pa, 1, base, core::mem::size_of::<ExitStack<[u64; 16]>>()), "values live inside the stack");
    if let Some(c) = &c { prop!(pc % 16 == 0 && c.0.0 == z && disjoint(pc, 16, pb, 16) && disjoint(pc, 16, pa, 1), "aligned and apart"); }
    prop!(drops() == 0, "and alive");
    witness!(c.is_some(), "all");
}
/// `set` always has room for one value, drops the previous ones first, once.
fn set<M: 'static, F: Fn(u8) -> M, G: Fn(&M) -> u8>(slot_first: bool, f: F, g: G) {
    reset_drops();
    let (x, y) = (nd::u8(), nd::u8());
    let mut had = 0;
    let mut arena = Arena::<256>::new();
    {
        let mut s = Owned::<M>::new(&mut arena);
        if slot_first { if let Some(t) = s.as_ref().slot::<D>() { t.pin(D(70)); had = 1; } }
        let r = s.as_mut().set(f(x));
        prop!(g(&*r) == x, "the new value is stored");
        prop!(addr(&*r) % core::mem::align_of::<M>() == 0, "aligned");
        prop!(drops() == had, "all previous values are dropped");
        let r = s.as_mut().set(f(y));
        prop!(g(&*r) == y, "the new value is stored");
        prop!(addr(&*r) % core::mem::align_of::<M>() == 0, "aligned");
        prop!(drops() == 1 + had && log(had) == x, "all previous values are dropped");
    }
    prop!(drops() == 2 + had && log(1 + had) == y, "every value is dropped exactly once");
    witness!(true, "end");
}
pub fn c14_set_d() { set::<D, _, _>(false, |v| D(v), |d| d.0) }
pub fn c14_set_big() { set::<Big, _, _>(true, |v| Big(D(v), [v as u64; 2]), |d| d.0.0) }
pub fn c14_set_a16() { set::<Al16, _, _>(false, |v| Al16(D(v)), |d| d.0.0) }
/// Zero-sized values with a destructor.
pub fn c14_zst() {
    reset_drops();
    let n = nd::upto(2);
    let mut got = 0;
    {
        let mut arena = Arena::<256>::new(); let s = Owned::<[u64; 8]>::new(&mut arena);
        let mut i = 0;
        while i < n { if let Some(t) = s.as_ref().slot::<Z>() { t.pin(Z); got += 1; } i += 1; }
        prop!(drops() == 0, "alive");
    }
    prop!(drops() == got, "every value is dropped exactly once");
    witness!(got == 2, "two");
}
pub fn c14_reset_reuse() {
    reset_drops();
    let mut arena = Arena::<256>::new(); let mut s = Owned::<[u64; 6]>::new(&mut arena);
    let first = s.as_ref().slot::<[u64; 2]>().map(|t| addr(&*t.pin([1, 2])));
    s.as_mut().pop_all();
    let second = s.as_ref().slot::<[u64; 2]>().map(|t| addr(&*t.pin([3, 4])));
    prop!(first.is_some() && first == second, "after pop_all the whole memory is available again");
    witness!(true, "end");
}

harnesses! {
    c14_lifo_dbd, 6, quick, normal;
    c14_lifo_bad, 6, quick, normal;
    c14_lifo_axd, 6, quick, normal;
    c14_pop_ddb, 6, quick, normal;
    c14_pinned, 6, quick, normal;
    c14_set_d, 6, quick, normal;
    c14_set_big, 6, quick, normal;
    c14_set_a16, 6, quick, normal;
    c14_zst, 6, quick, normal;
    c14_reset_reuse, 6, quick, normal;
}
