//! Containers compare and hash exactly as their contents do.
use crate::nd;
use crate::util::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use core::mem::MaybeUninit;
use static_alloc::leaked::LeakBox;
use without_alloc::boxed::Box;
use without_alloc::rc::Rc;
use without_alloc::{FixedVec, Uninit};

/// A partially ordered type whose operators are mutually independent and not
/// reflexive, so that delegating to the wrong one, or to none, is visible.
#[derive(Clone, Copy, Debug)]
pub struct P(u8);
impl PartialEq for P { fn eq(&self, o: &P) -> bool { self.0 == o.0 && self.0 != 254 } fn ne(&self, o: &P) -> bool { self.0 & 0x7f != o.0 & 0x7f || self.0 == 253 } }
impl PartialOrd for P {
    fn partial_cmp(&self, o: &P) -> Option<Ordering> { if self.0 == 255 || o.0 == 255 { None } else { Some(self.0.cmp(&o.0)) } }
    fn lt(&self, o: &P) -> bool { self.0 & 0x0f < o.0 & 0x0f || o.0 == 252 }
    fn le(&self, o: &P) -> bool { self.0 & 0xf0 <= o.0 & 0xf0 && self.0 != 251 }
    fn gt(&self, o: &P) -> bool { self.0 & 0x3c > o.0 & 0x3c }
    fn ge(&self, o: &P) -> bool { self.0 & 0xc3 >= o.0 & 0xc3 }
}
macro_rules! agree { ($a:expr, $b:expr, $x:expr, $y:expr) => {{
    prop!(($a == $b) == ($x == $y), "==");
    prop!(($a != $b) == ($x != $y), "!=");
    prop!(PartialOrd::partial_cmp(&$a, &$b) == PartialOrd::partial_cmp(&$x, &$y), "partial_cmp");
    prop!(($a < $b) == ($x < $y), "<");
    prop!(($a <= $b) == ($x <= $y), "<=");
    prop!(($a > $b) == ($x > $y), ">");
    prop!(($a >= $b) == ($x >= $y), ">=");
}} }
/// A hasher that records everything it is fed, in order.
#[derive(PartialEq, Eq)]
pub struct H(u64, usize);
impl H { fn of<T: Hash + ?Sized>(v: &T) -> H { let mut h = H(0, 0); v.hash(&mut h); h } }
impl Hasher for H {
    fn write(&mut self, b: &[u8]) { let mut i = 0; while i < b.len() { self.0 = self.0.rotate_left(9) ^ (b[i] as u64); i += 1; } self.1 += 1 + 16 * b.len(); }
    fn write_u8(&mut self, v: u8) { self.0 = self.0.rotate_left(9) ^ v as u64; self.1 += 2; }
    fn write_usize(&mut self, v: usize) { self.0 = self.0.rotate_left(7) ^ v as u64; self.1 += 3; }
    fn finish(&self) -> u64 { self.0 }
}
fn rc<'a, T>(m: &'a mut MaybeUninit<[u64; 6]>, v: T) -> Rc<'a, T> { Rc::new(v, Uninit::from(m).as_memory()) }

pub fn c26_box() {
    let (x, y) = (P(nd::u8()), P(nd::u8()));
    let (mut m, mut n) = (MaybeUninit::uninit(), MaybeUninit::uninit());
    let (a, b) = (Box::new(x, Uninit::from(&mut m)), Box::new(y, Uninit::from(&mut n)));
    agree!(a, b, x, y);
    // Identity must not stand in for equality.
    agree!(a, a, x, x);
    let (x, y) = (nd::u8(), nd::u8());
    let (mut m, mut n) = (MaybeUninit::uninit(), MaybeUninit::uninit());
    let (a, b) = (Box::new(x, Uninit::from(&mut m)), Box::new(y, Uninit::from(&mut n)));
    prop!(Ord::cmp(&a, &b) == x.cmp(&y), "cmp");
    prop!(H::of(&a) == H::of(&x), "hash");
    witness!(x < y, "less");
}
pub fn c26_rc() {
    let (x, y) = (P(nd::u8()), P(nd::u8()));
    let (mut m, mut n) = (MaybeUninit::uninit(), MaybeUninit::uninit());
    let (a, b) = (rc(&mut m, x), rc(&mut n, y));
    agree!(a, b, x, y);
    let c = a.clone();
    agree!(a, c, x, x);
    prop!(Rc::ptr_eq(&a, &c) && !Rc::ptr_eq(&a, &b), "ptr_eq is about identity, not contents");
    let (x, y) = (nd::u8(), nd::u8());
    let (mut m, mut n) = (MaybeUninit::uninit(), MaybeUninit::uninit());
    let (a, b) = (rc(&mut m, x), rc(&mut n, y));
    prop!(Ord::cmp(&a, &b) == x.cmp(&y), "cmp");
    prop!(H::of(&a) == H::of(&x), "hash");
    prop!(*AsRef::<u8>::as_ref(&a) == x && *core::borrow::Borrow::<u8>::borrow(&a) == x, "views");
    witness!(x < y, "less");
}
pub fn c26_vec() {
    let (xs, ys) = ([P(nd::u8()), P(nd::u8())], [P(nd::u8()), P(nd::u8())]);
    let (i, j) = (nd::upto(2), nd::upto(2));
    let (mut m, mut n) = ([MaybeUninit::<P>::uninit(); 3], [MaybeUninit::<P>::uninit(); 2]);
    let (mut a, mut b) = (FixedVec::new(Uninit::from(&mut m[..])), FixedVec::new(Uninit::from(&mut n[..])));
    let mut k = 0;
    while k < 2 { if k < i { prop!(a.push(xs[k]).is_ok(), "room"); } if k < j { prop!(b.push(ys[k]).is_ok(), "room"); } k += 1; }
    let (x, y) = (&xs[..i], &ys[..j]);
    agree!(a, b, *x, *y);
    agree!(a, a, *x, *x);
    witness!(i == 2 && j == 1, "lengths");
}
pub fn c26_vec_ord() {
    let (xs, ys) = ([nd::u8(), nd::u8()], [nd::u8(), nd::u8()]);
    let (i, j) = (nd::upto(2), nd::upto(2));
    let (mut m, mut n) = ([MaybeUninit::<u8>::uninit(); 3], [MaybeUninit::<u8>::uninit(); 2]);
    let (mut a, mut b) = (FixedVec::new(Uninit::from(&mut m[..])), FixedVec::new(Uninit::from(&mut n[..])));
    let mut k = 0;
    while k < 2 { if k < i { prop!(a.push(xs[k]).is_ok(), "room"); } if k < j { prop!(b.push(ys[k]).is_ok(), "room"); } k += 1; }
    prop!(Ord::cmp(&a, &b) == xs[..i].cmp(&ys[..j]), "cmp");
    prop!((a == b) == (xs[..i] == ys[..j]), "==");
    witness!(i == 2 && j == 1, "lengths");
}
pub fn c26_vec_hash() {
    let xs = [nd::u8(), nd::u8()];
    let i = nd::upto(2);
    let mut m = [MaybeUninit::<u8>::uninit(); 3];
    let mut a = FixedVec::new(Uninit::from(&mut m[..]));
    let mut k = 0;
    while k < 2 { if k < i { prop!(a.push(xs[k]).is_ok(), "room"); } k += 1; }
    prop!(H::of(&a) == H::of(&xs[..i]), "hash");
    let r: &[u8] = a.as_ref();
    prop!(H::of(core::borrow::Borrow::<[u8]>::borrow(&a)) == H::of(&a) && r.len() == i, "as its borrowed form");
    witness!(i == 2, "two");
}
pub fn c26_leakbox() {
    let x = nd::u8();
    let mut m = MaybeUninit::uninit();
    let a = LeakBox::write(LeakBox::from(&mut m), x);
    prop!(H::of(&a) == H::of(&x), "hash");
    witness!(x == 3, "three");
}

/// Values that record how they were formatted.
pub struct F(u8);
static mut FMT: u32 = 0;
fn opts(f: &core::fmt::Formatter) -> u32 { 1024 * f.alternate() as u32 + 2048 * f.width().unwrap_or(0) as u32 }
impl core::fmt::Debug for F { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { unsafe { FMT = 256 + self.0 as u32 + opts(f); } if self.0 == 7 { Err(core::fmt::Error) } else { Ok(()) } } }
impl core::fmt::Display for F { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { unsafe { FMT = 512 + self.0 as u32 + opts(f); } if self.0 == 9 { Err(core::fmt::Error) } else { Ok(()) } } }
struct Sink;
impl core::fmt::Write for Sink { fn write_str(&mut self, _: &str) -> core::fmt::Result { Ok(()) } }
pub fn c26_fmt() {
    use core::fmt::Write;
    let x = nd::u8();
    let (mut m, mut n, mut o) = (MaybeUninit::uninit(), MaybeUninit::uninit(), MaybeUninit::uninit());
    let r = rc(&mut m, F(x));
    let b = Box::new(F(x), Uninit::from(&mut n));
    let l = LeakBox::write(LeakBox::from(&mut o), F(x));
    unsafe {
        FMT = 0; prop!(write!(Sink, "{:?}", r).is_err() == (x == 7) && FMT == 256 + x as u32, "debug of rc");
        FMT = 0; prop!(write!(Sink, "{}", r).is_err() == (x == 9) && FMT == 512 + x as u32, "display of rc");
        FMT = 0; prop!(write!(Sink, "{:?}", b).is_err() == (x == 7) && FMT == 256 + x as u32, "debug of box");
        FMT = 0; prop!(write!(Sink, "{:?}", l).is_err() == (x == 7) && FMT == 256 + x as u32, "debug of leak box");
        FMT = 0; prop!(write!(Sink, "{}", l).is_err() == (x == 9) && FMT == 512 + x as u32, "display of leak box");
        FMT = 0; let _ = write!(Sink, "{:#?}", r); prop!(FMT == 1280 + x as u32, "options reach the contents");
        FMT = 0; let _ = write!(Sink, "{:3}", r); prop!(FMT == 6656 + x as u32, "options reach the contents");
        FMT = 0; let _ = write!(Sink, "{:#?}", b); prop!(FMT == 1280 + x as u32, "options reach the contents");
        FMT = 0; let _ = write!(Sink, "{:3}", l); prop!(FMT == 6656 + x as u32, "options reach the contents");
    }
    witness!(x == 7, "error");
}

harnesses! {
    c26_box, 6, quick, normal;
    c26_rc, 6, quick, normal;
    c26_vec, 6, quick, normal;
    c26_vec_ord, 6, quick, normal;
    c26_vec_hash, 6, quick, normal;
    c26_leakbox, 6, quick, normal;
    c26_fmt, 12, quick, normal;
}
