//! `LocalAllocLeakExt`: allocation of typed values and copies of values in any
//! allocator.
use crate::nd;
use crate::util::*;
use core::mem::ManuallyDrop;
use core::mem::MaybeUninit;
use alloc_traits::{Allocation, AllocTime, LocalAlloc, NonZeroLayout};
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;

const fn sz<T>() -> usize { core::mem::size_of::<T>() }
const fn al<T>() -> usize { core::mem::align_of::<T>() }

/// A bump arena with some bytes already used; `(arena, base, level)`.
fn arena<const N: usize, const M: usize>(a: &mut Arena<M>) -> (&Bump<[u8; N]>, usize, usize) {
    let b: &Bump<[u8; N]> = a.place(Bump::uninit());
    let used = nd::upto(N);
    let base = addr::<Bump<[u8; N]>>(b) + start_offset(b);
    if used > 0 { prop!(b.get_layout(layout(used, 1)).is_some(), "fits"); }
    (b, base, used)
}
/// Where the storage starts within the arena, found through the public API.
fn start_offset<const N: usize>(_: &Bump<[u8; N]>) -> usize {
    let f: Bump<[u8; N]> = Bump::uninit();
    let p = f.get_layout(layout(1, 1)).unwrap().ptr.as_ptr() as usize;
    p - addr(&f)
}

/// A request for one value.
fn typed<T: Copy + PartialEq>(v: T) {
    let mut a = Arena::<64>::new();
    let (b, base, used) = arena::<20, 64>(&mut a);
    let lvl = b.level();
    let want = if sz::<T>() == 0 { None } else { first_fit(base + used, base + 20, layout(sz::<T>(), al::<T>())) };
    let fits = want.is_some() || sz::<T>() == 0;
    match nd::below(3) {
        0 => match b.alloc_t::<T>() {
            Some(m) => {
                prop!(fits && (want.is_none() || want == Some(m.uninit.as_ptr() as usize)), "succeeds only if it fits, right behind the level");
                prop!(m.uninit.as_ptr() as usize % al::<T>() == 0 && m.uninit.size() == sz::<T>(), "aligned and exactly as large");
                prop!(*m.uninit.init(v) == v, "holds the value");
            }
            None => prop!(!fits && b.level() == lvl, "fails only if it does not fit, consuming nothing"),
        },
        1 => match b.boxed(v) {
            Some(m) => { prop!(fits && *m == v && addr::<T>(&*m) % al::<T>() == 0, "the box holds the value"); prop!(want.is_none() || want == Some(addr::<T>(&*m)), "in the arena"); }
            None => prop!(!fits && b.level() == lvl, "fails only if it does not fit, consuming nothing"),
        },
        _ => {
            let l = layout(nd::below(24) + 1, 1 << nd::below(4));
            let want = first_fit(base + used, base + 20, l);
            match b.alloc_layout(NonZeroLayout::from_layout(l.into()).unwrap()) {
                Some(m) => prop!(want == Some(m.uninit.as_ptr() as usize) && m.uninit.size() == l.size(), "exactly the layout requested"),
                None => prop!(want.is_none() && b.level() == lvl, "fails only if it does not fit, consuming nothing"),
            }
        }
    }
    witness!(fits && used > 0, "fits");
    witness!(!fits || sz::<T>() == 0, "does not fit");
}
pub fn c23_typed_u8() { typed::<u8>(nd::u8()) }
pub fn c23_typed_u32() { typed::<u32>(nd::u32()) }
pub fn c23_typed_u16x3() { typed::<[u16; 3]>([nd::u16(), nd::u16(), nd::u16()]) }
pub fn c23_typed_u16x2() { typed::<[u16; 2]>([nd::u16(), nd::u16()]) }
pub fn c23_typed_u64() { typed::<u64>(nd::u64()) }
pub fn c23_typed_zst() { typed::<()>(()) }
pub fn c23_typed_zst8() { typed::<[u64; 0]>([]) }

/// Reference counted values.
pub fn c23_rc() {
    let mut a = Arena::<80>::new();
    let (b, base, used) = arena::<40, 80>(&mut a);
    let lvl = b.level();
    let l = without_alloc::rc::Rc::<u16>::layout();
    let want = first_fit(base + used, base + 40, l);
    let x = nd::u16();
    let r = b.rc(x);
    match r {
        Some(r) => { prop!(want == Some(addr::<u16>(&*r)) && *r == x, "the value is in the arena"); witness!(used > 0, "some"); }
        None => { prop!(want.is_none() && b.level() == lvl, "fails only if it does not fit, consuming nothing"); witness!(true, "none"); }
    }
}
/// Vectors of any capacity.
fn vec<T: Copy + PartialEq>(v: T) {
    let mut a = Arena::<64>::new();
    let (b, base, used) = arena::<20, 64>(&mut a);
    let lvl = b.level();
    let n = nd::usize();
    let want = match n.checked_mul(sz::<T>()) {
        Some(0) => Some(0),
        Some(s) if s <= isize::MAX as usize - (al::<T>() - 1) => first_fit(base + used, base + 20, layout(s, al::<T>())),
        _ => None,
    };
    match b.fixed_vec::<T>(n) {
        Some(mut f) => {
            prop!(want.is_some(), "succeeds only if it fits");
            prop!(f.len() == 0 && f.capacity() == if sz::<T>() == 0 { usize::MAX } else { n }, "an empty vector of the given capacity");
            prop!(n * sz::<T>() == 0 || want == Some(f.as_slice().as_ptr() as usize), "in the arena");
            if n > 0 { prop!(f.push(v).is_ok() && f[0] == v, "usable"); }
        }
        None => prop!(want.is_none() && b.level() == lvl, "fails only if it does not fit, consuming nothing"),
    }
    witness!(n == 2 && want.is_some(), "two");
    witness!(n > 1 << 62, "huge");
}
pub fn c23_vec_u8() { vec::<u8>(nd::u8()) }
pub fn c23_vec_u32() { vec::<u32>(nd::u32()) }
pub fn c23_vec_u24() { vec::<[u8; 3]>([nd::u8(), 1, 2]) }
pub fn c23_vec_u16x2() { vec::<[u16; 2]>([nd::u16(), nd::u16()]) }
pub fn c23_vec_zst() { vec::<()>(()) }

/// Copies of slices are equal, disjoint from the source, and have its length.
fn slice<T: Copy + PartialEq, const K: usize>(src: [T; K], poison: T) {
    let mut a = Arena::<64>::new();
    let (b, base, used) = arena::<20, 64>(&mut a);
    let lvl = b.level();
    let n = nd::upto(K);
    let size = n * sz::<T>();
    let want = if size == 0 { Some(0) } else { first_fit(base + used, base + 20, layout(size, al::<T>())) };
    let before = src;
    match b.copy_slice(&src[..n]) {
        Some(c) => {
            prop!(want.is_some(), "succeeds only if it fits");
            prop!(c.len() == n, "the copy has the length of the source");
            prop!(size == 0 || want == Some(c.as_ptr() as usize), "it is in the arena");
            prop!(c.as_ptr() as usize % al::<T>() == 0, "aligned");
            let i = nd::below(K);
            if i < n {
                prop!(c[i] == src[i], "every element is copied");
                c[i] = poison;
                prop!(src[i] == before[i], "the source is unaffected");
            }
        }
        None => prop!(want.is_none() && b.level() == lvl, "fails only if it does not fit, consuming nothing"),
    }
    witness!(n == K && want.is_some(), "all");
}
pub fn c23_slice_u8() { slice::<u8, 5>([nd::u8(), nd::u8(), nd::u8(), nd::u8(), nd::u8()], nd::u8()) }
pub fn c23_slice_u32() { slice::<u32, 4>([nd::u32(), nd::u32(), nd::u32(), nd::u32()], nd::u32()) }
pub fn c23_slice_u24() { slice::<[u8; 3], 4>([[nd::u8(); 3], [nd::u8(), 0, 1], [nd::u8(); 3], [nd::u8(); 3]], [9; 3]) }
pub fn c23_slice_u16x2() { slice::<[u16; 2], 4>([[nd::u16(), nd::u16()], [1, nd::u16()], [nd::u16(), 2], [nd::u16(), nd::u16()]], [nd::u16(), 7]) }
pub fn c23_slice_zst() { slice::<(), 3>([(); 3], ()) }
pub fn c23_str() {
    let mut a = Arena::<64>::new();
    let (b, base, used) = arena::<6, 64>(&mut a);
    let c0 = nd::u8();
    nd::assume(c0 < 128);
    let bytes = [c0, 0xc3, 0xa4, b'x'];
    let n = [0, 1, 3, 4][nd::below(4)];
    let s = unsafe { core::str::from_utf8_unchecked(&bytes[..n]) };
    let fits = n <= 6 - used;
    match b.copy_str(s) {
        Some(t) => {
            prop!(fits && t.len() == n, "the same length");
            prop!(n == 0 || t.as_ptr() as usize == base + used, "in the arena");
            let i = nd::below(4);
            prop!(i >= n || t.as_bytes()[i] == bytes[i], "the same text");
        }
        None => prop!(!fits, "fails only if it does not fit"),
    }
    witness!(n == 4 && fits && used == 2, "all");
}
/// Copies of dynamically sized values behave like the original.
pub trait Tr { fn id(&self) -> u64; }
impl Tr for u8 { fn id(&self) -> u64 { *self as u64 } }
impl Tr for u64 { fn id(&self) -> u64 { *self } }
impl Tr for [u16; 3] { fn id(&self) -> u64 { self[0] as u64 | (self[1] as u64) << 16 | (self[2] as u64) << 32 } }
impl Tr for D { fn id(&self) -> u64 { self.0 as u64 } }
#[repr(align(32))]
pub struct Za;
impl Tr for Za { fn id(&self) -> u64 { self as *const Za as usize as u64 % 32 } }
fn dst<T: Tr>(v: T) {
    let mut a = Arena::<64>::new();
    let (b, base, used) = arena::<20, 64>(&mut a);
    reset_drops();
    let id = v.id();
    let v = ManuallyDrop::new(v);
    let want = if sz::<T>() == 0 { Some(0) } else { first_fit(base + used, base + 20, layout(sz::<T>(), al::<T>())) };
    let r: &ManuallyDrop<dyn Tr> = &v;
    let c: Option<&mut dyn Tr> = unsafe { b.copy_dst::<dyn Tr>(core::mem::transmute(r)) };
    match c {
        Some(c) => {
            prop!(want.is_some() && (sz::<T>() == 0 || want == Some(addr(c))), "in the arena, if it fits");
            prop!(addr(c) % al::<T>() == 0, "aligned");
            prop!(core::mem::size_of_val(c) == sz::<T>() && c.id() == id, "the same value and type");
        }
        None => prop!(want.is_none(), "fails only if it does not fit"),
    }
    prop!(drops() == 0, "nothing is dropped by copying");
    witness!(want.is_some() && used > 0, "fits");
}
pub fn c23_dst_u8() { dst::<u8>(nd::u8()) }
pub fn c23_dst_u64() { dst::<u64>(nd::u64()) }
pub fn c23_dst_u48() { dst::<[u16; 3]>([nd::u16(), nd::u16(), nd::u16()]) }
pub fn c23_dst_d() { dst::<D>(D(nd::u8())) }
pub fn c23_dst_zst() { dst::<Za>(Za) }

// ---- C27: default methods of the allocator trait ------------------------------
/// A user's allocator that only provides the required methods, over a scratch
/// buffer with arbitrary contents.
pub struct Custom { buf: core::cell::UnsafeCell<[u8; 48]>, next: core::cell::Cell<usize>, frees: core::cell::Cell<usize>, freed: core::cell::Cell<usize>, limit: usize }
unsafe impl<'a> LocalAlloc<'a> for Custom {
    fn alloc(&'a self, l: NonZeroLayout) -> Option<Allocation<'a>> {
        let base = self.buf.get() as *mut u8;
        let at = first_fit(base as usize + self.next.get(), base as usize + self.limit, layout(l.size().get(), l.align()))?;
        self.next.set(at - base as usize + l.size().get());
        Some(Allocation { ptr: unsafe { core::ptr::NonNull::new_unchecked(base.add(at - base as usize)) }, layout: l, lifetime: AllocTime::default() })
    }
    unsafe fn dealloc(&'a self, a: Allocation<'a>) { self.frees.set(self.frees.get() + 1); self.freed.set(a.ptr.as_ptr() as usize); }
}
fn custom(fill: u8) -> Custom {
    Custom { buf: core::cell::UnsafeCell::new([fill; 48]), next: core::cell::Cell::new(nd::below(8)), frees: core::cell::Cell::new(0), freed: core::cell::Cell::new(0), limit: nd::upto(48) }
}
fn nz(s: usize, a: usize) -> NonZeroLayout { NonZeroLayout::from_layout(layout(s, a).into()).unwrap() }
pub fn c27_default_zeroed() {
    let fill = nd::u8();
    let c = custom(fill);
    nd::assume(c.limit >= 8);
    let (s, a) = (nd::below(20) + 1, 1 << nd::below(4));
    match c.alloc_zeroed(nz(s, a)) {
        Some(m) => {
            let i = nd::below(20);
            prop!(i >= s || unsafe { *m.ptr.as_ptr().add(i) } == 0, "all bytes are zero");
            prop!(m.layout == nz(s, a) && m.ptr.as_ptr() as usize % a == 0, "of the layout requested");
            let (j, base) = (nd::below(48), c.buf.get() as *const u8);
            prop!(inside(base as usize + j, 1, m.ptr.as_ptr() as usize, s) || unsafe { *base.add(j) } == fill, "nothing outside the block is written");
            witness!(s == 20 && a == 8, "large");
        }
        None => { prop!(c.alloc(nz(s, a)).is_none(), "fails only if the allocator does"); witness!(true, "none"); }
    }
    prop!(c.frees.get() == 0, "nothing is released");
}
pub fn c27_default_realloc() {
    let c = custom(0);
    nd::assume(c.limit >= 8);
    let (s, a) = (nd::below(12) + 1, 1 << nd::below(4));
    let (t, b) = (nd::below(16) + 1, 1 << nd::below(4));
    let m = match c.alloc(nz(s, a)) { Some(m) => m, None => return };
    let old = m.ptr.as_ptr();
    let i = nd::below(12);
    let x = nd::u8();
    nd::assume(i < s);
    unsafe { *old.add(i) = x };
    match unsafe { c.realloc(m, nz(t, b)) } {
        Some(n) => {
            prop!(n.layout == nz(t, b) && n.ptr.as_ptr() as usize % b == 0, "of the new layout");
            prop!(i >= t || unsafe { *n.ptr.as_ptr().add(i) } == x, "the common prefix is kept");
            prop!(n.ptr.as_ptr() == old && c.frees.get() == 0 || disjoint(n.ptr.as_ptr() as usize, t, old as usize, s) && c.frees.get() == 1 && c.freed.get() == old as usize, "moved, and the old block is released once");
            let (j, base) = (nd::below(48), c.buf.get() as *const u8);
            let at = base as usize + j;
            prop!(inside(at, 1, old as usize, s) || inside(at, 1, n.ptr.as_ptr() as usize, t) || unsafe { *base.add(j) } == 0, "nothing outside the blocks is written");
            witness!(t > s && b > a, "grown");
            witness!(t < s, "shrunk");
        }
        None => {
            prop!(c.frees.get() == 0 && unsafe { *old.add(i) } == x, "failure keeps the old block");
            prop!(c.alloc(nz(t, b)).is_none(), "fails only if the allocator does");
            witness!(true, "none");
        }
    }
}
/// Layout types describe the layouts they were made from.
pub fn c27_layouts() {
    use core::convert::TryFrom;
    let l = if nd::bool() { any_layout() } else { layout(0, 1 << nd::below(60)) };
    let m = alloc_traits::Layout::from(l);
    prop!(m.size() == l.size() && m.align() == l.align(), "conversion keeps size and alignment");
    prop!(core::alloc::Layout::from(m) == l, "and back");
    let n = NonZeroLayout::from_layout(m);
    prop!(n.is_some() == (l.size() > 0), "exactly the non-empty layouts are non-zero");
    prop!(NonZeroLayout::try_from(m).is_ok() == n.is_some() && NonZeroLayout::try_from(l).is_ok() == n.is_some(), "conversions agree");
    if let Some(n) = n { prop!(n.size().get() == l.size() && n.align() == l.align() && core::alloc::Layout::from(n) == l, "and it is the same layout"); }
    prop!(NonZeroLayout::new::<A16>().unwrap().align() == 16 && NonZeroLayout::new::<[u8; 3]>().unwrap().size().get() == 3, "of types");
    prop!(NonZeroLayout::new::<()>().is_none() && alloc_traits::Layout::new::<u16>().align() == 2, "of types");
    witness!(n.is_none(), "empty");
}

harnesses! {
    c23_typed_u8, 3, quick, normal;
    c23_typed_u32, 3, quick, normal;
    c23_typed_u16x3, 8, quick, normal;
    c23_typed_u16x2, 8, quick, normal;
    c23_typed_u64, 3, quick, normal;
    c23_typed_zst, 3, quick, normal;
    c23_typed_zst8, 3, quick, normal;
    c23_rc, 3, quick, normal;
    c23_vec_u8, 6, quick, normal;
    c23_vec_u32, 6, quick, normal;
    c23_vec_u24, 6, quick, normal;
    c23_vec_u16x2, 6, quick, normal;
    c23_vec_zst, 6, quick, normal;
    c23_slice_u8, 6, quick, normal;
    c23_slice_u32, 6, quick, normal;
    c23_slice_u24, 6, quick, normal;
    c23_slice_u16x2, 6, quick, normal;
    c23_slice_zst, 6, quick, normal;
    c23_str, 6, quick, normal;
    c23_dst_u8, 6, quick, normal;
    c23_dst_u64, 6, quick, normal;
    c23_dst_u48, 6, quick, normal;
    c23_dst_d, 6, quick, normal;
    c23_dst_zst, 6, quick, normal;
    c27_default_zeroed, 3, quick, normal;
    c27_default_realloc, 3, quick, normal;
    c27_layouts, 3, quick, normal;
}
