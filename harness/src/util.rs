use crate::nd;
use core::alloc::Layout;
use core::mem::MaybeUninit;

/// Backing memory.  Objects are placed at a symbolic multiple of eight inside
/// it, so that the base alignment of an arena is symbolic too (the solver's
/// own object bases are always maximally aligned).  It is a plain byte array:
/// the solver models block copies of symbolic length precisely only on those.  The first slot is never
/// used, so alignments above the native page alignment can never be met by
/// the start of the object, neither in the model nor natively.
#[repr(C)]
#[cfg_attr(kani, repr(align(64)))]
#[cfg_attr(not(kani), repr(align(4096)))]
pub struct Arena<const N: usize>(pub [u8; N]);
impl<const N: usize> Arena<N> {
    pub fn new() -> Self { Arena([0; N]) }
    pub fn ptr(&mut self) -> *mut u8 { self.0.as_mut_ptr() }
    /// To check later that nothing was written outside of an object in here.
    pub fn guard(&mut self) -> Guard<N> { Guard(self.ptr()) }
    /// Place `val` at a symbolic slot (a multiple of eight bytes).
    pub fn place<V>(&mut self, val: V) -> &mut V {
        let a = core::mem::align_of::<V>();
        let step = if a > 8 { a } else { 8 };
        let i = nd::usize();
        nd::assume(i >= 1 && i <= (N - core::mem::size_of::<V>()) / step);
        let p = unsafe { self.ptr().add(i * step) } as *mut V;
        unsafe { p.write(val); &mut *p }
    }
    /// Place `val` at a fixed slot.
    pub fn place_at<V>(&mut self, slot: usize, val: V) -> &mut V {
        let p = unsafe { self.ptr().add(slot * 8) } as *mut V;
        prop!(p as usize % core::mem::align_of::<V>() == 0, "harness: aligned slot");
        unsafe { p.write(val); &mut *p }
    }
    /// A byte slice at a symbolic offset with symbolic length.
    pub fn bytes(&mut self) -> &mut [MaybeUninit<u8>] {
        let off = nd::usize();
        let len = nd::usize();
        nd::assume(off >= 1 && off <= N && len <= N - off);
        unsafe { core::slice::from_raw_parts_mut(self.ptr().add(off) as *mut MaybeUninit<u8>, len) }
    }
}

#[derive(Clone, Copy)]
pub struct Guard<const N: usize>(*mut u8);
impl<const N: usize> Guard<N> {
    /// Every byte outside of `[obj, obj + len)` still is as it was (zero).
    pub fn check(self, obj: usize, len: usize) {
        let i = nd::below(N);
        let at = self.0 as usize + i;
        if at < obj || at - obj >= len {
            prop!(unsafe { *self.0.add(i) } == 0, "nothing is written outside of the arena");
        }
    }
}
pub fn pow2(x: usize) -> bool { x != 0 && x & (x - 1) == 0 }

/// An arbitrary valid layout of non-zero size (full `usize` range).
pub fn any_layout() -> Layout {
    let size = nd::usize();
    let align = nd::usize();
    nd::assume(pow2(align) && size > 0);
    nd::assume(align <= 1 << 62 && size <= (isize::MAX as usize) - (align - 1));
    unsafe { Layout::from_size_align_unchecked(size, align) }
}
/// An arbitrary valid layout with `size <= s`, `align <= a`.
pub fn small_layout(s: usize, a: usize) -> Layout {
    let size = nd::usize();
    let align = nd::usize();
    nd::assume(pow2(align) && align <= a && size > 0 && size <= s);
    unsafe { Layout::from_size_align_unchecked(size, align) }
}
/// Where does `layout` fit into `[start, end)`, at its first aligned address?
pub fn first_fit(start: usize, end: usize, layout: Layout) -> Option<usize> {
    let mis = start & (layout.align() - 1);
    let pad = if mis == 0 { 0 } else { layout.align() - mis };
    let room = end - start;
    if layout.size() <= room && pad <= room - layout.size() { Some(start + pad) } else { None }
}
pub fn inside(inner: usize, ilen: usize, outer: usize, olen: usize) -> bool {
    inner >= outer && ilen <= olen && inner - outer <= olen - ilen
}
pub fn disjoint(a: usize, alen: usize, b: usize, blen: usize) -> bool {
    a + alen <= b || b + blen <= a || alen == 0 || blen == 0
}
pub fn layout(size: usize, align: usize) -> Layout {
    unsafe { Layout::from_size_align_unchecked(size, align) }
}
/// Address of the first byte of a typed pointer.
pub fn addr<T: ?Sized>(p: *const T) -> usize { p as *const u8 as usize }

// ---- drop accounting ------------------------------------------------------
pub static mut DROPS: usize = 0;
pub static mut DROP_LOG: [u8; 8] = [0; 8];
pub fn drops() -> usize { unsafe { DROPS } }
pub fn reset_drops() { unsafe { DROPS = 0; DROP_LOG = [0; 8]; } }
pub fn log(i: usize) -> u8 { unsafe { DROP_LOG[i] } }
/// How many logged drops carry id `x` (first eight).
pub fn logged(x: u8) -> usize {
    let mut n = 0; let mut i = 0;
    while i < 8 { if i < drops() && log(i) == x { n += 1; } i += 1; }
    n
}
/// A value whose drops are recorded, in order.
#[derive(Debug, PartialEq, Eq)]
pub struct D(pub u8);
impl Drop for D {
    fn drop(&mut self) { unsafe { if DROPS < 8 { DROP_LOG[DROPS] = self.0; } DROPS += 1; } }
}
/// A zero-sized value whose drops are counted.
#[derive(Debug, PartialEq, Eq)]
pub struct Z;
impl Drop for Z { fn drop(&mut self) { unsafe { DROPS += 1; } } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(align(16))]
pub struct A16(pub u64);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(align(32))]
pub struct A32(pub u8);

/// How many heap allocations were released so far?  (Under Kani only in
/// harnesses of kind `frees`, where the release function is replaced by one
/// that counts.)
#[cfg(kani)]
pub fn frees() -> usize { unsafe { FREES } }
#[cfg(not(kani))]
pub fn frees() -> usize { crate::track::frees() }
#[cfg(kani)]
static mut FREES: usize = 0;
#[cfg(kani)]
pub fn spin_stub() {}
#[cfg(kani)]
pub unsafe fn dealloc_stub(_: core::ptr::NonNull<u8>, _: Layout) { FREES += 1; }
