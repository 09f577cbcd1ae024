//! Histories of requests to arenas and chains of arenas: every block that was
//! handed out stays as it is (C01, C05, C06, C08, C11, C12).
use crate::{nd, util::*};
use alloc_traits::{AllocTime, LocalAlloc, NonZeroLayout};
use core::alloc::{GlobalAlloc, Layout};
use core::mem::{align_of, size_of, MaybeUninit};
use core::ptr::NonNull;
use static_alloc::bump::{Allocation, Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{self, Chain, MemBump};
use static_alloc::Bump;

pub const MAX: usize = 12;
/// What has been handed out, and the address behind all of it.
pub struct Model { at: [usize; MAX], size: [usize; MAX], id: [u8; MAX], n: usize, end: usize, cap: usize, levels: [Option<(Level, usize)>; 9], seen: usize }
impl Model {
    pub fn new(base: usize, len: usize) -> Self {
        Model { at: [0; MAX], size: [0; MAX], id: [0; MAX], n: 0, end: base, cap: base + len, levels: [None; 9], seen: 0 }
    }
    /// Where the next request of this layout goes.
    pub fn fits(&self, size: usize, align: usize) -> Option<usize> {
        let at = (self.end + align - 1) / align * align;
        if size == 0 || at + size <= self.cap { Some(at) } else { None }
    }
    pub fn check(&self) {
        let mut i = 0;
        while i < self.n {
            nd::check(painted(self.at[i] as *const u8, self.size[i], self.id[i]), "what was handed out is unchanged");
            i += 1;
        }
    }
    /// A block was handed out; fill it.
    pub fn add(&mut self, p: *mut u8, size: usize, align: usize, id: u8) {
        let at = p as usize;
        nd::check(at % align == 0, "aligned");
        nd::check(size == 0 || Some(at) == self.fits(size, align), "the first aligned address behind everything handed out");
        if size > 0 { self.end = at + size; }
        paint(p, size, id);
        self.at[self.n] = at;
        self.size[self.n] = size;
        self.id[self.n] = id;
        self.n += 1;
    }
    pub fn level(&mut self, l: Level) {
        let mut i = 0;
        while i < self.seen {
            let k = self.levels[i].unwrap();
            nd::check((k.0 == l) == (k.1 == self.end) && k.0 <= l, "the level tells how much was handed out");
            i += 1;
        }
        self.levels[self.seen] = Some((l, self.end));
        self.seen += 1;
    }
    pub fn any_level(&self) -> (Level, bool) {
        let i = nd::pick(self.seen as u8) as usize;
        let (l, end) = self.levels[i].unwrap();
        (l, end == self.end)
    }
    pub fn refused(&self, e: Failure, current: bool, fits: bool) {
        match e {
            Failure::Exhausted => nd::check(!fits || !current && self.end == self.cap, "there is room"),
            Failure::Mismatch { observed } => nd::check(!current && observed == self.levels[self.seen - 1].unwrap().0, "the level is current"),
        }
    }
}
pub fn sizes() -> (usize, usize) {
    let size = match nd::below(3) { 0 => 1, 1 => 6, _ => 16 };
    let align = match nd::below(3) { 0 => 1, 1 => 4, _ => 16 };
    (size, align)
}
pub fn lay(s: usize, a: usize) -> Layout { Layout::from_size_align(s, a).unwrap() }

/// Arenas of both kinds.
pub trait Arena {
    fn raw(&self, l: Layout) -> Option<*mut u8>;
    /// A level-exact request, and the level behind the block if it is told.
    fn raw_at(&self, l: Layout, at: Level) -> Result<(*mut u8, Option<Level>), Failure>;
    fn typed<V>(&self, at: Option<Level>) -> Result<Allocation<'_, V>, Failure>;
    fn lvl(&self) -> Level;
}
impl<T> Arena for Bump<T> {
    fn raw(&self, l: Layout) -> Option<*mut u8> { self.alloc(l).map(|p| p.as_ptr()) }
    fn raw_at(&self, l: Layout, at: Level) -> Result<(*mut u8, Option<Level>), Failure> { if nd::bool() { self.alloc_at(l, at) } else { self.get_layout_at(l, at) }.map(|a| (a.ptr.as_ptr(), Some(a.level))) }
    fn typed<V>(&self, at: Option<Level>) -> Result<Allocation<'_, V>, Failure> { match at { Some(l) => self.get_at(l), None => self.get().ok_or(Failure::Exhausted) } }
    fn lvl(&self) -> Level { self.level() }
}
impl Arena for MemBump {
    fn raw(&self, l: Layout) -> Option<*mut u8> { self.alloc(l).map(|p| p.as_ptr()) }
    fn raw_at(&self, l: Layout, at: Level) -> Result<(*mut u8, Option<Level>), Failure> { self.alloc_at(l, at).map(|a| (a.as_ptr(), None)) }
    fn typed<V>(&self, at: Option<Level>) -> Result<Allocation<'_, V>, Failure> { match at { Some(l) => self.get_at(l), None => self.get().ok_or(Failure::Exhausted) } }
    fn lvl(&self) -> Level { self.level() }
}
/// A typed request, current or at a level.
pub fn typed_in<V, A: Arena + ?Sized>(a: &A, m: &mut Model, id: u8) {
    let (l, current) = if nd::bool() { let (l, c) = m.any_level(); (Some(l), c) } else { (None, true) };
    let fits = m.fits(size_of::<V>(), align_of::<V>()).is_some();
    match a.typed::<V>(l) {
        Ok(x) => {
            nd::check(current && fits, "only at the current level, and if there is room");
            m.add(x.ptr.as_ptr() as *mut u8, size_of::<V>(), align_of::<V>(), id);
            nd::check(x.level == a.lvl(), "the level behind the value");
        }
        Err(e) => m.refused(e, current, fits),
    }
}
#[repr(align(16))]
#[allow(dead_code)]
pub struct Wide([u8; 16]);
pub fn any_request<A: Arena + ?Sized>(a: &A, m: &mut Model, id: u8) {
    match nd::below(5) {
        0 => { let (s, al) = sizes(); match a.raw(lay(s, al)) { Some(p) => m.add(p, s, al, id), None => nd::check(m.fits(s, al).is_none(), "refused only if it does not fit") } }
        1 => {
            let (s, al) = sizes();
            let (l, current) = m.any_level();
            let fits = m.fits(s, al).is_some();
            match a.raw_at(lay(s, al), l) { Ok((p, behind)) => { nd::check(current, "only at the current level"); m.add(p, s, al, id); nd::check(behind.map_or(true, |l| l == a.lvl()), "the level behind the block") } Err(e) => m.refused(e, current, fits) }
        }
        2 => typed_in::<u8, A>(a, m, id),
        3 => typed_in::<Wide, A>(a, m, id),
        _ => typed_in::<[u64; 0], A>(a, m, id),
    }
}
pub fn requests<A: Arena + ?Sized>(a: &A, base: usize, len: usize, steps: u8, with: impl Fn(&A, &mut Model, u8)) {
    let mut m = Model::new(base, len);
    m.level(a.lvl());
    for i in 0..steps {
        with(a, &mut m, i + 1);
        m.check();
        m.level(a.lvl());
    }
    nd::cover(m.n == steps as usize, "all served");
    if steps > 1 { nd::cover(m.n < steps as usize, "refused"); }
}
/// An arena at two kinds of addresses.
#[macro_export]
macro_rules! place { ($b:ident, $t:ty, $new:expr) => {
    let mut mem: [MaybeUninit<u128>; 6] = [MaybeUninit::uninit(); 6];
    let off = nd::pick(2) as usize * 8;
    let p = unsafe { (mem.as_mut_ptr() as *mut u8).add(off) } as *mut $t;
    unsafe { p.write($new) };
    let $b: &mut $t = unsafe { &mut *p };
} }
fn sync(steps: u8) {
    place!(b, Bump<[u8; 37]>, Bump::uninit());
    // The storage is at the end of the object or right behind the counter.
    let base = b.get::<u8>().unwrap().ptr.as_ptr() as usize;
    nd::check(base >= b as *const _ as usize && base + 37 <= b as *const _ as usize + size_of::<Bump<[u8; 37]>>(), "inside of the arena");
    b.reset();
    requests(&*b, base, 37, steps, any_request);
    b.reset();
    requests(&*b, base, 37, 1, any_request_once);
}
fn any_request_once<A: Arena + ?Sized>(a: &A, m: &mut Model, id: u8) {
    let all = m.cap - m.end;
    match a.raw(lay(all, 1)) { Some(p) => m.add(p, all, 1, id), None => nd::check(false, "after a reset there is room for everything") }
    nd::check(a.raw(lay(1, 1)).is_none(), "but not for more");
    if id == 0 { any_request(a, m, id) }
}
fn unsync_inline(steps: u8) {
    place!(b, unsync::Bump<[u8; 40]>, unsync::Bump::uninit());
    let base = b.data_ptr().as_ptr() as usize;
    requests::<MemBump>(b, base, b.capacity(), steps, any_request);
}
fn unsync_heap(steps: u8) {
    let heap = nd::heap();
    let b = MemBump::new(33);
    let base = b.data_ptr().as_ptr() as usize;
    nd::check(b.capacity() >= 33, "as much as asked for");
    requests::<MemBump>(&b, base, b.capacity(), steps, any_request);
    drop(b);
    nd::check(nd::heap() == heap, "the memory is released");
}
fn unsync_mem(steps: u8) {
    let mut mem: [MaybeUninit<u8>; 64] = [MaybeUninit::uninit(); 64];
    let off = nd::pick(3) as usize;
    let obj = &mut mem[off..off + 53];
    let range = (obj.as_ptr() as usize, obj.as_ptr() as usize + 53);
    let b = MemBump::from_mem(obj).ok().unwrap();
    let base = b.data_ptr().as_ptr() as usize;
    nd::check(base >= range.0 && base + b.capacity() <= range.1, "inside of the memory");
    requests::<MemBump>(&b, base, b.capacity(), steps, any_request);
}

/// Values in the thread-safe arena: drops, and requests for any type.
fn values(steps: u8) {
    let mut drops = [0u8; 8];
    {
        place!(b, Bump<[u8; 70]>, Bump::uninit());
        let b = &*b;
        let base = b as *const _ as usize;
        let end = base + size_of::<Bump<[u8; 70]>>();
        let mut kept: [(usize, u8, bool); 8] = [(0, 0, false); 8];
        let mut n = 0;
        let mut levels = [b.level(); 5];
        for i in 0..steps {
            let before = b.level();
            let wide = nd::bool();
            macro_rules! go { ($t:ty) => {{
                let at = levels[nd::pick(i + 1) as usize];
                let mut keep = |p: *const $t| {
                    nd::check(p as usize % align_of::<$t>() == 0 && p as usize >= base && p as usize + size_of::<$t>() <= end, "inside of the arena");
                    for j in 0..n { let s = if kept[j].2 { size_of::<W>() } else { 1 }; nd::check(kept[j].0 + s <= p as usize, "behind all others"); }
                    kept[n] = (p as usize, i, wide);
                    n += 1;
                };
                let mut gone = false;
                match nd::below(6) {
                    0 => match b.leak(<$t>::make(i)) { Ok(v) => keep(v), Err(e) => { nd::check(e.kind() == Failure::Exhausted && e.into_inner().id() == i, "handed back"); gone = true } },
                    1 => match b.leak_at(<$t>::make(i), at) {
                        Ok((v, l)) => { nd::check(at == before && l == b.level(), "only at the current level"); keep(v) }
                        Err(e) => { nd::check(at != before || e.kind() == Failure::Exhausted, "the level is current"); nd::check(e.into_inner().id() == i, "handed back"); gone = true }
                    },
                    2 => match b.leak_box(<$t>::make(i)) { Some(v) => { keep(&*v); core::mem::forget(v) } None => gone = true },
                    3 => match b.leak_box_at(<$t>::make(i), at) { Ok(v) => { nd::check(at == before, "only at the current level"); keep(&*v); core::mem::forget(v) } Err(e) => { nd::check(at != before || e == Failure::Exhausted, "the level is current"); gone = true } },
                    4 => { drop(b.leak_box(<$t>::make(i))); gone = true }
                    _ => match b.get::<$t>() { Some(a) => { let v = unsafe { a.boxed(<$t>::make(i)) }; keep(LeakBox::leak(v)) } None => { drop(<$t>::make(i)); gone = true } },
                }
                drops[i as usize] = gone as u8;
            }} }
            if wide { go!(W) } else { go!(D) }
            levels[i as usize + 1] = b.level();
            for j in 0..n {
                nd::check(if kept[j].2 { unsafe { (*(kept[j].0 as *const W)).id() } } else { unsafe { (*(kept[j].0 as *const D)).0 } } == kept[j].1, "values keep their contents");
            }
            for j in 0..=i { nd::check(dropped(j) == drops[j as usize], "a value is dropped exactly if it was not kept"); }
        }
        nd::cover(n == 2 && kept[0].2 && !kept[1].2, "a value behind an aligned one");
        nd::cover(n == steps as usize, "all kept");
    }
    for j in 0..steps { nd::check(dropped(j) == drops[j as usize], "the arena drops nothing"); }
}

/// Blocks of the allocator interfaces: grown, shrunk, zeroed and released.
fn blocks(steps: u8, global: bool) {
    place!(b, Bump<[u8; 45]>, Bump::uninit());
    let b = &*b;
    let (lo, hi) = (b as *const _ as usize, b as *const _ as usize + size_of::<Bump<[u8; 45]>>());
    struct B { p: *mut u8, size: usize, align: usize, id: u8 }
    let mut live: [Option<B>; 2] = [None, None];
    let nz = |s, a| NonZeroLayout::from_layout(lay(s, a).into()).unwrap();
    let of = |x: &B| alloc_traits::Allocation { ptr: NonNull::new(x.p).unwrap(), layout: nz(x.size, x.align), lifetime: AllocTime::default() };
    let sz = || match nd::below(3) { 0 => 3, 1 => 8, _ => 13 };
    let mut moved = false;
    for i in 0..steps {
        let k = nd::pick(2) as usize;
        let id = i + 1;
        let got = match live[k].take() {
            None => {
                let (s, a) = (sz(), 1 << (nd::pick(2) * 3));
                let zero = nd::bool();
                let p = unsafe { match (global, zero) {
                    (true, false) => NonNull::new(GlobalAlloc::alloc(b, lay(s, a))),
                    (true, true) => NonNull::new(GlobalAlloc::alloc_zeroed(b, lay(s, a))),
                    (false, false) => LocalAlloc::alloc(b, nz(s, a)).map(|x| x.ptr),
                    (false, true) => LocalAlloc::alloc_zeroed(b, nz(s, a)).map(|x| x.ptr),
                } };
                p.map(|p| {
                    if zero { nd::check(painted(p.as_ptr(), s, 0), "zeroed"); }
                    B { p: p.as_ptr(), size: s, align: a, id }
                })
            }
            Some(x) => if nd::bool() {
                let t = sz();
                let a = if global { x.align } else { 1 << (nd::pick(2) * 3) };
                let p = unsafe { if global { NonNull::new(GlobalAlloc::realloc(b, x.p, lay(x.size, x.align), t)) } else { LocalAlloc::realloc(b, of(&x), nz(t, a)).map(|y| { nd::check(y.layout == nz(t, a), "of the new layout"); y.ptr }) } };
                match p {
                    Some(p) => {
                        nd::check(painted(p.as_ptr(), if x.size < t { x.size } else { t }, x.id), "contents are kept");
                        moved |= p.as_ptr() != x.p;
                        Some(B { p: p.as_ptr(), size: t, align: a, id })
                    }
                    // The old block stays.
                    None => { live[k] = Some(x); None }
                }
            } else {
                unsafe { if global { GlobalAlloc::dealloc(b, x.p, lay(x.size, x.align)) } else { LocalAlloc::dealloc(b, of(&x)) } }
                None
            },
        };
        if let Some(x) = got {
            nd::check(x.p as usize % x.align == 0 && x.p as usize >= lo && x.p as usize + x.size <= hi, "aligned and in bounds");
            if let Some(o) = &live[1 - k] { nd::check(x.p as usize + x.size <= o.p as usize || o.p as usize + o.size <= x.p as usize, "disjoint from the other block"); }
            paint(x.p, x.size, x.id);
            live[k] = Some(x);
        }
        for x in live.iter().flatten() { nd::check(painted(x.p, x.size, x.id), "blocks keep their contents"); }
    }
    nd::cover(moved && live[0].is_some() && live[1].is_some(), "a block was moved");
}

/// Typed boxes and arrays of the unsynchronised arena.
fn boxes(steps: u8) {
    let arrays = |a: &MemBump, m: &mut Model, id: u8| {
        fn arr<V>(a: &MemBump, m: &mut Model, id: u8) {
            let n = nd::pick(4) as usize;
            let n = if n == 3 { usize::MAX / 2 } else { n };
            let size = size_of::<V>().checked_mul(n);
            let fits = size.map_or(false, |s| s < 1000 && m.fits(s, align_of::<V>()).is_some());
            match a.bump_array::<V>(n) {
                Ok(mut x) => { nd::check(fits, "only if it fits"); nd::check(x.len() == n, "as many as asked for"); let p = x.as_mut_ptr() as *mut u8; m.add(p, size_of::<V>() * n, align_of::<V>(), id) }
                Err(e) => nd::check(!fits && e == Failure::Exhausted, "refused only if it does not fit"),
            }
        }
        fn one<V>(a: &MemBump, m: &mut Model, id: u8) {
            let fits = m.fits(size_of::<V>(), align_of::<V>()).is_some();
            match a.bump_box::<V>() {
                Ok(mut x) => { nd::check(fits, "only if it fits"); let p = x.as_mut_ptr() as *mut u8; core::mem::forget(x); m.add(p, size_of::<V>(), align_of::<V>(), id) }
                Err(e) => nd::check(!fits && e == Failure::Exhausted, "refused only if it does not fit"),
            }
        }
        match nd::below(7) {
            0 => arr::<u8>(a, m, id),
            1 => arr::<u64>(a, m, id),
            2 => arr::<[u8; 3]>(a, m, id),
            3 => one::<u8>(a, m, id),
            4 => one::<Wide>(a, m, id),
            5 => one::<[u32; 0]>(a, m, id),
            _ => typed_in::<u32, MemBump>(a, m, id),
        }
    };
    place!(b, unsync::Bump<[u8; 32]>, unsync::Bump::uninit());
    let base = b.data_ptr().as_ptr() as usize;
    requests::<MemBump>(b, base, b.capacity(), steps, arrays);
}

/// Chains that grow and merge while references into them live.
fn chains(steps: u8) {
    let heap = nd::heap();
    let mut links = 1;
    {
        let c = Chain::new(20).ok().unwrap();
        // Address, size and id of each value.
        let mut v: [(usize, usize, u8); 6] = [(0, 0, 0); 6];
        let mut n = 0;
        let mut room = c.remaining_capacity();
        nd::check(room >= 20 && c.capacity() == room, "a new chain is empty");
        for i in 0..steps {
            match nd::below(5) {
                0 => {
                    let size = if nd::bool() { 9 } else { 0 };
                    let d = Chain::new(size).ok().unwrap();
                    room = d.remaining_capacity();
                    nd::check(room >= size, "as much as asked for");
                    c.chain(d);
                    links += 1;
                }
                1 => {
                    // A chain with its own links, and a value nobody refers to any more.
                    let d = Chain::new(10).ok().unwrap();
                    let e = Chain::new(30).ok().unwrap();
                    let _ = e.bump_box::<[u8; 3]>();
                    let r = e.remaining_capacity();
                    if nd::bool() { d.chain(Chain::new(5).ok().unwrap()); links += 1; }
                    d.chain(e);
                    nd::check(d.remaining_capacity() == r, "requests go to the newest link");
                    room = r;
                    c.chain(d);
                    links += 2;
                }
                k => {
                    let size = [1, 8, 16][k as usize - 2];
                    let p = match k {
                        2 => c.bump_box::<u8>().map(|b| LeakBox::leak(b).as_mut_ptr() as usize),
                        3 => c.bump_box::<[u8; 8]>().map(|b| LeakBox::leak(b).as_mut_ptr() as usize),
                        _ => c.bump_box::<[u8; 16]>().map(|b| LeakBox::leak(b).as_mut_ptr() as usize),
                    };
                    nd::check(p.is_ok() == (size <= room), "exactly if the newest link has room");
                    if let Ok(p) = p {
                        for j in 0..n { nd::check(p + size <= v[j].0 || v[j].0 + v[j].1 <= p, "disjoint"); }
                        paint(p as *mut u8, size, i + 1);
                        v[n] = (p, size, i + 1);
                        n += 1;
                        room -= size;
                    }
                }
            }
            nd::check(c.remaining_capacity() == room, "the room of the newest link");
            nd::check(nd::heap() > heap && nd::heap() <= heap + links, "every link is one block");
            for j in 0..n { nd::check(painted(v[j].0 as *const u8, v[j].1, v[j].2), "values in all links stay"); }
        }
        nd::cover(n == 2 && links == 4, "values in several links");
    }
    nd::check(nd::heap() == heap, "every link is released exactly once");
}

/// Requests at a level: for memory, for values, and of values to keep.
fn exact<A: Arena + ?Sized>(a: &A, m: &mut Model, id: u8) {
    match nd::below(5) {
        0 => { let (s, al) = sizes(); match a.raw(lay(s, al)) { Some(p) => m.add(p, s, al, id), None => nd::check(m.fits(s, al).is_none(), "refused only if it does not fit") } }
        1 | 2 => {
            let (s, al) = sizes();
            let (l, current) = m.any_level();
            let fits = m.fits(s, al).is_some();
            match a.raw_at(lay(s, al), l) {
                Ok((p, behind)) => { nd::check(current && fits, "only at the current level, and if there is room"); m.add(p, s, al, id); nd::check(behind.map_or(true, |l| l == a.lvl()), "the level behind the block") }
                Err(e) => m.refused(e, current, fits),
            }
        }
        3 => typed_in::<u32, A>(a, m, id),
        _ => typed_in::<Wide, A>(a, m, id),
    }
}
fn exact_sync(steps: u8) {
    place!(b, Bump<[u8; 37]>, Bump::uninit());
    let base = b.get::<u8>().unwrap().ptr.as_ptr() as usize;
    b.reset();
    requests(&*b, base, 37, steps, exact);
}
fn exact_unsync(steps: u8) {
    place!(b, unsync::Bump<[u8; 40]>, unsync::Bump::uninit());
    let base = b.data_ptr().as_ptr() as usize;
    requests::<MemBump>(b, base, b.capacity(), steps, exact);
}
/// Values at a level: each is stored, or handed back or dropped.
fn exact_values(steps: u8) {
    place!(b, Bump<[u8; 20]>, Bump::uninit());
    let base = b.get::<u8>().unwrap().ptr.as_ptr() as usize;
    b.reset();
    let b = &*b;
    let mut m = Model::new(base, 20);
    m.level(b.level());
    for i in 0..steps {
        macro_rules! go { ($t:ty, $v:expr) => {{
            let (l, current) = m.any_level();
            let fits = m.fits(size_of::<$t>(), align_of::<$t>()).is_some();
            let r = match nd::below(2) {
                0 => b.leak_at::<$t>($v, l).map(|(v, at)| { nd::check(at == b.level(), "the level behind the value"); v as *mut $t }).map_err(|e| { let k = e.kind(); nd::check(e.into_inner() == $v, "handed back"); k }),
                _ => b.leak_box_at::<$t>($v, l).map(|v| LeakBox::into_raw(v)),
            };
            match r {
                Ok(p) => {
                    nd::check(current && fits, "only at the current level, and if there is room");
                    nd::check(unsafe { p.read() } == $v, "stored");
                    m.add(p as *mut u8, size_of::<$t>(), align_of::<$t>(), i + 1)
                }
                Err(e) => m.refused(e, current, fits),
            }
        }} }
        match nd::below(3) {
            0 => go!(u8, i),
            1 => go!(u64, 77 + i as u64),
            _ => go!([u8; 9], [i; 9]),
        }
        m.check();
        m.level(b.level());
    }
    nd::cover(m.n == 2, "two values");
}
/// Rounds of requests, each from the start.
fn rounds_sync(steps: u8) {
    let value = [nd::u8(), 2, 3, 4, 5];
    let kind = nd::pick(3);
    place!(b, Bump<[u8; 37]>, if kind == 0 { Bump::uninit() } else if kind == 1 { Bump::zeroed() } else { let mut v = [9u8; 37]; v[..5].copy_from_slice(&value); v[32..].copy_from_slice(&value); Bump::new(v) });
    let fresh = b.level();
    let first = b.get::<[u8; 37]>().unwrap().ptr.as_ptr() as *const u8;
    if kind == 1 { nd::check(painted(first, 37, 0), "zeroed"); }
    if kind == 2 {
        nd::check(painted(unsafe { first.add(5) }, 27, 9), "the bytes of the value");
        for i in 0..5 { nd::check(unsafe { *first.add(i) == value[i] && *first.add(i + 32) == value[i] }, "the bytes of the value"); }
    }
    let base = first as usize;
    for _ in 0..2 {
        b.reset();
        nd::check(b.level() == fresh, "as on a new arena");
        requests(&*b, base, 37, steps, any_request);
    }
    b.reset();
    requests(&*b, base, 37, 1, any_request_once);
}
fn rounds_unsync(steps: u8, heap: bool) {
    if heap {
        let mut b = MemBump::new(33);
        let base = b.data_ptr().as_ptr() as usize;
        let (fresh, cap) = (b.level(), b.capacity());
        for _ in 0..2 {
            requests::<MemBump>(&*b, base, cap, steps, any_request);
            b.reset();
            nd::check(b.level() == fresh && b.capacity() == cap && b.data_ptr().as_ptr() as usize == base, "as on a new arena");
        }
        requests::<MemBump>(&*b, base, cap, 1, any_request_once);
    } else {
        let zero = nd::pick(2) == 1;
        place!(b, unsync::Bump<[u8; 40]>, if zero { unsync::Bump::zeroed() } else { unsync::Bump::uninit() });
        let base = b.data_ptr().as_ptr() as usize;
        let (fresh, cap) = (b.level(), b.capacity());
        if zero {
            let p = b.get::<[u8; 40]>().unwrap();
            nd::check(painted(p.ptr.as_ptr() as *const u8, 40, 0), "zeroed");
        }
        for _ in 0..2 {
            b.reset();
            nd::check(b.level() == fresh && b.capacity() == cap, "as on a new arena");
            requests::<MemBump>(b, base, cap, steps, any_request);
        }
        b.reset();
        requests::<MemBump>(b, base, cap, 1, any_request_once);
    }
}
/// An arena that is taken apart and made again between requests.
fn wrapped(steps: u8) {
    let mut mem: [MaybeUninit<u64>; 10] = [MaybeUninit::new(0xa5a5a5a5a5a5a5a5); 10];
    let off = nd::pick(3) as usize * 4 + 1;
    let len = 40 + nd::pick(2) as usize * 5;
    let all = unsafe { core::slice::from_raw_parts_mut((mem.as_mut_ptr() as *mut MaybeUninit<u8>).add(off), len) };
    let (lo, hi) = (all.as_ptr() as usize, all.as_ptr() as usize + len);
    let mut b = MemBump::from_mem(all).ok().unwrap();
    let mut base = b.data_ptr().as_ptr() as usize;
    let mut m = Model::new(base, b.capacity());
    m.level(b.level());
    let fresh = b.level();
    let mut again = false;
    for i in 0..steps {
        nd::check(base >= lo && base + b.capacity() <= hi, "inside of the memory");
        match nd::below(4) {
            0 => {
                // The same arena again.
                let (cap, l) = (b.capacity(), b.level());
                let at = &*b as *const MemBump as *const u8 as usize;
                let back = MemBump::into_mem(b);
                nd::check(back.as_ptr() as usize == at && back.len() >= cap, "the memory of the arena");
                nd::check(back.as_ptr() as usize >= lo && back.as_ptr() as usize + back.len() <= hi, "inside of the memory");
                b = unsafe { MemBump::from_mem_unchecked(back) };
                nd::check(b.capacity() == cap && b.level() == l && b.data_ptr().as_ptr() as usize == base, "the same arena");
                again = m.n > 0;
            }
            1 => {
                // A new arena in its memory, or in a part of it.
                let cap = b.capacity();
                let back = MemBump::into_mem(b);
                let cut = nd::pick(2) as usize * 3;
                let n = back.len();
                b = MemBump::from_mem(&mut back[cut..]).ok().unwrap();
                base = b.data_ptr().as_ptr() as usize;
                nd::check(b.level() == fresh, "a new arena is empty");
                nd::check(if cut == 0 { b.capacity() == cap && n >= cap } else { b.capacity() + 8 == cap }, "everything behind the bookkeeping");
                m = Model::new(base, b.capacity());
                m.level(b.level());
            }
            2 => any_request::<MemBump>(&b, &mut m, i + 1),
            _ => { let (s, al) = sizes(); match b.raw(lay(s, al)) { Some(p) => m.add(p, s, al, i + 1), None => nd::check(m.fits(s, al).is_none(), "refused only if it does not fit") } }
        }
        m.check();
        m.level(b.level());
    }
    nd::cover(again && m.n == steps as usize - 1, "made again with memory in use");
}

#[no_mangle]
pub extern "C-unwind" fn c03_history() { sync(2) }
#[no_mangle]
pub extern "C-unwind" fn c04_history_sync() { exact_sync(2) }
#[no_mangle]
pub extern "C-unwind" fn c04_history_unsync() { exact_unsync(2) }
#[no_mangle]
pub extern "C-unwind" fn c04_history_values() { exact_values(3) }
#[no_mangle]
pub extern "C-unwind" fn c04_history_3() { exact_sync(3) }
#[no_mangle]
pub extern "C-unwind" fn c07_history_sync() { rounds_sync(1) }
#[no_mangle]
pub extern "C-unwind" fn c07_history_unsync() { rounds_unsync(1, false) }
#[no_mangle]
pub extern "C-unwind" fn c07_history_heap() { rounds_unsync(1, true) }
#[no_mangle]
pub extern "C-unwind" fn c09_history() { wrapped(2) }
#[no_mangle]
pub extern "C-unwind" fn c09_history_3() { wrapped(3) }
#[no_mangle]
pub extern "C-unwind" fn c01_history() { sync(2) }
#[no_mangle]
pub extern "C-unwind" fn c01_history_3() { sync(3) }
#[no_mangle]
pub extern "C-unwind" fn c08_history_inline() { unsync_inline(2) }
#[no_mangle]
pub extern "C-unwind" fn c08_history_heap() { unsync_heap(2) }
#[no_mangle]
pub extern "C-unwind" fn c08_history_mem() { unsync_mem(2) }
#[no_mangle]
pub extern "C-unwind" fn c05_history() { values(3) }
#[no_mangle]
pub extern "C-unwind" fn c06_history_global() { blocks(3, true) }
#[no_mangle]
pub extern "C-unwind" fn c06_history_local() { blocks(3, false) }
#[no_mangle]
pub extern "C-unwind" fn c12_history() { boxes(3) }
#[no_mangle]
pub extern "C-unwind" fn c11_history() { chains(4) }

crate::harnesses! {
    c01_history, quick;
    c01_history_3, thorough;
    c08_history_inline, quick;
    c08_history_heap, quick;
    c08_history_mem, quick;
    c05_history, quick;
    c06_history_global, quick;
    c06_history_local, quick;
    c12_history, quick;
    c11_history, quick;
    c03_history, quick;
    c04_history_sync, quick;
    c04_history_unsync, quick;
    c04_history_values, quick;
    c04_history_3, thorough;
    c07_history_sync, quick;
    c07_history_unsync, quick;
    c07_history_heap, quick;
    c09_history, quick;
    c09_history_3, thorough;
}
