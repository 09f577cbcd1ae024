//! C02: allocations of several threads from one arena.
//!
//! The arena is compiled against a stand-in for its atomic counter that lets
//! other threads run before every atomic operation.  A thread that gets to run
//! performs one complete allocation, and can itself be interrupted by another
//! one; what it allocates, and whether and when it runs, is symbolic.
use crate::nd;
use crate::util::*;
use alloc_traits::LocalAlloc;
use core::alloc::{GlobalAlloc, Layout};
use static_alloc::bump::{Bump, Failure, Level};

/// One thread's block: start, size, alignment, and the byte it wrote.
#[derive(Clone, Copy)]
struct Block { at: usize, size: usize, align: usize, byte: u8 }
const NONE: Block = Block { at: 0, size: 0, align: 1, byte: 0 };
struct World {
    arena: *const (),
    /// One allocation on the shared arena, by whichever interface.
    run: fn(*const (), u8, Layout) -> Option<usize>,
    /// How many atomic operations the interrupted thread has begun.
    steps: [usize; 2],
    /// Before which of them the first and the second other thread run.
    at: [usize; 2],
    /// Does the second one interrupt the first one?
    nested: bool,
    running: usize,
    ran: [bool; 2],
    weak: bool,
    /// Do threads write to their memory?
    write: bool,
    blocks: [Block; 4],
    refused: [Block; 2],
    kind: u8,
}
static mut W: World = World { arena: core::ptr::null(), run: never, steps: [0; 2], at: [OFF; 2], nested: false, running: 0, ran: [false; 2], weak: false, write: false, blocks: [NONE; 4], refused: [NONE; 2], kind: 0 };
const OFF: usize = usize::MAX;
fn never(_: *const (), _: u8, _: Layout) -> Option<usize> { None }

/// At most one weak compare-exchange fails without reason.
fn spurious() -> bool { unsafe { if W.weak { W.weak = false; nd::bool() } else { false } } }
fn interrupt() {
    unsafe {
        if W.running == 0 {
            let step = W.steps[0];
            W.steps[0] += 1;
            if step == W.at[0] { other(0); }
            if !W.nested && step == W.at[1] { other(1); }
        } else if W.running == 1 && W.nested {
            let step = W.steps[1];
            W.steps[1] += 1;
            if step == W.at[1] { other(1); }
        }
    }
}
fn other(i: usize) {
    unsafe {
        W.running += 1;
        W.ran[i] = true;
        let l = small_layout(4, 4);
        match (W.run)(W.arena, W.kind, l) {
            Some(at) => record(i + 1, at, l),
            None if W.kind == 1 && i == 0 && W.nested => (), // overtaken, perhaps
            None => W.refused[i] = Block { at: 0, size: l.size(), align: l.align(), byte: 0 },
        }
        W.running -= 1;
    }
}
fn record(slot: usize, at: usize, l: Layout) {
    let byte = nd::u8();
    let mut i = 0;
    while i < 4 { if i < l.size() && unsafe { W.write } { unsafe { (at as *mut u8).add(i).write(byte) } } i += 1; }
    unsafe { W.blocks[slot] = Block { at, size: l.size(), align: l.align(), byte } }
}
/// The ways to allocate.
fn request<const N: usize>(b: *const (), kind: u8, l: Layout) -> Option<usize> {
    let b = unsafe { &*(b as *const Bump<[u8; N]>) };
    match kind {
        0 => b.alloc(l).map(|p| p.as_ptr() as usize),
        1 => { let lvl = b.level(); b.alloc_at(l, lvl).ok().map(|a| a.ptr.as_ptr() as usize) }
        2 => { let p = unsafe { GlobalAlloc::alloc(b, l) }; if p.is_null() { None } else { Some(p as usize) } }
        // A byte that grows.
        10 => {
            let one = alloc_traits::NonZeroLayout::from_layout(layout(1, 1).into()).unwrap();
            let all = alloc_traits::NonZeroLayout::from_layout(l.into()).unwrap();
            let a = LocalAlloc::alloc(b, one)?;
            unsafe { LocalAlloc::realloc(b, a, all) }.map(|a| a.ptr.as_ptr() as usize)
        }
        11 => unsafe {
            let p = GlobalAlloc::alloc(b, layout(1, l.align()));
            if p.is_null() { return None }
            let p = GlobalAlloc::realloc(b, p, layout(1, l.align()), l.size());
            if p.is_null() { None } else { Some(p as usize) }
        },
        _ => b.get_layout(l).map(|a| a.ptr.as_ptr() as usize),
    }
}
/// Everything handed out is inside, aligned, disjoint, and still holds what its
/// owner wrote.
fn check<const N: usize>(b: &Bump<[u8; N]>) {
    let (lo, n) = (b as *const _ as usize, core::mem::size_of::<Bump<[u8; N]>>());
    let mut i = 0;
    while i < 4 {
        let x = unsafe { W.blocks[i] };
        if x.size > 0 {
            prop!(inside(x.at, x.size, lo, n), "inside the arena");
            prop!(x.at % x.align == 0, "aligned");
            let mut j = i + 1;
            while j < 4 {
                let y = unsafe { W.blocks[j] };
                prop!(disjoint(x.at, x.size, y.at, y.size), "blocks of different threads are disjoint");
                j += 1;
            }
            let k = nd::below(4);
            if unsafe { W.write } && k < x.size { prop!(unsafe { *(x.at as *const u8).add(k) } == x.byte, "keeps what its owner wrote"); }
        }
        i += 1;
    }
    // Memory never comes back, so whoever was refused has to be refused again.
    let i = nd::below(2);
    let x = unsafe { W.refused[i] };
    if x.size > 0 { prop!(no_room(b, layout(x.size, x.align)), "other threads are refused only if the request does not fit"); }
}
fn setup<const N: usize>(b: &Bump<[u8; N]>, kind: u8, nested: bool, write: bool) {
    unsafe {
        W = World { arena: b as *const _ as *const (), run: request::<N>, steps: [0; 2], at: [OFF; 2], nested, running: 0, ran: [false; 2], weak: false, write, blocks: [NONE; 4], refused: [NONE; 2], kind };
        // An arbitrary fill level to start from.
        let l0 = nd::below(4);
        if l0 > 0 { let p = b.alloc(layout(l0, 1)); prop!(p.is_some(), "harness: fits"); record(3, p.unwrap().as_ptr() as usize, layout(l0, 1)); }
        atomic_polyfill::HOOK = interrupt;
        atomic_polyfill::WEAK_FAILS = spurious;
    }
}
fn go() {
    unsafe {
        W.steps = [0; 2];
        W.at = [nd::usize(), nd::usize()];
        if !W.nested { nd::assume(W.at[0] <= W.at[1]); }
        W.weak = true;
    }
}
fn no_room<const N: usize>(b: &Bump<[u8; N]>, l: Layout) -> bool { b.get_layout_at(l, b.level()).is_err() }
fn quiet() { unsafe { W.at = [OFF; 2]; W.weak = false; } }
fn ran() -> usize { unsafe { W.ran[0] as usize + W.ran[1] as usize } }

/// One allocation, interrupted.
fn one<const N: usize>(kind: u8, others: u8, nested: bool) {
    let b = &Bump::<[u8; N]>::uninit();
    setup(b, others, nested, false);
    let l = small_layout(4, 4);
    go();
    let got = request::<N>(b as *const _ as *const (), kind, l);
    quiet();
    let n = ran();
    match got {
        Some(at) => record(0, at, l),
        // Memory never comes back, so it has to be refused afterwards as well.
        None => if kind != 1 || n == 0 { prop!(no_room(b, l), "fails only if the request does not fit") },
    }
    check(b);
    witness!(got.is_some() && n == 2, "interrupted and successful");
    witness!(got.is_none() && n > 0, "interrupted and failed");
}
pub fn c02_alloc() { one::<12>(0, 1, false) }
pub fn c02_exact() { one::<12>(1, 1, false) }
pub fn c02_global() { one::<12>(2, 1, false) }
pub fn c02_get_layout() { one::<12>(3, 1, false) }
pub fn c02_realloc() { one::<12>(10, 1, false) }
pub fn c02_realloc_global() { one::<12>(11, 1, false) }
pub fn c02_nested() { one::<12>(1, 1, true) }
pub fn c02_nested_alloc() { one::<12>(0, 1, true) }

/// A request at a level seen earlier.
fn exact<const N: usize, const WR: bool>() {
    let b = &Bump::<[u8; N]>::uninit();
    setup(b, 1, false, WR);
    let lvl = b.level();
    let l = small_layout(4, 4);
    let raw = nd::bool();
    go();
    let got = if raw { b.alloc_at(l, lvl) } else { b.get_layout_at(l, lvl) };
    quiet();
    // Did any other thread succeed before?
    let others = unsafe { W.blocks[1].size > 0 || W.blocks[2].size > 0 };
    match got {
        Ok(x) => {
            prop!(!others, "succeeds only if nothing else was allocated in between");
            prop!(b.level() == x.level && x.level > lvl, "the level moves behind the block");
            record(0, x.ptr.as_ptr() as usize, l);
        }
        Err(Failure::Mismatch { observed }) => prop!(others && observed > lvl && observed == b.level(), "a mismatch means that another allocation came first"),
        Err(Failure::Exhausted) => prop!(no_room(b, l), "exhausted means that it does not fit"),
    }
    check(b);
    witness!(others, "overtaken");
    witness!(!others && got.is_ok() && ran() > 0, "interrupted by failing requests only");
}
pub fn c02_level_exact() { exact::<6, false>() }

/// Values placed by several threads.
fn leak<const N: usize, const WR: bool>() {
    let b = &Bump::<[u8; N]>::uninit();
    setup(b, 1, false, WR);
    let v = nd::u16();
    go();
    let got = b.leak(v);
    quiet();
    let n = ran();
    match got {
        Ok(r) => {
            prop!(*r == v, "the value");
            record(0, r as *mut u16 as usize, layout(2, 2));
        }
        Err(e) => {
            prop!(no_room(b, layout(2, 2)), "fails only if it does not fit");
            prop!(e.into_inner() == v, "the value comes back");
        }
    }
    check(b);
    witness!(n == 2, "interrupted");
}
pub fn c02_leak() { leak::<12, true>() }

// C31: the levels threads see only grow, and nobody waits for a stopped thread.

/// The highest level that any finished operation has reported.
static mut SEEN: Option<Level> = None;
fn seen() -> Option<Level> { unsafe { SEEN } }
/// Where the blocks end, with the level that was reported for each.
static mut ENDS: [Option<(usize, Level)>; 4] = [None; 4];
fn ends(at: usize, size: usize, l: Level) {
    unsafe {
        let mut i = 0;
        while i < 4 { if ENDS[i].is_none() { ENDS[i] = Some((at + size, l)); return; } i += 1; }
    }
    prop!(false, "harness: few blocks");
}
/// Each level is that of the end of its block, whoever looks at it later.
fn ends_agree<const N: usize>(b: &Bump<[u8; N]>) {
    let now = b.level();
    let mut i = 0;
    let mut top = None;
    while i < 4 {
        if let Some((end, l)) = unsafe { ENDS[i] } {
            let mut j = i + 1;
            while j < 4 {
                if let Some((e, m)) = unsafe { ENDS[j] } {
                    prop!((l < m) == (end < e) && (m < l) == (e < end), "levels are ordered as the blocks they belong to");
                }
                j += 1;
            }
            if top < Some((end, l)) { top = Some((end, l)); }
        }
        i += 1;
    }
    if let Some((_, l)) = top { prop!(l == now, "the level of the last block is the one that stays"); }
}
fn report(before: Option<Level>, l: Level, grows: bool) {
    prop!(if grows { Some(l) > before } else { Some(l) >= before }, "never behind what a finished operation reported");
    unsafe { if Some(l) > SEEN { SEEN = Some(l) } }
}
/// One operation that reports a level; `lvl` is some level seen earlier.
fn look<const N: usize>(b: &Bump<[u8; N]>, kind: u8, lvl: Level, l: Layout) {
    let before = seen();
    match kind {
        0 => report(before, b.level(), false),
        1 => if let Some(a) = b.get_layout(l) { ends(a.ptr.as_ptr() as usize, l.size(), a.level); report(before, a.level, true) },
        2 => match b.get_layout_at(l, lvl) {
            Ok(a) => { prop!(a.level > lvl, "behind the level it was made at"); ends(a.ptr.as_ptr() as usize, l.size(), a.level); report(before, a.level, true) }
            Err(Failure::Mismatch { observed }) => { prop!(observed > lvl, "another level, which was current"); report(before, observed, false) }
            Err(Failure::Exhausted) => (),
        },
        3 => { let a = b.get::<[u16; 0]>().unwrap(); report(before, a.level, false) }
        // Memory that is given back, shrunk or grown.
        5 => if let Some(a) = b.get_layout(l) {
            report(before, a.level, true);
            let (p, before) = (a.ptr.as_ptr(), seen());
            unsafe { GlobalAlloc::dealloc(b, p, l) };
            report(before, b.level(), false)
        },
        6 => if let Some(a) = b.get_layout(l) {
            report(before, a.level, true);
            let (p, before, size) = (a.ptr.as_ptr(), seen(), 1 + nd::below(4));
            unsafe { GlobalAlloc::realloc(b, p, l, size) };
            report(before, b.level(), false)
        },
        7 => {
            let one = |n| alloc_traits::NonZeroLayout::from_layout(layout(n, 1).into()).unwrap();
            if let Some(a) = LocalAlloc::alloc(b, one(2)) {
                report(before, b.level(), true);
                let before = seen();
                let size = 1 + nd::below(3);
                unsafe { match nd::bool() {
                    true => LocalAlloc::dealloc(b, a),
                    false => { let _ = LocalAlloc::realloc(b, a, one(size)); }
                } }
                report(before, b.level(), false)
            }
        }
        8 => {
            report(before, b.level(), false);
            let before = seen();
            if let Some(x) = b.leak_box(7u16) { drop(x) }
            report(before, b.level(), false)
        }
        _ => match b.leak_at(7u16, lvl) {
            Ok((r, level)) => { ends(r as *const u16 as usize, 2, level); report(before, level, true) }
            Err(e) => match e.kind() {
                Failure::Mismatch { observed } => report(before, observed, false),
                Failure::Exhausted => (),
            },
        },
    }
}
static mut OLD: Option<Level> = None;
fn look_other<const N: usize>(b: *const (), kind: u8, l: Layout) -> Option<usize> {
    let b = unsafe { &*(b as *const Bump<[u8; N]>) };
    look(b, kind, unsafe { OLD.unwrap() }, l);
    Some(0)
}
fn levels<const N: usize>(kind: u8, others: u8, nested: bool) {
    let b = &Bump::<[u8; N]>::uninit();
    unsafe { SEEN = None; ENDS = [None; 4]; OLD = Some(b.level()); }
    setup(b, others, nested, false);
    unsafe { W.run = look_other::<N>; if nd::bool() { OLD = Some(b.level()) } }
    let lvl = unsafe { OLD.unwrap() };
    let l = small_layout(4, 4);
    go();
    look(b, kind, lvl, l);
    quiet();
    report(seen(), b.level(), false);
    if kind < 5 { ends_agree(b); }
    witness!(ran() == 2, "interrupted");
}
pub fn c31_levels() { levels::<8>(0, 1, false); }
pub fn c31_levels_alloc() { levels::<6>(1, 1, false); }
pub fn c31_levels_exact() { levels::<8>(2, 2, false); }
pub fn c31_levels_empty() { levels::<8>(3, 1, false); }
pub fn c31_levels_leak() { levels::<8>(4, 1, false); }
pub fn c31_levels_dealloc() { levels::<6>(5, 0, false); }
pub fn c31_levels_realloc() { levels::<6>(6, 0, false); }
pub fn c31_levels_local() { levels::<6>(7, 0, false); }
pub fn c31_levels_box() { levels::<6>(8, 0, false); }
pub fn c31_levels_nested() { levels::<8>(1, 0, true); }

/// How many attempts a request takes.  The interrupted thread is stopped while
/// the others run, so they finish without it; and each of them can make it try
/// again once.
fn attempts<const N: usize>(kind: u8, others: u8, nested: bool) {
    let b = &Bump::<[u8; N]>::uninit();
    setup(b, others, nested, false);
    let l = small_layout(4, 4);
    go();
    match kind {
        4 => { let _ = b.leak(3u16); }
        5 => { let _ = b.leak_box(3u16); }
        6 => { let _ = b.get::<u32>(); }
        7 => { let z = alloc_traits::NonZeroLayout::from_layout(l.into()).unwrap(); let _ = LocalAlloc::alloc(b, z); }
        _ => { request::<N>(b as *const _ as *const (), kind, l); }
    }
    let steps = unsafe { W.steps };
    quiet();
    let n = ran();
    prop!(steps[0] <= 4 * (2 + n), "attempts grow only with the number of interruptions");
    prop!(steps[1] <= 12, "also of threads that run while another one is stopped");
    witness!(n == 2, "interrupted");
}
pub fn c31_attempts_alloc() { attempts::<12>(0, 1, false) }
pub fn c31_attempts_global() { attempts::<12>(2, 1, false) }
pub fn c31_attempts_leak() { attempts::<12>(4, 1, false) }
pub fn c31_attempts_box() { attempts::<12>(5, 1, false) }
pub fn c31_attempts_get() { attempts::<12>(6, 1, false) }
pub fn c31_attempts_nested() { attempts::<12>(6, 0, true) }
pub fn c31_attempts_local() { attempts::<12>(7, 1, false) }
/// A thread is stopped before any of its atomic operations, and never runs
/// again as far as the other one can tell, which finishes all the same (a loop
/// that does not end is found as one whose bound never suffices).
fn stopped<const N: usize>(kind: u8, other: u8) {
    let b = &Bump::<[u8; N]>::uninit();
    setup(b, 3, false, false);
    unsafe { W.run = run_other::<N>; W.kind = other; W.at[0] = nd::below(8); }
    op::<N>(b as *const _ as *const (), kind, layout(1, 1));
    witness!(unsafe { W.ran[0] }, "stopped");
}
fn run_other<const N: usize>(b: *const (), kind: u8, _: Layout) -> Option<usize> { op::<N>(b, kind, layout(1, 1)); Some(0) }
fn op<const N: usize>(p: *const (), kind: u8, l: Layout) {
    let b = unsafe { &*(p as *const Bump<[u8; N]>) };
    match kind {
        4 => { let _ = b.leak(3u8); }
        5 => { let _ = b.leak_box(3u8); }
        6 => { let _ = b.get::<u16>(); }
        8 => { let _ = b.level(); }
        9 => { let _ = b.get::<()>(); }
        _ => { request::<N>(p, kind, l); }
    }
}
pub fn c31_stopped_alloc() { stopped::<6>(0, 0) }
pub fn c31_stopped_leak() { stopped::<6>(4, 5) }
pub fn c31_stopped_exact() { stopped::<6>(1, 6) }
pub fn c31_stopped_global() { stopped::<6>(2, 1) }
pub fn c31_stopped_level() { stopped::<6>(3, 8) }
pub fn c31_stopped_zst() { stopped::<6>(6, 9) }

harnesses! {
    c02_alloc, 5, quick, normal;
    c02_exact, 5, quick, normal;
    c02_global, 5, quick, normal;
    c02_get_layout, 5, quick, normal;
    c02_level_exact, 5, quick, normal;
    c02_leak, 5, quick, normal;
    c02_realloc, 5, quick, normal;
    c02_realloc_global, 5, quick, normal;
    c02_nested, 5, quick, normal;
    c02_nested_alloc, 5, thorough, normal;
    c31_levels, 5, quick, normal;
    c31_levels_alloc, 5, quick, normal;
    c31_levels_exact, 5, quick, normal;
    c31_levels_empty, 5, quick, normal;
    c31_levels_leak, 5, quick, normal;
    c31_levels_dealloc, 5, quick, normal;
    c31_levels_realloc, 5, quick, normal;
    c31_levels_local, 5, quick, normal;
    c31_levels_box, 5, quick, normal;
    c31_levels_nested, 5, quick, normal;
    c31_attempts_alloc, 5, quick, normal;
    c31_attempts_global, 5, quick, normal;
    c31_attempts_leak, 5, quick, normal;
    c31_attempts_box, 5, quick, normal;
    c31_attempts_get, 5, quick, normal;
    c31_attempts_local, 5, quick, normal;
    c31_attempts_nested, 5, thorough, normal;
    c31_stopped_alloc, 5, quick, normal;
    c31_stopped_leak, 5, quick, normal;
    c31_stopped_exact, 5, quick, normal;
    c31_stopped_global, 5, quick, normal;
    c31_stopped_level, 5, quick, normal;
    c31_stopped_zst, 5, quick, normal;
}
