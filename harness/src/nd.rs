//! Nondeterministic scalars.  Under Kani these are symbolic; natively they are
//! read back, in the same order, from a counterexample / witness file.
#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 { kani::any() }
    pub fn u16() -> u16 { kani::any() }
    pub fn u32() -> u32 { kani::any() }
    pub fn u64() -> u64 { kani::any() }
    pub fn usize() -> usize { kani::any() }
    pub fn bool() -> bool { kani::any() }
    #[inline(always)]
    pub fn assume(c: bool) { kani::assume(c) }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local!(pub static VALS: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new()));
    thread_local!(pub static COVERED: RefCell<Vec<&'static str>> = RefCell::new(Vec::new()));
    fn next(n: usize) -> [u8; 8] {
        let v = VALS.with(|v| v.borrow_mut().pop_front());
        let mut out = [0u8; 8];
        if let Some(v) = v {
            if v.len() != n {
                eprintln!("REPLAY-DESYNC: wanted {} bytes, recorded {:?}", n, v);
                std::process::exit(78);
            }
            out[..n].copy_from_slice(&v);
        }
        out
    }
    pub fn u8() -> u8 { next(1)[0] }
    pub fn u16() -> u16 { u64::from_le_bytes(next(2)) as u16 }
    pub fn u32() -> u32 { u64::from_le_bytes(next(4)) as u32 }
    pub fn u64() -> u64 { u64::from_le_bytes(next(8)) }
    pub fn usize() -> usize { u64::from_le_bytes(next(8)) as usize }
    pub fn bool() -> bool { next(1)[0] == 1 }
    pub fn assume(c: bool) {
        if !c {
            // The recorded values do not satisfy the harness precondition on
            // this build: the trace is not replayable here.
            eprintln!("REPLAY-ASSUME-FAILED");
            std::process::exit(77);
        }
    }
}
pub use imp::*;

/// A value in `0..n`.
pub fn below(n: usize) -> usize { let v = usize(); assume(v < n); v }
/// A value in `0..=n`.
pub fn upto(n: usize) -> usize { let v = usize(); assume(v <= n); v }

/// The asserted property.
#[macro_export]
macro_rules! prop {
    ($c:expr, $m:literal) => { assert!($c, $m) };
}
/// Non-vacuity witness: must be reachable for the harness to count.
#[macro_export]
macro_rules! witness {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        if $c { $crate::nd::COVERED.with(|v| v.borrow_mut().push($m)) }
    }};
}
/// Register harnesses: `name, unwind, tier, kind`.
/// tier: quick | thorough
/// kind: normal; must_panic (every run has to panic in the code under test);
///       frees (heap releases are counted, not performed).
#[macro_export]
macro_rules! harnesses {
    ($($name:ident, $unwind:literal, $tier:ident, $kind:ident;)*) => {
        #[cfg(kani)]
        mod k { $( $crate::proof!($kind $unwind $name); )* }
        #[cfg(not(kani))]
        pub const LIST: &[(&str, fn(), &str)] = &[$((stringify!($name), $name, stringify!($kind))),*];
    }
}
#[macro_export]
macro_rules! proof {
    (frees $unwind:literal $name:ident) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(alloc::alloc::dealloc_nonnull, crate::util::dealloc_stub)]
        #[kani::stub(core::hint::spin_loop, crate::util::spin_stub)]
        fn $name() { super::$name() }
    };
    ($kind:ident $unwind:literal $name:ident) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(core::hint::spin_loop, crate::util::spin_stub)]
        fn $name() { super::$name() }
    };
}
