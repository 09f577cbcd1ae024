//! Native replay only: a global allocator that counts releases.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static FREES: AtomicUsize = AtomicUsize::new(0);
pub struct Track;
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { FREES.fetch_add(1, SeqCst); System.dealloc(p, l) }
}
pub fn frees() -> usize { FREES.load(SeqCst) }
