use crate::nd;
pub const NO: u8 = 255;
/// How often each value was dropped, in which order, and whose drop panics.
pub struct Log { pub count: [u8; 16], pub order: [u8; 24], pub n: usize, pub boom: [u8; 2] }
pub static mut LOG: Log = Log { count: [0; 16], order: [0; 24], n: 0, boom: [NO; 2] };
pub fn dlog() -> &'static mut Log { unsafe { &mut *(&raw mut LOG) } }
pub fn dropped(id: u8) -> u8 { dlog().count[id as usize] }
pub fn record(id: u8) {
    let l = dlog();
    l.count[id as usize] += 1;
    l.order[l.n] = id;
    l.n += 1;
    if l.boom[0] == id || l.boom[1] == id { nd::boom() }
}
/// Records its drop; panics in it if it was chosen to.
pub struct D(pub u8);
impl Drop for D { fn drop(&mut self) { record(self.0) } }
/// The same, larger, and aligned.
#[repr(align(16))]
pub struct W(pub u8, pub [u8; 20]);
impl Drop for W { fn drop(&mut self) { nd::check(self.1[0] == self.0 && self.1[19] == self.0, "the value is intact when it is dropped"); record(self.0) } }
impl W { pub fn new(id: u8) -> W { W(id, [id; 20]) } }
/// Without any size; its id is 7.
pub struct Z;
impl Drop for Z { fn drop(&mut self) { record(7) } }
/// Elements with an id.
pub trait Elem { fn make(id: u8) -> Self; fn id(&self) -> u8; }
impl Elem for D { fn make(id: u8) -> D { D(id) } fn id(&self) -> u8 { self.0 } }
impl Elem for W { fn make(id: u8) -> W { W::new(id) } fn id(&self) -> u8 { nd::check(self.1[0] == self.0 && self.1[19] == self.0, "the value is intact"); self.0 } }

/// Fill memory with a byte.
pub fn paint(p: *mut u8, n: usize, id: u8) { unsafe { p.write_bytes(id, n) } }
/// Whether memory is filled with a byte.
pub fn painted(p: *const u8, n: usize, id: u8) -> bool {
    let mut i = 0;
    let w = id as u64 * 0x0101010101010101;
    while i + 8 <= n {
        if unsafe { ((p as usize + i) as *const u64).read_unaligned() } != w { return false }
        i += 8;
    }
    while i < n {
        if unsafe { *((p as usize + i) as *const u8) } != id { return false }
        i += 1;
    }
    true
}
