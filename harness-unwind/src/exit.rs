//! C14, C15: histories of an exit stack, and destructors that panic in it.
use crate::{nd, util::*};
use core::pin::Pin;
use exit_stack::ExitStack;

fn put(stack: Pin<&ExitStack<[u128; 16]>>, kind: u8, id: u8) -> u8 {
    match kind {
        0 => { stack.slot::<D>().unwrap().pin(D(id)); id }
        1 => { unsafe { stack.slot::<W>().unwrap().pin_local(W::new(id)) }; id }
        _ => { stack.slot::<Z>().unwrap().pin(Z); 7 }
    }
}

/// Values of any kind, any one of which panics when dropped; the stack is
/// dropped or emptied.
fn body(max: u8, explicit: bool) {
    let n = nd::below(max + 1);
    let bad = nd::below(8);
    dlog().boom[0] = bad;
    let mut ids = [NO; 4];
    let mut zsts = 0;
    let panicked = nd::catch(|| {
        let mut stack: ExitStack<[u128; 16]> = ExitStack::new();
        let mut stack = unsafe { Pin::new_unchecked(&mut stack) };
        for i in 0..n {
            let kind = nd::below(3);
            ids[i as usize] = put(stack.as_ref(), kind, i);
            if kind == 2 { zsts += 1 }
            nd::assume(kind != 2 || zsts == 1);
        }
        if explicit {
            let p = nd::catch(|| stack.as_mut().pop_all());
            for i in 0..n { nd::check(dropped(ids[i as usize]) == 1, "emptying drops every value exactly once"); }
            dlog().boom[0] = NO;
            // The stack stays usable.
            if let Some(slot) = stack.as_ref().slot::<D>() { slot.pin(D(6)); }
            if p { nd::boom() }
        }
    });
    let hit = ids.iter().any(|i| *i == bad);
    nd::check(panicked == hit, "exactly the panic of a destructor propagates");
    for i in 0..n { nd::check(dropped(ids[i as usize]) == 1, "every value is dropped exactly once"); }
    if explicit { nd::check(dropped(6) <= 1, "no value is dropped twice"); }
    for i in 0..n { nd::check(dlog().order[i as usize] == ids[(n - 1 - i) as usize], "values are dropped in reverse order"); }
    nd::check(dlog().n as u8 == n + dropped(6), "nothing else is dropped");
    nd::cover(hit && n == max && bad == 0, "the oldest value panics");
    nd::cover(hit && n == max && bad == max - 1, "the newest value panics");
    nd::cover(hit && n == max && bad == 7, "a zero-sized value panics");
}

#[no_mangle]
pub extern "C-unwind" fn c15_drop() { body(3, false) }
#[no_mangle]
pub extern "C-unwind" fn c15_drop_4() { body(4, false) }
#[no_mangle]
pub extern "C-unwind" fn c15_pop_all() { body(3, true) }

/// Replacing the contents while an old value panics: the new value is dropped
/// once, nothing is dropped twice, and the stack accepts the next value.
#[no_mangle]
pub extern "C-unwind" fn c15_set() {
    let bad = nd::below(4);
    dlog().boom[0] = bad;
    let n = nd::below(3);
    let panicked = nd::catch(|| {
        let mut stack: ExitStack<[W; 2]> = ExitStack::new();
        let mut stack = unsafe { Pin::new_unchecked(&mut stack) };
        for i in 0..n { let _ = stack.as_ref().slot::<D>().map(|s| { s.pin(D(i)); }); }
        let p = nd::catch(|| { stack.as_mut().set([W::new(2), W::new(3)]); });
        nd::check(p == (bad < n), "the panic of an old value propagates");
        for i in 0..n { nd::check(dropped(i) == 1, "old values are dropped before the new one is pinned"); }
        if p { for i in 2..4 { nd::check(dropped(i) == 1, "the value that could not be stored is dropped"); } }
        else { for i in 2..4 { nd::check(dropped(i) == 0, "the stored value lives"); } }
        if p { dlog().boom[0] = NO; }
    });
    nd::check(panicked == (bad == 2 || bad == 3), "the panic of the new value propagates when it is dropped");
    for i in 2..4 { nd::check(dropped(i) == 1, "the new value is dropped exactly once"); }
    for i in 0..n { nd::check(dropped(i) == 1, "old values are dropped exactly once"); }
    nd::cover(bad < n && n == 2, "an old value panics");
    nd::cover(panicked && n == 2, "the new value panics");
}

/// Two destructors panic: the process may abort, but not go wrong otherwise.
#[no_mangle]
pub extern "C-unwind" fn c15_two_panics() {
    let (a, b) = (nd::below(3), nd::below(3));
    nd::assume(a < b);
    dlog().boom = [a, b];
    nd::may_abort();
    nd::cover(true, "two destructors that panic");
    let panicked = nd::catch(|| {
        let stack: ExitStack<[u128; 16]> = ExitStack::new();
        let stack = unsafe { Pin::new_unchecked(&stack) };
        for i in 0..3 { stack.slot::<D>().unwrap().pin(D(i)); }
    });
    nd::check(panicked, "a panic propagates");
    for i in 0..3 { nd::check(dropped(i) == 1, "if it returns, every value was dropped exactly once"); }
}


/// A slot that was taken and not yet filled.
enum Held<'a> { None, D(exit_stack::Slot<'a, D>), W(exit_stack::Slot<'a, W>), Z(exit_stack::Slot<'a, Z>) }
/// What is registered: id, address, size.
struct Reg { ids: [u8; 6], at: [usize; 6], size: [usize; 6], n: usize, zst: bool }
impl Reg {
    fn add(&mut self, id: u8, at: usize, size: usize, align: usize, stack: (usize, usize)) {
        nd::check(at % align == 0, "pinned aligned");
        nd::check(at >= stack.0 && at + size <= stack.0 + stack.1, "pinned inside of the stack");
        for i in 0..self.n { nd::check(size == 0 || self.size[i] == 0 || at + size <= self.at[i] || self.at[i] + self.size[i] <= at, "pinned values are disjoint"); }
        self.ids[self.n] = id;
        self.at[self.n] = at;
        self.size[self.n] = size;
        self.n += 1;
    }
    fn check(&self) {
        nd::check(dlog().n == 0, "nothing is dropped while the stack lives");
        for i in 0..self.n {
            if self.size[i] == core::mem::size_of::<D>() { nd::check(unsafe { (*(self.at[i] as *const D)).0 } == self.ids[i], "pinned values stay"); }
            if self.size[i] == core::mem::size_of::<W>() { nd::check(unsafe { (*(self.at[i] as *const W)).id() } == self.ids[i], "pinned values stay"); }
        }
    }
}
/// Fill a slot in either way, or give it up.
fn fill<'a, T: 'static>(s: exit_stack::Slot<'a, T>, id: u8, v: T) -> Option<Pin<&'a mut T>> {
    if nd::bool() { core::mem::forget(v); return None }
    Some(if id % 2 == 0 { s.pin(v) } else { unsafe { s.pin_local(v) } })
}
/// Slots are taken, filled and abandoned in any order.
fn slots<M: 'static>(steps: u8, explicit: bool, fits: usize) {
    let mut stack: ExitStack<M> = ExitStack::new();
    let obj = (&stack as *const _ as usize, core::mem::size_of::<ExitStack<M>>());
    let mut reg = Reg { ids: [NO; 6], at: [0; 6], size: [0; 6], n: 0, zst: false };
    {
        let stack = unsafe { Pin::new_unchecked(&stack) };
        let mut held = [Held::None, Held::None];
        for id in 0..steps {
            let w = nd::below(2) as usize;
            match core::mem::replace(&mut held[w], Held::None) {
                // Take a slot of any type.
                Held::None => {
                    let kind = nd::below(3);
                    nd::assume(kind != 2 || !reg.zst);
                    held[w] = match kind {
                        0 => stack.slot::<D>().map_or(Held::None, Held::D),
                        1 => stack.slot::<W>().map_or(Held::None, Held::W),
                        _ => { reg.zst = true; stack.slot::<Z>().map_or(Held::None, Held::Z) }
                    };
                }
                // Fill it or give it up.
                Held::D(s) => if let Some(p) = fill(s, id, D(id)) { reg.add(id, &*p as *const _ as usize, 1, 1, obj); },
                Held::W(s) => if let Some(p) = fill(s, id, W::new(id)) { reg.add(id, &*p as *const _ as usize, core::mem::size_of::<W>(), 16, obj); },
                Held::Z(s) => if nd::bool() { let p = s.pin(Z); reg.add(7, &*p as *const _ as usize, 0, 1, obj); },
            }
            reg.check();
        }
        nd::cover(reg.n == fits, "the most values");
        nd::cover(reg.n == 2 && reg.ids[0] == 2 && reg.ids[1] == 3 && reg.at[0] > reg.at[1] && reg.size[1] > 0, "filled in the other order");
    }
    if explicit {
        unsafe { Pin::new_unchecked(&mut stack) }.pop_all();
        nd::check(dlog().n == reg.n, "emptying drops every value");
        let s = unsafe { Pin::new_unchecked(&stack) };
        match s.slot::<M>() { Some(_) => {} None => nd::check(false, "an empty stack has room for one value") }
    } else {
        drop(stack);
    }
    nd::check(dlog().n == reg.n, "no other value is dropped");
    for i in 0..reg.n { nd::check(dlog().order[i] == reg.ids[reg.n - 1 - i], "values are dropped once, in reverse order of registration"); }
}
#[no_mangle]
pub extern "C-unwind" fn c14_slots() { slots::<[u128; 8]>(4, false, 2) }
#[no_mangle]
pub extern "C-unwind" fn c14_slots_pop() { slots::<[u64; 9]>(4, true, 2) }
#[no_mangle]
pub extern "C-unwind" fn c14_slots_6() { slots::<[u128; 8]>(6, false, 3) }

/// Values with and without a destructor, of any size, in any order.
fn plain(max: u8, explicit: bool) {
    let mut stack: ExitStack<[u128; 16]> = ExitStack::new();
    let n = nd::below(max + 1);
    let (mut ids, mut k) = ([NO; 4], 0);
    let mut words: [Option<*const u64>; 4] = [None; 4];
    {
        let s = unsafe { Pin::new_unchecked(&stack) };
        for i in 0..n {
            match nd::below(5) {
                0 => { s.slot::<D>().unwrap().pin(D(i)); ids[k] = i; k += 1 }
                1 => { unsafe { s.slot::<W>().unwrap().pin_local(W::new(i)) }; ids[k] = i; k += 1 }
                2 => words[i as usize] = Some(&*s.slot::<u64>().unwrap().pin(0x5a5a5a5a00 + i as u64) as *const u64),
                3 => { s.slot::<()>().unwrap().pin(()); }
                // Refused, because it does not fit: registers nothing.
                _ => nd::check(s.slot::<[u128; 17]>().is_none(), "does not fit"),
            }
        }
        for i in 0..n as usize { if let Some(p) = words[i] { nd::check(unsafe { *p } == 0x5a5a5a5a00 + i as u64, "plain values stay as well") } }
        nd::check(dlog().n == 0, "nothing is dropped while the stack lives");
    }
    if explicit { unsafe { Pin::new_unchecked(&mut stack) }.pop_all(); } else { drop(stack); }
    nd::check(dlog().n == k, "every value with a destructor is dropped, nothing else");
    for i in 0..k { nd::check(dlog().order[i] == ids[k - 1 - i], "once, in reverse order of registration"); }
    nd::cover(k == 2 && n == max, "between plain ones");
}
#[no_mangle]
pub extern "C-unwind" fn c14_plain() { plain(4, false) }
#[no_mangle]
pub extern "C-unwind" fn c14_plain_pop() { plain(3, true) }

crate::harnesses! {
    c15_drop, quick;
    c15_drop_4, thorough;
    c15_pop_all, quick;
    c15_set, quick;
    c15_two_panics, quick;
    c14_slots, quick;
    c14_slots_pop, quick;
    c14_slots_6, quick;
    c14_plain, quick;
    c14_plain_pop, quick;
}
