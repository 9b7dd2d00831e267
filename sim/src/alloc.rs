//! Global allocator: accounts memory used inside library calls and offers a preemption point per
//! allocation to the thread scheduler.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub use probe::IN_SUT;

thread_local! {
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
    /// bytes held by library code of this thread, over all calls of the run
    pub static NET: Cell<i64> = const { Cell::new(0) };
    pub static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub const HARD_LIMIT: i64 = 2 << 30;

pub struct SimAlloc;

#[inline]
fn note(add: i64) -> bool {
    let outside = probe::Outside::enter();
    if !outside.was_sut() {
        return true;
    }
    NET.with(|n| n.set(n.get() + add));
    let live = LIVE.with(|l| {
        let v = l.get() + add;
        l.set(v);
        v
    });
    if add > 0 {
        if live > HARD_LIMIT {
            return false;
        }
        PEAK.with(|p| {
            if live > p.get() {
                p.set(live)
            }
        });
        drop(outside);
        probe::point(probe::COARSE);
    }
    true
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !note(new as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, new)
    }
}
