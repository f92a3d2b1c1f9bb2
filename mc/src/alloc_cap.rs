//! A counting allocator: largest single request and peak, per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// called with the size of a refused request; ends the process
pub static HOOK: std::sync::OnceLock<fn(usize)> = std::sync::OnceLock::new();
pub struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static MAX: Cell<usize> = const { Cell::new(0) };
}
/// requests beyond this are refused: the caller sees an allocation failure
pub const REFUSE: usize = 64 << 20;

fn note(n: usize, old: usize) -> bool {
    ON.try_with(|on| {
        if !on.get() { return true }
        MAX.with(|m| m.set(m.get().max(n)));
        if n > REFUSE {
            on.set(false);
            if let Some(h) = HOOK.get() { h(n) }
            return false;
        }
        CUR.with(|c| { c.set(c.get() + n as isize - old as isize); PEAK.with(|p| p.set(p.get().max(c.get()))) });
        true
    }).unwrap_or(true)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size(), 0) { return std::ptr::null_mut() }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size(), 0) { return std::ptr::null_mut() }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = ON.try_with(|on| if on.get() { CUR.with(|c| c.set(c.get() - l.size() as isize)) });
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !note(n, l.size()) { return std::ptr::null_mut() }
        System.realloc(p, l, n)
    }
}
pub struct Mark;
pub struct Peak { pub max_single: usize, pub peak: isize }
pub fn begin() -> Mark {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    MAX.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    Mark
}
pub fn end(_: Mark) -> Peak {
    ON.with(|o| o.set(false));
    Peak { max_single: MAX.with(|m| m.get()), peak: PEAK.with(|p| p.get()) }
}
