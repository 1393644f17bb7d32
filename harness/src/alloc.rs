//! A global allocator that counts: what a call allocates is a measure of its
//! work that does not depend on the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn note(size: usize, freed: usize) {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + size as u64));
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + size as i64 - freed as i64);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n, l.size());
        System.realloc(p, l, n)
    }
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Cost {
    /// allocations and reallocations
    pub calls: u64,
    /// bytes asked for in all of them
    pub bytes: u64,
    /// most bytes held at once, beyond those held before
    pub peak: u64,
    /// bytes still held afterwards
    pub kept: i64,
    /// CPU seconds of this thread
    pub cpu: f64,
}
/// What `f` costs on this thread. `f` must drop what it makes for `kept` to
/// mean anything.
pub fn measure<A>(f: impl FnOnce() -> A) -> (A, Cost) {
    let (c0, b0, l0) = (CALLS.with(Cell::get), BYTES.with(Cell::get), LIVE.with(Cell::get));
    PEAK.with(|p| p.set(l0));
    let t0 = crate::sys::thread_cpu();
    let a = f();
    let cpu = crate::sys::thread_cpu() - t0;
    let cost = Cost {
        calls: CALLS.with(Cell::get) - c0,
        bytes: BYTES.with(Cell::get) - b0,
        peak: (PEAK.with(Cell::get) - l0).max(0) as u64,
        kept: LIVE.with(Cell::get) - l0,
        cpu,
    };
    (a, cost)
}
