//! Counting allocator: the memory a call reserves on this thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static MAXREQ: Cell<usize> = const { Cell::new(0) };
}

fn add(n: isize, req: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    if req > 0 {
        let _ = MAXREQ.try_with(|m| {
            if req > m.get() {
                m.set(req)
            }
        });
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize, l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize), 0);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize, n);
        System.realloc(p, l, n)
    }
}

/// Starts a measurement on this thread.
pub fn start() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    MAXREQ.with(|m| m.set(0));
}
/// (peak bytes live above the start, largest single request)
pub fn peak() -> (usize, usize) {
    (PEAK.with(|p| p.get()).max(0) as usize, MAXREQ.with(|m| m.get()))
}

/// Bytes this thread has reserved and not released, up to a constant.
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
