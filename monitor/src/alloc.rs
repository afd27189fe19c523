//! Counting allocator: per-thread live bytes, peak and largest request; optional junk in new and released memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static MAXREQ: Cell<usize> = const { Cell::new(0) };
    /// fills new and released memory of this thread if not zero
    static FILL: Cell<u8> = const { Cell::new(0) };
}
// Under a sanitizer or Miri the tool's own idea of uninitialised and released memory must stay.
#[cfg(any(miri, bare_alloc))]
pub fn set_fill(_: u8) {}
#[cfg(not(any(miri, bare_alloc)))]
pub fn set_fill(f: u8) {
    FILL.with(|x| x.set(f));
}
fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = MAXREQ.try_with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}
fn pattern() -> u8 {
    FILL.try_with(|f| f.get()).unwrap_or(0)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        let p = System.alloc(l);
        let f = pattern();
        if f != 0 && !p.is_null() {
            std::ptr::write_bytes(p, f, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        let f = pattern();
        if f != 0 {
            std::ptr::write_bytes(p, f ^ 0x11, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        let q = System.realloc(p, l, n);
        let f = pattern();
        if f != 0 && !q.is_null() && n > l.size() {
            std::ptr::write_bytes(q.add(l.size()), f, n - l.size());
        }
        q
    }
}
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(live()));
    MAXREQ.with(|m| m.set(0));
}
/// Highest amount of live bytes since `reset_peak`, relative to `base`.
pub fn peak_over(base: isize) -> usize {
    PEAK.with(|p| (p.get() - base).max(0) as usize)
}
pub fn max_request() -> usize {
    MAXREQ.with(|m| m.get())
}
