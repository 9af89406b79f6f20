//! An allocator that counts, per thread, and notes how deep in the stack it is called.
//! A binary switches it on by `#[global_allocator] static A: Counting = Counting;`.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BIG: Cell<i64> = const { Cell::new(0) };
    static LO: Cell<usize> = const { Cell::new(usize::MAX) };
    static OFF: Cell<bool> = const { Cell::new(false) };
}
pub struct Counting;
#[inline(never)]
fn note(d: i64) {
    let _ = OFF.try_with(|o| {
        if o.get() {
            return;
        }
        let l = LIVE.with(|l| {
            let v = l.get() + d;
            l.set(v);
            v
        });
        PEAK.with(|p| {
            if l > p.get() {
                p.set(l)
            }
        });
        CALLS.with(|c| c.set(c.get() + 1));
        BIG.with(|b| b.set(b.get().max(d)));
        let x = 0u8;
        let sp = std::hint::black_box(&x) as *const u8 as usize;
        LO.with(|p| {
            if sp < p.get() {
                p.set(sp)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
/// Bytes this thread has allocated and not released.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// Start anew the maximum of live bytes, the number of calls and the lowest stack address.
pub fn mark() -> i64 {
    let l = live();
    PEAK.with(|p| p.set(l));
    CALLS.with(|c| c.set(0));
    BIG.with(|b| b.set(0));
    LO.with(|p| p.set(usize::MAX));
    l
}
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}
pub fn calls() -> u64 {
    CALLS.with(|p| p.get())
}
/// The largest amount taken at once.
pub fn biggest() -> i64 {
    BIG.with(|p| p.get())
}
pub fn lowest() -> usize {
    LO.with(|p| p.get())
}
/// Do not count what `f` does (the monitors' own allocations).
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    let was = OFF.with(|o| o.replace(true));
    let r = f();
    OFF.with(|o| o.set(was));
    r
}
