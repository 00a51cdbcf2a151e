//! Counting allocator: live bytes and their peak, per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

/// A single request beyond this is answered with an allocation failure (which aborts and is
/// caught by the supervisor) instead of risking the sandbox's memory.
static CAP: AtomicUsize = AtomicUsize::new(3 << 30);

/// For cases that really are larger.
pub fn cap(bytes: usize) {
    CAP.store(bytes, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        if l.size() > CAP.load(Relaxed) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        // never touched unless used: let huge zeroed requests through so that they are measured
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // old and new block may be live together
        add(n as isize);
        if n > CAP.load(Relaxed) {
            return std::ptr::null_mut();
        }
        let r = unsafe { System.realloc(p, l, n) };
        add(-(l.size() as isize));
        r
    }
}

/// Peak of live bytes above the starting point while `f` runs on this thread.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as u64)
}
