//! Counting allocator: per-case peak, and a hard stop (exit 86) for a request no honest run makes.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::{AtomicUsize, Ordering::Relaxed},
};

pub struct Counting;

static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
const HARD: usize = 2 << 30;

extern "C" {
    fn _exit(c: i32) -> !;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
}

#[cold]
fn die() -> ! {
    let m = b"allocation beyond 2 GiB\n";
    unsafe {
        write(2, m.as_ptr().cast(), m.len());
        _exit(86)
    }
}

#[inline]
fn add(n: usize) {
    let c = CUR.fetch_add(n, Relaxed) + n;
    if c > PEAK.load(Relaxed) {
        PEAK.store(c, Relaxed);
    }
    if n > BIGGEST.load(Relaxed) {
        BIGGEST.store(n, Relaxed);
    }
    if c > HARD {
        die()
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD {
            die()
        }
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD {
            die()
        }
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HARD {
            die()
        }
        if n > l.size() {
            add(n - l.size());
        } else {
            CUR.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

pub fn case_start() {
    let c = CUR.load(Relaxed);
    BASE.store(c, Relaxed);
    PEAK.store(c, Relaxed);
    BIGGEST.store(0, Relaxed);
}
/// peak bytes above the level at the start of the case (or the last `mark`)
pub fn peak() -> usize {
    PEAK.load(Relaxed).saturating_sub(BASE.load(Relaxed))
}
pub fn current() -> usize {
    CUR.load(Relaxed)
}
pub fn mark() {
    case_start()
}
