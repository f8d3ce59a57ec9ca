//! The allocator seam: counts live and peak bytes, fills memory with a pattern when it is
//! handed out and again when it is returned (so a stale reference reads garbage, the same
//! garbage every time), and aborts the worker when live memory passes a cap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::Relaxed};

pub struct Seam;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
static CAP: AtomicIsize = AtomicIsize::new(isize::MAX);
static POISON: AtomicBool = AtomicBool::new(false);
const POISON_MAX: usize = 4 << 20;

fn grow(n: usize) {
    let l = LIVE.fetch_add(n as isize, Relaxed) + n as isize;
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
        if l > CAP.load(Relaxed) {
            CAP.store(isize::MAX, Relaxed);
            eprintln!("sim: live memory over the cap, aborting this worker");
            std::process::abort();
        }
    }
}

unsafe impl GlobalAlloc for Seam {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            grow(l.size());
            if POISON.load(Relaxed) && l.size() <= POISON_MAX {
                p.write_bytes(0xCD, l.size());
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            grow(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        if POISON.load(Relaxed) && l.size() <= POISON_MAX {
            p.write_bytes(0xDD, l.size());
        }
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if POISON.load(Relaxed) && l.size() <= POISON_MAX {
            // Always move, so that a reference into the old block reads the pattern.
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            q
        } else {
            let q = System.realloc(p, l, new);
            if !q.is_null() {
                LIVE.fetch_sub(l.size() as isize, Relaxed);
                grow(new);
            }
            q
        }
    }
}

pub fn enable(poison: bool, cap: Option<usize>) {
    POISON.store(poison, Relaxed);
    if let Some(c) = cap {
        CAP.store(c as isize, Relaxed);
    }
}
pub fn live() -> isize {
    LIVE.load(Relaxed)
}
/// Memory taken at most during, and kept after, a piece of work.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Mem {
    pub peak: isize,
    pub kept: isize,
}
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Mem) {
    let l0 = live();
    let old = PEAK.swap(l0, Relaxed);
    let r = f();
    let m = Mem { peak: PEAK.load(Relaxed) - l0, kept: live() - l0 };
    if old > PEAK.load(Relaxed) {
        PEAK.store(old, Relaxed);
    }
    (r, m)
}
