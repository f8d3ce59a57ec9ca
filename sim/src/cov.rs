//! The seam inside the crate under test: its four builds are compiled with a call at every
//! branch and comparison (sim/rustc-cov.sh; the sources are untouched). The calls count which
//! branches a run takes, collect the constants the code compares with, and are the points at
//! which C12's scheduler can take the processor away from a connection in the middle of a call.
use std::cell::Cell;
use crate::elf;
use std::sync::{Mutex, OnceLock};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

const MAP: usize = 1 << 16;
static HITS: [AtomicU8; MAP] = [const { AtomicU8::new(0) }; MAP];
static GUARDS: AtomicU32 = AtomicU32::new(0);
const CONSTS: usize = 1 << 12;
static SEEN: [AtomicU64; CONSTS] = [const { AtomicU64::new(0) }; CONSTS];
static KEEP: AtomicBool = AtomicBool::new(false);

thread_local! {
    /// Branches this thread may still take before it has to hand over; 0: no end.
    static LEFT: Cell<u64> = const { Cell::new(0) };
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(from: *mut u32, to: *mut u32) {
    if from == to || *from != 0 {
        return;
    }
    let mut p = from;
    while p < to {
        *p = GUARDS.fetch_add(1, Relaxed) + 1;
        p = p.add(1);
    }
}

/// Where each branch is, in the order of the guards: pairs (address, flags).
static PLACES: AtomicUsize = AtomicUsize::new(0);
static PLACES_END: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(from: *const usize, to: *const usize) {
    if from != to {
        PLACES.store(from as usize, Relaxed);
        PLACES_END.store(to as usize, Relaxed);
    }
}

/// The functions of the crate under test: the name of each and its branches. Code of the
/// standard library and of `bytes` compiled along with it is left out: some of it (the checks
/// of unsafe preconditions) branches on addresses, which differ from one run to the next.
pub struct Own {
    pub own: Vec<bool>,
    pub functions: Vec<(String, Vec<u32>)>,
}

pub fn own() -> &'static Own {
    static OWN: OnceLock<Own> = OnceLock::new();
    OWN.get_or_init(|| {
        let (from, to) = (PLACES.load(Relaxed), PLACES_END.load(Relaxed));
        let n = branches();
        // Without a place for every branch nothing is known to be the crate's own.
        if n == 0 || from == 0 || to - from != n * 16 {
            return Own { own: vec![false; n + 1], functions: Vec::new() };
        }
        // The table is part of the program and stays.
        let pcs = unsafe { std::slice::from_raw_parts(from as *const [usize; 2], n) };
        let here: unsafe extern "C" fn(*mut u32) = __sanitizer_cov_trace_pc_guard;
        let names = elf::names("__sanitizer_cov_trace_pc_guard", here as usize).unwrap_or_default();
        let mut o = Own { own: vec![false; n + 1], functions: Vec::new() };
        for (i, pc) in pcs.iter().enumerate() {
            let at = names.partition_point(|x| x.0 <= pc[0]);
            let name = if at > 0 { names[at - 1].1.as_str() } else { "" };
            if elf::krate(name).is_some_and(|c| c.starts_with("mqtt_")) {
                o.own[i + 1] = true;
                if o.functions.last().is_none_or(|f| f.0 != name) {
                    o.functions.push((name.into(), Vec::new()));
                }
                o.functions.last_mut().unwrap().1.push(i as u32 + 1);
            }
        }
        o
    })
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let c = &HITS[*g as usize & (MAP - 1)];
    let v = c.load(Relaxed);
    if v < 255 {
        c.store(v + 1, Relaxed);
    }
    let n = LEFT.get();
    if n > 0 {
        LEFT.set(n - 1);
        if n == 1 || crate::gate::woken() {
            crate::gate::pause();
        }
    }
}

fn note(v: u64) {
    if !(4..1 << 62).contains(&v) || !KEEP.load(Relaxed) {
        return;
    }
    let mut i = crate::src::mix(v) as usize;
    for _ in 0..64 {
        let s = &SEEN[i & (CONSTS - 1)];
        match s.load(Relaxed) {
            0 => {
                s.store(v, Relaxed);
                return;
            }
            x if x == v => return,
            _ => i += 1,
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(c: u8, _: u8) {
    note(c.into());
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(c: u16, _: u16) {
    note(c.into());
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(c: u32, _: u32) {
    note(c.into());
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(c: u64, _: u64) {
    note(c);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_: u64, c: *const u64) {
    if KEEP.load(Relaxed) {
        for i in 0..*c as usize {
            note(*c.add(2 + i));
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {}

/// Texts in the program itself that the crate under test has compared something with.
static TEXTS: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());

thread_local! {
    /// In a call of the crate under test.
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

pub fn inside(yes: bool) {
    INSIDE.set(yes);
}

pub fn texts() -> Vec<Vec<u8>> {
    let mut t = TEXTS.lock().unwrap().clone();
    t.sort();
    t
}

#[cfg(wrapped)]
mod wrapped {
    use super::{INSIDE, KEEP, Relaxed, TEXTS};

    extern "C" {
        fn __real_memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
        static __executable_start: u8;
        static end: u8;
    }

    #[cold]
    unsafe fn note(a: *const u8, b: *const u8, n: usize) {
        let program = (&raw const __executable_start) as usize..(&raw const end) as usize;
        for p in [a, b] {
            if program.contains(&(p as usize)) {
                INSIDE.set(false);
                let t = std::slice::from_raw_parts(p, n);
                let mut all = TEXTS.lock().unwrap();
                if all.len() < 256 && !all.iter().any(|x| x == t) {
                    all.push(t.to_vec());
                }
                drop(all);
                INSIDE.set(true);
            }
        }
    }

    #[no_mangle]
    unsafe extern "C" fn __wrap_memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        if INSIDE.get() && n > 0 && n <= 64 && KEEP.load(Relaxed) {
            note(a, b, n);
        }
        __real_memcmp(a, b, n)
    }

    #[no_mangle]
    unsafe extern "C" fn __wrap_bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        __wrap_memcmp(a, b, n)
    }
}

/// Branches of the four builds, those of the libraries compiled along with them included.
fn branches() -> usize {
    GUARDS.load(Relaxed) as usize
}

/// From now on constants are collected.
pub fn collect() {
    KEEP.store(true, Relaxed);
}

pub fn constants() -> Vec<u64> {
    let mut v: Vec<u64> = SEEN.iter().map(|s| s.load(Relaxed)).filter(|v| *v != 0).collect();
    v.sort_unstable();
    v
}

/// Before a run.
pub fn begin() {
    for h in &HITS[..(branches() + 1).min(MAP)] {
        h.store(0, Relaxed);
    }
}

/// What the run did in the crate: each branch with the magnitude of its count.
pub fn features() -> Vec<u32> {
    let mut f = Vec::new();
    let own = &own().own;
    for (i, h) in HITS[..(branches() + 1).min(MAP)].iter().enumerate().skip(1) {
        if !own[i] {
            continue;
        }
        let b = match h.load(Relaxed) {
            0 => continue,
            1 => 0,
            2 => 1,
            3 => 2,
            4..=7 => 3,
            8..=15 => 4,
            16..=31 => 5,
            32..=127 => 6,
            _ => 7,
        };
        f.push((i as u32) << 3 | b);
    }
    f
}

/// The calling thread may take this many branches, then hands over.
pub fn leave(n: u64) {
    LEFT.set(n);
}
