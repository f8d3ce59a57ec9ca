//! Takes the processor away from a thread in the middle of a codec call: a lane runs until it
//! has taken the number of branches it was granted, then waits for the scheduler. Only one
//! lane runs at a time, so a schedule is exactly repeatable.
use crate::cov;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Phase {
    Idle,
    Running,
    Paused,
    /// Running, but waiting for something another lane holds.
    Stuck,
}

struct St {
    phase: Phase,
    grant: u64,
    tid: u64,
}

pub struct Lane {
    m: Mutex<St>,
    c: Condvar,
    /// Found asleep: once awake, it stops at its next branch.
    halt: AtomicBool,
}

thread_local! {
    static MINE: Cell<*const Lane> = const { Cell::new(std::ptr::null()) };
}

/// Called from inside the crate under test at a branch: whether the lane was asleep before it.
pub fn woken() -> bool {
    let l = MINE.get();
    // As in `pause`.
    !l.is_null() && unsafe { &*l }.halt.load(SeqCst)
}

/// Called from inside the crate under test when the grant is used up.
pub fn pause() {
    let l = MINE.get();
    if l.is_null() {
        return;
    }
    // The lane outlives its thread: the thread is scoped within it.
    let l = unsafe { &*l };
    let mut s = l.m.lock().unwrap();
    s.phase = Phase::Paused;
    l.halt.store(false, SeqCst);
    l.c.notify_all();
    while s.grant == 0 {
        s = l.c.wait(s).unwrap();
    }
    cov::leave(s.grant);
    s.grant = 0;
    s.phase = Phase::Running;
}

impl Lane {
    pub fn new() -> Lane {
        Lane { m: Mutex::new(St { phase: Phase::Idle, grant: 0, tid: 0 }), c: Condvar::new(), halt: AtomicBool::new(false) }
    }
    /// In the lane's thread, once.
    pub fn enter(&self) {
        let t = std::fs::read_link("/proc/thread-self").ok();
        let tid = t.and_then(|t| t.file_name().and_then(|f| f.to_str()?.parse().ok())).unwrap_or(0);
        self.m.lock().unwrap().tid = tid;
        MINE.set(self);
    }
    /// In the lane's thread: a piece of work under the scheduler.
    pub fn work<T>(&self, grant: u64, f: impl FnOnce() -> T) -> T {
        cov::leave(grant);
        let r = f();
        cov::leave(0);
        r
    }
    /// In the lane's thread: the work is done and its result handed over.
    pub fn done(&self) {
        let mut s = self.m.lock().unwrap();
        s.phase = Phase::Idle;
        self.halt.store(false, SeqCst);
        self.c.notify_all();
    }
    pub fn phase(&self) -> Phase {
        self.m.lock().unwrap().phase
    }
    /// Before work is sent to the lane.
    pub fn starting(&self) {
        self.m.lock().unwrap().phase = Phase::Running;
    }
    pub fn resume(&self, grant: u64) {
        let mut s = self.m.lock().unwrap();
        s.grant = grant;
        s.phase = Phase::Running;
        self.c.notify_all();
    }
    /// Asleep in the kernel, not merely waiting for a processor.
    fn asleep(tid: u64) -> bool {
        let st = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
        st.rsplit(')').next().is_some_and(|x| x.trim_start().starts_with('S'))
    }
    /// Waits until the lane pauses, is done, or sleeps on something another lane holds.
    pub fn settle(&self) -> Phase {
        let mut s = self.m.lock().unwrap();
        let mut asleep = 0;
        loop {
            if matches!(s.phase, Phase::Idle | Phase::Paused) {
                return s.phase;
            }
            let (g, t) = self.c.wait_timeout(s, Duration::from_millis(2 << asleep)).unwrap();
            s = g;
            if t.timed_out() && matches!(s.phase, Phase::Running | Phase::Stuck) {
                asleep = if Self::asleep(s.tid) { asleep + 1 } else { 0 };
                if asleep >= 4 {
                    s.phase = Phase::Stuck;
                    self.halt.store(true, SeqCst);
                    return Phase::Stuck;
                }
            }
        }
    }
    /// A lane that slept, after another lane's step: waits until it is at its next branch or
    /// done if that step woke it.
    pub fn rouse(&self) {
        loop {
            let tid = {
                let s = self.m.lock().unwrap();
                if s.phase != Phase::Stuck {
                    return;
                }
                s.tid
            };
            // Not under the lock, on which it might be found asleep.
            let once = Self::asleep(tid);
            let still = self.m.lock().unwrap().phase == Phase::Stuck;
            if once && still && Self::asleep(tid) {
                return;
            }
            std::thread::sleep(Duration::from_micros(50));
        }
    }
}
