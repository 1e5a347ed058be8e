//! Preemption and coverage inside the code under test.
//!
//! The crates of the repository are compiled with calls at every control-flow edge and at every
//! load and store (tools/rustc.sh). An edge counts as covered; and in a run that asked for it,
//! edges, and accesses to static memory, are points at which the simulator may hand control to
//! another caller -- between the load and the store of a static counter, say. A caller that waits
//! for a lock which a preempted caller holds goes through the futex seam in `syscall`, and is not
//! scheduled before the lock word changes.
//!
//! Without that instrumentation there are no calls and so no preemption inside; everything else
//! works the same.

use crate::run::{self, in_sim};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU32, AtomicUsize, Ordering::Relaxed};

/// Calls until the next preemption; one counter for edges, one for accesses to static memory.
static EDGES: AtomicI64 = AtomicI64::new(0);
static ACCESSES: AtomicI64 = AtomicI64::new(0);
static ON: AtomicBool = AtomicBool::new(false);
static LEFT: AtomicU32 = AtomicU32::new(0);

static MAP: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static GUARDS: AtomicUsize = AtomicUsize::new(0);
static PCS: AtomicPtr<usize> = AtomicPtr::new(std::ptr::null_mut());
static PCS_LEN: AtomicUsize = AtomicUsize::new(0);

const MOST: u32 = 200;

/// The callers of this run may be preempted inside the code under test: how often, the tape says.
/// For scenarios whose callers share no value of the library outside a `SimLock`.
pub fn preemptible() {
    let (edges, accesses) = match run::draw(8, "preemption") {
        1 | 2 => (0, 7),
        3 => (0, 12),
        4 => (9, 0),
        5 => (16, 0),
        6 => (13, 7),
        _ => return,
    };
    LEFT.store(MOST, Relaxed);
    EDGES_LOG.store(edges, Relaxed);
    ACCESSES_LOG.store(accesses, Relaxed);
    arm(&EDGES, edges);
    arm(&ACCESSES, accesses);
    ON.store(true, Relaxed);
}

static EDGES_LOG: AtomicU32 = AtomicU32::new(0);
static ACCESSES_LOG: AtomicU32 = AtomicU32::new(0);

/// The next preemption is up to 2^log calls away, all orders of magnitude alike; a 0 on the tape
/// means there is none.
fn arm(counter: &AtomicI64, log: u32) {
    let n = match log {
        0 => 0,
        _ => match run::draw(log as u64 + 1, "preempt-in") {
            0 => 0,
            k => (1i64 << (k - 1)) + run::draw(1 << (k - 1), "preempt-at") as i64,
        },
    };
    counter.store(if n == 0 { i64::MAX } else { n }, Relaxed);
}

#[cold]
#[inline(never)]
fn preempt(counter: &AtomicI64, log: u32, label: &'static str) {
    if !in_sim() || std::thread::panicking() {
        counter.store(64, Relaxed);
        return;
    }
    match run::preempt_to(label) {
        // nobody to hand over to just now
        None => counter.store(64, Relaxed),
        Some(go) => {
            let left = LEFT.load(Relaxed);
            LEFT.store(left.saturating_sub(1), Relaxed);
            if left == 0 {
                ON.store(false, Relaxed);
            } else {
                arm(counter, log);
            }
            go();
        }
    }
}

#[inline]
fn tick(counter: &AtomicI64, log: &AtomicU32, label: &'static str) {
    let n = counter.load(Relaxed) - 1;
    counter.store(n, Relaxed);
    if n == 0 {
        preempt(counter, log.load(Relaxed), label);
    }
}

// The variables of the executable: initialised from __data_start, zeroed up to _end.
extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline]
fn access(p: usize) {
    if ON.load(Relaxed) {
        let (lo, hi) = (&raw const __data_start as usize, &raw const _end as usize);
        if p >= lo && p < hi {
            tick(&ACCESSES, &ACCESSES_LOG, "static");
        }
    }
}

macro_rules! accesses {
    ($($name:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $name(p: usize) {
            access(p)
        }
    )* };
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// # Safety
/// Called by instrumented code.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let m = MAP.load(Relaxed);
    if !m.is_null() {
        *m.add(*guard as usize) = 1;
    }
    if ON.load(Relaxed) {
        tick(&EDGES, &EDGES_LOG, "edge");
    }
}

/// # Safety
/// Called by instrumented code, before main, with the range of its guards.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            let n = GUARDS.load(Relaxed) + 1;
            GUARDS.store(n, Relaxed);
            *p = n as u32;
        }
        p = p.add(1);
    }
}

/// # Safety
/// Called by instrumented code, before main, with its table of (address, flags).
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *mut usize, stop: *mut usize) {
    PCS.store(start, Relaxed);
    PCS_LEN.store((stop as usize - start as usize) / 16, Relaxed);
}

/// From here on this process and those it forks note which edges they reach.
pub fn note_coverage() {
    let n = GUARDS.load(Relaxed) + 1;
    // SAFETY: a fresh shared mapping, that stays.
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if p != libc::MAP_FAILED {
            MAP.store(p.cast(), Relaxed);
        }
    }
}

/// How many edges there are, and which were reached.
pub fn coverage() -> (usize, Vec<u32>) {
    let n = GUARDS.load(Relaxed);
    let m = MAP.load(Relaxed);
    if m.is_null() {
        return (n, vec![]);
    }
    // SAFETY: the mapping has n + 1 bytes.
    (n, (1..=n).filter(|i| unsafe { *m.add(*i) != 0 }).map(|i| i as u32).collect())
}

/// The address of an edge in the executable file, for symbolisers.
pub fn address(edge: u32) -> Option<usize> {
    let (p, n) = (PCS.load(Relaxed), PCS_LEN.load(Relaxed));
    extern "C" {
        static __ehdr_start: u8;
    }
    if edge == 0 || edge as usize > n {
        return None;
    }
    // SAFETY: within the table.
    unsafe { *p.add(2 * (edge as usize - 1)) }.checked_sub(&raw const __ehdr_start as usize)
}

/// # Safety
/// What the C library's `syscall` asks for.
pub unsafe fn syscall(num: libc::c_long, a: [usize; 6]) -> libc::c_long {
    const FUTEX_WAIT: usize = 0;
    const FUTEX_WAKE: usize = 1;
    const FUTEX_WAIT_BITSET: usize = 9;
    const FUTEX_WAKE_BITSET: usize = 10;
    if num == libc::SYS_futex && in_sim() && !run::is_scheduler(a[0]) {
        match a[1] & 0x7f {
            FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                let e = run::futex_wait(a[0], a[2] as u32, a[3] != 0);
                if e == 0 {
                    return 0;
                }
                *libc::__errno_location() = e;
                return -1;
            }
            FUTEX_WAKE | FUTEX_WAKE_BITSET => {
                return run::futex_wake(a[0], a[2]) as libc::c_long;
            }
            _ => {}
        }
    }
    raw(num, a)
}

#[cfg(target_arch = "x86_64")]
unsafe fn raw(num: libc::c_long, a: [usize; 6]) -> libc::c_long {
    let r: isize;
    std::arch::asm!("syscall",
        inlateout("rax") num as isize => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r as libc::c_long
}
