//! The entropy, hash-seed and clock seams: the process's `getrandom` and `clock_gettime` symbols; `syscall` is
//! the seam for locks, see preempt.rs.
//!
//! `define_os_seams!()` in the binary defines these symbols. Calls made by a simulated task are
//! answered from the run (and may be faulted); calls made by anything else -- the runner itself --
//! reach the kernel, except that hash keys outside runs are constant.

use crate::run::{guard, in_sim};

pub const GRND_INSECURE: u32 = 4;

/// Lets `getrandom` calls of this run fail, be interrupted or be cut short.
pub fn set_entropy_faults(on: bool) {
    crate::run::with(|s| s.entropy_faulty = on);
}

/// # Safety
/// Called by libc users with a valid buffer.
pub unsafe fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if len == 0 {
        return 0;
    }
    let out = std::slice::from_raw_parts_mut(buf, len);
    if flags & GRND_INSECURE != 0 {
        // std's hash keys.
        let mut state = if in_sim() {
            let mut g = guard();
            let s = g.as_mut().unwrap();
            s.hash_ctr += 1;
            crate::mix(s.hash_seed) ^ s.hash_ctr
        } else {
            0xC0FFEE
        };
        for b in out.iter_mut() {
            state = crate::mix(state);
            *b = state as u8;
        }
        return len as isize;
    }
    if !in_sim() {
        // The runner's own start-up: constant as well, so every process starts alike.
        use std::sync::atomic::{AtomicU64, Ordering};
        static OUTSIDE: AtomicU64 = AtomicU64::new(1);
        for b in out.iter_mut() {
            *b = crate::mix(OUTSIDE.fetch_add(1, Ordering::Relaxed)) as u8;
        }
        return len as isize;
    }
    crate::run::yield_now("entropy");
    let mut g = guard();
    let s = g.as_mut().unwrap();
    let mut n = len;
    if s.entropy_faulty {
        match s.draw(12, "entropy-fault") {
            9 => {
                s.fault("entropy-eintr");
                *libc::__errno_location() = libc::EINTR;
                return -1;
            }
            10 => {
                s.fault("entropy-short");
                n = 1 + s.draw(len as u64, "entropy-len") as usize;
                n = n.min(len);
            }
            11 => {
                if s.chance(1, 4, "entropy-eio") {
                    s.fault("entropy-eio");
                    *libc::__errno_location() = libc::EIO;
                    return -1;
                }
            }
            _ => {}
        }
    }
    for b in out.iter_mut().take(n) {
        *b = (s.entropy_rng.next() >> 24) as u8;
    }
    s.entropy_last += 1;
    n as isize
}

/// How many entropy requests the run has answered.
pub fn entropy_calls() -> u64 {
    crate::run::with(|s| s.entropy_last)
}

/// # Safety
/// Called by libc users with a valid timespec.
pub unsafe fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if in_sim() {
        if let Some(s) = guard().as_mut() {
            let ns = if clk == libc::CLOCK_REALTIME { s.wall_ns } else { s.out.sim_ns as i64 };
            (*ts).tv_sec = ns / 1_000_000_000;
            (*ts).tv_nsec = ns % 1_000_000_000;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// Moves the simulated wall clock (not the monotonic one) by any amount.
pub fn jump_clock(ns: i64) {
    crate::run::with(|s| {
        s.fault("clock-jump");
        s.wall_ns = s.wall_ns.saturating_add(ns).max(0);
    });
}

#[macro_export]
macro_rules! define_os_seams {
    () => {
        #[no_mangle]
        pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
            $crate::entropy::getrandom(buf, len, flags)
        }
        #[no_mangle]
        pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut ::libc::timespec) -> i32 {
            $crate::entropy::clock_gettime(clk, ts)
        }
        #[no_mangle]
        pub unsafe extern "C" fn syscall(num: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
            $crate::preempt::syscall(num, [a, b, c, d, e, f])
        }
    };
}
