//! simkit: the deterministic simulator the checks of /verif run on.
//!
//! One *run* is one execution of a scenario: caller tasks (OS threads that hand a baton to one
//! another, so exactly one runs at any instant and the simulator decides which), a simulated disk
//! and simulated byte/character sinks and sources, a simulated clock and simulated entropy. Every
//! decision -- the generated operations, the faults, the interleaving, hash seeds, entropy -- is
//! one `draw` from a tape. A tape is either produced by a PRNG (exploration) or read back from a
//! file (replay); the run is a pure function of the tape and the code.

pub mod dict;
pub mod entropy;
pub mod io;
pub mod minimise;
pub mod preempt;
pub mod run;
pub mod runner;

pub use io::*;
pub use preempt::preemptible;
pub use run::*;
pub use runner::{main_with, Property};

/// splitmix64 finaliser; used to derive independent seeds.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// FNV-1a, used for fingerprints.
pub fn fnv(mut h: u64, bytes: &[u8]) -> u64 {
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

#[macro_export]
macro_rules! slog {
    ($($arg:tt)*) => { $crate::log_line(format!($($arg)*)) };
}

/// Reports a violation of the property when the condition does not hold.
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond { $crate::violation($class, format!($($arg)*)) }
    };
}
