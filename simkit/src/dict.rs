//! What the code under test is written with; see build.rs.

use crate::run::{draw, draw_usize};

include!(concat!(env!("OUT_DIR"), "/dict.rs"));

/// A size the code may make a difference for, or one next to it, not above `max`.
pub fn size(max: u64, label: &'static str) -> u64 {
    let n = NUMBERS.iter().take_while(|n| **n <= max).count();
    if n == 0 {
        return draw(max + 1, label);
    }
    (NUMBERS[draw_usize(n, label)] + draw(3, "beside")).saturating_sub(1).min(max)
}

/// A text of the code under test.
pub fn string(label: &'static str) -> &'static str {
    STRINGS[draw_usize(STRINGS.len(), label)]
}

pub fn character(label: &'static str) -> char {
    CHARS[draw_usize(CHARS.len(), label)]
}
