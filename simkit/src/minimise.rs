//! Shrinks a failing tape while the same violation class persists.

use crate::run::*;
use std::time::{Duration, Instant};

pub struct Shrunk {
    pub outcome: Outcome,
    pub attempts: u64,
}

pub fn shrink(scenario: fn(), class: &str, first: Outcome, budget: Duration) -> Shrunk {
    let end = Instant::now() + budget;
    let mut best = first;
    let mut attempts = 0u64;
    let mut try_tape = |t: Vec<u64>, best: &mut Outcome| -> bool {
        if Instant::now() >= end {
            return false;
        }
        attempts += 1;
        match execute(scenario, Source::Tape(t), 20, true) {
            Ok(o) => {
                let ok = o.violation.as_ref().map(|v| v.class == class).unwrap_or(false)
                    && simpler(&o.tape, &best.tape);
                if ok {
                    *best = o;
                }
                ok
            }
            Err(_) => false,
        }
    };
    loop {
        let before = best.tape.clone();
        // 1. drop whole steps, longest first
        let mut spans = best.spans.clone();
        spans.sort_by_key(|(b, e)| std::cmp::Reverse(e - b));
        for (b, e) in spans {
            if e <= best.tape.len() && Instant::now() < end {
                let mut t = best.tape.clone();
                t.drain(b..e);
                if try_tape(t, &mut best) {
                    // spans moved: start over with the new ones
                    break;
                }
            }
        }
        // 2. drop chunks
        let mut size = (best.tape.len() / 2).max(1);
        while size >= 1 && Instant::now() < end {
            let mut i = 0;
            while i < best.tape.len() {
                let mut t = best.tape.clone();
                let e = (i + size).min(t.len());
                t.drain(i..e);
                if !try_tape(t, &mut best) {
                    i += size;
                }
                if Instant::now() >= end {
                    break;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // 3. zero and reduce values
        let mut i = 0;
        while i < best.tape.len() && Instant::now() < end {
            let v = best.tape[i];
            if v != 0 {
                for nv in [0, v / 2, v - 1] {
                    if nv < v {
                        let mut t = best.tape.clone();
                        t[i] = nv;
                        if try_tape(t, &mut best) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best.tape == before || Instant::now() >= end {
            break;
        }
    }
    Shrunk { outcome: best, attempts }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    let key = |t: &[u64]| {
        let n = t.len() - t.iter().rev().take_while(|v| **v == 0).count();
        (n, t.iter().filter(|v| **v != 0).count())
    };
    let (ka, kb) = (key(a), key(b));
    ka < kb || (ka == kb && a < b)
}
