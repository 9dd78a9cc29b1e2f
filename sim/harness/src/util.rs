//! Shared by the checks.
use simrt::faults::{self, Fault};
use simrt::sched::{interleave, Body};
use simrt::{bad, chance, Violation};

/// Runs the bodies under the scheduler; a panic in one of them is a violation.
pub fn threads(len_hint: u64, bodies: Vec<Body>) -> Result<(), Violation> {
    for (i, r) in interleave(len_hint, bodies).into_iter().enumerate() {
        if let Err(p) = r {
            if simrt::is_harness_panic(&p) {
                std::panic::panic_any(format!("{} at {}", p.msg, p.loc));
            }
            return bad("panic", format!("thread {} panicked: {} at {}", i, p.msg, p.loc));
        }
    }
    Ok(())
}

/// Spurious wake-ups of waiting threads, in some runs.
pub fn wakeups() {
    if chance(1, 4) {
        faults::enable(&[(Fault::SpuriousWake, 2000)]);
    }
}
