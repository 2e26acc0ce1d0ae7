//! A virtual wall clock per thread.
//!
//! `clock_gettime` is defined here and so takes precedence over the one of libc for everything in
//! the executable, in particular for `SystemTime::now` and thereby for `chrono::Utc::now`.
use std::cell::Cell;

#[derive(Clone, Copy)]
pub enum Source {
    /// The real clock.
    Real,
    /// A fixed instant, in nanoseconds since the epoch, until it is set again.
    Manual(i64),
    /// Follows the (paused) clock of the tokio runtime from the given instants on.
    Tokio(i64, tokio::time::Instant),
}

thread_local! {
    static SOURCE: Cell<Source> = const { Cell::new(Source::Real) };
    static MONOTONIC: Cell<Option<i64>> = const { Cell::new(None) };
}

pub fn set(source: Source) {
    SOURCE.set(source);
}

pub fn get() -> Source {
    SOURCE.get()
}

/// Advance a manual clock.
pub fn advance(nanos: i64) {
    if let Source::Manual(now) = SOURCE.get() {
        SOURCE.set(Source::Manual(now + nanos));
    }
}

/// Also virtualise the monotonic clock of this thread (nanoseconds).
pub fn set_monotonic(now: Option<i64>) {
    MONOTONIC.set(now);
}

/// 2030-01-01T00:00:00Z
pub const BASE: i64 = 1_893_456_000 * 1_000_000_000;

fn real(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    unsafe { libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int }
}

/// # Safety
/// As for the function of libc.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(
    clock: libc::clockid_t,
    ts: *mut libc::timespec,
) -> libc::c_int {
    if clock == libc::CLOCK_REALTIME {
        crate::threads::fine_point("clock");
    }
    let nanos = match clock {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => match SOURCE.get() {
            Source::Real => return real(clock, ts),
            Source::Manual(now) => now,
            Source::Tokio(base, start) => {
                base + tokio::time::Instant::now()
                    .saturating_duration_since(start)
                    .as_nanos() as i64
            }
        },
        libc::CLOCK_MONOTONIC => match MONOTONIC.get() {
            None => return real(clock, ts),
            Some(now) => now,
        },
        _ => return real(clock, ts),
    };
    unsafe {
        (*ts).tv_sec = nanos.div_euclid(1_000_000_000);
        (*ts).tv_nsec = nanos.rem_euclid(1_000_000_000);
    }
    0
}
