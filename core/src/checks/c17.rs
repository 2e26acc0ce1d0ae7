//! Backoff delays follow their formula, stay in bounds and never fail.
use std::panic::{AssertUnwindSafe, catch_unwind};

use async_trait::async_trait;
use chrono::{TimeDelta, Utc};
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    backend::{Backend, memory::InMemoryBackend},
    backoff::{BackoffStrategy, Constant, Exponential, Jitter, Linear, Polynomial, Strategy},
    executor::{ExecutionResult, Executor},
    job::{Job, query::Where},
    verif::set_random_word,
};

use crate::{
    common::{enqueuable, frozen, now},
    executors::Data,
};

/// Nanoseconds, with a cap beyond everything that can be represented.
const CAP: i128 = i128::MAX / 4;

fn nanos(delta: TimeDelta) -> i128 {
    delta.num_seconds() as i128 * 1_000_000_000 + delta.subsec_nanos() as i128
}

fn times(a: i128, b: i128) -> i128 {
    a.checked_mul(b).map_or(CAP, |product| product.min(CAP))
}

fn power(base: i128, exponent: u64) -> i128 {
    let mut result = 1i128;
    if base <= 1 {
        return if exponent == 0 { 1 } else { base };
    }
    for _ in 0..exponent {
        result = times(result, base);
        if result == CAP {
            break;
        }
    }
    result
}

/// Whether the delay is the given number of nanoseconds, or as long as possible if that is more.
fn is(delay: TimeDelta, wanted: i128) -> bool {
    let top = nanos(TimeDelta::MAX);
    if wanted > top - 1_000_000_000 {
        // About the largest delay, fractions of a second do not matter.
        nanos(delay) >= top - 1_000_000_000
    } else {
        nanos(delay) == wanted
    }
}

#[derive(Clone, Copy, Debug)]
enum Formula {
    Constant(TimeDelta),
    Linear(TimeDelta, Option<TimeDelta>),
    Polynomial(TimeDelta, u32, Option<TimeDelta>),
    Exponential(TimeDelta, Option<TimeDelta>),
}

enum Strategies {
    Constant(BackoffStrategy<Constant>),
    Linear(BackoffStrategy<Linear>),
    Polynomial(BackoffStrategy<Polynomial>),
    Exponential(BackoffStrategy<Exponential>),
}

macro_rules! each {
    ($self:expr, $strategy:ident => $body:expr) => {
        match $self {
            Strategies::Constant($strategy) => $body,
            Strategies::Linear($strategy) => $body,
            Strategies::Polynomial($strategy) => $body,
            Strategies::Exponential($strategy) => $body,
        }
    };
    ($self:expr, $strategy:ident -> $body:expr) => {
        match $self {
            Strategies::Constant($strategy) => Strategies::Constant($body),
            Strategies::Linear($strategy) => Strategies::Linear($body),
            Strategies::Polynomial($strategy) => Strategies::Polynomial($body),
            Strategies::Exponential($strategy) => Strategies::Exponential($body),
        }
    };
}

impl Formula {
    fn build(self) -> Strategies {
        match self {
            Formula::Constant(delay) => Strategies::Constant(BackoffStrategy::constant(delay)),
            Formula::Linear(factor, max) => Strategies::Linear({
                let strategy = BackoffStrategy::linear(factor);
                match max {
                    None => strategy,
                    Some(max) => strategy.with_max(max),
                }
            }),
            Formula::Polynomial(factor, power, max) => Strategies::Polynomial({
                let strategy = BackoffStrategy::polynomial(factor, power);
                match max {
                    None => strategy,
                    Some(max) => strategy.with_max(max),
                }
            }),
            Formula::Exponential(base, max) => Strategies::Exponential({
                let strategy = BackoffStrategy::exponential(base);
                match max {
                    None => strategy,
                    Some(max) => strategy.with_max(max),
                }
            }),
        }
    }

    fn value(self, attempt: u16) -> i128 {
        let attempt = attempt as i128;
        let (value, max) = match self {
            Formula::Constant(delay) => (nanos(delay), None),
            Formula::Linear(factor, max) => (times(nanos(factor), attempt), max),
            Formula::Polynomial(factor, exponent, max) => (
                times(nanos(factor), power(attempt, exponent.into())),
                max,
            ),
            Formula::Exponential(base, max) => (
                times(
                    power(base.num_seconds().into(), attempt as u64),
                    1_000_000_000,
                ),
                max,
            ),
        };
        max.map_or(value, |max| value.min(nanos(max)))
    }

    fn choose(run: &mut Run) -> Self {
        let seconds = TimeDelta::seconds;
        let delays = [
            TimeDelta::zero(),
            TimeDelta::nanoseconds(1),
            TimeDelta::milliseconds(1_500),
            seconds(1),
            seconds(59),
            TimeDelta::days(1),
            TimeDelta::MAX / 2,
            TimeDelta::MAX,
        ];
        let max = [
            None,
            Some(TimeDelta::zero()),
            Some(seconds(1)),
            Some(TimeDelta::minutes(10)),
            Some(TimeDelta::days(7)),
            Some(TimeDelta::MAX),
        ];
        match run.choose(4) {
            0 => Formula::Constant(*run.pick(&delays)),
            1 => Formula::Linear(*run.pick(&delays), *run.pick(&max)),
            2 => Formula::Polynomial(
                *run.pick(&delays),
                *run.pick(&[0, 1, 2, 3, 4, 7, 16, 64, 1_000, u32::MAX]),
                *run.pick(&max),
            ),
            _ => Formula::Exponential(
                *run.pick(&[
                    seconds(1),
                    seconds(2),
                    seconds(3),
                    seconds(4),
                    seconds(60),
                    seconds(3_600),
                    seconds(65_536),
                    seconds(4_294_967_296),
                    seconds(i64::MAX / 1_000),
                ]),
                *run.pick(&max),
            ),
        }
    }
}

fn no_panic<T>(what: impl Fn() -> String, f: impl FnOnce() -> T) -> Result<T, Violation> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", what()).into())
}

fn jitter(run: &mut Run) -> Option<Jitter> {
    *run.pick(&[
        None,
        Some(Jitter::Absolute(TimeDelta::zero())),
        Some(Jitter::Absolute(TimeDelta::milliseconds(1))),
        Some(Jitter::Absolute(TimeDelta::seconds(10))),
        Some(Jitter::Absolute(TimeDelta::seconds(-10))),
        Some(Jitter::Absolute(TimeDelta::days(400))),
        Some(Jitter::Absolute(TimeDelta::MAX)),
        Some(Jitter::Absolute(TimeDelta::MIN)),
        Some(Jitter::Relative(0.0)),
        Some(Jitter::Relative(0.1)),
        Some(Jitter::Relative(0.5)),
        Some(Jitter::Relative(1.0)),
        Some(Jitter::Relative(3.0)),
        Some(Jitter::Relative(-0.5)),
        Some(Jitter::Relative(1e300)),
        Some(Jitter::Relative(f64::INFINITY)),
        Some(Jitter::Relative(f64::NAN)),
    ])
}

/// How far jitter may move the value.
fn reach(jitter: Option<Jitter>, value: i128) -> i128 {
    match jitter {
        None => 0,
        Some(Jitter::Absolute(delta)) => nanos(delta).abs(),
        // Rounded to milliseconds.
        Some(Jitter::Relative(ratio)) => {
            let reach = (value as f64 * ratio).abs();
            if reach.is_nan() {
                CAP
            } else {
                (reach * 1.000001).min(CAP as f64) as i128 + 1_000_000
            }
        }
    }
}

pub struct Defaults;

#[async_trait]
impl Executor for Defaults {
    type Data = Data;
    type Metadata = String;
    const NAME: &'static str = "defaults";
    async fn execute(_: Job<Self::Data, Self::Metadata>) -> ExecutionResult {
        ExecutionResult::Done
    }
}

pub fn run(check: &mut Check) {
    check.assume("Delays, factors and maxima are not negative; bases and maxima of exponential backoffs are whole seconds.");
    check.assume("Where the formula exceeds what a TimeDelta can represent the delay is its maximum, up to a second.");
    check.scenario("formulas", 0, |run| {
        let formula = Formula::choose(run);
        let strategy = formula.build();
        let mut previous = TimeDelta::zero();
        for attempt in 0..=u16::MAX {
            let delay = no_panic(
                || format!("{formula:?} attempt {attempt}"),
                || each!(&strategy, strategy => strategy.backoff(attempt)),
            )?;
            run.transitions += 1;
            ensure!(
                delay >= TimeDelta::zero(),
                "negative delay: {formula:?} attempt {attempt} gives {delay:?}"
            );
            if attempt == 0 {
                // Attempts start with one.
                continue;
            }
            let wanted = formula.value(attempt);
            ensure!(
                is(delay, wanted),
                "wrong delay: {formula:?} attempt {attempt} gives {delay:?} instead of {wanted} ns"
            );
            ensure!(
                delay >= previous,
                "the delay decreases: {formula:?} attempt {attempt} gives {delay:?} after {previous:?}"
            );
            previous = delay;
        }
        run.state_of(&format!("{formula:?}"));
        run.note(|| format!("{formula:?}"));
        Ok("formula".to_owned())
    });
    let words = check.by_tier(
        vec![0, 1, u64::MAX / 2, u64::MAX / 2 + 1, u64::MAX - 1, u64::MAX],
        (0..=64)
            .map(|n| (u64::MAX / 64).saturating_mul(n))
            .chain([1, 2, u64::MAX / 2 + 1, u64::MAX - 1, u64::MAX])
            .collect(),
    );
    let attempts = [0u16, 1, 2, 3, 10, 63, 1_000, u16::MAX];
    check.scenario("jitter", 0, |run| {
        let formula = Formula::choose(run);
        let jitter = jitter(run);
        for offset in [None, Some(TimeDelta::seconds(3)), Some(TimeDelta::MAX)] {
            for min in [None, Some(TimeDelta::seconds(5)), Some(TimeDelta::MAX)] {
                for word in &words {
                    set_random_word(Some(*word));
                    let mut strategy = formula.build();
                    if let Some(jitter) = jitter {
                        strategy = each!(strategy, strategy -> strategy.with_jitter(jitter));
                    }
                    if let Some(min) = min {
                        strategy = each!(strategy, strategy -> strategy.with_min(min));
                    }
                    if let Some(offset) = offset {
                        strategy = each!(strategy, strategy -> strategy.with_offset(offset));
                    }
                    for attempt in attempts {
                        let what = || {
                            format!(
                                "{formula:?} {jitter:?} offset {offset:?} min {min:?} word {word} attempt {attempt}"
                            )
                        };
                        let delay = no_panic(what, || {
                            each!(&strategy, strategy => strategy.backoff(attempt))
                        });
                        let delay = match delay {
                            Ok(delay) => delay,
                            Err(violation) => {
                                set_random_word(None);
                                return Err(violation);
                            }
                        };
                        run.transitions += 1;
                        if attempt == 0 && matches!(formula, Formula::Exponential(..)) {
                            continue;
                        }
                        let top = nanos(TimeDelta::MAX);
                        let value = formula.value(attempt).min(top);
                        let value = (value + offset.map_or(0, nanos)).min(top);
                        let slack = if value > top - 1_000_000_000 { 1_000_000_000 } else { 0 };
                        let reach = reach(jitter, value) + slack;
                        let least = min.map_or(0, nanos);
                        let lowest = (value - reach).max(least).min(top);
                        let highest = (value + reach).max(least);
                        let got = nanos(delay);
                        ensure!(
                            got >= least && got >= 0,
                            "below the minimum: {delay:?} for {}",
                            what()
                        );
                        ensure!(
                            got >= lowest && got <= highest,
                            "jitter out of bounds: {delay:?} is not between {lowest} and {highest} ns for {}",
                            what()
                        );
                    }
                }
            }
        }
        set_random_word(None);
        run.state_of(&format!("{formula:?} {jitter:?}"));
        Ok("jitter".to_owned())
    });
    // Jitter does move the delay, in both directions.
    check.scenario("jitter spreads", 0, |run| {
        let formula = Formula::choose(run);
        let jitter = *run.pick(&[
            Jitter::Absolute(TimeDelta::seconds(10)),
            Jitter::Absolute(TimeDelta::milliseconds(1_500)),
            Jitter::Absolute(TimeDelta::seconds(-10)),
            Jitter::Relative(0.1),
            Jitter::Relative(0.5),
            Jitter::Relative(1.0),
        ]);
        // Once before and once after the other settings.
        let first = run.flag();
        let attempt = *run.pick(&[1u16, 2, 5]);
        let offset = *run.pick(&[None, Some(TimeDelta::seconds(30))]);
        let value = formula.value(attempt) + offset.map_or(0, nanos);
        let reach = match jitter {
            Jitter::Absolute(delta) => nanos(delta).abs(),
            Jitter::Relative(ratio) => (value as f64 * ratio) as i128,
        };
        if value < reach || reach < 1_000_000_000 || value + reach > nanos(TimeDelta::MAX) / 2 {
            return Ok("skipped".to_owned());
        }
        let (mut low, mut high) = (i128::MAX, i128::MIN);
        for n in 0..=64 {
            set_random_word(Some((u64::MAX / 64).saturating_mul(n)));
            let mut strategy = formula.build();
            if first {
                strategy = each!(strategy, strategy -> strategy.with_jitter(jitter));
            }
            if let Some(offset) = offset {
                strategy = each!(strategy, strategy -> strategy.with_offset(offset));
            }
            if !first {
                strategy = each!(strategy, strategy -> strategy.with_jitter(jitter));
            }
            let delay = nanos(each!(&strategy, strategy => strategy.backoff(attempt)));
            run.transitions += 1;
            low = low.min(delay);
            high = high.max(delay);
        }
        set_random_word(None);
        run.state_of(&(format!("{formula:?} {jitter:?} {offset:?}"), attempt));
        ensure!(
            low <= value - reach / 2 && high >= value + reach / 2,
            "jitter {jitter:?} has no effect: {formula:?} offset {offset:?} attempt {attempt} gives {low} to {high} ns around {value}"
        );
        Ok("spread".to_owned())
    });
    // What executors do by default.
    check.scenario("default", 0, |run| {
        let _frozen = frozen();
        let backend = InMemoryBackend::new();
        now(backend.enqueue(enqueuable("defaults", 1, Utc::now()))).unwrap();
        let mut job = now(Defaults::query_jobs_on_backend(
            Where::tagged_by_all_of(&[]),
            &backend,
        ))
        .map_err(|error| format!("query failed: {error}"))?
        .pop()
        .ok_or("no job")?;
        let word = *run.pick(&words);
        for attempt in 0..=u16::MAX {
            set_random_word(Some(word));
            job.attempt = attempt;
            let delay = no_panic(
                || format!("default backoff, attempt {attempt}"),
                || Defaults::backoff(&job),
            );
            set_random_word(None);
            let delay = delay?;
            run.transitions += 1;
            let wanted = power(4, attempt.into()).min(7 * 86_400) * 1_000_000_000;
            let got = nanos(delay);
            ensure!(
                got >= wanted - wanted / 10 - 1_000_000 && got <= wanted + wanted / 10 + 1_000_000,
                "wrong default: attempt {attempt} gives {delay:?} instead of about {wanted} ns"
            );
        }
        run.state_of(&word);
        Ok("default".to_owned())
    });
}
