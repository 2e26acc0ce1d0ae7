//! The pruner applies every rule on every tick and survives failures.
use std::{collections::BTreeMap, str::FromStr, sync::Arc, time::Duration};

use chrono::Utc;
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    Rexecutor,
    backend::{Backend, memory::InMemoryBackend},
    job::JobStatus,
    pruner::{PruneSpec, Pruner, PrunerConfig},
};

use crate::{
    common::{all, enqueuable, millis},
    executors::{One, Other, Plain},
    world::{
        Act, Drive, Gated, Kind, Release, Setup, What, World, at, brief, drive, ms, simulate,
    },
};

const RULES: usize = 6;

/// Add a rule and tell what it is.
fn rule(config: PrunerConfig, which: usize) -> (PrunerConfig, PruneSpec) {
    macro_rules! add {
        ($rule:expr) => {
            (config.with_pruner($rule), PruneSpec::from($rule))
        };
    }
    match which {
        0 => add!(Pruner::max_age(millis(1_000), JobStatus::Complete)),
        1 => add!(Pruner::max_length(2, JobStatus::Discarded)),
        2 => add!(Pruner::max_age(millis(5_000), JobStatus::Cancelled).only::<Plain>()),
        3 => add!(Pruner::max_length(0, JobStatus::Complete).except::<Plain>().and::<One>()),
        4 => add!(Pruner::max_length(1, JobStatus::Complete).only::<Plain>().and::<Other>()),
        // The same as another rule.
        _ => add!(Pruner::max_age(millis(1_000), JobStatus::Complete)),
    }
}

/// The rules applied for each tick.
fn rounds(world: &World, tick_of: impl Fn(i64) -> i64) -> BTreeMap<i64, Vec<String>> {
    let mut rounds = BTreeMap::<i64, Vec<String>>::new();
    world.with_events(|events| {
        for event in events {
            if let What::OpStart { op, .. } = &event.what {
                rounds
                    .entry(tick_of(ms(event.at)))
                    .or_default()
                    .push(op.clone());
            }
        }
    });
    for ops in rounds.values_mut() {
        ops.sort();
    }
    rounds
}

fn names(specs: &[PruneSpec]) -> Vec<String> {
    let mut names: Vec<String> = specs.iter().map(|spec| format!("prune {spec:?}")).collect();
    names.sort();
    names
}

fn config(schedule: &str) -> PrunerConfig {
    PrunerConfig::new(cron::Schedule::from_str(schedule).unwrap())
}

/// At most so many in progress at a time.
fn in_progress(world: &World) -> (usize, usize) {
    world.with_events(|events| {
        let (mut now, mut most) = (0usize, 0usize);
        for event in events {
            match &event.what {
                What::OpStart { .. } => {
                    now += 1;
                    most = most.max(now);
                }
                What::Op { op, .. } if op.starts_with("prune") => now -= 1,
                _ => {}
            }
        }
        (now, most)
    })
}

/// Prune with gates, in all orders and with failures.
async fn gated(
    run: &mut Run,
    world: &Arc<World>,
    backend: &InMemoryBackend,
    limit: usize,
    specs: &[PruneSpec],
    ticks: i64,
    faults: bool,
) -> Result<usize, Violation> {
    let mut failed = 0;
    drive(
        run,
        world,
        backend,
        Drive {
            horizon: at(ticks * 2_000 + 1_000),
            free: false,
            stall: Some(Duration::from_millis(13)),
            max_steps: 400,
            decide: &mut |run, _| {
                if faults && run.deviate(2) == 1 {
                    failed += 1;
                    Release::Fault
                } else {
                    Release::Go
                }
            },
            observe: &mut |_| {
                let (now, most) = in_progress(world);
                ensure!(
                    most <= limit,
                    "{most} rules in progress, the limit is {limit}"
                );
                ensure!(now <= specs.len(), "{now} rules in progress");
                Ok(())
            },
        },
    )
    .await?;
    let rounds = rounds(world, |at| (at + 500) / 2_000 * 2_000);
    let expected: BTreeMap<i64, Vec<String>> = (1..=ticks)
        .map(|tick| (tick * 2_000, names(specs)))
        .collect();
    if rounds != expected {
        return Err(Violation::new(
            "wrong rules applied",
            format!("wrong rules applied: {rounds:?} instead of {expected:?}"),
        ));
    }
    ensure!(in_progress(world).0 == 0, "a rule did not finish");
    Ok(failed)
}

pub fn run(check: &mut Check) {
    check.assume("A round of pruning takes less than the period of the schedule.");
    let bound = check.by_tier(5, 6);
    let most = check.by_tier(4, 5);
    check.scenario("concurrency", bound, |run| {
        let count = 1 + run.choose(most);
        // No limit, the default, and some.
        let limit = run.choose(5);
        simulate(Setup::new(&[Kind::Prune]), |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new();
            let mut config = config("*/2 * * * * *");
            let mut specs = Vec::new();
            for n in 0..count {
                let (with, spec) = rule(config, n);
                config = with;
                specs.push(spec);
            }
            let limit = match limit {
                0 => 10,
                1 => {
                    config = config.with_max_concurrency(None);
                    usize::MAX
                }
                n => {
                    config = config.with_max_concurrency(Some(n - 1));
                    n - 1
                }
            };
            let _rexecutor =
                Rexecutor::new(Gated::new(&backend, &world, "app")).with_job_pruner(config);
            let failed = gated(run, &world, &backend, limit, &specs, 2, true).await?;
            Ok(format!("{count} rules, {failed} failed"))
        })
    });
    check.scenario("many rules", check.by_tier(2, 3), |run| {
        let limit = run.choose(3);
        let count = *run.pick(&[9, 10, 11, 14]);
        simulate(Setup::new(&[Kind::Prune]), |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new();
            let rules = || (0..count).map(|n| Pruner::max_length(n, JobStatus::Complete));
            let mut config = config("*/2 * * * * *").with_pruners(rules());
            let limit = match limit {
                0 => 10,
                1 => {
                    config = config.with_max_concurrency(Some(3));
                    3
                }
                _ => {
                    config = config.with_max_concurrency(None);
                    usize::MAX
                }
            };
            let specs: Vec<PruneSpec> = rules().map(Into::into).collect();
            let _rexecutor =
                Rexecutor::new(Gated::new(&backend, &world, "app")).with_job_pruner(config);
            gated(run, &world, &backend, limit, &specs, 2, true).await?;
            Ok(format!("{count} rules, limit {limit}"))
        })
    });
    // Schedules, all ways to configure the same rules, and nothing in between.
    let phases: Vec<i64> = check.by_tier(
        vec![0, 1, 500_000, 989_000, 990_000, 990_001, 991_000, 999_999],
        vec![
            0, 1, 999, 1_000, 100_000, 500_000, 700_001, 985_000, 989_000, 989_001, 990_000,
            990_001, 990_999, 991_000, 995_000, 999_000, 999_999,
        ],
    );
    check.scenario("schedules", 0, |run| {
        let (schedule, period, offset) = *run.pick(&[
            ("* * * * * *", 1_000, 0),
            ("*/5 * * * * *", 5_000, 0),
            ("7/20 * * * * *", 20_000, 7_000),
            ("0 * * * * *", 60_000, 0),
            ("0 0/30 * * * *", 1_800_000, 0),
        ]);
        let phase_us = *run.pick(&phases);
        let how = run.choose(4);
        let rules: Vec<usize> = match run.choose(6) {
            0 => vec![],
            1 => vec![0],
            2 => vec![0, 5],
            3 => vec![1, 2, 3, 4],
            4 => vec![4, 0, 2],
            _ => vec![3, 3, 3],
        };
        let setup = Setup::new(&[]).phase(phase_us * 1_000);
        simulate(setup, |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new();
            let mut specs = Vec::new();
            let mut rexecutor = Rexecutor::new(Gated::new(&backend, &world, "app"));
            let mut current = config(schedule);
            for which in rules {
                assert!(which < RULES);
                let (with, spec) = rule(current, which);
                current = with;
                specs.push(spec);
                match how {
                    // Distinct pruners.
                    1 => {
                        rexecutor = rexecutor.with_job_pruner(current);
                        current = config(schedule);
                    }
                    // Settings in between.
                    2 => current = current.with_max_concurrency(Some(2)),
                    3 => current = current.with_pruners(Vec::<Pruner<_>>::from([
                        Pruner::max_length(99, JobStatus::Cancelled),
                    ])),
                    _ => {}
                }
                if how == 3 {
                    specs.push(Pruner::max_length(99, JobStatus::Cancelled).into());
                }
            }
            if how != 1 {
                rexecutor = rexecutor.with_job_pruner(current);
            }
            let start = phase_us.div_euclid(1_000);
            let first = (0..).map(|n| offset + n * period).find(|t| *t * 1_000 > phase_us).unwrap();
            let ticks = [first, first + period, first + 2 * period];
            let until = ticks[2] + period.min(60_000) - 400;
            tokio::time::sleep(Duration::from_millis((until - start) as u64)).await;
            world.settle().await;
            // The tick which is nearby, if there is one.
            let found = rounds(&world, |at| {
                *ticks
                    .iter()
                    .find(|tick| {
                        let late = if **tick == first { first.max(start) } else { **tick };
                        at >= **tick - 500 && at <= late + 100
                    })
                    .unwrap_or(&-at)
            });
            let expected: BTreeMap<i64, Vec<String>> = if specs.is_empty() {
                BTreeMap::new()
            } else {
                ticks.iter().map(|tick| (*tick, names(&specs))).collect()
            };
            if found != expected {
                return Err(Violation::new(
                    "wrong rules applied",
                    format!(
                        "wrong rules applied for {schedule} from {start}: {found:?} instead of {expected:?}"
                    ),
                ));
            }
            run.state_of(&(schedule, phase_us, how, names(&specs)));
            drop(rexecutor);
            Ok(format!("{} rules", specs.len()))
        })
    });
    // The runner gets to run late.
    let lates = check.by_tier(
        vec![1, 9, 11, 70, 300, 600, 960],
        vec![1, 5, 9, 10, 11, 12, 20, 70, 150, 300, 499, 501, 600, 800, 960, 985],
    );
    check.scenario("late", 0, |run| {
        let (schedule, period) = *run.pick(&[("* * * * * *", 1_000), ("*/5 * * * * *", 5_000)]);
        let late: Vec<u64> = (0..2).map(|_| *run.pick(&lates)).collect();
        simulate(Setup::new(&[]), |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new();
            let mut config = config(schedule);
            let mut specs = Vec::new();
            for n in 0..2 {
                let (with, spec) = rule(config, n);
                config = with;
                specs.push(spec);
            }
            let _rexecutor =
                Rexecutor::new(Gated::new(&backend, &world, "app")).with_job_pruner(config);
            world.settle().await;
            for (n, late) in late.iter().enumerate() {
                let tick = (n as i64 + 1) * period;
                let left = at(tick - 25) - Utc::now();
                if left > millis(0) {
                    world.pass(left.to_std().unwrap(), Duration::from_millis(5)).await;
                }
                // Nothing runs in the meantime.
                let left = at(tick - 10) - Utc::now();
                let left = left.max(millis(0)).to_std().unwrap();
                tokio::time::advance(left + Duration::from_millis(*late)).await;
                world.settle().await;
                world.pass(Duration::from_millis(12), Duration::from_millis(1)).await;
                let seen = rounds(&world, |_| 0).remove(&0).unwrap_or_default();
                ensure!(
                    seen.len() == (n + 1) * 2,
                    "{} rules applied up to tick {tick}, which was dealt with {late} ms late",
                    seen.len()
                );
            }
            let left = at(3 * period + 300) - Utc::now();
            world.pass(left.to_std().unwrap(), Duration::from_millis(5)).await;
            let seen = rounds(&world, |_| 0).remove(&0).unwrap_or_default();
            let mut expected: Vec<String> =
                (0..3).flat_map(|_| names(&specs)).collect();
            expected.sort();
            if seen != expected {
                return Err(Violation::new(
                    "wrong rules applied",
                    format!("wrong rules applied: {seen:?} instead of {expected:?}"),
                ));
            }
            run.state_of(&(period, &late));
            Ok(format!("{period}"))
        })
    });
    // Rules that take long.
    check.scenario("slow", 0, |run| {
        let limit = *run.pick(&[None, Some(1), Some(2)]);
        let (schedule, period) = *run.pick(&[("0 * * * * *", 60_000), ("0 0 * * * *", 3_600_000)]);
        let hold = *run.pick(&[1_000, 5_100, 10_100, 30_100, 59_000, 3_000_000]);
        if hold >= period {
            return Ok("not relevant".to_owned());
        }
        let slow = run.choose(3);
        simulate(Setup::new(&[Kind::Prune]), |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new();
            let mut specs = Vec::new();
            let mut config = config(schedule).with_max_concurrency(limit);
            for n in 0..3 {
                let (with, spec) = rule(config, n);
                config = with;
                specs.push(spec);
            }
            let _rexecutor =
                Rexecutor::new(Gated::new(&backend, &world, "app")).with_job_pruner(config);
            for tick in 1..3 {
                let left = at(tick * period + 10) - Utc::now();
                tokio::time::sleep(left.to_std().unwrap()).await;
                world.settle().await;
                let mut seen = 0;
                while let Some(ticket) = world.tickets().first().cloned() {
                    if seen == slow {
                        tokio::time::sleep(Duration::from_millis(hold as u64)).await;
                        world.settle().await;
                        ensure!(
                            world.tickets().iter().any(|other| other.id == ticket.id),
                            "a rule was abandoned after less than {hold} ms"
                        );
                    }
                    seen += 1;
                    world.release(ticket.id, Release::Go);
                    world.settle().await;
                }
                ensure!(seen == 3, "{seen} of 3 rules applied at tick {tick}");
            }
            let (now, most) = in_progress(&world);
            ensure!(now == 0, "{now} rules did not finish");
            ensure!(most <= limit.unwrap_or(3), "{most} rules in progress");
            run.state_of(&(limit, period, hold, slow));
            Ok(format!("{limit:?}"))
        })
    });
    // What is left after the rules have been applied, with failures of some.
    check.scenario("effect", check.by_tier(4, 6), |run| {
        simulate(Setup::new(&[Kind::Prune]), |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new();
            let mut ids = Vec::new();
            for n in 0..3 {
                for executor in ["plain", "plain_other"] {
                    let job = enqueuable(executor, n, at(-10 - n));
                    let id = backend.enqueue(job).await.unwrap();
                    backend.mark_job_complete(id).await.unwrap();
                    ids.push((i32::from(id), executor, n));
                }
            }
            let config = config("*/2 * * * * *")
                .with_pruner(Pruner::max_length(1, JobStatus::Complete).only::<Plain>())
                .with_pruner(Pruner::max_length(2, JobStatus::Complete).except::<Plain>());
            let _rexecutor =
                Rexecutor::new(Gated::new(&backend, &world, "app")).with_job_pruner(config);
            let mut applied = Vec::new();
            drive(
                run,
                &world,
                &backend,
                Drive {
                    horizon: at(7_000),
                    free: false,
                    stall: Some(Duration::from_millis(13)),
                    max_steps: 100,
                    decide: &mut |run, ticket| {
                        if run.deviate(2) == 1 {
                            Release::Fault
                        } else {
                            applied.push(ticket.op.clone());
                            Release::Go
                        }
                    },
                    observe: &mut |_| Ok(()),
                },
            )
            .await?;
            let done = |part: &str| applied.iter().any(|op| op.contains(part));
            let left = all(&backend);
            for (id, executor, n) in ids {
                let keep = match executor {
                    "plain" => !done("Only") || n < 1,
                    _ => !done("Except") || n < 2,
                };
                ensure!(
                    keep == left.iter().any(|job| job.id == id),
                    "job {id} of {executor} should {}: {:?}",
                    if keep { "be kept" } else { "be pruned" },
                    left.iter().map(brief).collect::<Vec<_>>()
                );
            }
            let _ = Utc::now();
            Ok(format!("{} left", left.len()))
        })
    });
}
