//! Cron schedules enqueue exactly one job per tick.
use std::{
    collections::{BTreeMap, BTreeSet},
    pin::Pin,
    str::FromStr,
    sync::{Arc, Mutex},
    time::Duration,
};

use async_trait::async_trait;
use chrono::{DateTime, Datelike, FixedOffset, NaiveDateTime, TimeDelta, Timelike, Utc};
use futures::Stream;
use mc_engine::{Check, Violation, ensure};
use rexecutor::{
    Rexecutor,
    backend::{
        Backend, BackendError, EnqueuableJob, ExecutionError, Job, Query, memory::InMemoryBackend,
    },
    executor::{Executor, ExecutorIdentifier},
    job::{
        JobId, JobStatus,
        uniqueness_criteria::{Replace, Resolution, UniquenessCriteria},
    },
    pruner::PruneSpec,
};

use crate::{
    common::{all, frozen, millis},
    executors::{Data, One, Other, Plain, Unique},
    model::{Op, Res},
    race::{Follow, Scene, Step},
    world::{Act, Drive, Gated, Kind, Release, Setup, What, World, at, brief, drive, ms, simulate},
};

/// A schedule and what it means.
type Plan = (&'static str, fn(NaiveDateTime) -> bool);

const PLANS: [Plan; 12] = [
    ("* * * * * *", |_| true),
    ("*/3 * * * * *", |t| t.second() % 3 == 0),
    ("1/7 * * * * *", |t| t.second() % 7 == 1),
    ("5,6,59 * * * * *", |t| [5, 6, 59].contains(&t.second())),
    ("58-59 * * * * *", |t| t.second() >= 58),
    ("0 * * * * *", |t| t.second() == 0),
    ("30 */20 * * * *", |t| t.second() == 30 && t.minute() % 20 == 0),
    ("0 15 3 * * *", |t| (t.hour(), t.minute(), t.second()) == (3, 15, 0)),
    ("0 0 0 * * *", |t| (t.hour(), t.minute(), t.second()) == (0, 0, 0)),
    ("0 30 23 * * Sun", |t| {
        (t.hour(), t.minute(), t.second()) == (23, 30, 0)
            && t.weekday() == chrono::Weekday::Sun
    }),
    ("0 0 9-10 * * Mon-Fri", |t| {
        (9..=10).contains(&t.hour())
            && t.minute() == 0
            && t.second() == 0
            && t.weekday().num_days_from_monday() < 5
    }),
    ("59 59 23 1 * *", |t| {
        (t.day(), t.hour(), t.minute(), t.second()) == (1, 23, 59, 59)
    }),
];

/// The ticks after the given time, in milliseconds.
fn ticks(plan: &Plan, zone: FixedOffset, after: i64, count: usize) -> Vec<i64> {
    let mut ticks = Vec::new();
    let mut second = after.div_euclid(1_000);
    let start = second;
    while ticks.len() < count && second - start < 40 * 86_400 {
        let tick = at(second * 1_000);
        if second * 1_000 > after && plan.1(tick.with_timezone(&zone).naive_local()) {
            ticks.push(second * 1_000);
        }
        second += 1;
    }
    ticks
}

/// The ids returned for each tick.
fn enqueued(world: &World, data: &Data) -> BTreeMap<i64, BTreeSet<i32>> {
    let mut found = BTreeMap::<i64, BTreeSet<i32>>::new();
    world.with_events(|events| {
        for event in events {
            if let What::Enqueued {
                id,
                scheduled_at,
                data: with,
                ..
            } = &event.what
                && *with == data.json()
            {
                found.entry(ms(*scheduled_at)).or_default().insert(*id);
            }
        }
    });
    found
}

fn whole(at: DateTime<Utc>) -> Result<i64, Violation> {
    ensure!(
        at.timestamp_subsec_nanos() % 1_000_000_000 == 0,
        "scheduled at {at} which is not a tick"
    );
    Ok(ms(at))
}

pub fn run(check: &mut Check) {
    let fine = check.by_tier(1, 2);
    check.assume("Ticks of schedules whose enqueue takes longer than the period of the schedule are out of scope, as are time zones with transitions (their meaning is defined by the cron crate).");
    check.assume("Jobs of a tick are not pruned before all instances have dealt with the tick.");
    let zones = check.by_tier(vec![0, 330, -210], vec![0, 330, -210, 765, -720, 1]);
    let deltas = check.by_tier(
        vec![-700_000, -12_000, -10_001, -10_000, -9_000, -1, 1],
        vec![
            -999_999, -700_000, -12_000, -10_999, -10_001, -10_000, -9_999, -9_000, -1_500, -1, 1,
            500,
        ],
    );
    check.scenario("schedules", 0, |run| {
        let plan = run.pick(&PLANS);
        let zone = FixedOffset::east_opt(run.pick(&zones) * 60).unwrap();
        // Microseconds relative to a tick.
        let delta = *run.pick(&deltas);
        let first = ticks(plan, zone, 0, 1)[0];
        let plain_api = zone.local_minus_utc() == 0 && run.flag();
        let start_us = first * 1_000 + delta;
        let setup = Setup::new(&[]).phase(start_us * 1_000);
        simulate(setup, |_, _| Act::Done, async |world| {
            let start = start_us.div_euclid(1_000);
            let expected = ticks(plan, zone, start, 3);
            let until = expected.last().unwrap().min(&(start + 3 * 86_400_000)) + 400;
            let expected: Vec<i64> = ticks(plan, zone, start, 500)
                .into_iter()
                .filter(|tick| *tick <= until)
                .collect();
            let backend = InMemoryBackend::new();
            let rexecutor = Rexecutor::new(Gated::new(&backend, &world, "app"));
            let schedule = cron::Schedule::from_str(plan.0).unwrap();
            let data = Data::n(7);
            let _rexecutor = if plain_api {
                rexecutor.with_cron_executor::<Plain>(schedule, data.clone())
            } else {
                rexecutor.with_cron_executor_for_timezone::<Plain, _>(schedule, data.clone(), zone)
            };
            world.settle().await;
            while ms(Utc::now()) < until {
                let left = (until - ms(Utc::now())) as u64;
                tokio::time::sleep(Duration::from_millis(left.min(1_800_000))).await;
            }
            world.settle().await;
            let jobs = all(&backend);
            run.note(|| format!("{} {zone} from {start}: {expected:?}", plan.0));
            run.note(|| format!("{:?}", jobs.iter().map(brief).collect::<Vec<_>>()));
            let executions = world.executions();
            let mut found = Vec::new();
            for job in &jobs {
                let tick = whole(job.scheduled_at)?;
                found.push(tick);
                ensure!(job.data == data.json(), "wrong data: {job:?}");
                ensure!(job.executor == Plain::NAME, "wrong executor: {job:?}");
                let (early, late) = (tick - 500, tick.max(start) + 100);
                let inserted = ms(job.inserted_at);
                ensure!(
                    (early..=late).contains(&inserted),
                    "the job for the tick {tick} was enqueued at {inserted}"
                );
                let list = executions.get(&job.id).map_or(&[][..], |list| list);
                ensure!(
                    list.len() == 1,
                    "the job of the tick {tick} was executed {} times",
                    list.len()
                );
                let ran = ms(list[0].started_at);
                ensure!(
                    ran >= tick - 100 && ran <= tick + 300,
                    "the job of the tick {tick} ran at {ran}"
                );
            }
            found.sort();
            ensure!(
                found == expected,
                "wrong ticks: {found:?} instead of {expected:?} for {} in {zone} from {start}",
                plan.0
            );
            run.state_of(&(plan.0, zone.local_minus_utc(), delta));
            Ok(format!("{} ticks", found.len()))
        })
    });

    // The runner gets to run late.
    let lates = check.by_tier(
        vec![1, 9, 11, 70, 300, 600, 960],
        vec![1, 5, 9, 10, 11, 12, 20, 70, 150, 300, 499, 501, 600, 800, 960, 985],
    );
    check.scenario("late", 0, |run| {
        let (schedule, period) = *run.pick(&[("* * * * * *", 1_000), ("*/5 * * * * *", 5_000)]);
        let instances = 1 + run.choose(2);
        let late: Vec<u64> = (0..2).map(|_| *run.pick(&lates)).collect();
        simulate(Setup::new(&[]), |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new();
            let mut apps = Vec::new();
            for n in 0..instances {
                let gated = Gated::new(&backend, &world, &format!("app {n}"));
                let schedule = cron::Schedule::from_str(schedule).unwrap();
                apps.push(Rexecutor::new(gated).with_cron_executor::<Plain>(schedule, Data::n(1)));
            }
            world.settle().await;
            for (n, late) in late.iter().enumerate() {
                let tick = (n as i64 + 1) * period;
                let left = at(tick - 25) - Utc::now();
                if left > TimeDelta::zero() {
                    world.pass(left.to_std().unwrap(), Duration::from_millis(5)).await;
                }
                // Nothing runs in the meantime.
                let left = at(tick - 10) - Utc::now();
                let left = left.max(TimeDelta::zero()).to_std().unwrap();
                tokio::time::advance(left + Duration::from_millis(*late)).await;
                world.settle().await;
                world.pass(Duration::from_millis(12), Duration::from_millis(1)).await;
                let jobs = all(&backend);
                let found: Vec<_> = jobs
                    .iter()
                    .filter(|job| ms(job.scheduled_at) == tick)
                    .collect();
                ensure!(
                    found.len() == 1,
                    "{} jobs for the tick {tick}, dealt with {late} ms late: {:?}",
                    found.len(),
                    jobs.iter().map(brief).collect::<Vec<_>>()
                );
            }
            let left = at(3 * period + 300) - Utc::now();
            world.pass(left.to_std().unwrap(), Duration::from_millis(5)).await;
            let mut found = Vec::new();
            for job in all(&backend) {
                found.push(whole(job.scheduled_at)?);
                ensure!(job.status == JobStatus::Complete, "a job did not run: {job:?}");
            }
            found.sort();
            ensure!(
                found == [period, 2 * period, 3 * period],
                "wrong ticks: {found:?}"
            );
            run.state_of(&(period, instances, &late));
            Ok(format!("{instances} instances"))
        })
    });

    // Instances which run the same schedule.
    let outcomes = [
        Act::Done,
        Act::Fail("f".to_owned()),
        Act::Snooze(millis(5_300)),
        Act::Cancel("c".to_owned()),
        Act::Panic("p".to_owned()),
        Act::Snooze(millis(40)),
    ];
    check.scenario("instances", check.by_tier(3, 4), |run| {
        let instances = 2 + run.choose(2);
        let backoff = *run.pick(&[0, 5_300]);
        let skew = run.choose(3);
        let data = Data::n(3).backoff(backoff);
        simulate(
            Setup::new(&[Kind::Enqueue, Kind::Body]),
            |_, _| Act::Done,
            async |world| {
                let backend = InMemoryBackend::new();
                let mut apps = Vec::new();
                for instance in 0..instances {
                    let name = format!("app {instance}");
                    let schedule = cron::Schedule::from_str("* * * * * *").unwrap();
                    let gated = Gated::new(&backend, &world, &name);
                    apps.push(
                        Rexecutor::new(gated)
                            .with_cron_executor::<Plain>(schedule, data.clone()),
                    );
                    if skew > 0 {
                        world.step([0, 1, 300][skew]).await;
                    }
                }
                drive(
                    run,
                    &world,
                    &backend,
                    Drive {
                        horizon: at(2_600),
                        free: false,
                        stall: Some(Duration::from_millis(12)),
                        max_steps: 200,
                        decide: &mut |run, ticket| match ticket.kind {
                            Kind::Body => {
                                Release::Act(outcomes[run.deviate(outcomes.len())].clone())
                            }
                            _ => Release::Go,
                        },
                        observe: &mut |_| Ok(()),
                    },
                )
                .await?;
                let found = enqueued(&world, &data);
                let jobs = all(&backend);
                for (tick, ids) in &found {
                    ensure!(
                        ids.len() == 1,
                        "{} jobs for one tick: {tick} {:?}",
                        ids.len(),
                        jobs.iter().map(brief).collect::<Vec<_>>()
                    );
                }
                let ticks: Vec<i64> = found.keys().copied().collect();
                ensure!(ticks == [1_000, 2_000], "wrong ticks: {ticks:?}");
                let ids: BTreeSet<i32> = found.values().flatten().copied().collect();
                ensure!(ids.len() == 2, "one job for two ticks: {found:?}");
                ensure!(
                    jobs.len() == 2,
                    "{} jobs for two ticks: {:?}",
                    jobs.len(),
                    jobs.iter().map(brief).collect::<Vec<_>>()
                );
                let executions = world.executions();
                for (tick, id) in found.iter().map(|(tick, ids)| (tick, ids.first().unwrap())) {
                    ensure!(
                        executions.contains_key(id),
                        "the job of the tick {tick} was not executed"
                    );
                }
                Ok(format!("{instances} instances"))
            },
        )
    });

    // Enqueues that fail lose nothing but their tick, and only if all instances fail.
    check.scenario("faults", check.by_tier(4, 6), |run| {
        let instances = 1 + run.choose(2);
        let data = Data::n(3);
        simulate(
            Setup::new(&[Kind::Enqueue]),
            |_, _| Act::Done,
            async |world| {
                let backend = InMemoryBackend::new();
                let mut apps = Vec::new();
                for instance in 0..instances {
                    let name = format!("app {instance}");
                    let schedule = cron::Schedule::from_str("* * * * * *").unwrap();
                    let gated = Gated::new(&backend, &world, &name);
                    apps.push(
                        Rexecutor::new(gated).with_cron_executor::<Plain>(schedule, data.clone()),
                    );
                }
                let mut failed = BTreeMap::<i64, usize>::new();
                drive(
                    run,
                    &world,
                    &backend,
                    Drive {
                        horizon: at(4_600),
                        free: false,
                        stall: Some(Duration::from_millis(12)),
                        max_steps: 200,
                        decide: &mut |run, _| {
                            if run.deviate(2) == 1 {
                                // The tick that is being dealt with.
                                let tick = (ms(Utc::now()) + 500) / 1_000 * 1_000;
                                *failed.entry(tick).or_default() += 1;
                                Release::Fault
                            } else {
                                Release::Go
                            }
                        },
                        observe: &mut |_| Ok(()),
                    },
                )
                .await?;
                let jobs = all(&backend);
                let mut found = Vec::new();
                for job in &jobs {
                    found.push(whole(job.scheduled_at)?);
                    ensure!(
                        job.status == JobStatus::Complete,
                        "a job did not run: {job:?}"
                    );
                }
                found.sort();
                let good: Vec<i64> = (1..=4)
                    .map(|tick| tick * 1_000)
                    .filter(|tick| failed.get(tick).is_none_or(|n| *n < instances))
                    .collect();
                ensure!(
                    found == good,
                    "wrong ticks: {found:?} instead of {good:?}"
                );
                Ok(format!("{} of 4", found.len()))
            },
        )
    });

    // Schedules that have nothing to do with each other.
    check.scenario("independent", check.by_tier(3, 4), |run| {
        let pair = run.choose(6);
        let instances = 1 + run.choose(2);
        simulate(
            Setup::new(&[Kind::Enqueue, Kind::Body]),
            |_, _| Act::Done,
            async |world| {
                let backend = InMemoryBackend::new();
                let mut apps = Vec::new();
                for instance in 0..instances {
                    let name = format!("app {instance}");
                    let schedule = || cron::Schedule::from_str("* * * * * *").unwrap();
                    let mut app = Rexecutor::new(Gated::new(&backend, &world, &name));
                    let mut data = vec![Data::n(1), Data::n(2)];
                    if run.flag() {
                        data.reverse();
                    }
                    for data in data {
                        app = match (pair, data.n) {
                            (0, _) | (1 | 3, 1) => {
                                app.with_cron_executor::<Plain>(schedule(), data)
                            }
                            // The same data for another executor.
                            (1, _) => app.with_cron_executor::<Other>(schedule(), Data::n(1)),
                            // A default for the uniqueness of jobs of the executor has no influence.
                            (2, _) => app.with_cron_executor::<Unique>(schedule(), data),
                            (3, _) => app.with_cron_executor::<Unique>(schedule(), data),
                            // Data which differ in another part.
                            (4, 1) => app.with_cron_executor::<Plain>(schedule(), data),
                            (4, _) => app
                                .with_cron_executor::<Plain>(schedule(), Data::n(1).backoff(5)),
                            _ => app.with_cron_executor::<One>(schedule(), data),
                        };
                    }
                    apps.push(app);
                }
                drive(
                    run,
                    &world,
                    &backend,
                    Drive {
                        horizon: at(2_600),
                        free: false,
                        stall: Some(Duration::from_millis(12)),
                        max_steps: 200,
                        decide: &mut |run, ticket| match ticket.kind {
                            // Still running at the next tick.
                            Kind::Body if run.deviate(2) == 1 => {
                                Release::Act(Act::Sleep(1_250, Box::new(Act::Done)))
                            }
                            _ => Release::Go,
                        },
                        observe: &mut |_| Ok(()),
                    },
                )
                .await?;
                let jobs = all(&backend);
                let mut found = BTreeMap::<(String, String), Vec<i64>>::new();
                for job in &jobs {
                    found
                        .entry((job.executor.clone(), job.data.to_string()))
                        .or_default()
                        .push(whole(job.scheduled_at)?);
                }
                ensure!(
                    found.len() == 2 && found.values().all(|ticks| *ticks == [1_000, 2_000]),
                    "wrong ticks: {found:?}"
                );
                Ok(format!("pair {pair}"))
            },
        )
    });

    // The jobs enqueued for one tick, by several threads at once.
    check.threads("threads", check.by_tier(2, 3), fine, |run| {
        let jobs = captured();
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let scene = Scene::new().focus(false, true);
        let (clients, which, worker) = match run.choose(2) {
            0 => (2, run.choose(2), run.choose(4)),
            _ => (3, 0, run.choose(2)),
        };
        let mut bodies = Vec::new();
        for n in 0..clients {
            let mut steps = vec![Step::Op(Op::Enqueue(jobs[0].clone()))];
            if n == 0 && which == 1 {
                steps.insert(0, Step::Op(Op::Enqueue(jobs[1].clone())));
            }
            bodies.push(scene.client(steps));
        }
        if worker > 0 {
            let follow = [Follow::Keep, Follow::Complete, Follow::Discard, Follow::Cancel][worker];
            bodies.push(scene.worker("plain", 1, follow, false));
        }
        scene.run(run, bodies)?;
        let mut ids: Vec<i32> = scene
            .history
            .calls()
            .iter()
            .filter_map(|call| match (&call.op, &call.res) {
                (Op::Enqueue(job), Res::Id(id)) if job.scheduled_at == jobs[0].scheduled_at => {
                    Some(*id)
                }
                _ => None,
            })
            .collect();
        ids.sort();
        ids.dedup();
        ensure!(ids.len() == 1, "{} jobs for one tick", ids.len());
        let stored = all(&scene.backend).len();
        ensure!(stored == 1 + which, "{stored} jobs are stored");
        Ok(scene.summary())
    });
}

fn forever<T: Clone>(list: &[T]) -> &'static [T] {
    Box::leak(list.to_vec().into_boxed_slice())
}

/// What the cron runner enqueues for two ticks.
fn captured() -> &'static [EnqueuableJob<'static>] {
    static JOBS: std::sync::OnceLock<Vec<EnqueuableJob<'static>>> = std::sync::OnceLock::new();
    JOBS.get_or_init(|| {
        simulate(Setup::new(&[]), |_, _| Act::Done, async |_| {
            let capture = Capture::default();
            let schedule = cron::Schedule::from_str("* * * * * *").unwrap();
            let _rexecutor =
                Rexecutor::new(capture.clone()).with_cron_executor::<Plain>(schedule, Data::n(1));
            tokio::time::sleep(Duration::from_millis(2_500)).await;
            let mut jobs = capture.0.lock().unwrap().clone();
            jobs.truncate(2);
            assert_eq!(jobs.len(), 2, "the cron runner enqueues nothing");
            // Due in the frozen time of the threads.
            let shift = jobs[1].scheduled_at - jobs[0].scheduled_at + TimeDelta::seconds(1);
            for job in &mut jobs {
                job.scheduled_at -= shift;
            }
            jobs
        })
    })
}

#[derive(Clone, Default)]
struct Capture(Arc<Mutex<Vec<EnqueuableJob<'static>>>>);

#[async_trait]
impl Backend for Capture {
    async fn subscribe_ready_jobs(
        &self,
        _: ExecutorIdentifier,
    ) -> Pin<Box<dyn Stream<Item = Result<Job, BackendError>> + Send>> {
        Box::pin(futures::stream::pending())
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        let criteria = job.uniqueness_criteria.map(|criteria| UniquenessCriteria {
            key: criteria.key,
            executor: criteria.executor,
            duration: criteria.duration,
            statuses: forever(criteria.statuses),
            on_conflict: match criteria.on_conflict {
                Resolution::DoNothing => Resolution::DoNothing,
                Resolution::Replace(replace) => Resolution::Replace(Replace {
                    for_statuses: forever(replace.for_statuses),
                    ..replace
                }),
            },
        });
        self.0.lock().unwrap().push(EnqueuableJob {
            executor: job.executor,
            data: job.data,
            metadata: job.metadata,
            max_attempts: job.max_attempts,
            scheduled_at: job.scheduled_at,
            tags: job.tags,
            priority: job.priority,
            uniqueness_criteria: criteria,
        });
        Ok(JobId::from(1))
    }
    async fn mark_job_complete(&self, _: JobId) -> Result<(), BackendError> {
        Ok(())
    }
    async fn mark_job_retryable(
        &self,
        _: JobId,
        _: DateTime<Utc>,
        _: ExecutionError,
    ) -> Result<(), BackendError> {
        Ok(())
    }
    async fn mark_job_discarded(&self, _: JobId, _: ExecutionError) -> Result<(), BackendError> {
        Ok(())
    }
    async fn mark_job_cancelled(&self, _: JobId, _: ExecutionError) -> Result<(), BackendError> {
        Ok(())
    }
    async fn mark_job_snoozed(&self, _: JobId, _: DateTime<Utc>) -> Result<(), BackendError> {
        Ok(())
    }
    async fn prune_jobs(&self, _: &PruneSpec) -> Result<(), BackendError> {
        Ok(())
    }
    async fn rerun_job(&self, _: JobId) -> Result<(), BackendError> {
        Ok(())
    }
    async fn update_job(&self, _: Job) -> Result<(), BackendError> {
        Ok(())
    }
    async fn query<'a>(&self, _: Query<'a>) -> Result<Vec<Job>, BackendError> {
        Ok(Vec::new())
    }
}
