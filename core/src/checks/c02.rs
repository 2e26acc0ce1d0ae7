//! Runnable jobs start promptly and no wake-up is ever lost.
use std::{
    sync::{Arc, Mutex},
    time::Duration,
};

use chrono::{TimeDelta, Utc};
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    Rexecutor,
    backend::{Backend, memory::InMemoryBackend},
    executor::Executor,
    job::{
        JobId, JobStatus,
        uniqueness_criteria::{Replace, UniquenessCriteria},
    },
};

use crate::{
    common::{enqueuable, error, frozen, get, millis, now, unique},
    executors::{Data, Other, Plain, Which},
    model::{Op, Res},
    race::{Follow, Scene, Step},
    world::{Act, Gated, Setup, World, at, ms, simulate},
};

const P: &str = "plain";
/// The latest start after becoming due.
const PROMPT: i64 = 500;

fn id_of(res: Res) -> Result<i32, Violation> {
    match res {
        Res::Id(id) => Ok(id),
        other => Err(format!("enqueue failed: {other:?}").into()),
    }
}

/// Set up a job that is not runnable, and the operation which makes it so.
fn make_runnable(run: &mut Run, scene: &mut Scene) -> Result<(String, Vec<Step>), Violation> {
    let hour = TimeDelta::hours(1);
    let names = [
        "enqueue", "unique", "update", "replace", "retry", "snooze", "rerun complete",
        "rerun discarded", "rerun cancelled", "two", "other executor too", "replace retryable",
        "update retryable", "replace rerun", "fresh stored",
    ];
    let which = run.choose(names.len());
    let due = enqueuable(P, 1, Utc::now());
    let steps = match which {
        0 => vec![Step::Op(Op::Enqueue(due))],
        1 => vec![Step::Op(Op::Enqueue(unique(
            due,
            UniquenessCriteria::by_key(&1),
        )))],
        2 => {
            let id = id_of(scene.setup(Op::Enqueue(enqueuable(P, 1, Utc::now() + hour)))?)?;
            vec![Step::Edit(id, |job| job.scheduled_at = Utc::now())]
        }
        3 => {
            scene.setup(Op::Enqueue(enqueuable(P, 1, Utc::now() + hour)))?;
            vec![Step::Op(Op::Enqueue(unique(
                due,
                UniquenessCriteria::by_executor().on_conflict(Replace::scheduled_at()),
            )))]
        }
        4..9 => {
            let id = id_of(scene.setup(Op::Enqueue(due))?)?;
            scene.setup_claim(P)?;
            vec![Step::Op(match which {
                4 => Op::Retry(id, Utc::now(), error("again")),
                5 => Op::Snooze(id, Utc::now()),
                6 => {
                    scene.setup(Op::Complete(id))?;
                    Op::Rerun(id)
                }
                7 => {
                    scene.setup(Op::Discard(id, error("no")))?;
                    Op::Rerun(id)
                }
                _ => {
                    scene.setup(Op::Cancel(id, error("no")))?;
                    Op::Rerun(id)
                }
            })]
        }
        9 => vec![
            Step::Op(Op::Enqueue(due)),
            Step::Op(Op::Enqueue(enqueuable(P, 2, Utc::now()))),
        ],
        10 => vec![
            Step::Op(Op::Enqueue(enqueuable("plain_other", 1, Utc::now()))),
            Step::Op(Op::Enqueue(due)),
        ],
        11..14 => {
            // It has been executed before.
            let id = id_of(scene.setup(Op::Enqueue(due.clone()))?)?;
            scene.setup_claim(P)?;
            scene.setup(Op::Retry(id, Utc::now() + hour, error("again")))?;
            match which {
                11 => vec![Step::Op(Op::Enqueue(unique(
                    due,
                    UniquenessCriteria::by_executor()
                        .and_statuses(&JobStatus::ALL)
                        .on_conflict(Replace::scheduled_at().for_statuses(&JobStatus::ALL)),
                )))],
                12 => vec![Step::Edit(id, |job| job.scheduled_at = Utc::now())],
                _ => {
                    scene.setup(Op::Discard(id, error("never")))?;
                    vec![
                        Step::Op(Op::Enqueue(unique(
                            enqueuable(P, 1, Utc::now() + hour),
                            UniquenessCriteria::by_executor().and_statuses(&JobStatus::ALL).on_conflict(
                                Replace::scheduled_at().for_statuses(&[JobStatus::Discarded]),
                            ),
                        ))),
                        Step::Op(Op::Rerun(id)),
                    ]
                }
            }
        }
        _ => {
            scene.setup(Op::Enqueue(due))?;
            vec![Step::Query]
        }
    };
    Ok((names[which].to_owned(), steps))
}

pub fn run(check: &mut Check) {
    check.assume("Promptly: within 500 ms of being due.");
    check.assume("Threads switch only at the synchronisation operations of the in-memory backend, at starting and at finding nothing to do (sequential consistency); in the fine variants also at every allocation and reading of the clock.");
    let fine = check.by_tier(1, 2);
    let bound = check.by_tier(3, 5);
    check.threads("threads/one worker", bound, fine, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let mut scene = Scene::new().focus(false, false);
        let (name, steps) = make_runnable(run, &mut scene)?;
        let subscribed = run.flag();
        let bodies = vec![
            scene.worker(P, 2, Follow::Complete, subscribed),
            scene.client(steps),
        ];
        scene.run(run, bodies)?;
        scene.no_lost_wakeup()?;
        Ok(format!("{name} {}", scene.summary()))
    });
    let bound = check.by_tier(2, 3);
    check.threads("threads/two workers", bound, fine, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let mut scene = Scene::new().focus(false, false);
        let (name, steps) = make_runnable(run, &mut scene)?;
        let follow = *run.pick(&[Follow::Complete, Follow::Keep]);
        let second = run.flag();
        let mut bodies = vec![
            scene.worker(P, 2, follow, true),
            scene.client(steps),
            scene.worker(if second { P } else { "plain_other" }, 2, follow, true),
        ];
        if second {
            // The wake-ups are not consumed by somebody who does not need them.
            bodies.swap(0, 1);
        }
        scene.run(run, bodies)?;
        scene.no_lost_wakeup()?;
        Ok(format!("{name} {}", scene.summary()))
    });
    check.threads("threads/two clients", bound, fine, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let mut scene = Scene::new().focus(false, false);
        let (name, steps) = make_runnable(run, &mut scene)?;
        let other = Step::Op(Op::Enqueue(enqueuable(P, 7, Utc::now())));
        let bodies = vec![
            scene.worker(P, 3, Follow::Complete, true),
            scene.client(steps),
            scene.client(vec![other]),
        ];
        scene.run(run, bodies)?;
        scene.no_lost_wakeup()?;
        Ok(format!("{name} {}", scene.summary()))
    });
    check.threads("threads/paused", check.by_tier(3, 5), fine, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let mut scene = Scene::new().focus(false, false);
        scene.backend = InMemoryBackend::new().paused();
        let (name, mut steps) = make_runnable(run, &mut scene)?;
        steps.push(Step::NotifyAll);
        let bodies = vec![
            scene.worker(P, 2, Follow::Complete, true),
            scene.worker(P, 1, Follow::Keep, true),
            scene.client(steps),
        ];
        scene.run(run, bodies)?;
        scene.no_lost_wakeup()?;
        Ok(format!("{name} {}", scene.summary()))
    });

    // Real workers in virtual time.
    let delays: Vec<i64> = check.by_tier(
        vec![-3_600_000, -1, 0, 1, 14, 15, 16, 60, 99, 100, 101, 400, 5_000, 29_990, 30_000, 30_050, 61_000, 3_600_000],
        vec![
            -86_400_000, -3_600_000, -1000, -1, 0, 1, 2, 5, 10, 14, 15, 16, 20, 50, 60, 85, 99, 100, 101, 114, 115, 116, 200,
            400, 999, 1000, 1001, 5_000, 14_999, 29_900, 29_985, 29_990, 30_000, 30_010, 30_015, 30_050, 59_999, 60_000, 61_000,
            3_600_000, 86_400_000,
        ],
    );
    check.scenario("time/scheduled", 0, |run| {
        let (first, second) = (*run.pick(&delays), *run.pick(&delays));
        let order = run.choose(3);
        let phase = *run.pick(&[0, 400_000, 999_999]);
        simulate(Setup::new(&[]).phase(phase), |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new();
            let mut rexecutor = Some(Rexecutor::new(backend.clone()));
            let mut guard = None;
            let mut due = Vec::new();
            for (i, delay) in [first, second].into_iter().enumerate() {
                if order == i {
                    guard = rexecutor
                        .take()
                        .map(|r| r.with_executor::<Plain>().with_executor::<Other>().drop_guard());
                    tokio::time::sleep(std::time::Duration::from_millis(3)).await;
                }
                let scheduled_at = Utc::now() + millis(delay);
                let id = Plain::builder()
                    .with_data(Data::n(i as i64))
                    .schedule_at(scheduled_at)
                    .enqueue_to_backend(&backend)
                    .await
                    .unwrap();
                due.push((id, scheduled_at.max(Utc::now())));
            }
            if let Some(rexecutor) = rexecutor.take() {
                guard = Some(rexecutor.with_executor::<Plain>().with_executor::<Other>().drop_guard());
                let start = Utc::now();
                due.iter_mut().for_each(|(_, at)| *at = start.max(*at));
            }
            rest(&world, first.max(second) + 2000).await;
            prompt(run, &world, &due)?;
            drop(guard);
            Ok(format!("order {order}"))
        })
    });
    let instants: Vec<i64> = check.by_tier(
        vec![0, 1, 20, 100, 4_000, 9_890, 9_960, 9_986, 9_999],
        vec![0, 1, 5, 10, 15, 16, 20, 50, 90, 100, 101, 500, 4_000, 9_000, 9_800, 9_890, 9_900, 9_910, 9_960, 9_980, 9_985, 9_986, 9_990, 9_999],
    );
    let shifts = [-5_000, 0, 1, 15, 16, 90, 100, 101, 700, 4_000, 45_000];
    check.scenario("time/rescheduled", 0, |run| {
        // A job that is due later is changed to become due at another time.
        let (when, shift) = (*run.pick(&instants), *run.pick(&shifts));
        let how = run.choose(3);
        let companion = *run.pick(&[None, Some(9_950), Some(60_000)]);
        simulate(Setup::new(&[]), |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new();
            let guard = Rexecutor::new(backend.clone())
                .with_executor::<Plain>()
                .drop_guard();
            let mut due = Vec::new();
            if let Some(delay) = companion {
                let id = Plain::builder()
                    .with_data(Data::n(2))
                    .schedule_at(at(delay))
                    .enqueue_to_backend(&backend)
                    .await
                    .unwrap();
                due.push((id, at(delay)));
            }
            let criteria = UniquenessCriteria::by_key(&"job")
                .and_statuses(&[JobStatus::Scheduled, JobStatus::Retryable])
                .on_conflict(Replace::scheduled_at().for_statuses(&[JobStatus::Scheduled, JobStatus::Retryable]));
            let id = Plain::builder()
                .with_data(Data::n(1))
                .schedule_at(at(10_000))
                .unique(criteria.clone())
                .enqueue_to_backend(&backend)
                .await
                .unwrap();
            rest(&world, when).await;
            if world.executions().contains_key(&id.into()) {
                drop(guard);
                return Ok("too late".to_owned());
            }
            let target = Utc::now() + millis(shift);
            match how {
                0 => {
                    let mut job = Plain::query_jobs_on_backend(
                        rexecutor::job::query::Where::id_equals(id),
                        &backend,
                    )
                    .await
                    .unwrap()
                    .remove(0);
                    job.scheduled_at = target;
                    Plain::update_job_on_backend(job, &backend).await.unwrap();
                }
                1 => {
                    let same = Plain::builder()
                        .with_data(Data::n(1))
                        .schedule_at(target)
                        .unique(criteria)
                        .enqueue_to_backend(&backend)
                        .await
                        .unwrap();
                    ensure!(same == id, "a duplicate was stored");
                }
                _ => {
                    // Finished by somebody else, and then rerun.
                    backend.mark_job_complete(id).await.unwrap();
                    tokio::time::sleep(std::time::Duration::from_millis(7)).await;
                    Plain::rerun_job_on_backend(id, &backend).await.unwrap();
                }
            }
            let target = get(&backend, id).unwrap().scheduled_at;
            due.push((id, target.max(Utc::now())));
            rest(&world, 63_000).await;
            prompt(run, &world, &due)?;
            drop(guard);
            Ok(["update", "replace", "rerun"][how].to_owned())
        })
    });
    let backoffs = [0, 1, 15, 16, 99, 101, 1_000, 29_999, 40_000];
    check.scenario("time/outcomes", 0, |run| {
        // Failing and snoozing jobs come back in time.
        let (delay, other) = (*run.pick(&backoffs), *run.pick(&[0, 50, 20_000]));
        let snooze = run.flag();
        let rounds = 2;
        let snoozed = std::sync::atomic::AtomicI64::new(0);
        simulate(
            Setup::new(&[]),
            move |_, view| match view.data["n"].as_i64() {
                Some(1) if snooze => {
                    match snoozed.fetch_add(1, std::sync::atomic::Ordering::SeqCst) < rounds {
                        true => Act::Snooze(millis(delay)),
                        false => Act::Done,
                    }
                }
                Some(1) => Act::Fail("failed".to_owned()),
                _ => Act::Done,
            },
            async |world| {
                let backend = InMemoryBackend::new();
                let guard = Rexecutor::new(backend.clone())
                    .with_executor::<Plain>()
                    .drop_guard();
                let id = Plain::builder()
                    .with_data(Data::n(1).backoff(delay))
                    .enqueue_to_backend(&backend)
                    .await
                    .unwrap();
                let second = Plain::builder()
                    .with_data(Data::n(2))
                    .schedule_at(at(other))
                    .enqueue_to_backend(&backend)
                    .await
                    .unwrap();
                rest(&world, rounds * delay + 21_000).await;
                prompt(run, &world, &[(second, at(other))])?;
                let executions = world.executions();
                let list = executions.get(&id.into()).cloned().unwrap_or_default();
                ensure!(
                    list.len() as i64 > rounds,
                    "job not started again: {} executions",
                    list.len()
                );
                for pair in list.windows(2) {
                    let due = pair[0].started_at + millis(delay);
                    let late = ms(pair[1].started_at) - ms(due);
                    ensure!(late <= PROMPT, "job started late: {late} ms");
                }
                drop(guard);
                Ok(if snooze { "snooze" } else { "retry" }.to_owned())
            },
        )
    });
    check.scenario("time/company", 0, |run| {
        // Others on the same backend who would also like to know, or used to.
        let company = *run.pick(&[
            "none", "busy before", "busy after", "gone", "shut down", "another executor", "an instance before",
            "an instance after",
        ]);
        let change = run.choose(8);
        let soon = *run.pick(&[-7_200_000, -1, 0, 50, 2_000]);
        let waited = *run.pick(&[10, 7_000, 31_000]);
        simulate(Setup::new(&[]), |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new();
            let later = Plain::builder()
                .with_data(Data::n(1))
                .schedule_at(at(3_600_000))
                .unique(UniquenessCriteria::by_key(&"later"))
                .enqueue_to_backend(&backend)
                .await
                .unwrap();
            let mut kept = Vec::new();
            let mut guards = Vec::new();
            let instance = || Rexecutor::new(backend.clone()).with_executor::<Plain>().drop_guard();
            match company {
                "busy before" => kept.push(backend.subscribe_ready_jobs(P.into()).await),
                "gone" => drop(backend.subscribe_ready_jobs(P.into()).await),
                "shut down" => {
                    let other = Rexecutor::new(backend.clone()).with_executor::<Plain>();
                    world.settle().await;
                    other.graceful_shutdown();
                    world.settle().await;
                }
                "another executor" => kept.push(backend.subscribe_ready_jobs("plain_other".into()).await),
                "an instance before" => guards.push(instance()),
                _ => (),
            }
            world.settle().await;
            guards.push(instance());
            world.settle().await;
            match company {
                "busy after" => kept.push(backend.subscribe_ready_jobs(P.into()).await),
                "an instance after" => guards.push(instance()),
                _ => (),
            }
            rest(&world, waited).await;
            ensure!(world.executions().is_empty(), "a job is started too early");
            let when = Utc::now() + millis(soon);
            let id = match change {
                0 | 1 => {
                    let builder = Plain::builder().with_data(Data::n(2)).schedule_at(when);
                    let builder = match change {
                        0 => builder,
                        _ => builder.unique(UniquenessCriteria::by_key(&"new")),
                    };
                    builder.enqueue_to_backend(&backend).await.unwrap()
                }
                2 => {
                    let mut job = get(&backend, later).unwrap();
                    job.scheduled_at = when;
                    backend.update_job(job).await.unwrap();
                    later
                }
                3 => Plain::builder()
                    .with_data(Data::n(3))
                    .schedule_at(when)
                    .unique(
                        UniquenessCriteria::by_key(&"later")
                            .and_statuses(&JobStatus::ALL)
                            .on_conflict(Replace::scheduled_at().for_statuses(&[JobStatus::Scheduled])),
                    )
                    .enqueue_to_backend(&backend)
                    .await
                    .unwrap(),
                4 => {
                    backend.mark_job_retryable(later, when, error("again")).await.unwrap();
                    later
                }
                5 => {
                    backend.mark_job_snoozed(later, when).await.unwrap();
                    later
                }
                6 => {
                    backend.mark_job_cancelled(later, error("no")).await.unwrap();
                    backend.rerun_job(later).await.unwrap();
                    later
                }
                _ => {
                    backend.mark_job_complete(later).await.unwrap();
                    Plain::rerun_job_on_backend(later, &backend).await.unwrap();
                    later
                }
            };
            let when = get(&backend, id).map_or(when, |job| job.scheduled_at);
            let due = when.max(Utc::now());
            rest(&world, ms(due) + 1_000).await;
            prompt(run, &world, &[(id, due)])?;
            drop((guards, kept));
            Ok(company.to_owned())
        })
    });
    let points = check.by_tier(60, 120);
    check.scenario("time/at any point", 0, |run| {
        // Another thread makes a job runnable while the worker does something.
        let which = *run.pick(&[Which::Plain, Which::One, Which::Two, Which::BlockOne]);
        let change = run.choose(5);
        let soon = *run.pick(&[-1, 0, 40]);
        let point = run.choose(points);
        let fails = run.flag();
        simulate(
            Setup::new(&[]),
            move |_, view| match view.data["n"].as_i64() {
                Some(2) if fails => Act::Sleep(20, Box::new(Act::Fail("failed".to_owned()))),
                Some(1) => Act::Done,
                _ => Act::Sleep(10, Box::new(Act::Done)),
            },
            async |world| {
                let backend = InMemoryBackend::new();
                for n in 0..5 {
                    let mut job = enqueuable(which.name(), n, at([0, 0, 0, 120, 240][n as usize]));
                    job.data = Data::n(n).backoff(30).json();
                    backend.enqueue(job).await.unwrap();
                }
                let later = backend
                    .enqueue(unique(enqueuable(which.name(), 9, at(3_600_000)), UniquenessCriteria::by_key(&"later")))
                    .await
                    .unwrap();
                let guard = which.add(Rexecutor::new(Gated::new(&backend, &world, "worker"))).drop_guard();
                let changed = Arc::new(Mutex::new(None));
                {
                    let (backend, changed) = (backend.clone(), changed.clone());
                    world.at_point(point, move || {
                        let when = Utc::now() + millis(soon);
                        let id = match change {
                            0 => now(backend.enqueue(enqueuable(which.name(), 7, when))).unwrap(),
                            1 => {
                                let mut job = get(&backend, later).unwrap();
                                job.scheduled_at = when;
                                now(backend.update_job(job)).unwrap();
                                later
                            }
                            2 => now(backend.enqueue(unique(
                                enqueuable(which.name(), 9, when),
                                UniquenessCriteria::by_key(&"later")
                                    .and_statuses(&JobStatus::ALL)
                                    .on_conflict(Replace::scheduled_at().for_statuses(&JobStatus::ALL)),
                            )))
                            .unwrap(),
                            3 => {
                                now(backend.mark_job_retryable(later, when, error("again"))).unwrap();
                                later
                            }
                            _ => {
                                now(backend.mark_job_discarded(later, error("no"))).unwrap();
                                now(backend.rerun_job(later)).unwrap();
                                later
                            }
                        };
                        let when = get(&backend, id).unwrap().scheduled_at;
                        *changed.lock().unwrap() = Some((id, when.max(Utc::now())));
                    });
                }
                world.pass(Duration::from_millis(1_500), Duration::from_millis(10)).await;
                let changed = *changed.lock().unwrap();
                let Some(changed) = changed else {
                    drop(guard);
                    return Ok("too late".to_owned());
                };
                world.pass(Duration::from_millis(1_000), Duration::from_millis(10)).await;
                prompt(run, &world, &[changed])?;
                drop(guard);
                Ok(format!("{which:?}"))
            },
        )
    });
    check.scenario("time/paused", 0, |run| {
        // Nobody is woken by changes on a paused backend, everybody by the explicit notification.
        let change = run.choose(4);
        let wait = *run.pick(&[1, 1_000, 25_000]);
        simulate(Setup::new(&[]), |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new().paused();
            let mut later = Vec::new();
            for n in 0..3 {
                let id = Plain::builder()
                    .with_data(Data::n(n))
                    .schedule_at(at(3_600_000))
                    .enqueue_to_backend(&backend)
                    .await
                    .unwrap();
                later.push(id);
            }
            let guards: Vec<_> = (0..2)
                .map(|_| {
                    Rexecutor::new(backend.clone())
                        .with_executor::<Plain>()
                        .with_executor::<Other>()
                        .drop_guard()
                })
                .collect();
            rest(&world, 100).await;
            let id: JobId = match change {
                0 => Plain::builder()
                    .with_data(Data::n(9))
                    .enqueue_to_backend(&backend)
                    .await
                    .unwrap(),
                1 => {
                    let mut job = get(&backend, later[0]).unwrap();
                    job.scheduled_at = Utc::now();
                    backend.update_job(job).await.unwrap();
                    later[0]
                }
                2 => {
                    backend.mark_job_complete(later[1]).await.unwrap();
                    backend.rerun_job(later[1]).await.unwrap();
                    later[1]
                }
                _ => {
                    backend
                        .mark_job_retryable(later[2], Utc::now(), error("again"))
                        .await
                        .unwrap();
                    later[2]
                }
            };
            let other = Other::builder()
                .with_data(Data::n(10))
                .enqueue_to_backend(&backend)
                .await
                .unwrap();
            rest(&world, 100 + wait).await;
            ensure!(
                world.executions().is_empty(),
                "woken up on a paused backend: {:?}",
                world.executions()
            );
            let notified = Utc::now();
            backend.notify_all().unwrap();
            rest(&world, 100 + wait + 1000).await;
            prompt(run, &world, &[(id, notified), (other, notified)])?;
            drop(guards);
            Ok(format!("change {change}"))
        })
    });
}

/// Let time pass until the given milliseconds from the start.
async fn rest(world: &World, until: i64) {
    let left = at(until) - Utc::now();
    if let Ok(left) = left.to_std() {
        tokio::time::sleep(left).await;
    }
    world.settle().await;
}

/// Every job was started by the time it should have been.
fn prompt(
    run: &mut Run,
    world: &World,
    due: &[(JobId, chrono::DateTime<Utc>)],
) -> Result<(), Violation> {
    let executions = world.executions();
    for (id, due) in due {
        let started = executions.get(&(*id).into()).map(|list| list[0].started_at);
        run.note(|| format!("{id} due {} started {:?}", ms(*due), started.map(ms)));
        run.state_of(&(ms(*due), started.map(ms)));
        match started {
            None => return Err(format!("job never started: due at {} ms", ms(*due)).into()),
            Some(at) => ensure!(
                ms(at) - ms(*due) <= PROMPT,
                "job started late: due at {} ms, started at {} ms",
                ms(*due),
                ms(at)
            ),
        }
    }
    Ok(())
}
