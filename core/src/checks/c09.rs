//! Graceful shutdown starts nothing new and loses nothing started.
use std::{str::FromStr, sync::Arc, time::Duration};

use chrono::{TimeDelta, Utc};
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    GlobalUnset, Rexecutor,
    backend::{Backend, Job, memory::InMemoryBackend},
    job::JobStatus,
    pruner::{Pruner, PrunerConfig},
};

use crate::{
    common::{enqueuable, get, millis, waiting},
    executors::{Data, Plain, Which},
    world::{Act, Drive, Execution, Gated, Kind, Release, Setup, What, World, at, describe, drive, ms, simulate},
};

const SHUTDOWN: &str = "shutdown";

/// One of the ways to shut down.
fn shut_down(world: &World, rexecutor: Rexecutor<Gated, GlobalUnset>, guard: bool) {
    world.note(SHUTDOWN);
    if guard {
        drop(rexecutor.drop_guard());
    } else {
        rexecutor.graceful_shutdown();
    }
}

/// Nothing is started after the shutdown.
fn nothing_new(world: &World) -> Result<(), Violation> {
    world.with_events(|events| {
        let Some(shutdown) = events
            .iter()
            .position(|event| matches!(&event.what, What::Note(note) if note == SHUTDOWN))
        else {
            return Ok(());
        };
        for event in &events[shutdown..] {
            let started = match &event.what {
                What::Delivered { .. } => "job handed out",
                What::Start { .. } => "execution started",
                What::Enqueued { .. } => "cron job enqueued",
                What::OpStart { .. } => "round of pruning started",
                _ => continue,
            };
            return Err(format!(
                "{started} after shutdown: at {} ms {}, shutdown at {} ms",
                ms(event.at),
                describe(&event.what),
                ms(events[shutdown].at)
            )
            .into());
        }
        Ok(())
    })
}

fn outcomes() -> [Act; 5] {
    [
        Act::Done,
        Act::Fail("f".to_owned()),
        Act::Snooze(millis(600_000)),
        Act::Cancel("c".to_owned()),
        Act::Panic("p".to_owned()),
    ]
}

/// Nothing is started after the shutdown, apart from what was under way.
fn nothing_follows(world: &World) -> Result<(), Violation> {
    world.with_events(|events| {
        let shutdown = events
            .iter()
            .position(|event| matches!(&event.what, What::Note(note) if note == SHUTDOWN))
            .unwrap_or(events.len());
        let (before, after) = events.split_at(shutdown);
        for event in after {
            let started = match &event.what {
                What::Delivered { .. } => "job handed out",
                What::Start { view, .. } => {
                    let handed_out = before
                        .iter()
                        .any(|event| matches!(&event.what, What::Delivered { job, .. } if job.id == view.id));
                    if handed_out {
                        continue;
                    }
                    "execution started"
                }
                What::Op { op, .. } if op.starts_with("enqueue") => "cron job enqueued",
                What::OpStart { .. } => {
                    // The round has begun.
                    let round = before
                        .iter()
                        .any(|other| matches!(&other.what, What::OpStart { .. }) && other.at == event.at);
                    if round {
                        continue;
                    }
                    "round of pruning started"
                }
                _ => continue,
            };
            return Err(format!(
                "{started} after shutdown: at {} ms {}",
                ms(event.at),
                describe(&event.what),
            )
            .into());
        }
        Ok(())
    })
}

/// The job was executed once and its outcome is recorded.
fn recorded(job: &Job, list: &[Execution]) -> Result<(), Violation> {
    ensure!(list.len() == 1, "executed {} times", list.len());
    let act = &list[0].act;
    let (wanted, errors) = match act.split('(').next().unwrap() {
        "Done" => (vec![JobStatus::Complete], 0),
        "Fail" | "Panic" => (vec![JobStatus::Retryable], 1),
        "Snooze" => (vec![JobStatus::Scheduled, JobStatus::Retryable], 0),
        "Cancel" => (vec![JobStatus::Cancelled], 1),
        _ => return Err(format!("execution did not run to completion: {list:?}").into()),
    };
    ensure!(
        wanted.contains(&job.status) && job.errors.len() == errors,
        "the outcome {act} was recorded as {job:?}"
    );
    Ok(())
}

pub fn run(check: &mut Check) {
    check.assume("A shutdown that happens while an operation of the backend is in progress counts as happening after it.");
    let bound = check.by_tier(3, 4);
    check.scenario("workers", bound, |run| {
        let which = *run.pick(&[
            Which::Plain,
            Which::One,
            Which::Two,
            Which::Block,
            Which::BlockOne,
        ]);
        let guard = run.flag();
        simulate(
            Setup::new(&[Kind::Claim, Kind::Body, Kind::Record, Kind::Client]),
            |_, _| Act::Done,
            async |world| workers(run, world, which, guard).await,
        )
    });

    // More is due than can be executed at once.
    check.scenario("backlog", check.by_tier(2, 4), |run| {
        let which = *run.pick(&[Which::Plain, Which::One, Which::Two, Which::Three, Which::BlockOne, Which::BlockTwo]);
        let guard = run.flag();
        let jobs = *run.pick(&[2, 3, 5, 6, 8]);
        let finished = run.choose(4);
        simulate(
            Setup::new(&[Kind::Body]),
            |_, _| Act::Done,
            async |world| {
                let backend = InMemoryBackend::new();
                for n in 0..jobs {
                    backend.enqueue(enqueuable(which.name(), n, at(0))).await.unwrap();
                }
                let before = crate::common::all(&backend);
                let rexecutor = which.add(Rexecutor::new(Gated::new(&backend, &world, "worker")));
                world.settle().await;
                let finish = async |run: &mut Run| {
                    let tickets = world.tickets();
                    if tickets.is_empty() {
                        return false;
                    }
                    let ticket = &tickets[run.deviate(tickets.len())];
                    run.note(|| ticket.op.clone());
                    world.release(ticket.id, Release::Go);
                    world.settle().await;
                    true
                };
                for _ in 0..finished {
                    finish(run).await;
                }
                let started = world.executions().len();
                shut_down(&world, rexecutor, guard);
                world.settle().await;
                while finish(run).await {}
                world.pass(Duration::from_millis(60_000), Duration::from_millis(10_000)).await;
                nothing_new(&world)?;
                let executions = world.executions();
                ensure!(executions.len() == started, "{} executions instead of {started}", executions.len());
                for (job, before) in crate::common::all(&backend).iter().zip(&before) {
                    match executions.contains_key(&job.id) {
                        true => ensure!(
                            job.status == JobStatus::Complete,
                            "the outcome of job {} is lost: {job:?}", job.id
                        ),
                        false => ensure!(
                            job == before,
                            "a job that was not started changed: {job:?}, before {before:?}"
                        ),
                    }
                }
                run.state_of(&(which, started, jobs));
                Ok(format!("{which:?} {started} of {jobs} started"))
            },
        )
    });

    // Executions take as long as they take.
    check.scenario("long executions", 0, |run| {
        let which = *run.pick(&[Which::Plain, Which::One, Which::Block, Which::BlockOne]);
        let guard = run.flag();
        let long = *run.pick(&[1, 31, 61, 600, 7_200, 90_000]);
        let act = run.pick(&outcomes()).clone();
        let recording = run.flag();
        simulate(
            Setup::new(if recording { &[Kind::Body, Kind::Record] } else { &[Kind::Body] }),
            |_, _| Act::Done,
            async |world| {
                let backend = InMemoryBackend::new();
                let id = backend.enqueue(enqueuable(which.name(), 1, at(0))).await.unwrap();
                let rexecutor = which.add(Rexecutor::new(Gated::new(&backend, &world, "worker")));
                world.settle().await;
                shut_down(&world, rexecutor, guard);
                for _ in 0..2 {
                    world.pass(Duration::from_secs(long), Duration::from_secs(long)).await;
                    for ticket in world.tickets() {
                        let release = if ticket.kind == Kind::Body { Release::Act(act.clone()) } else { Release::Go };
                        world.release(ticket.id, release);
                    }
                    world.settle().await;
                }
                nothing_new(&world)?;
                run.state_of(&(which, long, format!("{act:?}")));
                let executions = world.executions();
                let list = executions.get(&id.into()).cloned().unwrap_or_default();
                recorded(&get(&backend, id).unwrap(), &list)?;
                Ok(format!("{which:?}"))
            },
        )
    });
    // Another thread shuts down at any point.
    let points = check.by_tier(60, 90);
    check.scenario("at any point", 0, |run| {
        let which = *run.pick(&[Which::Plain, Which::One, Which::Two, Which::Block, Which::BlockOne]);
        let guard = run.flag();
        let point = run.choose(points);
        let quick = run.flag();
        simulate(
            Setup::new(&[]),
            move |_, view| {
                let n = view.data["n"].as_i64().unwrap() as usize;
                let act = outcomes()[n % outcomes().len()].clone();
                if quick { act } else { Act::Sleep(40, Box::new(act)) }
            },
            async |world| {
                let backend = InMemoryBackend::new();
                for n in 0..6 {
                    let mut job = enqueuable(which.name(), n, at(100 * (n / 4)));
                    let timeout = if n % 2 == 0 { Some(5_000) } else { None };
                    job.data = Data::n(n).backoff(600_000).timeout(timeout).json();
                    backend.enqueue(job).await.unwrap();
                }
                let before = crate::common::all(&backend);
                let every = cron::Schedule::from_str("* * * * * *").unwrap();
                let rexecutor = which
                    .add(Rexecutor::new(Gated::new(&backend, &world, "worker")))
                    .with_cron_executor::<crate::executors::Three>(every.clone(), Data::n(0))
                    .with_job_pruner(
                        PrunerConfig::new(every)
                            .with_pruner(Pruner::max_age(TimeDelta::hours(1), JobStatus::Complete))
                            .with_pruner(Pruner::max_length(5, JobStatus::Discarded)),
                    );
                {
                    let other = world.clone();
                    world.at_point(point, move || shut_down(&other, rexecutor, guard));
                }
                world.pass(Duration::from_millis(3_500), Duration::from_millis(10)).await;
                if !world.reached() {
                    // Leave the worker to the end of the world.
                    return Ok("too late".to_owned());
                }
                run.state_of(&world.with_events(|events| {
                    events.iter().map(|e| (ms(e.at), describe(&e.what))).collect::<Vec<_>>()
                }));
                nothing_follows(&world)?;
                let executions = world.executions();
                for job in crate::common::all(&backend) {
                    let list = executions.get(&job.id).cloned().unwrap_or_default();
                    if !list.is_empty() {
                        recorded(&job, &list)?;
                    } else if let Some(before) = before.iter().find(|before| before.id == job.id) {
                        ensure!(
                            job == *before,
                            "a job that was not started changed: {job:?}, before {before:?}"
                        );
                    } else {
                        ensure!(
                            job.status == JobStatus::Scheduled && job.attempt == 0,
                            "a job that was not started changed: {job:?}"
                        );
                    }
                }
                Ok(format!("{which:?} {} started", executions.len()))
            },
        )
    });

    // Shutdown at every instant around the ticks.
    let mut instants = vec![0, 1, 500, 1_500];
    for tick in check.by_tier(vec![1_000], vec![1_000, 2_000]) {
        instants.extend([-11, -10, -9, -5, -1, 0, 1, 5].map(|d| tick + d));
    }
    let seeds: u8 = check.by_tier(6, 16);
    check.scenario("ticks", 0, |run| {
        let instant = *run.pick(&instants);
        let guard = run.flag();
        let what = run.choose(4);
        let seed = run.choose(seeds as usize) as u8;
        simulate(Setup::new(&[]).seed(seed), |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new();
            let gated = Gated::new(&backend, &world, "app");
            let schedule = cron::Schedule::from_str("* * * * * *").unwrap();
            let mut rexecutor = Rexecutor::new(gated);
            if what == 0 || what == 3 {
                rexecutor = rexecutor.with_cron_executor::<Plain>(schedule.clone(), Data::n(1));
            }
            if what == 1 || what == 3 {
                rexecutor = rexecutor.with_job_pruner(
                    PrunerConfig::new(schedule.clone())
                        .with_pruner(Pruner::max_age(TimeDelta::hours(1), JobStatus::Complete))
                        .with_pruner(Pruner::max_length(5, JobStatus::Discarded)),
                );
            }
            if what == 2 || what == 3 {
                rexecutor = Which::One.add(rexecutor);
                for n in [0, 990, 1_000, 1_500, 2_000] {
                    backend.enqueue(enqueuable("one", n, at(n))).await.unwrap();
                }
            }
            // Shut down at the very instant, without anybody else running first.
            tokio::time::sleep(Duration::from_millis(instant as u64)).await;
            shut_down(&world, rexecutor, guard);
            tokio::time::sleep(Duration::from_millis(4_000)).await;
            world.settle().await;
            run.state_of(&world.with_events(|events| {
                events.iter().map(|e| (ms(e.at), describe(&e.what))).collect::<Vec<_>>()
            }));
            nothing_new(&world)?;
            for job in crate::common::all(&backend) {
                ensure!(
                    job.status != JobStatus::Executing,
                    "the outcome of job {} is lost",
                    job.id
                );
                ensure!(
                    !waiting(job.status) || job.attempt == 0 && job.errors.is_empty(),
                    "job {} that was not started changed: {job:?}",
                    job.id
                );
            }
            Ok(format!("{what}"))
        })
    });
    // Shutdown in the middle of enqueueing and pruning.
    check.scenario("in progress", check.by_tier(3, 5), |run| {
        let guard = run.flag();
        let instances = 1 + run.choose(2);
        simulate(
            Setup::new(&[Kind::Enqueue, Kind::Prune, Kind::Client, Kind::Body]),
            |_, _| Act::Done,
            async |world| {
                let backend = InMemoryBackend::new();
                let schedule = cron::Schedule::from_str("* * * * * *").unwrap();
                for instance in 0..instances {
                    let gated = Gated::new(&backend, &world, "app");
                    let rexecutor = Rexecutor::new(gated)
                        .with_cron_executor::<Plain>(schedule.clone(), Data::n(instance as i64))
                        .with_job_pruner(
                            PrunerConfig::new(schedule.clone())
                                .with_max_concurrency(Some(1))
                                .with_pruner(Pruner::max_age(TimeDelta::hours(1), JobStatus::Complete))
                                .with_pruner(Pruner::max_length(5, JobStatus::Complete)),
                        );
                    let world = world.clone();
                    tokio::spawn(async move {
                        world.gate(Kind::Client, "client", "shutdown", None).await;
                        world.note("shutdown started");
                        if guard {
                            drop(rexecutor.drop_guard());
                        } else {
                            rexecutor.graceful_shutdown();
                        }
                    });
                }
                world.settle().await;
                let mut down = 0;
                let mut rounds = 0;
                let mut steps = 0;
                while rounds < 4 && steps < 60 {
                    steps += 1;
                    let tickets = world.tickets();
                    let busy: Vec<_> = tickets.iter().filter(|t| t.kind != Kind::Client).collect();
                    let clients: Vec<_> = tickets.iter().filter(|t| t.kind == Kind::Client).collect();
                    let options = busy.len().max(1) + clients.len();
                    let choice = run.deviate(options);
                    if choice < busy.len() {
                        let ticket = busy[choice];
                        run.note(|| format!("{} proceeds", ticket.op));
                        if down == instances {
                            // What was in progress may finish, but nothing may follow.
                        }
                        world.release(ticket.id, Release::Go);
                    } else if choice >= busy.len().max(1) {
                        let ticket = clients[choice - busy.len().max(1)];
                        run.note(|| "shutdown".to_owned());
                        world.release(ticket.id, Release::Go);
                        down += 1;
                    } else {
                        rounds += 1;
                        world.pass(Duration::from_millis(490), Duration::from_millis(10)).await;
                    }
                    world.settle().await;
                    if down == instances {
                        break;
                    }
                }
                if down < instances {
                    return Ok("not shut down".to_owned());
                }
                // Let everything finish.
                let mut pending = world.tickets().len();
                while pending > 0 {
                    for ticket in world.tickets() {
                        world.release(ticket.id, Release::Go);
                        world.settle().await;
                    }
                    pending = world.tickets().len();
                }
                world.note(SHUTDOWN);
                world.pass(Duration::from_millis(3_500), Duration::from_millis(5)).await;
                ensure!(
                    world.tickets().is_empty(),
                    "something started after shutdown: {:?}",
                    world.tickets()
                );
                nothing_new(&world)?;
                run.state_of(&world.with_events(|events| {
                    events.iter().map(|e| (ms(e.at), describe(&e.what))).collect::<Vec<_>>()
                }));
                Ok("shut down".to_owned())
            },
        )
    });
}

async fn workers(
    run: &mut Run,
    world: Arc<World>,
    which: Which,
    guard: bool,
) -> mc_engine::explore::Outcome {
    let backend = InMemoryBackend::new();
    let rexecutor = which.add(Rexecutor::new(Gated::new(&backend, &world, "worker")));
    let mut ids = Vec::new();
    for n in 0..3 {
        let scheduled = if n == 2 { 300 } else { 0 };
        let mut job = enqueuable(which.name(), n, at(scheduled));
        let data = Data::n(n).backoff(600_000);
        job.data = data.timeout(if n == 0 { Some(200) } else { None }).json();
        ids.push(backend.enqueue(job).await.unwrap());
    }
    let before = crate::common::all(&backend);
    {
        let world = world.clone();
        tokio::spawn(async move {
            world.gate(Kind::Client, "client", "shutdown", None).await;
            shut_down(&world, rexecutor, guard);
        });
    }
    let acts = [
        Act::Done,
        Act::Fail("f".to_owned()),
        Act::Snooze(millis(600_000)),
        Act::Cancel("c".to_owned()),
        Act::Panic("p".to_owned()),
    ];
    drive(
        run,
        &world,
        &backend,
        Drive {
            horizon: at(120_000),
            free: false,
            stall: Some(Duration::from_millis(250)),
            max_steps: 100,
            decide: &mut |run, ticket| match ticket.kind {
                Kind::Body => Release::Act(acts[run.deviate(acts.len())].clone()),
                _ => Release::Go,
            },
            observe: &mut |_| nothing_new(&world),
        },
    )
    .await?;
    let executions = world.executions();
    for (id, before) in ids.iter().zip(&before) {
        let job = get(&backend, *id).expect("the job is gone");
        let Some(list) = executions.get(&job.id) else {
            ensure!(
                job == *before,
                "a job that was not started changed: {job:?}, before {before:?}"
            );
            continue;
        };
        ensure!(list.len() == 1, "executed {} times", list.len());
        let act = &list[0].act;
        let (wanted, errors) = match act.split('(').next().unwrap() {
            "Done" => (vec![JobStatus::Complete], 0),
            "Fail" | "Panic" | "Dropped" => (vec![JobStatus::Retryable], 1),
            "Snooze" => (vec![JobStatus::Scheduled, JobStatus::Retryable], 0),
            "Cancel" => (vec![JobStatus::Cancelled], 1),
            _ => {
                return Err(format!("execution did not run to completion: {list:?}").into());
            }
        };
        ensure!(
            wanted.contains(&job.status) && job.errors.len() == errors,
            "the outcome {act} was recorded as {job:?}"
        );
        ensure!(
            act != "Dropped" || list[0].ended_at.unwrap() - list[0].started_at >= millis(200),
            "execution was aborted: {list:?}"
        );
    }
    let _ = Utc::now();
    Ok(format!("{which:?} {} started", executions.len()))
}
