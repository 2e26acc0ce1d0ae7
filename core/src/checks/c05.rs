//! Every outcome of an execution is recorded as specified.
use std::{sync::Arc, time::Duration};

use chrono::{DateTime, Datelike, TimeDelta, Utc};
use futures::StreamExt;
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    Rexecutor,
    backend::{Backend, Job, memory::InMemoryBackend},
    job::{ErrorType, JobError, JobId, JobStatus},
};

use crate::{
    common::{enqueuable, error, get, millis, waiting},
    executors::{Data, Which, backoff_of},
    world::{Act, Drive, Gated, Kind, Release, Setup, What, World, at, drive, simulate},
};

const LIMIT: u64 = 40;

fn acts() -> Vec<Act> {
    vec![
        Act::Done,
        Act::Fail("it failed".to_owned()),
        Act::Cancel("not needed".to_owned()),
        Act::Snooze(millis(25_000)),
        Act::Snooze(millis(0)),
        Act::Panic("oh no".to_owned()),
        Act::PanicAny,
        Act::Fail(String::new()),
    ]
}

/// Messages and delays that are unusual.
fn unusual() -> Vec<Act> {
    let messages = [
        "two\nlines\n".to_owned(),
        "  spaces \t ".to_owned(),
        "\"quoted\" \\ {} %s $1 \u{1F600} \u{0}".to_owned(),
        "x".repeat(300),
        "x".repeat(70_000),
    ];
    let mut acts = Vec::new();
    for message in messages {
        acts.push(Act::Fail(message.clone()));
        acts.push(Act::Cancel(message.clone()));
        acts.push(Act::Panic(message));
    }
    for delay in [-60_000, -1, 1, 999, 1_001, 31_536_000_000] {
        acts.push(Act::Snooze(millis(delay)));
    }
    acts.push(Act::Snooze(TimeDelta::MAX));
    acts.push(Act::Snooze(TimeDelta::MIN));
    acts
}

/// Beyond what can be represented, the exact instant is free.
fn later(from: DateTime<Utc>, delay: TimeDelta) -> DateTime<Utc> {
    from.checked_add_signed(delay).unwrap_or(if delay > TimeDelta::zero() {
        DateTime::<Utc>::MAX_UTC
    } else {
        DateTime::<Utc>::MIN_UTC
    })
}

fn clip(at: DateTime<Utc>) -> DateTime<Utc> {
    match at.year() {
        9_999.. => DateTime::<Utc>::MAX_UTC,
        ..=0 => DateTime::<Utc>::MIN_UTC,
        _ => at,
    }
}

/// How the job ended.
#[derive(Clone, Debug)]
enum Ending {
    Act(Act),
    Timeout,
}

/// What should be stored, given what was handed out.
fn expected(delivered: &Job, ending: &Ending, ended: DateTime<Utc>, backoff: TimeDelta) -> Job {
    let mut job = delivered.clone();
    let mut errored = |kind: ErrorType, details: &str| {
        job.errors.push(JobError {
            attempt: job.attempt as u16,
            error_type: kind,
            details: details.to_owned(),
            recorded_at: ended,
        });
    };
    match ending {
        Ending::Act(Act::Done) => {
            job.status = JobStatus::Complete;
            job.completed_at = Some(ended);
            return job;
        }
        Ending::Act(Act::Cancel(reason)) => {
            errored(ErrorType::Cancelled, reason);
            job.status = JobStatus::Cancelled;
            job.cancelled_at = Some(ended);
            return job;
        }
        Ending::Act(Act::Snooze(delay)) => {
            job.attempt -= 1;
            job.status = JobStatus::Scheduled;
            job.scheduled_at = later(ended, *delay);
            return job;
        }
        Ending::Act(Act::Fail(message)) => {
            errored(ErrorType::Other("custom_error".to_owned()), message)
        }
        Ending::Act(Act::Panic(message)) => errored(ErrorType::Panic, message),
        Ending::Act(Act::PanicAny) => errored(ErrorType::Panic, "*"),
        Ending::Act(Act::Sleep(..)) => unreachable!(),
        Ending::Timeout => errored(ErrorType::Timeout, "*"),
    }
    if job.attempt >= job.max_attempts {
        job.status = JobStatus::Discarded;
        job.discarded_at = Some(ended);
    } else {
        job.status = JobStatus::Retryable;
        job.scheduled_at = later(ended, backoff);
    }
    job
}

fn compare(mut expected: Job, mut stored: Job, what: &str) -> Result<(), Violation> {
    if expected.status == JobStatus::Scheduled && waiting(stored.status) {
        expected.status = stored.status;
    }
    expected.scheduled_at = clip(expected.scheduled_at);
    stored.scheduled_at = clip(stored.scheduled_at);
    for (expected, stored) in expected.errors.iter_mut().zip(&mut stored.errors) {
        if expected.details == "*" {
            // The exact wording is free, but it has to say something.
            ensure!(!stored.details.is_empty(), "no details recorded for {what}");
            if expected.error_type == ErrorType::Timeout {
                let limit = format!("{:?}", Duration::from_millis(LIMIT));
                ensure!(
                    stored.details.contains(&limit),
                    "timeout not mentioned in {:?}",
                    stored.details
                );
            }
            expected.details = stored.details.clone();
        }
    }
    ensure!(
        expected == stored,
        "outcome recorded wrongly for {what}: stored {stored:?}, expected {expected:?}"
    );
    Ok(())
}

fn setup_job(which: Which, n: i64, data: Data, max_attempts: u16) -> rexecutor::backend::EnqueuableJob<'static> {
    let mut job = enqueuable(which.name(), n, at(-5_000));
    job.data = data.json();
    job.metadata = serde_json::json!("meta");
    job.tags = vec!["a".to_owned(), "b".to_owned()];
    job.priority = 3;
    job.max_attempts = max_attempts;
    job
}

/// Failed attempts made earlier.
async fn earlier(backend: &InMemoryBackend, which: Which, id: JobId, attempts: usize) {
    let mut stream = backend.subscribe_ready_jobs(which.name().into()).await;
    for n in 0..attempts {
        let job = stream.next().await.unwrap().unwrap();
        assert_eq!(job.id, i32::from(id));
        backend
            .mark_job_retryable(id, at(-4_000), error(&format!("earlier {n}")))
            .await
            .unwrap();
    }
}

fn last_delivered(world: &World) -> Option<Job> {
    world.with_events(|events| {
        events.iter().rev().find_map(|event| match &event.what {
            What::Delivered { job, .. } => Some(job.clone()),
            _ => None,
        })
    })
}

pub fn run(check: &mut Check) {
    check.assume("Virtual time: recording happens at the instant at which the body ends.");
    let backoffs: Vec<i64> = check.by_tier(vec![0, 2_000, 864_000_000], vec![0, 1, 15, 2_000, 60_000, 864_000_000, 31_536_000_000]);
    let positions: Vec<(u16, usize)> = check.by_tier(
        vec![(1, 0), (3, 0), (3, 1), (3, 2), (5, 3)],
        vec![(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (5, 0), (5, 3), (5, 4), (40, 20), (40, 39)],
    );
    for strange in [false, true] {
    check.scenario(if strange { "unusual" } else { "single" }, 0, |run| {
        let which = *run.pick(&[Which::Plain, Which::Block, Which::One, Which::BlockOne]);
        let timeout = *run.pick(&[None, Some(LIMIT)]);
        let acts = if strange { unusual() } else { acts() };
        let act = run.pick(&acts).clone();
        let body = if strange { Some(20) } else { *run.pick(&[None, Some(20), Some(100)]) };
        let (max_attempts, before) = if strange { *run.pick(&[(1, 0), (3, 1)]) } else { *run.pick(&positions) };
        let backoff = if strange { *run.pick(&[2_000, i64::MAX]) } else { *run.pick(&backoffs) };
        let ending = match (timeout, body) {
            (Some(_), Some(100)) => Ending::Timeout,
            _ => Ending::Act(act.clone()),
        };
        let script = match body {
            None => act.clone(),
            Some(ms) => Act::Sleep(ms, Box::new(act.clone())),
        };
        simulate(
            Setup::new(&[Kind::Claim, Kind::Record]),
            move |_, _| script.clone(),
            async |world| {
                let backend = InMemoryBackend::new();
                let data = Data::n(1).timeout(timeout).backoff(backoff);
                let id = backend.enqueue(setup_job(which, 1, data, max_attempts)).await.unwrap();
                let mut later = setup_job(which, 2, Data::n(2), 3);
                later.scheduled_at = at(3_600_000);
                let later = backend.enqueue(later).await.unwrap();
                let untouched = get_job(&backend, later).await;
                earlier(&backend, which, id, before).await;
                let mut gated = Gated::new(&backend, &world, "worker");
                gated.after = true;
                let guard = which.add(Rexecutor::new(gated)).drop_guard();
                let mut recorded = None;
                for _ in 0..400 {
                    world.settle().await;
                    let tickets = world.tickets();
                    if last_delivered(&world).is_none() {
                        // Let it claim the job.
                        match tickets.iter().find(|t| t.kind == Kind::Claim) {
                            Some(ticket) => world.release(ticket.id, Release::Go),
                            None => world.pass(Duration::from_millis(1), Duration::from_millis(1)).await,
                        }
                        continue;
                    }
                    if let Some(ticket) = tickets.iter().find(|t| t.kind == Kind::Record) {
                        let after = ticket.op.starts_with("after");
                        run.note(|| format!("{} at {}", ticket.op, Utc::now()));
                        if after {
                            ensure!(
                                recorded.is_none(),
                                "outcome recorded twice for {act:?}: {}",
                                ticket.op
                            );
                            let stored = get_job(&backend, id).await;
                            recorded = Some((stored, Utc::now()));
                        }
                        world.release(ticket.id, Release::Go);
                        continue;
                    }
                    if recorded.is_some()
                        && recorded.as_ref().is_some_and(|(_, at)| Utc::now() - *at > millis(110))
                    {
                        break;
                    }
                    world.pass(Duration::from_millis(5), Duration::from_millis(5)).await;
                }
                let what = format!("{which:?} {ending:?} attempt {} of {max_attempts}", before + 1);
                let Some((stored, _)) = recorded else {
                    return Err(format!("no outcome recorded for {what}").into());
                };
                let delivered = last_delivered(&world).unwrap();
                let ended = match ending {
                    Ending::Timeout => delivered.attempted_at.unwrap() + millis(LIMIT as i64),
                    _ => world.executions()[&id.into()].last().unwrap().ended_at.unwrap(),
                };
                let wanted = expected(&delivered, &ending, ended, backoff_of(&Data::n(1).backoff(backoff)));
                run.state_of(&(format!("{:?} {}", stored.status, stored.attempt), &what));
                compare(wanted, stored.clone(), &what)?;
                ensure!(
                    get_job(&backend, id).await == stored,
                    "the job changed after the outcome was recorded: {what}"
                );
                ensure!(
                    get_job(&backend, later).await == untouched,
                    "another job changed: {what}"
                );
                ensure!(
                    world.executions()[&id.into()].len() == 1,
                    "executed more than once: {what}"
                );
                drop(guard);
                Ok(format!("{:?}", stored.status))
            },
        )
    });
    }
    // Two jobs in flight: outcomes go to the right job.
    let interesting: Vec<Act> = acts()
        .into_iter()
        .filter(|act| *act != Act::Snooze(millis(0)))
        .take(5)
        .collect();
    let bound = check.by_tier(2, 4);
    check.scenario("pair", bound, move |run| {
        let which = *run.pick(&[Which::Plain, Which::Two, Which::Block, Which::One]);
        let chosen = [
            run.pick(&interesting).clone(),
            run.pick(&interesting).clone(),
        ];
        simulate(
            Setup::new(&[Kind::Claim, Kind::Body, Kind::Record]),
            |_, _| Act::Done,
            async |world| pair(run, world, which, chosen).await,
        )
    });
}

async fn get_job(backend: &InMemoryBackend, id: JobId) -> Job {
    get(backend, id).expect("the job is gone")
}

async fn pair(
    run: &mut Run,
    world: Arc<World>,
    which: Which,
    chosen: [Act; 2],
) -> mc_engine::explore::Outcome {
    let backend = InMemoryBackend::new();
    let mut ids = Vec::new();
    for n in 0..2 {
        let data = Data::n(n).backoff(50_000);
        let mut job = setup_job(which, n, data, 2);
        job.tags = vec![format!("job {n}")];
        ids.push(backend.enqueue(job).await.unwrap());
    }
    earlier(&backend, which, ids[0], 0).await;
    let guard = which
        .add(Rexecutor::new(Gated::new(&backend, &world, "worker")))
        .drop_guard();
    let mut records = [0, 0];
    drive(
        run,
        &world,
        &backend,
        Drive {
            horizon: at(10_000),
            free: false,
            stall: None,
            max_steps: 200,
            decide: &mut |_, ticket| match (ticket.kind, ticket.job) {
                (Kind::Body, Some(job)) => {
                    let at = ids.iter().position(|id| i32::from(*id) == job).unwrap();
                    Release::Act(chosen[at].clone())
                }
                (Kind::Record, Some(job)) => {
                    let at = ids.iter().position(|id| i32::from(*id) == job).unwrap();
                    records[at] += 1;
                    Release::Go
                }
                _ => Release::Go,
            },
            observe: &mut |_| Ok(()),
        },
    )
    .await?;
    for (n, id) in ids.iter().enumerate() {
        ensure!(
            records[n] == 1,
            "{} outcomes recorded for {:?}",
            records[n],
            chosen[n]
        );
        let delivered = world
            .with_events(|events| {
                events.iter().find_map(|event| match &event.what {
                    What::Delivered { job, .. } if job.id == i32::from(*id) => Some(job.clone()),
                    _ => None,
                })
            })
            .unwrap();
        let wanted = expected(
            &delivered,
            &Ending::Act(chosen[n].clone()),
            at(0),
            millis(50_000),
        );
        compare(wanted, get_job(&backend, *id).await, &format!("{:?}", chosen[n]))?;
    }
    drop(guard);
    Ok(format!("{which:?}"))
}
