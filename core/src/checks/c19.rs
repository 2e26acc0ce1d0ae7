//! The process-wide backend is set at most once and used everywhere.
use std::{
    panic::{AssertUnwindSafe, catch_unwind},
    sync::Mutex,
};

use chrono::TimeDelta;
use mc_engine::{
    Check, Run, Violation,
    child::{in_child, serve},
    ensure,
    explore::Outcome,
    threads::{Body, finely, interleave},
};
use rexecutor::{
    Rexecutor, RexecutorError, assert_enqueued,
    backend::{Backend, Job as Raw, memory::InMemoryBackend},
    executor::{ExecutionResult, Executor},
    global_backend::GlobalBackend,
    job::{Job, JobStatus, query::Where},
};

use crate::{
    common::{all, enqueuable, frozen, get, now},
    executors::{Data, Plain},
    world::{Act, Drive, Gated, Kind, Release, Setup, What, at, drive, simulate},
};

/// An executor whose jobs need no data.
struct Bare;
#[async_trait::async_trait]
impl Executor for Bare {
    type Data = ();
    type Metadata = String;
    const NAME: &'static str = "bare";
    async fn execute(_: Job<Self::Data, Self::Metadata>) -> ExecutionResult {
        ExecutionResult::Done
    }
}

const SEQUENCES: [(&str, usize); 4] = [
    ("sequences of 3", 3),
    ("sequences of 4", 4),
    ("sequences of 5", 5),
    ("sequences of 6", 6),
];

pub fn child(name: &str) {
    if let Some((_, depth)) = SEQUENCES.iter().find(|(this, _)| *this == name) {
        serve(|run| sequence(run, *depth));
        return;
    }
    match name {
        "two threads" => serve(|run| threads(run, 2)),
        "two threads (fine)" => serve(|run| {
            run.fine = true;
            threads(run, 2)
        }),
        "three threads" => serve(|run| threads(run, 3)),
        "workers" => serve(workers),
        _ => panic!("no such scenario"),
    }
}

pub fn run(check: &mut Check) {
    check.assume("Threads switch only at the operations of the cell that holds the process-wide backend, at those of the in-memory backend, and between operations (sequential consistency); in the fine variants also at every allocation and reading of the clock.");
    check.assume("Each execution is a process of its own.");
    check.assume("assert_enqueued without a backend is out of scope before the process-wide backend is set, it panics by design.");
    let (name, _) = SEQUENCES[check.by_tier(1, 2)];
    check.scenario(name, 0, |run| in_child(run, name));
    check.scenario("two threads", check.by_tier(3, 5), |run| {
        in_child(run, "two threads")
    });
    check.scenario("two threads (fine)", check.by_tier(1, 2), |run| {
        in_child(run, "two threads (fine)")
    });
    check.scenario("three threads", check.by_tier(2, 3), |run| {
        in_child(run, "three threads")
    });
    check.scenario("workers", check.by_tier(2, 3), |run| in_child(run, "workers"));
}

/// The operations that do not name a backend.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Enqueue,
    EnqueueBare,
    Query,
    Cancel,
    Rerun,
    Update,
    Reference,
}

const OPS: [Op; 7] = [
    Op::Enqueue,
    Op::EnqueueBare,
    Op::Query,
    Op::Cancel,
    Op::Rerun,
    Op::Update,
    Op::Reference,
];

/// Perform it on the process-wide backend, or on the given one.
fn perform(op: Op, on: Option<&InMemoryBackend>) -> Result<String, RexecutorError> {
    let query = Where::status_equals(JobStatus::Scheduled);
    let id = 0.into();
    Ok(match op {
        Op::Enqueue => {
            let builder = Plain::builder().with_data(Data::n(7));
            format!(
                "{:?}",
                match on {
                    None => now(builder.enqueue()),
                    Some(backend) => now(builder.enqueue_to_backend(backend)),
                }?
            )
        }
        Op::EnqueueBare => format!(
            "{:?}",
            match on {
                None => now(Bare::builder().enqueue()),
                Some(backend) => now(Bare::builder().enqueue_to_backend(backend)),
            }?
        ),
        Op::Query => format!(
            "{:?}",
            match on {
                None => now(Plain::query_jobs(query)),
                Some(backend) => now(Plain::query_jobs_on_backend(query, backend)),
            }?
            .iter()
            .map(|job| (job.id, job.data.n, job.scheduled_at, job.status))
            .collect::<Vec<_>>()
        ),
        Op::Cancel => format!(
            "{:?}",
            match on {
                None => now(Plain::cancel_job(id, Box::new("no"))),
                Some(backend) => now(Plain::cancel_job_on_backend(id, Box::new("no"), backend)),
            }?
        ),
        Op::Rerun => format!(
            "{:?}",
            match on {
                None => now(Plain::rerun_job(id)),
                Some(backend) => now(Plain::rerun_job_on_backend(id, backend)),
            }?
        ),
        Op::Update => {
            let mut job: Job<Data, String> = stored().try_into().unwrap();
            job.priority = 42;
            format!(
                "{:?}",
                match on {
                    None => now(Plain::update_job(job)),
                    Some(backend) => now(Plain::update_job_on_backend(job, backend)),
                }?
            )
        }
        Op::Reference => {
            let jobs = match on {
                None => now(GlobalBackend::as_ref()?.query(rexecutor::backend::Query::TagsAllOf(&[])))?,
                Some(backend) => now(backend.query(rexecutor::backend::Query::TagsAllOf(&[])))?,
            };
            format!("{}", jobs.len())
        }
    })
}

/// The job with the id 0 of every backend.
fn stored() -> Raw {
    let backend = populated(1);
    get(&backend, 0.into()).unwrap()
}

/// A backend with the given number of jobs.
fn populated(jobs: i64) -> InMemoryBackend {
    let backend = InMemoryBackend::new();
    for n in 0..jobs {
        let mut job = enqueuable("plain", n, at(3_600_000));
        job.metadata = serde_json::json!(format!("of {jobs}"));
        now(backend.enqueue(job)).unwrap();
    }
    backend
}

fn sequence(run: &mut Run, depth: usize) -> Outcome {
    let _frozen = frozen();
    // The second one of each pair is operated on by name.
    let backends = [1, 2].map(|jobs| (populated(jobs), populated(jobs)));
    let mut winner: Option<usize> = None;
    let mut said = Vec::new();
    for _ in 0..depth {
        let choice = run.choose(OPS.len() + 2);
        if choice >= OPS.len() {
            let which = choice - OPS.len();
            run.note(|| format!("install backend {which}"));
            let result = Rexecutor::new(backends[which].0.clone()).set_global_backend();
            match (result, winner) {
                (Ok(_), None) => winner = Some(which),
                (Err(RexecutorError::GlobalBackend), Some(_)) => {}
                (result, _) => {
                    return Err(format!(
                        "wrong result of installing: {} with {winner:?} installed",
                        match result {
                            Ok(_) => "success".to_owned(),
                            Err(error) => format!("{error:?}"),
                        }
                    )
                    .into());
                }
            }
            said.push("install".to_owned());
        } else {
            let op = OPS[choice];
            run.note(|| format!("{op:?}"));
            let result = catch_unwind(AssertUnwindSafe(|| perform(op, None)))
                .map_err(|_| format!("panicked: {op:?} with {winner:?} installed"))?;
            match winner {
                None => ensure!(
                    matches!(result, Err(RexecutorError::GlobalBackend)),
                    "no error without a backend: {op:?} gives {result:?}"
                ),
                Some(winner) => {
                    let expected = perform(op, Some(&backends[winner].1));
                    let (result, expected) = (format!("{result:?}"), format!("{expected:?}"));
                    ensure!(
                        result == expected,
                        "wrong result: {op:?} gives {result} instead of {expected}"
                    );
                }
            }
            said.push(format!("{op:?}"));
        }
        for (n, (real, model)) in backends.iter().enumerate() {
            ensure!(
                all(real) == all(model),
                "wrong content: backend {n} after {said:?} with {winner:?} installed"
            );
        }
        run.state_of(&(winner, format!("{:?}", all(&backends[winner.unwrap_or(0)].0))));
    }
    if let Some(winner) = winner {
        // The assertions look at the same one.
        let count = all(&backends[winner].0)
            .iter()
            .filter(|job| job.executor == "plain" && job.data == Data::n(7).json())
            .count();
        let found = catch_unwind(|| {
            now(async {
                assert_enqueued!(with_data: Data::n(7), for_executor: Plain);
            })
        })
        .is_ok();
        ensure!(
            found == (count > 0),
            "wrong assertion: {found} with {count} jobs in backend {winner}"
        );
    }
    Ok(format!("{winner:?}"))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Step {
    Install,
    Enqueue,
    Query,
}

struct Call {
    thread: usize,
    step: Step,
    start: usize,
    end: usize,
    /// The number of jobs found by a query.
    result: Result<usize, String>,
}

fn threads(run: &mut Run, count: usize) -> Outcome {
    const PLANS: [&[Step]; 6] = [
        &[Step::Install],
        &[Step::Install, Step::Enqueue],
        &[Step::Enqueue],
        &[Step::Enqueue, Step::Install],
        &[Step::Query, Step::Enqueue],
        &[Step::Install, Step::Install],
    ];
    let _frozen = frozen();
    let plans: Vec<&[Step]> = (0..count).map(|_| PLANS[run.choose(PLANS.len())]).collect();
    let backends: Vec<InMemoryBackend> = (0..count).map(|_| populated(0)).collect();
    let calls: Mutex<(usize, Vec<Call>)> = Mutex::new((0, Vec::new()));
    let tick = || {
        let mut calls = calls.lock().unwrap();
        calls.0 += 1;
        calls.0
    };
    let bodies: Vec<Body<'_>> = plans
        .iter()
        .enumerate()
        .map(|(thread, plan)| {
            let (backend, calls, tick) = (backends[thread].clone(), &calls, &tick);
            Box::new(move |actor: &mc_engine::threads::Actor| {
                for step in plan.iter() {
                    let start = tick();
                    let result = match step {
                        Step::Install => finely(|| Rexecutor::new(backend.clone())
                            .set_global_backend())
                            .map(|_| 0),
                        Step::Enqueue => now(Plain::builder().with_data(Data::n(7)).enqueue()).map(|_| 0),
                        Step::Query => now(Plain::query_jobs(Where::status_equals(JobStatus::Scheduled)))
                            .map(|jobs| jobs.len()),
                    };
                    let result = match result {
                        Err(RexecutorError::GlobalBackend) => Err(String::new()),
                        Err(error) => Err(format!("{error:?}")),
                        Ok(n) => Ok(n),
                    };
                    let end = tick();
                    calls.lock().unwrap().1.push(Call {
                        thread,
                        step: *step,
                        start,
                        end,
                        result,
                    });
                    actor.point("next");
                }
            }) as Body<'_>
        })
        .collect();
    interleave(run, bodies)?;
    let (_, calls) = calls.into_inner().unwrap();
    let describe = || {
        calls
            .iter()
            .map(|call| {
                format!(
                    "thread {} {:?} {}-{} {:?}",
                    call.thread, call.step, call.start, call.end, call.result
                )
            })
            .collect::<Vec<_>>()
    };
    for call in &calls {
        if let Err(error) = &call.result {
            ensure!(error.is_empty(), "wrong error: {error} in {:?}", describe());
        }
    }
    let attempted = calls.iter().any(|call| call.step == Step::Install);
    let installed: Vec<&Call> = calls
        .iter()
        .filter(|call| call.step == Step::Install && call.result.is_ok())
        .collect();
    ensure!(
        installed.len() == attempted as usize,
        "{} installations succeeded: {:?}",
        installed.len(),
        describe()
    );
    let winner = installed.first();
    let mut enqueued = 0;
    for call in calls.iter().filter(|call| call.step != Step::Install) {
        match (&call.result, winner) {
            (Ok(_), None) => {
                return Err(format!("success without a backend: {:?}", describe()).into());
            }
            (Ok(n), Some(winner)) => {
                ensure!(
                    call.end > winner.start,
                    "success before the installation: {:?}",
                    describe()
                );
                if call.step == Step::Enqueue {
                    enqueued += 1;
                } else {
                    let before = |at: usize| {
                        move |other: &&Call| {
                            other.step == Step::Enqueue && other.result.is_ok() && other.end < at
                        }
                    };
                    let least = calls.iter().filter(before(call.start)).count();
                    let most = calls
                        .iter()
                        .filter(|other| {
                            other.step == Step::Enqueue
                                && other.result.is_ok()
                                && other.start < call.end
                        })
                        .count();
                    ensure!(
                        (least..=most).contains(n),
                        "wrong number of jobs found: {n} in {:?}",
                        describe()
                    );
                }
            }
            (Err(_), Some(winner)) => ensure!(
                call.start < winner.end,
                "error after the installation: {:?}",
                describe()
            ),
            (Err(_), None) => {}
        }
    }
    for (n, backend) in backends.iter().enumerate() {
        let jobs = all(backend).len();
        let expected = if winner.is_some_and(|winner| winner.thread == n) { enqueued } else { 0 };
        ensure!(
            jobs == expected,
            "wrong backend used: backend {n} has {jobs} jobs instead of {expected}, {:?}",
            describe()
        );
    }
    Ok(format!(
        "winner {:?}, {enqueued} jobs",
        winner.map(|winner| winner.thread)
    ))
}

/// Jobs enqueued without naming a backend are run by the workers of the instance that was
/// installed, whose shutdown still works.
fn workers(run: &mut Run) -> Outcome {
    let (before, loser, guard) = (run.flag(), run.choose(3), run.flag());
    let shutdown = run.flag();
    simulate(
        Setup::new(&[Kind::Claim, Kind::Body, Kind::Record, Kind::Client]),
        |_, _| Act::Done,
        async |world| {
            let (ours, theirs) = (InMemoryBackend::new(), InMemoryBackend::new());
            let mut rexecutor = Rexecutor::new(Gated::new(&ours, &world, "app"));
            if before {
                rexecutor = rexecutor.with_executor::<Plain>();
            }
            let other = Rexecutor::new(Gated::new(&theirs, &world, "loser")).with_executor::<Plain>();
            let mut rexecutor = rexecutor.set_global_backend().map_err(|error| format!("not installed: {error:?}"))?;
            match loser {
                0 => drop(other),
                _ => ensure!(other.set_global_backend().is_err(), "installed twice"),
            }
            if !before {
                rexecutor = rexecutor.with_executor::<Plain>();
            }
            let id = Plain::builder()
                .with_data(Data::n(1))
                .enqueue()
                .await
                .map_err(|error| format!("not enqueued: {error:?}"))?;
            let mut rest = Some(rexecutor);
            let mut drop_guard = None;
            let mut decide = |_: &mut Run, _: &crate::world::Ticket| Release::Go;
            let mut observe = |_: &mut Run| Ok::<(), Violation>(());
            drive(
                run,
                &world,
                &ours,
                Drive {
                    horizon: at(1_000),
                    free: false,
                    stall: None,
                    max_steps: 100,
                    decide: &mut decide,
                    observe: &mut observe,
                },
            )
            .await?;
            let job = get(&ours, id).ok_or_else(|| Violation::from("job not found"))?;
            ensure!(
                job.status == JobStatus::Complete,
                "the job was not run by the workers of the installed instance: {job:?}"
            );
            if shutdown {
                if guard {
                    drop(rest.take().unwrap().drop_guard());
                } else {
                    rest.take().unwrap().graceful_shutdown();
                }
                world.settle().await;
            } else if guard {
                drop_guard = Some(rest.take().unwrap().drop_guard());
            }
            let late = Plain::builder()
                .with_data(Data::n(2))
                .schedule_in(TimeDelta::milliseconds(700))
                .enqueue()
                .await
                .map_err(|error| format!("not enqueued: {error:?}"))?;
            drive(
                run,
                &world,
                &ours,
                Drive {
                    horizon: at(4_000),
                    free: false,
                    stall: None,
                    max_steps: 100,
                    decide: &mut decide,
                    observe: &mut observe,
                },
            )
            .await?;
            drop(drop_guard);
            let job = get(&ours, late).ok_or_else(|| Violation::from("job not found"))?;
            let expected = if shutdown { JobStatus::Scheduled } else { JobStatus::Complete };
            ensure!(
                job.status == expected,
                "the second job is {:?} instead of {expected:?}: shutdown {shutdown}",
                job.status
            );
            ensure!(all(&theirs).is_empty(), "jobs in the backend that was not installed");
            let runs = world.with_events(|events| {
                events.iter().filter(|event| matches!(event.what, What::Start { .. })).count()
            });
            ensure!(runs == 2 - shutdown as usize, "{runs} executions");
            Ok(format!("shutdown {shutdown}"))
        },
    )
}
