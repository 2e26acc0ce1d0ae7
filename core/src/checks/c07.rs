//! One bad job never stops a worker from serving the others.
use std::time::Duration;

use chrono::{TimeDelta, Utc};
use mc_engine::{Check, ensure};
use rexecutor::{
    Rexecutor,
    backend::{Backend, EnqueuableJob, memory::InMemoryBackend},
    job::{JobId, JobStatus},
};

use crate::{
    common::{enqueuable, get, millis, prune_age},
    executors::{Data, Which},
    world::{Act, Gated, Kind, Release, Setup, World, at, simulate},
};

const BAD: [&str; 22] = [
    "fail",
    "panic",
    "panic any",
    "timeout",
    "timeout zero",
    "timeout forever",
    "cancel",
    "undecodable data",
    "undecodable metadata",
    "backoff max",
    "backoff min",
    "backoff max panic",
    "snooze max",
    "snooze min",
    "snooze huge",
    "vanish done",
    "vanish fail",
    "vanish snooze",
    "max attempts huge",
    "priority huge",
    "priority negative",
    "scheduled far past",
];

fn bad_job(which: Which, kind: &str) -> EnqueuableJob<'static> {
    let mut job = enqueuable(which.name(), 0, Utc::now());
    let mut data = Data::n(0);
    match kind {
        "timeout" => data.timeout_ms = Some(7),
        "timeout zero" => data.timeout_ms = Some(0),
        "timeout forever" => data.timeout_ms = Some(u64::MAX),
        "backoff max" | "backoff max panic" => data.backoff_ms = i64::MAX,
        "backoff min" => data.backoff_ms = i64::MIN,
        _ => data.backoff_ms = 50,
    }
    job.data = data.json();
    match kind {
        "undecodable data" => job.data = serde_json::json!({"plain_other": [1, 2]}),
        "undecodable metadata" => job.metadata = serde_json::json!({"not": "a string"}),
        "scheduled far past" => job.scheduled_at = chrono::DateTime::<Utc>::MIN_UTC,
        _ => {}
    }
    job
}

fn bad_act(kind: &str) -> Act {
    let fail = || Act::Fail("bad".to_owned());
    match kind {
        "fail" | "backoff max" | "backoff min" | "max attempts huge" | "priority huge"
        | "priority negative" | "vanish fail" | "scheduled far past" => fail(),
        "panic" | "backoff max panic" => Act::Panic("bad".to_owned()),
        "panic any" => Act::PanicAny,
        "timeout" | "timeout zero" => Act::Sleep(20, Box::new(Act::Done)),
        "cancel" => Act::Cancel("bad".to_owned()),
        "snooze max" => Act::Snooze(TimeDelta::MAX),
        "snooze min" => Act::Snooze(TimeDelta::MIN),
        "snooze huge" => Act::Snooze(TimeDelta::days(365_000)),
        "vanish snooze" => Act::Snooze(millis(50)),
        _ => Act::Done,
    }
}

pub fn run(check: &mut Check) {
    check.assume("User code that panics outside of the execution of a job (backoff or timeout functions) is not considered.");
    let workers = [Which::Plain, Which::One, Which::Block, Which::BlockOne];
    check.scenario("bad jobs", 0, |run| {
        let which = *run.pick(&workers);
        let (first, second) = (*run.pick(&BAD), *run.pick(&BAD));
        // Where the good jobs are relative to the bad ones.
        let order = run.choose(3);
        let executions = std::sync::atomic::AtomicUsize::new(0);
        simulate(
            Setup::new(&[]),
            move |_, view| match view.data["n"].as_i64() {
                Some(0) => {
                    let kind = if view.tags.contains(&"first".to_owned()) { first } else { second };
                    // Jobs that are due again right away come to an end.
                    let count = executions.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if count > 12 {
                        return Act::Done;
                    }
                    if kind.starts_with("vanish") {
                        Act::Sleep(5, Box::new(bad_act(kind)))
                    } else {
                        bad_act(kind)
                    }
                }
                _ => Act::Done,
            },
            async |world| {
                let backend = InMemoryBackend::new();
                let guard = Which::Other
                    .add(which.add(Rexecutor::new(backend.clone())))
                    .drop_guard();
                world.settle().await;
                let mut good = Vec::new();
                let mut bad = Vec::new();
                for step in 0..3 {
                    if step == order {
                        for (tag, kind) in [("first", first), ("second", second)] {
                            let mut job = bad_job(which, kind);
                            job.tags = vec![tag.to_owned()];
                            let id = backend.enqueue(job).await.unwrap();
                            bad.push(id);
                            let mut job = get(&backend, id).unwrap();
                            match kind {
                                "max attempts huge" => job.max_attempts = i32::MAX,
                                "priority huge" => job.priority = 100_000,
                                "priority negative" => job.priority = -1,
                                _ => continue,
                            }
                            backend.update_job(job).await.unwrap();
                        }
                    } else {
                        good.push(backend.enqueue(enqueuable(which.name(), 1 + step as i64, Utc::now())).await.unwrap());
                    }
                }
                good.push(backend.enqueue(enqueuable("plain_other", 1, Utc::now())).await.unwrap());
                if first.starts_with("vanish") || second.starts_with("vanish") {
                    // The jobs that are executing disappear.
                    for _ in 0..4 {
                        world.pass(Duration::from_millis(2), Duration::from_millis(1)).await;
                        for (id, kind) in bad.iter().zip([first, second]) {
                            if kind.starts_with("vanish")
                                && get(&backend, *id).is_some_and(|job| job.status == JobStatus::Executing)
                            {
                                vanish(&backend, *id).await;
                            }
                        }
                    }
                }
                world.advance(100, &mut || false).await;
                let late = backend.enqueue(enqueuable(which.name(), 9, Utc::now())).await.unwrap();
                good.push(late);
                world.advance(3_000, &mut || {
                    good.iter().all(|id| get(&backend, *id).is_some_and(|job| job.status == JobStatus::Complete))
                }).await;
                for id in &good {
                    let job = get(&backend, *id);
                    ensure!(
                        job.as_ref().is_some_and(|job| job.status == JobStatus::Complete),
                        "{which:?}: a good job was not served next to {first} and {second}: {job:?}"
                    );
                    ensure!(
                        world.executions()[&(*id).into()].len() == 1,
                        "good job executed more than once"
                    );
                }
                ensure!(
                    !world.hogged(),
                    "an execution of a blocking executor runs on the thread of the runtime, a long computation would hold up all others"
                );
                run.state_of(&bad.iter().map(|id| get(&backend, *id).map(|job| (job.attempt, format!("{:?}", job.status)))).collect::<Vec<_>>());
                drop(guard);
                Ok(first.to_owned())
            },
        )
    });

    // Errors from the backend at every point.
    let bound = check.by_tier(4, 6);
    check.scenario("faults", bound, |run| {
        let which = *run.pick(&workers);
        let act = run.pick(&[Act::Done, Act::Fail("f".to_owned()), Act::Snooze(millis(40)), Act::Cancel("c".to_owned())]).clone();
        simulate(
            Setup::new(&[Kind::Claim, Kind::Record]),
            {
                let act = act.clone();
                let used = std::sync::atomic::AtomicBool::new(false);
                move |_, view| match view.data["n"].as_i64() {
                    Some(0) if !used.swap(true, std::sync::atomic::Ordering::SeqCst) => act.clone(),
                    _ => Act::Done,
                }
            },
            async |world| {
                let backend = InMemoryBackend::new();
                let gated = Gated::new(&backend, &world, "worker");
                let guard = Which::Other.add(which.add(Rexecutor::new(gated))).drop_guard();
                let mut ids = Vec::new();
                for n in 0..2 {
                    let mut job = enqueuable(which.name(), n, Utc::now());
                    job.data = Data::n(n).backoff(30).json();
                    ids.push(backend.enqueue(job).await.unwrap());
                }
                ids.push(backend.enqueue(enqueuable("plain_other", 5, Utc::now())).await.unwrap());
                let mut excluded: Vec<i32> = Vec::new();
                let mut faults = 0;
                let late_at = 200;
                for step in 0..400 {
                    world.settle().await;
                    if step == late_at {
                        ids.push(backend.enqueue(enqueuable(which.name(), 7, Utc::now())).await.unwrap());
                        world.settle().await;
                    }
                    let tickets = world.tickets();
                    match tickets.first() {
                        None => world.step(5).await,
                        Some(ticket) => {
                            let fault = step < late_at && faults < 6 && run.deviate(2) == 1;
                            if fault {
                                faults += 1;
                                run.note(|| format!("{} fails", ticket.op));
                                if let Some(job) = ticket.job {
                                    excluded.push(job);
                                }
                            }
                            world.release(ticket.id, if fault { Release::Fault } else { Release::Go });
                        }
                    }
                }
                for id in &ids {
                    let job = get(&backend, *id).unwrap();
                    if excluded.contains(&job.id) {
                        continue;
                    }
                    let finished = match act {
                        Act::Cancel(_) if job.data["n"] == 0 => JobStatus::Cancelled,
                        _ => JobStatus::Complete,
                    };
                    ensure!(
                        job.status == finished,
                        "{which:?}: job {} is {:?} after {faults} faults of which {excluded:?} while recording",
                        job.id,
                        job.status
                    );
                }
                run.state_of(&(faults, &excluded));
                drop(guard);
                Ok(format!("{faults} faults"))
            },
        )
    });
}

/// Remove an executing job, and only that one.
async fn vanish(backend: &InMemoryBackend, id: JobId) {
    let jobs = crate::common::all(backend);
    let others: Vec<_> = jobs
        .iter()
        .filter(|job| job.status == JobStatus::Executing && job.id != i32::from(id))
        .collect();
    // Pruning goes by age.
    let Some(job) = jobs.iter().find(|job| job.id == i32::from(id)) else {
        return;
    };
    let mut old = job.clone();
    old.scheduled_at = at(-1_000_000);
    if others.iter().any(|job| job.scheduled_at < at(-900_000)) {
        return;
    }
    backend.update_job(old).await.unwrap();
    backend
        .prune_jobs(&prune_age(JobStatus::Executing, 900_000))
        .await
        .unwrap();
}

impl World {
    /// Let some time pass.
    pub async fn step(&self, ms: u64) {
        self.pass(Duration::from_millis(ms), Duration::from_millis(ms)).await;
    }

    /// Let time pass until the condition holds, in growing steps.
    pub async fn advance(&self, ms: u64, done: &mut dyn FnMut() -> bool) {
        let mut left = ms;
        let mut step = 1;
        self.settle().await;
        while left > 0 && !done() {
            self.step(step.min(left)).await;
            left -= step.min(left);
            step = (step * 2).min(50);
        }
    }
}
