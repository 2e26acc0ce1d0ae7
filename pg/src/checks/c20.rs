//! Each attempt is claimed once, when due, in order.
use chrono::{TimeDelta, Utc};
use mc_engine::{Check, Run, Violation, ensure};
use pgemu::server::Phase;
use rexecutor::{
    backend::Job,
    job::{
        JobStatus,
        uniqueness_criteria::{Replace, UniquenessCriteria},
    },
};
use rexecutor_sqlx::RexecutorPgBackend;

use crate::{
    common::{enqueuable, error, prune_length, unique, waiting},
    lab::*,
    model::{Op, Res},
};

pub const P: &str = "plain";

pub fn stored(lab: &Lab, reader: &RexecutorPgBackend) -> Result<Vec<Job>, Violation> {
    lab.block(all(reader))
        .map_err(|error| format!("the jobs can not be read: {error:?}").into())
}

fn due(jobs: &[Job], executor: &str) -> bool {
    jobs.iter()
        .any(|job| job.executor == executor && waiting(job.status) && job.scheduled_at <= Utc::now())
}

/// No worker goes on waiting for a job although one is due.
fn prompt(race: &Race, run: &mut Run, executor: &str, reader: &RexecutorPgBackend) -> Result<(), Violation> {
    for _ in 0..10 {
        let name = format!("claim {executor}");
        let idle = race.unfinished().iter().any(|running| *running == name);
        if !idle || !due(&stored(race.lab, reader)?, executor) {
            return Ok(());
        }
        race.lab.advance(100);
        race.run(run)?;
    }
    Err("a due job is not handed out to a waiting worker".into())
}

/// Schedule in microseconds and priority.
const KINDS: [(i64, u16); 5] = [(0, 0), (0, 40_001), (-5_000_000, 40_001), (60_000, 0), (-1, 0)];

fn population(
    race: &mut Race,
    run: &mut Run,
    backend: &RexecutorPgBackend,
    count: usize,
    kinds: usize,
) -> Result<Vec<i32>, Violation> {
    let mut ids = Vec::new();
    for n in 0..count {
        let (when, priority) = *run.pick(&KINDS[..kinds]);
        let mut job = enqueuable(P, n as i64, at(0) + TimeDelta::microseconds(when));
        job.priority = priority;
        ids.push(enqueue(race, backend, job)?);
    }
    Ok(ids)
}

pub fn enqueue(
    race: &mut Race,
    backend: &RexecutorPgBackend,
    job: rexecutor::backend::EnqueuableJob<'static>,
) -> Result<i32, Violation> {
    match race.before(backend, Op::Enqueue(job))? {
        Res::Id(id) => Ok(id),
        res => Err(format!("enqueue failed: {res:?}").into()),
    }
}

fn label(race: &Race) -> String {
    let mut text: Vec<String> = race
        .history
        .calls()
        .iter()
        .filter_map(|call| match &call.res {
            Res::Job(job) => Some(format!("{}#{}", job.id, job.attempt)),
            _ => None,
        })
        .collect();
    text.sort();
    format!("{text:?}")
}

/// The other things that happen to jobs. The first one waits, the second one is being executed.
fn others(ids: &[i32], job: &Job) -> Vec<(&'static str, Vec<Op>)> {
    let (a, b) = (ids[0], ids[1]);
    let changed = |when: i64, priority: u16| {
        let mut job = job.clone();
        job.scheduled_at = at(when);
        job.priority = priority.into();
        Op::Update(job)
    };
    let criteria = UniquenessCriteria::by_executor()
        .and_key(&"k")
        .and_statuses(&[JobStatus::Scheduled, JobStatus::Retryable, JobStatus::Executing]);
    let replacing = criteria
        .clone()
        .on_conflict(Replace::priority().and_data().for_statuses(&[JobStatus::Scheduled]));
    vec![
        ("enqueue", vec![Op::Enqueue(enqueuable(P, 7, at(-1)))]),
        ("enqueue for another", vec![Op::Enqueue(enqueuable("plain_other", 7, at(-1)))]),
        ("postpone", vec![changed(60_000, 0)]),
        ("reprioritise", vec![changed(-10, 9)]),
        ("complete the waiting", vec![Op::Complete(a)]),
        ("cancel the waiting", vec![Op::Cancel(a, error("e"))]),
        ("discard the waiting", vec![Op::Discard(a, error("e"))]),
        ("retry the waiting later", vec![Op::Retry(a, at(60_000), error("e"))]),
        ("complete the executing", vec![Op::Complete(b)]),
        ("retry the executing", vec![Op::Retry(b, at(-2), error("e"))]),
        ("snooze the executing", vec![Op::Snooze(b, at(-2))]),
        ("complete and rerun", vec![Op::Complete(b), Op::Rerun(b)]),
        ("prune the waiting", vec![Op::Prune(prune_length(JobStatus::Scheduled, 0))]),
        ("replace", vec![Op::Enqueue(unique(enqueuable(P, 8, at(-3)), replacing))]),
        ("unique", vec![Op::Enqueue(unique(enqueuable(P, 9, at(-3)), criteria))]),
    ]
}

pub fn run(check: &mut Check) {
    check.assume("Statements run under the read committed level of PostgreSQL as modelled: one snapshot per statement, row locks until commit, rows that changed meanwhile are looked at again. A sub-select with LIMIT is evaluated once.");
    check.assume("Time does not pass while statements interleave; it passes between them.");
    let bound = check.by_tier(3, 5);
    let (count, kinds) = check.by_tier((2, 5), (3, 5));
    check.scenario("two workers", bound, |run| {
        let lab = Lab::new();
        let backends = [lab.backend(2), lab.backend(2)];
        let mut race = Race::new(&lab);
        race.model.focus.content = false;
        lab.advance(1);
        let count = 1 + run.choose(count);
        population(&mut race, run, &backends[0], count, kinds)?;
        for backend in &backends {
            let claims = lab.block(Claims::new(backend, P));
            race.claims(&claims, P, 2);
        }
        race.run(run)?;
        prompt(&race, run, P, &backends[0])?;
        race.judge(&backends[0])?;
        Ok(label(&race))
    });
    let bound = check.by_tier(2, 3);
    check.scenario("three workers", bound, |run| {
        let lab = Lab::new();
        let backends = [lab.backend(2), lab.backend(2), lab.backend(2)];
        let mut race = Race::new(&lab);
        race.model.focus.content = false;
        lab.advance(1);
        population(&mut race, run, &backends[0], 2, 2)?;
        for (n, backend) in backends.iter().enumerate() {
            // The last one serves another executor, or the same pool serves two workers.
            let claims = lab.block(Claims::new(backend, P));
            race.claims(&claims, P, 1 + (n == 0) as usize);
        }
        race.run(run)?;
        prompt(&race, run, P, &backends[0])?;
        race.judge(&backends[0])?;
        Ok(label(&race))
    });
    let bound = check.by_tier(3, 5);
    check.scenario("workers sharing a pool", bound, |run| {
        let lab = Lab::new();
        let backend = lab.backend(*run.pick(&[2, 3]));
        let mut race = Race::new(&lab);
        race.model.focus.content = false;
        lab.advance(1);
        let twice = run.flag();
        population(&mut race, run, &backend, 2, 3)?;
        enqueue(&mut race, &backend, enqueuable("plain_other", 5, at(-9)))?;
        for executor in [P, if twice { P } else { "plain_other" }] {
            let claims = lab.block(Claims::new(&backend, executor));
            race.claims(&claims, executor, 2);
        }
        race.run(run)?;
        prompt(&race, run, P, &backend)?;
        prompt(&race, run, "plain_other", &backend)?;
        race.judge(&backend)?;
        Ok(label(&race))
    });
    let bound = check.by_tier(2, 4);
    check.scenario("a worker and other statements", bound, |run| {
        let lab = Lab::new();
        let backends = [lab.backend(2), lab.backend(2)];
        let mut race = Race::new(&lab);
        lab.advance(1);
        let mut job = enqueuable(P, 2, at(-100));
        job.max_attempts = 5;
        let b = enqueue(&mut race, &backends[0], job)?;
        ensure!(race.claim_before(&backends[0], P)?.is_some(), "a due job is not handed out");
        let keyed = unique(enqueuable(P, 1, at(-1)), UniquenessCriteria::by_key(&"k"));
        let a = enqueue(&mut race, &backends[0], keyed)?;
        let more = run.flag();
        if more {
            enqueue(&mut race, &backends[0], enqueuable(P, 3, at(0)))?;
        }
        let job = stored(&lab, &backends[0])?.into_iter().find(|job| job.id == a).unwrap();
        let others = others(&[a, b], &job);
        let (name, ops) = run.pick(&others).clone();
        // A job that is locked by the other statement may be passed over.
        race.model.focus.order = false;
        let claims = lab.block(Claims::new(&backends[0], P));
        race.claims(&claims, P, 2);
        race.ops(&backends[1], ops);
        race.run(run)?;
        prompt(&race, run, P, &backends[0])?;
        race.model.focus.content = false;
        race.judge(&backends[0])?;
        Ok(format!("{name} {}", label(&race)))
    });
    let bound = check.by_tier(2, 3);
    check.scenario("two workers and other statements", bound, |run| {
        let lab = Lab::new();
        let backends = [lab.backend(2), lab.backend(2), lab.backend(2)];
        let mut race = Race::new(&lab);
        lab.advance(1);
        let b = enqueue(&mut race, &backends[0], enqueuable(P, 2, at(-100)))?;
        ensure!(race.claim_before(&backends[0], P)?.is_some(), "a due job is not handed out");
        let keyed = unique(enqueuable(P, 1, at(-1)), UniquenessCriteria::by_key(&"k"));
        let a = enqueue(&mut race, &backends[0], keyed)?;
        let job = stored(&lab, &backends[0])?.into_iter().find(|job| job.id == a).unwrap();
        let others = others(&[a, b], &job);
        let (name, ops) = run.pick(&others).clone();
        race.model.focus.order = false;
        race.model.focus.content = false;
        for backend in &backends[..2] {
            let claims = lab.block(Claims::new(backend, P));
            race.claims(&claims, P, 1);
        }
        race.ops(&backends[2], ops);
        race.run(run)?;
        prompt(&race, run, P, &backends[0])?;
        race.judge(&backends[0])?;
        Ok(format!("{name} {}", label(&race)))
    });
    let bound = check.by_tier(1, 2);
    check.scenario("a connection is lost or a statement fails", bound, |run| {
        let lab = Lab::new();
        let backends = [lab.backend(2), lab.backend(2)];
        let mut race = Race::new(&lab);
        lab.advance(1);
        population(&mut race, run, &backends[0], 2, 2)?;
        for backend in &backends {
            let claims = lab.block(Claims::new(backend, P));
            race.claims(&claims, P, 3);
        }
        lab.server().immediate = false;
        let fault = run.choose(12);
        let kind = run.choose(3);
        for _ in 0..fault {
            lab.step(run);
        }
        let ready = lab.ready();
        if ready.is_empty() {
            return Ok("too late".into());
        }
        let hit = run.pick(&ready).clone();
        run.note(|| format!("fault {kind} at {hit:?}"));
        let mut lost = 0;
        match kind {
            0 => lab.server().fail(hit.conn, "57014"),
            1 => lab.cut(hit.conn, false),
            _ => {
                // The answer is lost.
                lost = (hit.phase == Phase::Commit) as i32;
                lab.cut(hit.conn, true);
            }
        }
        race.run(run)?;
        prompt(&race, run, P, &backends[0])?;
        let stored = stored(&lab, &backends[0])?;
        let mut missing = 0;
        let mut failures = 0;
        for call in race.history.calls() {
            match &call.res {
                Res::Job(job) => ensure!(
                    job.attempt == 1 && stored.iter().any(|s| s.id == job.id && s.attempt == 1 && s.status == JobStatus::Executing),
                    "job handed out is not as stored: {job:?}; {stored:?}"
                ),
                _ => failures += 1,
            }
        }
        ensure!(failures <= 1, "{failures} failures reported for one");
        for job in &stored {
            let times = race
                .history
                .calls()
                .iter()
                .filter(|call| matches!(&call.res, Res::Job(other) if other.id == job.id))
                .count() as i32;
            ensure!(times <= 1, "job {} was handed out {times} times", job.id);
            missing += job.attempt - times;
        }
        ensure!(
            missing <= lost,
            "{missing} attempts were counted but not handed out; {stored:?}"
        );
        Ok(format!("kind {kind} failures {failures} lost {missing}"))
    });
    check.scenario("a worker leaves", bound, |run| {
        let lab = Lab::new();
        let backends = [lab.backend(2), lab.backend(2)];
        let mut race = Race::new(&lab);
        lab.advance(1);
        let count = 1 + run.choose(2);
        population(&mut race, run, &backends[0], count, 2)?;
        for backend in &backends {
            let claims = lab.block(Claims::new(backend, P));
            race.claims(&claims, P, 1);
        }
        lab.server().immediate = false;
        for _ in 0..run.choose(9) {
            lab.step(run);
        }
        let sent = lab.ready().iter().any(|step| step.phase == Phase::Commit || !step.label.to_uppercase().starts_with("SELECT"));
        race.abort(0);
        lab.settle();
        lab.steps(run, 100)?;
        lab.server().immediate = true;
        let stored = stored(&lab, &backends[0])?;
        for job in &stored {
            let times = race
                .history
                .calls()
                .iter()
                .filter(|call| matches!(&call.res, Res::Job(other) if other.id == job.id))
                .count() as i32;
            ensure!(times <= 1, "job {} was handed out {times} times", job.id);
            if job.attempt > times {
                ensure!(sent, "job {} was claimed for nobody; no claim was under way", job.id);
                return Err(Violation::new(
                    "a job is claimed by a stream that is dropped before the answer arrives",
                    format!("job {} is {:?} but was handed out to nobody: the claim was sent when the stream was dropped", job.id, job.status),
                ));
            }
        }
        Ok(label(&race))
    });
    // The passing of time.
    let count = check.by_tier(2, 3);
    check.scenario("schedules", 0, |run| {
        let lab = Lab::new();
        let backend = lab.backend(3);
        lab.advance(1);
        const WHEN: [i64; 8] = [-50, 3, 40, 120, 1_000, 20_000, 31_000, 70_000];
        let mut race = Race::new(&lab);
        race.model.focus.content = false;
        race.model.focus.order = false;
        let count = 1 + run.choose(count);
        let late = run.flag();
        let jobs: Vec<_> = (0..count).map(|n| enqueuable(P, n as i64, at(*run.pick(&WHEN)))).collect();
        let workers = 1 + run.choose(2);
        let mut streams = Vec::new();
        if !late {
            for job in &jobs {
                enqueue(&mut race, &backend, job.clone())?;
            }
        }
        for _ in 0..workers {
            let claims = lab.block(Claims::new(&backend, P));
            race.claims(&claims, P, count);
            streams.push(claims);
        }
        lab.settle();
        if late {
            // The workers already wait when the jobs arrive.
            lab.advance(2);
            lab.settle();
            for job in &jobs {
                let start = race.history.start();
                let op = Op::Enqueue(job.clone());
                let res = lab.block(perform(&backend, &op));
                race.history.end_now(start, op, res);
            }
            lab.settle();
        }
        let mut elapsed = 3i64;
        while elapsed < 72_000 {
            // Time passes in steps that hit every schedule.
            let next = WHEN.iter().copied().filter(|when| *when > elapsed).min().unwrap_or(72_000);
            let span = (next - elapsed).min(5_000);
            lab.advance(span as u64);
            elapsed += span;
            lab.settle();
            for _ in 0..4 {
                lab.advance(20);
                elapsed += 20;
                lab.settle();
            }
            let calls = race.history.calls();
            for (n, job) in jobs.iter().enumerate() {
                let handed: Vec<_> = calls
                    .iter()
                    .filter_map(|call| match &call.res {
                        Res::Job(found) if found.data == job.data => Some(call.at.unwrap()),
                        _ => None,
                    })
                    .collect();
                ensure!(handed.len() <= 1, "job {n} was handed out {} times", handed.len());
                ensure!(
                    !handed.is_empty() || Utc::now() < job.scheduled_at + crate::common::millis(100),
                    "job scheduled at {} is not handed out at {} though a worker waits",
                    job.scheduled_at,
                    Utc::now()
                );
            }
        }
        race.judge(&backend)?;
        Ok(format!("{count} jobs {workers} workers"))
    });
}
