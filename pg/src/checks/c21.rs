//! Unique enqueues create no duplicates and resolve correctly.
use chrono::Utc;
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    backend::EnqueuableJob,
    job::{
        JobStatus,
        uniqueness_criteria::{Replace, Resolution, UniquenessCriteria},
    },
};
use rexecutor_sqlx::RexecutorPgBackend;

use super::c20::{P, enqueue, stored};
use crate::{
    common::{enqueuable, error, millis, prune_length, unique},
    lab::*,
    model::{Op, Res},
};

const ORDER: [JobStatus; 6] = [
    JobStatus::Scheduled,
    JobStatus::Complete,
    JobStatus::Executing,
    JobStatus::Retryable,
    JobStatus::Cancelled,
    JobStatus::Discarded,
];

const STATUSES: [&[JobStatus]; 5] = [
    &[JobStatus::Scheduled],
    &[JobStatus::Complete],
    &[],
    &[JobStatus::Executing, JobStatus::Retryable],
    &JobStatus::ALL,
];

fn criteria(key: Option<&'static str>, executor: bool, statuses: &'static [JobStatus], within: Option<i64>) -> UniquenessCriteria<'static> {
    let criteria = UniquenessCriteria {
        key: None,
        executor,
        duration: within.map(millis),
        statuses,
        on_conflict: Resolution::DoNothing,
    };
    match key {
        None => criteria,
        Some(key) => criteria.and_key(&key),
    }
}

fn replacing(mask: usize, for_statuses: &'static [JobStatus]) -> Resolution<'static> {
    Resolution::Replace(Replace {
        scheduled_at: mask & 1 != 0,
        data: mask & 2 != 0,
        metadata: mask & 4 != 0,
        priority: mask & 8 != 0,
        max_attempts: mask & 16 != 0,
        for_statuses,
    })
}

/// Store a job with these properties.
fn store(
    race: &mut Race,
    backend: &RexecutorPgBackend,
    executor: &'static str,
    key: Option<&'static str>,
    status: JobStatus,
    when: i64,
) -> Result<i32, Violation> {
    let mut job = enqueuable(executor, 5, at(-1_000_000));
    job.metadata = serde_json::json!("old");
    job.tags = vec!["old".to_owned()];
    job.priority = 5;
    job.max_attempts = 4;
    if let Some(key) = key {
        // Criteria which match nothing.
        job = unique(job, UniquenessCriteria::by_statuses(&[]).and_key(&key));
    }
    let id = enqueue(race, backend, job)?;
    if status != JobStatus::Scheduled {
        let claimed = race.claim_before(backend, executor)?;
        ensure!(claimed.is_some_and(|job| job.id == id), "the job is not handed out");
    }
    match status {
        JobStatus::Scheduled | JobStatus::Executing => None,
        JobStatus::Retryable => Some(Op::Retry(id, at(0), error("e"))),
        JobStatus::Complete => Some(Op::Complete(id)),
        JobStatus::Cancelled => Some(Op::Cancel(id, error("e"))),
        JobStatus::Discarded => Some(Op::Discard(id, error("e"))),
    }
    .map(|op| race.before(backend, op))
    .transpose()?;
    let mut job = race.model.jobs[&id].job.clone();
    job.scheduled_at = at(when);
    race.before(backend, Op::Update(job))?;
    Ok(id)
}

fn fresh(executor: &str, n: i64, when: i64) -> EnqueuableJob<'static> {
    let mut job = enqueuable(executor, n, at(when));
    job.metadata = serde_json::json!("new");
    job.tags = vec!["new".to_owned()];
    job.priority = 40_001;
    job.max_attempts = 50_009;
    job
}

/// The criteria and jobs of concurrent enqueues: all of them are the same but for what is left open.
fn contest(run: &mut Run) -> (UniquenessCriteria<'static>, &'static str) {
    let kind = run.choose(5);
    match kind {
        0 => (criteria(Some("k"), true, &[JobStatus::Scheduled], None), "key and executor"),
        1 => (criteria(Some("k"), false, &JobStatus::ALL, None), "key"),
        2 => (criteria(None, true, &[JobStatus::Scheduled, JobStatus::Executing], None), "executor"),
        3 => (criteria(None, true, &[JobStatus::Scheduled], Some(10_000)), "executor within"),
        _ => (criteria(Some("k"), true, &JobStatus::ALL, Some(10_000)), "key within"),
    }
}

fn resolution(run: &mut Run) -> Resolution<'static> {
    match run.choose(4) {
        0 => Resolution::DoNothing,
        1 => replacing(2 + 8, &[JobStatus::Scheduled]),
        2 => replacing(1, &[JobStatus::Scheduled, JobStatus::Retryable]),
        _ => replacing(31, &JobStatus::ALL),
    }
}

fn finish(race: &Race, run: &mut Run, reader: &RexecutorPgBackend) -> Result<String, Violation> {
    race.run(run)?;
    let waiting: Vec<_> = race.unfinished().into_iter().filter(|name| name.contains("enqueue")).collect();
    ensure!(waiting.is_empty(), "an operation does not finish: {waiting:?}");
    for call in race.history.calls() {
        ensure!(!matches!(call.res, Res::Failed(_)), "an operation failed: {} {:?}", call.op.brief(), call.res);
    }
    let jobs = race.judge(reader)?;
    Ok(format!("{} jobs", jobs.len()))
}

pub fn run(check: &mut Check) {
    check.assume("Statements run under the read committed level of PostgreSQL as modelled, transaction scoped advisory locks are released with the end of the transaction.");
    check.scenario("matching", 0, |run| {
        let lab = Lab::new();
        let backend = lab.backend(2);
        let mut race = Race::new(&lab);
        let when = *run.pick(&[0, 86_400_000]);
        let within = *run.pick(&[None, Some(1_000)]);
        let criteria = criteria(*run.pick(&[None, Some("k")]), run.flag(), run.pick(&STATUSES), within);
        let offset = *run.pick(&[0, -999, 999, -1_000, 1_000, -1_001, 1_001]);
        let status = *run.pick(&ORDER);
        let (executor, key) = (*run.pick(&[P, "plain_other"]), *run.pick(&[None, Some("k"), Some("l")]));
        run.state_of(&format!("{when}{criteria:?}{offset}{status:?}{executor}{key:?}"));
        store(&mut race, &backend, executor, key, status, when + offset)?;
        let before = race.model.jobs.len();
        enqueue(&mut race, &backend, unique(fresh(P, 1, when), criteria.clone()))?;
        // Once more, what was stored now counts.
        let between = race.model.jobs.len();
        enqueue(&mut race, &backend, unique(fresh(P, 2, when), criteria))?;
        race.model.compare(&stored(&lab, &backend)?)?;
        Ok(format!("{before} {between} {}", race.model.jobs.len()))
    });
    check.scenario("long durations", 0, |run| {
        let lab = Lab::new();
        let backend = lab.backend(2);
        let mut race = Race::new(&lab);
        const YEAR: i64 = 365 * 86_400_000;
        let when = *run.pick(&[0, 200 * YEAR, -3_000 * YEAR]);
        let within = *run.pick(&[86_400_000, 300 * YEAR, 10_000 * YEAR, 250_000 * YEAR, i64::MAX]);
        let criteria = criteria(Some("k"), run.flag(), &JobStatus::ALL, Some(within));
        let offset = *run.pick(&[0, -10 * YEAR, 10 * YEAR, -2_000 * YEAR, 3_500 * YEAR]);
        run.state_of(&(when, within, offset, criteria.executor));
        let id = store(&mut race, &backend, P, Some("k"), JobStatus::Scheduled, when + offset)?;
        let found = enqueue(&mut race, &backend, unique(fresh(P, 1, when), criteria))?;
        race.model.compare(&stored(&lab, &backend)?)?;
        Ok(format!("{}", found == id))
    });
    check.scenario("resolution", 0, |run| {
        let lab = Lab::new();
        let backend = lab.backend(2);
        let mut race = Race::new(&lab);
        let mask = run.choose(32);
        let status = *run.pick(&ORDER);
        const FOR: [&[JobStatus]; 5] = [
            &[JobStatus::Scheduled],
            &[],
            &[JobStatus::Complete, JobStatus::Executing],
            &[JobStatus::Retryable, JobStatus::Cancelled, JobStatus::Discarded],
            &JobStatus::ALL,
        ];
        let mut criteria = criteria(Some("k"), run.flag(), &JobStatus::ALL, None);
        criteria.on_conflict = replacing(mask, run.pick(&FOR));
        // More or less than what is stored.
        let low = run.flag();
        run.state_of(&format!("{criteria:?}{status:?}{low}"));
        // The others must not be changed.
        store(&mut race, &backend, "plain_other", Some("l"), status, 0)?;
        let id = store(&mut race, &backend, P, Some("k"), status, -500)?;
        store(&mut race, &backend, P, None, status, 0)?;
        let mut new = fresh(P, 1, if low { -900 } else { 250 });
        if low {
            // Less than what has been used.
            (new.priority, new.max_attempts) = (1, 0);
        }
        let found = enqueue(&mut race, &backend, unique(new, criteria))?;
        ensure!(found == id, "returned {found} instead of the conflicting {id}");
        race.model.compare(&stored(&lab, &backend)?)?;
        Ok(format!("{status:?}"))
    });
    check.scenario("several stored", 0, |run| {
        let lab = Lab::new();
        let backend = lab.backend(2);
        // The order in which rows are found is up to the server.
        lab.server().db.backwards = run.flag();
        let mut race = Race::new(&lab);
        let mut criteria = criteria(*run.pick(&[None, Some("k")]), run.flag(), run.pick(&STATUSES[..2]), *run.pick(&[None, Some(1_000)]));
        criteria.on_conflict = replacing(2, &JobStatus::ALL);
        for _ in 0..3 {
            let (status, offset) = *run.pick(&[(JobStatus::Scheduled, 0), (JobStatus::Complete, 0), (JobStatus::Scheduled, 2_000)]);
            let (executor, key) = *run.pick(&[(P, Some("k")), ("plain_other", Some("k")), (P, None)]);
            store(&mut race, &backend, executor, key, status, offset)?;
        }
        enqueue(&mut race, &backend, unique(fresh(P, 1, 0), criteria.clone()))?;
        race.model.compare(&stored(&lab, &backend)?)?;
        Ok(format!("{} jobs", race.model.jobs.len()))
    });
    let bound = check.by_tier(3, 6);
    check.scenario("two at once", bound, |run| {
        let lab = Lab::new();
        let backends = [lab.backend(2), lab.backend(2)];
        let mut race = Race::new(&lab);
        lab.advance(1);
        let (criteria, name) = contest(run);
        let there = run.choose(3);
        if there > 0 {
            let status = [JobStatus::Scheduled, JobStatus::Complete][there - 1];
            store(&mut race, &backends[0], P, Some("k"), status, 0)?;
        }
        for (n, backend) in backends.iter().enumerate() {
            let mut criteria = criteria.clone();
            criteria.on_conflict = resolution(run);
            // Near each other or far from each other.
            let when = if n == 1 { *run.pick(&[0, 7_000, 60_000]) } else { 0 };
            let executor = if name == "key" && n == 1 { "plain_other" } else { P };
            race.ops(backend, vec![Op::Enqueue(unique(fresh(executor, n as i64, when), criteria))]);
        }
        Ok(format!("{name} {}", finish(&race, run, &backends[0])?))
    });
    let bound = check.by_tier(2, 4);
    check.scenario("three at once", bound, |run| {
        let lab = Lab::new();
        let backends = [lab.backend(2), lab.backend(2), lab.backend(2)];
        let mut race = Race::new(&lab);
        lab.advance(1);
        let (criteria, name) = contest(run);
        for (n, backend) in backends.iter().enumerate() {
            let mut criteria = criteria.clone();
            criteria.on_conflict = if n == 0 { resolution(run) } else { Resolution::DoNothing };
            let when = [0, 7_000, -7_000][n];
            race.ops(backend, vec![Op::Enqueue(unique(fresh(P, n as i64, when), criteria))]);
        }
        Ok(format!("{name} {}", finish(&race, run, &backends[0])?))
    });
    let bound = check.by_tier(3, 5);
    check.scenario("two and a shared pool", bound, |run| {
        // Both wait for the same few connections.
        let lab = Lab::new();
        let backend = lab.backend(*run.pick(&[2, 3]));
        let mut race = Race::new(&lab);
        lab.advance(1);
        let (criteria, name) = contest(run);
        for n in 0..2 {
            race.ops(&backend, vec![
                Op::Enqueue(unique(fresh(P, n, 0), criteria.clone())),
                Op::Enqueue(unique(fresh(P, n + 10, 60_000), criteria.clone())),
            ]);
        }
        Ok(format!("{name} {}", finish(&race, run, &backend)?))
    });
    let bound = check.by_tier(3, 5);
    check.scenario("against other operations", bound, |run| {
        let lab = Lab::new();
        let backends = [lab.backend(2), lab.backend(2)];
        let mut race = Race::new(&lab);
        // A job that is locked may be passed over by a claim.
        race.model.focus.order = false;
        lab.advance(1);
        let (criteria, name) = contest(run);
        let id = store(&mut race, &backends[0], P, Some("k"), JobStatus::Scheduled, 0)?;
        let mut changed = race.model.jobs[&id].job.clone();
        changed.scheduled_at = at(80_000);
        changed.priority = 3;
        let mut criteria = criteria.clone();
        criteria.on_conflict = resolution(run);
        race.ops(&backends[0], vec![Op::Enqueue(unique(fresh(P, 1, 5), criteria))]);
        let other = run.choose(8);
        match other {
            0 => {
                let claims = lab.block(Claims::new(&backends[1], P));
                race.claims(&claims, P, 1);
            }
            1 => race.ops(&backends[1], vec![Op::Complete(id)]),
            2 => race.ops(&backends[1], vec![Op::Complete(id), Op::Rerun(id)]),
            3 => race.ops(&backends[1], vec![Op::Update(changed)]),
            4 => race.ops(&backends[1], vec![Op::Cancel(id, error("e"))]),
            5 => race.ops(&backends[1], vec![Op::Retry(id, at(70_000), error("e"))]),
            6 => race.ops(&backends[1], vec![Op::Prune(prune_length(JobStatus::Scheduled, 0))]),
            _ => race.ops(&backends[1], vec![Op::Enqueue(fresh(P, 4, 0)), Op::Enqueue(fresh(P, 5, 0))]),
        }
        Ok(format!("{name} {other} {}", finish(&race, run, &backends[0])?))
    });
    let bound = check.by_tier(2, 3);
    check.scenario("two and a worker", bound, |run| {
        let lab = Lab::new();
        let backends = [lab.backend(2), lab.backend(2), lab.backend(2)];
        let mut race = Race::new(&lab);
        race.model.focus.order = false;
        lab.advance(1);
        let (criteria, name) = contest(run);
        if run.flag() {
            store(&mut race, &backends[0], P, Some("k"), JobStatus::Scheduled, 0)?;
        }
        for n in 0..2 {
            let mut criteria = criteria.clone();
            criteria.on_conflict = if n == 0 { replacing(2 + 4, &[JobStatus::Scheduled]) } else { resolution(run) };
            race.ops(&backends[n], vec![Op::Enqueue(unique(fresh(P, n as i64, -5), criteria))]);
        }
        let claims = lab.block(Claims::new(&backends[2], P));
        race.claims(&claims, P, 1);
        Ok(format!("{name} {}", finish(&race, run, &backends[0])?))
    });
    let bound = check.by_tier(1, 2);
    check.scenario("a connection is lost or a statement fails", bound, |run| {
        let lab = Lab::new();
        let backends = [lab.backend(2), lab.backend(2)];
        let mut race = Race::new(&lab);
        lab.advance(1);
        let (criteria, name) = contest(run);
        let there = run.flag();
        if there {
            store(&mut race, &backends[0], P, Some("k"), JobStatus::Scheduled, 0)?;
        }
        let before = stored(&lab, &backends[0])?;
        for (n, backend) in backends.iter().enumerate() {
            let mut criteria = criteria.clone();
            criteria.on_conflict = replacing(2 + 8, &[JobStatus::Scheduled]);
            race.ops(backend, vec![Op::Enqueue(unique(fresh(P, n as i64, 0), criteria))]);
        }
        lab.server().immediate = false;
        let steps = run.choose(10);
        let kind = run.choose(3);
        for _ in 0..steps {
            lab.step(run);
        }
        let ready = lab.ready();
        if ready.is_empty() {
            return Ok("too late".into());
        }
        let hit = run.pick(&ready).clone();
        run.note(|| format!("fault {kind} at {hit:?}"));
        match kind {
            0 => lab.server().fail(hit.conn, "57014"),
            1 => lab.cut(hit.conn, false),
            _ => lab.cut(hit.conn, true),
        }
        race.run(run)?;
        let waiting = race.unfinished();
        ensure!(waiting.is_empty(), "an operation does not finish: {waiting:?}");
        let after = stored(&lab, &backends[0])?;
        ensure!(after.len() <= 1.max(before.len()), "{name}: a duplicate was stored: {after:?}");
        let failed = race.history.calls().iter().filter(|call| matches!(call.res, Res::Failed(_))).count();
        ensure!(failed <= 1, "{failed} failures reported for one");
        // The one that did not fail had its effect.
        for call in race.history.calls() {
            if let Res::Id(id) = call.res {
                ensure!(after.iter().any(|job| job.id == id), "job {id} is gone");
            }
        }
        // And nothing stays locked: the next one finds it.
        let mut criteria = criteria.clone();
        criteria.on_conflict = replacing(2, &[JobStatus::Scheduled]);
        let res = lab.block(perform(&backends[0], &Op::Enqueue(unique(fresh(P, 9, 0), criteria))));
        ensure!(matches!(res, Res::Id(id) if after.iter().any(|job| job.id == id)), "a duplicate was stored afterwards: {res:?}");
        let _ = Utc::now();
        Ok(format!("{name} {kind} failures {failed}"))
    });
}
