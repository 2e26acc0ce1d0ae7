//! Pruning removes exactly what was asked for.
use std::collections::BTreeMap;

use chrono::{DateTime, TimeDelta, Utc};
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    backend::{Backend, Job},
    job::JobStatus,
    pruner::{All, PruneBy, PruneSpec, Pruner},
};
use rexecutor_sqlx::RexecutorPgBackend;

use super::c20::{P, enqueue, stored};
use crate::{
    common::{enqueuable, error, millis},
    executors::{One, Other, Plain},
    lab::*,
    model::{Op, Res},
    world::{brief, ms},
};

const FINISHED: [JobStatus; 3] = [JobStatus::Complete, JobStatus::Cancelled, JobStatus::Discarded];
const NOW: i64 = 50_000_000;

/// Store a job with the given status, scheduled at the given time.
fn store(lab: &Lab, backend: &RexecutorPgBackend, executor: &'static str, status: JobStatus, offset: i64) -> Result<(), Violation> {
    store_at(lab, backend, executor, status, at(NOW + offset))
}

fn store_at(
    lab: &Lab,
    backend: &RexecutorPgBackend,
    executor: &'static str,
    status: JobStatus,
    scheduled_at: DateTime<Utc>,
) -> Result<(), Violation> {
    let offset = ms(scheduled_at) - NOW;
    let early = status == JobStatus::Executing;
    let job = enqueuable(executor, offset, if early { at(0) } else { scheduled_at });
    let id = match lab.block(perform(backend, &Op::Enqueue(job))) {
        Res::Id(id) => id,
        res => return Err(format!("enqueue failed: {res:?}").into()),
    };
    let op = match status {
        JobStatus::Scheduled => return Ok(()),
        JobStatus::Executing => {
            let mut job = lab.claim(backend, executor).ok_or("no job to claim")?;
            ensure!(job.id == id, "another job was claimed");
            job.scheduled_at = scheduled_at;
            Op::Update(job)
        }
        JobStatus::Complete => Op::Complete(id),
        JobStatus::Retryable => Op::Retry(id, scheduled_at, error("e")),
        JobStatus::Cancelled => Op::Cancel(id, error("e")),
        JobStatus::Discarded => Op::Discard(id, error("e")),
    };
    let res = lab.block(perform(backend, &op));
    ensure!(res == Res::Done, "{} failed: {res:?}", op.brief());
    Ok(())
}

/// Which executors a rule is about.
const SELECTIONS: usize = 8;
fn selection(rule: Pruner<All>, which: usize) -> (PruneSpec, fn(&str) -> bool) {
    match which {
        0 => (rule.into(), |_| true),
        1 => (rule.only::<Plain>().into(), |e| e == "plain"),
        2 => (rule.except::<Plain>().into(), |e| e != "plain"),
        3 => (rule.only::<Plain>().and::<Other>().into(), |e| e == "plain" || e == "plain_other"),
        4 => (rule.except::<Other>().and::<Plain>().into(), |e| e != "plain" && e != "plain_other"),
        5 => (rule.only::<One>().into(), |e| e == "one"),
        6 => (rule.except::<One>().into(), |e| e != "one"),
        _ => (rule.only::<Other>().and::<One>().and::<Other>().into(), |e| e == "plain_other" || e == "one"),
    }
}

fn rule(status: JobStatus, by: PruneBy, which: usize) -> (PruneSpec, fn(&str) -> bool) {
    let rule = match by {
        PruneBy::MaxAge(age) => Pruner::max_age(age, status),
        PruneBy::MaxLength(length) => Pruner::max_length(length, status),
    };
    selection(rule, which)
}

/// Prune and judge what is left.
fn prune(
    run: &mut Run,
    lab: &Lab,
    backend: &RexecutorPgBackend,
    before: &[Job],
    status: JobStatus,
    by: PruneBy,
    which: usize,
) -> Result<usize, Violation> {
    let (spec, holds) = rule(status, by, which);
    let all = || before.iter().map(brief).collect::<Vec<_>>();
    run.state_of(&(all(), format!("{spec:?}")));
    let mut removed = 0;
    for round in 0..2 {
        lab.block(backend.prune_jobs(&spec)).map_err(|error| format!("prune failed: {error}; {spec:?}"))?;
        let after: BTreeMap<i32, Job> = stored(lab, backend)?.into_iter().map(|job| (job.id, job)).collect();
        ensure!(
            after.keys().all(|id| before.iter().any(|job| job.id == *id)),
            "a job appeared: {spec:?}"
        );
        let selected = |job: &Job| job.status == status && holds(&job.executor);
        for job in before {
            match after.get(&job.id) {
                Some(left) => ensure!(left == job, "pruning changed {job:?} to {left:?}"),
                None => ensure!(
                    selected(job),
                    "a job that is not selected was pruned: {} by {spec:?}",
                    brief(job)
                ),
            }
        }
        let candidates: Vec<&Job> = before.iter().filter(|job| selected(job)).collect();
        let kept = |job: &&&Job| after.contains_key(&job.id);
        match by {
            PruneBy::MaxAge(age) => {
                for job in &candidates {
                    let old = Utc::now() - job.scheduled_at > age;
                    ensure!(
                        old != kept(&job),
                        "job of age {} ms was {}: {} by {spec:?}",
                        NOW - ms(job.scheduled_at),
                        if old { "kept" } else { "pruned" },
                        brief(job)
                    );
                }
            }
            PruneBy::MaxLength(length) => {
                let count = candidates.iter().filter(kept).count();
                let wanted = candidates.len().min(length as usize);
                ensure!(
                    count == wanted,
                    "{count} jobs were kept instead of {wanted} by {spec:?} of {:?}",
                    all()
                );
                let oldest = candidates.iter().filter(kept).map(|job| job.scheduled_at).min();
                let newest = candidates.iter().filter(|job| !kept(job)).map(|job| job.scheduled_at).max();
                if let (Some(kept), Some(pruned)) = (oldest, newest) {
                    ensure!(
                        pruned <= kept,
                        "a newer job was pruned while an older one was kept by {spec:?} of {:?}",
                        all()
                    );
                }
            }
        }
        ensure!(
            round == 0 || removed == before.len() - after.len(),
            "pruning again removed more jobs"
        );
        removed = before.len() - after.len();
    }
    Ok(removed)
}

fn arena() -> (Lab, RexecutorPgBackend) {
    let lab = Lab::new();
    lab.advance(NOW as u64);
    let backend = lab.backend(2);
    (lab, backend)
}

/// Apply each of the rules to the same population.
fn rules(
    run: &mut Run,
    lab: &Lab,
    backend: &RexecutorPgBackend,
    statuses: &[JobStatus],
    limits: &[PruneBy],
    selections: usize,
) -> Result<String, Violation> {
    let before = stored(lab, backend)?;
    let population = lab.server().db.clone();
    let mut removed = 0;
    run.note(|| format!("{:?}", before.iter().map(brief).collect::<Vec<_>>()));
    for status in statuses {
        for by in limits {
            for which in 0..selections {
                lab.server().db = population.clone();
                removed += prune(run, lab, backend, &before, *status, *by, which)?;
                run.transitions += 1;
            }
        }
    }
    Ok(format!("removed {removed}"))
}

fn age(ms: i64) -> PruneBy {
    PruneBy::MaxAge(if ms == i64::MAX { TimeDelta::MAX } else { millis(ms) })
}

pub fn run(check: &mut Check) {
    check.assume("Jobs with the same scheduled time may be kept in any order when pruning by length; newest means scheduled latest.");
    check.assume("Only the finished statuses are pruned.");
    check.assume("Every population is combined with all rules in one execution; the server evaluates statements as modelled.");
    let jobs = check.by_tier(3, 4);
    check.scenario("age", 0, |run| {
        let (lab, backend) = arena();
        for _ in 0..jobs {
            let executor = *run.pick(&["plain", "plain_other"]);
            let status = *run.pick(&[JobStatus::Complete, JobStatus::Cancelled, JobStatus::Scheduled]);
            let offset = *run.pick(&[-1_001, -1_000, -999]);
            store(&lab, &backend, executor, status, offset)?;
        }
        rules(run, &lab, &backend, &FINISHED[..2], &[age(1_000), age(0)], 5)
    });
    check.scenario("length", 0, |run| {
        let (lab, backend) = arena();
        lab.server().db.backwards = run.flag();
        for _ in 0..jobs {
            let executor = *run.pick(&["plain", "plain_other"]);
            let status = *run.pick(&[JobStatus::Complete, JobStatus::Scheduled]);
            let offset = *run.pick(&[-2_000, -1_000, 500]);
            store(&lab, &backend, executor, status, offset)?;
        }
        let limits: Vec<PruneBy> = [0, 1, 2, 3].map(PruneBy::MaxLength).to_vec();
        rules(run, &lab, &backend, &FINISHED[..1], &limits, 5)
    });
    check.scenario("orders", 0, |run| {
        let (lab, backend) = arena();
        for _ in 0..jobs + 1 {
            let executor = *run.pick(&["plain", "plain_other"]);
            let offset = *run.pick(&[-3_000, -2_000, -1_000, 500]);
            store(&lab, &backend, executor, JobStatus::Discarded, offset)?;
        }
        let limits: Vec<PruneBy> = [1, 2, 3].map(PruneBy::MaxLength).to_vec();
        rules(run, &lab, &backend, &FINISHED[2..], &limits, 3)
    });
    check.scenario("statuses and limits", 0, |run| {
        let (lab, backend) = arena();
        for _ in 0..2 {
            let executor = *run.pick(&["plain", "plain_other", "one"]);
            let status = *run.pick(&JobStatus::ALL);
            let offset = *run.pick(&[-2_000, -40_000_000, 1_000]);
            store(&lab, &backend, executor, status, offset)?;
        }
        let limits = [
            age(0),
            age(1),
            age(2_000),
            age(86_400_000),
            age(i64::MAX),
            PruneBy::MaxLength(0),
            PruneBy::MaxLength(1),
            PruneBy::MaxLength(u32::MAX),
        ];
        rules(run, &lab, &backend, &FINISHED, &limits, SELECTIONS)
    });
    check.scenario("age to the microsecond", 0, |run| {
        let (lab, backend) = arena();
        let limit = *run.pick(&[0, 1, 500, 1_000, 1_500, 59_999, 3_600_001, 400 * 86_400_000, 4_000 * 86_400_000]);
        for _ in 0..2 {
            let beyond = *run.pick(&[-1_000_000, -1_000, -1, 0, 1, 1_000, 1_000_000]);
            let when = at(NOW) - millis(limit) - TimeDelta::microseconds(beyond);
            store_at(&lab, &backend, "plain", JobStatus::Complete, when)?;
        }
        rules(run, &lab, &backend, &FINISHED[..1], &[age(limit)], 1)
    });
    check.scenario("many jobs", 0, |run| {
        let (lab, backend) = arena();
        let backwards = run.flag();
        for n in 0..1_100 {
            let offset = if backwards { n } else { -n };
            let (executor, status) = match n % 4 {
                0 => ("plain_other", JobStatus::Complete),
                1 => ("plain", JobStatus::Discarded),
                _ => ("plain", JobStatus::Complete),
            };
            store(&lab, &backend, executor, status, offset - 5_000)?;
        }
        let limits = [
            age(0),
            age(5_200),
            PruneBy::MaxLength(0),
            PruneBy::MaxLength(130),
            PruneBy::MaxLength(65_536),
        ];
        rules(run, &lab, &backend, &FINISHED[..1], &limits, 3)
    });
    // Other statements meanwhile.
    let bound = check.by_tier(3, 5);
    check.scenario("prune and work", bound, |run| {
        let lab = Lab::new();
        let backends = [lab.backend(2), lab.backend(2)];
        let mut race = Race::new(&lab);
        race.model.focus.order = false;
        lab.advance(5_000);
        let status = *run.pick(&FINISHED);
        let mut ids = Vec::new();
        for (n, when) in [1_000, 2_000, 3_000].into_iter().enumerate() {
            let id = enqueue(&mut race, &backends[0], enqueuable(P, n as i64, at(when)))?;
            if n != 1 {
                race.before(
                    &backends[0],
                    match status {
                        JobStatus::Complete => Op::Complete(id),
                        JobStatus::Cancelled => Op::Cancel(id, error("e")),
                        _ => Op::Discard(id, error("e")),
                    },
                )?;
            }
            ids.push(id);
        }
        let finish = |id: i32| match status {
            JobStatus::Complete => Op::Complete(id),
            JobStatus::Cancelled => Op::Cancel(id, error("e")),
            _ => Op::Discard(id, error("e")),
        };
        let by = *run.pick(&[PruneBy::MaxLength(0), PruneBy::MaxLength(1), PruneBy::MaxLength(2), age(2_500), age(0)]);
        let spec = rule(status, by, run.choose(3)).0;
        let prune = Op::Prune(spec);
        let other = run.choose(7);
        match other {
            0 => race.ops(&backends[1], vec![Op::Rerun(ids[0])]),
            1 => race.ops(&backends[1], vec![Op::Rerun(ids[2]), Op::Rerun(ids[0])]),
            2 => race.ops(&backends[1], vec![finish(ids[1])]),
            3 => {
                let claims = lab.block(Claims::new(&backends[1], P));
                race.claims(&claims, P, 1);
            }
            4 => race.ops(&backends[1], vec![Op::Enqueue(enqueuable(P, 8, at(0))), Op::Retry(ids[0], at(90_000), error("f"))]),
            5 => race.ops(&backends[1], vec![prune.clone()]),
            _ => {
                let other = FINISHED.into_iter().find(|s| *s != status).unwrap();
                race.ops(&backends[1], vec![match other {
                    JobStatus::Complete => Op::Complete(ids[0]),
                    _ => Op::Cancel(ids[0], error("f")),
                }])
            }
        }
        race.ops(&backends[0], vec![prune]);
        race.run(run)?;
        let waiting = race.unfinished();
        ensure!(
            waiting.iter().all(|name| name.contains("claim")),
            "an operation does not finish: {waiting:?}"
        );
        let left = race.judge(&backends[0])?;
        Ok(format!("{other} {} left", left.len()))
    });
}
