//! Pruning removes exactly the finished jobs it was asked to remove.
use std::collections::BTreeMap;

use chrono::{DateTime, TimeDelta, Utc};
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    backend::{Backend, Job, memory::InMemoryBackend},
    job::JobStatus,
    pruner::{All, PruneBy, PruneSpec, Pruner},
};

use crate::{
    common::{Claimer, all, enqueuable, error, freeze, frozen, get, millis, now},
    executors::{One, Other, Plain},
    model::{Op, Res},
    race::{Follow, Scene, Step},
    world::{at, brief, ms},
};

const FINISHED: [JobStatus; 3] = [
    JobStatus::Complete,
    JobStatus::Cancelled,
    JobStatus::Discarded,
];
const NOW: i64 = 50_000_000;

/// Store a job with the given status, scheduled at the given time.
fn store(backend: &InMemoryBackend, executor: &'static str, status: JobStatus, offset: i64) {
    store_at(backend, executor, status, at(NOW + offset));
}

fn store_at(backend: &InMemoryBackend, executor: &'static str, status: JobStatus, scheduled_at: DateTime<Utc>) {
    let offset = ms(scheduled_at) - NOW;
    let early = status == JobStatus::Executing;
    let id = now(backend.enqueue(enqueuable(
        executor,
        offset,
        if early { at(0) } else { scheduled_at },
    )))
    .unwrap();
    match status {
        JobStatus::Scheduled => {}
        JobStatus::Executing => {
            let job = Claimer::new(backend, executor).claim().expect("no job");
            assert_eq!(job.id, i32::from(id));
            let mut job = get(backend, id).unwrap();
            job.scheduled_at = scheduled_at;
            now(backend.update_job(job)).unwrap();
        }
        JobStatus::Complete => now(backend.mark_job_complete(id)).unwrap(),
        JobStatus::Retryable => {
            now(backend.mark_job_retryable(id, scheduled_at, error("e"))).unwrap()
        }
        JobStatus::Cancelled => now(backend.mark_job_cancelled(id, error("e"))).unwrap(),
        JobStatus::Discarded => now(backend.mark_job_discarded(id, error("e"))).unwrap(),
    }
}

/// Which executors a rule is about.
const SELECTIONS: usize = 8;
fn selection(
    rule: Pruner<All>,
    which: usize,
) -> (PruneSpec, Box<dyn Fn(&str) -> bool>) {
    let (spec, holds): (PruneSpec, fn(&str) -> bool) = match which {
        0 => (rule.into(), |_| true),
        1 => (rule.only::<Plain>().into(), |e| e == "plain"),
        2 => (rule.except::<Plain>().into(), |e| e != "plain"),
        3 => (rule.only::<Plain>().and::<Other>().into(), |e| {
            e == "plain" || e == "plain_other"
        }),
        4 => (rule.except::<Other>().and::<Plain>().into(), |e| {
            e != "plain" && e != "plain_other"
        }),
        5 => (rule.only::<One>().into(), |e| e == "one"),
        6 => (rule.except::<One>().into(), |e| e != "one"),
        _ => (
            rule.only::<Other>().and::<One>().and::<Other>().into(),
            |e| e == "plain_other" || e == "one",
        ),
    };
    (spec, Box::new(holds))
}

/// Prune and judge what is left.
fn prune(
    run: &mut Run,
    backend: &InMemoryBackend,
    status: JobStatus,
    by: PruneBy,
    which: usize,
) -> Result<usize, Violation> {
    let before = all(backend);
    let rule = match by {
        PruneBy::MaxAge(age) => Pruner::max_age(age, status),
        PruneBy::MaxLength(length) => Pruner::max_length(length, status),
    };
    let (spec, holds) = selection(rule, which);
    let mut removed = 0;
    run.note(|| format!("{:?}", before.iter().map(brief).collect::<Vec<_>>()));
    run.note(|| format!("prune {spec:?}"));
    run.state_of(&(
        before.iter().map(brief).collect::<Vec<_>>(),
        format!("{spec:?}"),
    ));
    for round in 0..2 {
        now(backend.prune_jobs(&spec)).map_err(|error| format!("prune failed: {error}"))?;
        let after: BTreeMap<i32, Job> =
            all(backend).into_iter().map(|job| (job.id, job)).collect();
        run.note(|| format!("left {:?}", after.values().map(brief).collect::<Vec<_>>()));
        if let Some(id) = after
            .keys()
            .find(|id| !before.iter().any(|job| job.id == **id))
        {
            return Err(format!("job {id} appeared").into());
        }
        let selected = |job: &Job| job.status == status && holds(&job.executor);
        for job in &before {
            match after.get(&job.id) {
                Some(left) => ensure!(left == job, "pruning changed {job:?} to {left:?}"),
                None => ensure!(
                    selected(job),
                    "a job that is not selected was pruned: {} by {spec:?}",
                    brief(job)
                ),
            }
        }
        let candidates: Vec<&Job> = before.iter().filter(|job| selected(job)).collect();
        let kept = |job: &&&Job| after.contains_key(&job.id);
        match by {
            PruneBy::MaxAge(age) => {
                for job in &candidates {
                    let old = Utc::now() - job.scheduled_at > age;
                    ensure!(
                        old != kept(&job),
                        "job of age {} ms was {}: {} by {spec:?}",
                        NOW - ms(job.scheduled_at),
                        if old { "kept" } else { "pruned" },
                        brief(job)
                    );
                }
            }
            PruneBy::MaxLength(length) => {
                let count = candidates.iter().filter(kept).count();
                let wanted = candidates.len().min(length as usize);
                ensure!(
                    count == wanted,
                    "{count} jobs were kept instead of {wanted} by {spec:?} of {:?}",
                    before.iter().map(brief).collect::<Vec<_>>()
                );
                let oldest_kept = candidates
                    .iter()
                    .filter(kept)
                    .map(|j| j.scheduled_at)
                    .min();
                let newest_pruned = candidates
                    .iter()
                    .filter(|job| !kept(job))
                    .map(|job| job.scheduled_at)
                    .max();
                if let (Some(kept), Some(pruned)) = (oldest_kept, newest_pruned) {
                    ensure!(
                        pruned <= kept,
                        "a newer job was pruned while an older one was kept by {spec:?} of {:?}",
                        before.iter().map(brief).collect::<Vec<_>>()
                    );
                }
            }
        }
        ensure!(
            round == 0 || removed == before.len() - after.len(),
            "pruning again removed more jobs"
        );
        removed = before.len() - after.len();
    }
    Ok(removed)
}

/// Limits in milliseconds, up to some years.
pub(crate) const LIMITS: [i64; 9] = [0, 1, 500, 1_000, 1_500, 59_999, 3_600_001, 400 * 86_400_000, 4_000 * 86_400_000];
/// How much older than that in nanoseconds.
pub(crate) const BEYOND: [i64; 9] = [-1_000_000_000, -1_000_000, -1_000, -1, 0, 1, 1_000, 1_000_000, 1_000_000_000];

const AGES: [i64; 3] = [0, 1_000, 86_400_000];

fn age(ms: i64) -> PruneBy {
    PruneBy::MaxAge(if ms == i64::MAX {
        TimeDelta::MAX
    } else {
        millis(ms)
    })
}

fn arena() -> (crate::common::Frozen, InMemoryBackend) {
    let frozen = frozen();
    freeze(NOW);
    (frozen, InMemoryBackend::new())
}

pub fn run(check: &mut Check) {
    let fine = 1;
    check.assume("Jobs with the same scheduled time may be kept in any order when pruning by length; newest means scheduled latest.");
    let jobs = check.by_tier(3, 4);
    check.scenario("age: every status", 0, |run| {
        let (_frozen, backend) = arena();
        let _guard = _frozen.enter();
        let status = *run.pick(&FINISHED);
        let limit = *run.pick(&[0, 1_000]);
        let which = run.choose(SELECTIONS);
        for _ in 0..jobs {
            let executor = *run.pick(&["plain", "plain_other"]);
            let other = *run.pick(&JobStatus::ALL);
            let offset = *run.pick(&[-limit - 1, -limit, -limit + 1]);
            store(&backend, executor, other, offset);
        }
        prune(run, &backend, status, age(limit), which).map(|n| format!("removed {n}"))
    });
    check.scenario("age: limits", 0, |run| {
        let (_frozen, backend) = arena();
        let _guard = _frozen.enter();
        let status = *run.pick(&FINISHED);
        let limit = *run.pick(&[0, 1, 1_000, 86_400_000, i64::MAX]);
        let which = run.choose(SELECTIONS);
        let near = if limit == i64::MAX { 0 } else { limit };
        for n in 0..3 {
            let executor = ["plain", "plain_other", "one"][run.choose(2 + n / 2)];
            let offset = *run.pick(&[-near - 40_000_000, -near - 1, -near, 1_000]);
            store(&backend, executor, status, offset);
        }
        prune(run, &backend, status, age(limit), which).map(|n| format!("removed {n}"))
    });
    check.scenario("length: every status", 0, |run| {
        let (_frozen, backend) = arena();
        let _guard = _frozen.enter();
        let status = *run.pick(&FINISHED);
        let length = run.choose(3) as u32;
        let which = run.choose(5);
        for _ in 0..jobs {
            let executor = *run.pick(&["plain", "plain_other"]);
            let other = *run.pick(&JobStatus::ALL);
            let offset = *run.pick(&[-2_000, -1_000, 500]);
            store(&backend, executor, other, offset);
        }
        prune(run, &backend, status, PruneBy::MaxLength(length), which)
            .map(|n| format!("removed {n}"))
    });
    check.scenario("age: to the nanosecond", 0, |run| {
        let (_frozen, backend) = arena();
        let _guard = _frozen.enter();
        let status = *run.pick(&FINISHED);
        let limit = *run.pick(&LIMITS);
        for _ in 0..2 {
            let beyond = *run.pick(&BEYOND);
            store_at(&backend, "plain", status, at(NOW) - millis(limit) - TimeDelta::nanoseconds(beyond));
        }
        prune(run, &backend, status, age(limit), 0).map(|n| format!("removed {n}"))
    });
    check.scenario("many jobs", 0, |run| {
        let (_frozen, backend) = arena();
        let _guard = _frozen.enter();
        let count = *run.pick(&[300, 1_100]);
        let backwards = run.flag();
        for n in 0..count {
            let offset = if backwards { n } else { -n };
            let (executor, status) = match n % 4 {
                0 => ("plain_other", JobStatus::Complete),
                1 => ("plain", JobStatus::Discarded),
                _ => ("plain", JobStatus::Complete),
            };
            store(&backend, executor, status, offset - 5_000);
        }
        let by = *run.pick(&[
            age(0),
            age(5_000),
            age(5_200),
            PruneBy::MaxLength(0),
            PruneBy::MaxLength(1),
            PruneBy::MaxLength(130),
            PruneBy::MaxLength(256),
            PruneBy::MaxLength(65_536),
        ]);
        let which = run.choose(3);
        prune(run, &backend, JobStatus::Complete, by, which).map(|n| format!("removed {n}"))
    });
    let lengths = [0, 1, 2, 3, u32::MAX];
    check.scenario("length: orders", 0, |run| {
        let (_frozen, backend) = arena();
        let _guard = _frozen.enter();
        let length = *run.pick(&lengths);
        let which = run.choose(5);
        for _ in 0..jobs + 1 {
            let executor = *run.pick(&["plain", "plain_other"]);
            let offset = *run.pick(&[-3_000, -2_000, -1_000, 500]);
            store(&backend, executor, JobStatus::Complete, offset);
        }
        prune(
            run,
            &backend,
            JobStatus::Complete,
            PruneBy::MaxLength(length),
            which,
        )
        .map(|n| format!("removed {n}"))
    });
    check.scenario("several rules", 0, |run| {
        let (_frozen, backend) = arena();
        let _guard = _frozen.enter();
        for (executor, status, offset) in [
            ("plain", JobStatus::Complete, -3_000),
            ("plain_other", JobStatus::Discarded, -2_500),
            ("one", JobStatus::Complete, -1_500),
            ("plain", JobStatus::Discarded, -2_000),
            ("plain_other", JobStatus::Complete, -1_000),
            ("plain", JobStatus::Complete, -500),
            ("plain", JobStatus::Executing, -500),
            ("plain_other", JobStatus::Scheduled, -500),
            ("plain", JobStatus::Cancelled, -5_000),
        ] {
            store(&backend, executor, status, offset);
        }
        let mut removed = 0;
        let rules = jobs - 1;
        for _ in 0..rules {
            let status = *run.pick(&FINISHED);
            let which = run.choose(SELECTIONS);
            let by = match run.choose(5) {
                n @ 0..3 => PruneBy::MaxLength(n as u32),
                3 => age(AGES[1]),
                _ => age(2_200),
            };
            removed += prune(run, &backend, status, by, which)?;
        }
        Ok(format!("removed {removed}"))
    });
    // Threads working on the same jobs meanwhile.
    let bound = check.by_tier(2, 3);
    check.threads("prune and work", bound, fine, |run| {
        let _frozen = frozen();
        freeze(NOW);
        let _guard = _frozen.enter();
        let mut scene = Scene::new().focus(false, true);
        let follow = *run.pick(&[
            Follow::Complete,
            Follow::Cancel,
            Follow::Discard,
            Follow::RetryNow,
            Follow::SnoozeNow,
        ]);
        let status = *run.pick(&FINISHED);
        for (n, offset) in [-3_000, -2_000, -1_000].into_iter().enumerate() {
            let job = enqueuable("plain", n as i64, at(NOW + offset));
            let Res::Id(id) = scene.setup(Op::Enqueue(job))? else {
                return Err("enqueue failed".into());
            };
            if n == 1 {
                scene.setup(match status {
                    JobStatus::Complete => Op::Complete(id),
                    JobStatus::Cancelled => Op::Cancel(id, error("e")),
                    _ => Op::Discard(id, error("e")),
                })?;
            }
        }
        let (by, which) = match run.choose(5) {
            n @ 0..2 => (PruneBy::MaxLength(n as u32), 0),
            2 => (age(500), 0),
            3 => (age(2_500), 1),
            _ => (age(0), 2),
        };
        let rule = match by {
            PruneBy::MaxAge(age) => Pruner::max_age(age, status),
            PruneBy::MaxLength(length) => Pruner::max_length(length, status),
        };
        let spec = selection(rule, which).0;
        let third = run.choose(4);
        let mut bodies = vec![
            scene.worker("plain", 2, follow, true),
            scene.client(vec![Step::Op(Op::Prune(spec.clone()))]),
        ];
        bodies.extend(match third {
            0 => None,
            1 => Some(scene.client(vec![Step::Op(Op::Prune(spec))])),
            2 => Some(scene.client(vec![Step::Op(Op::Enqueue(enqueuable(
                "plain",
                9,
                at(NOW - 4_000),
            )))])),
            _ => Some(scene.client(vec![Step::Edit(2, |job| job.priority = 9)])),
        });
        scene.run(run, bodies)?;
        Ok(scene.summary())
    });
}
