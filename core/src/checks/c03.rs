//! No job runs before its scheduled time.
use chrono::{DateTime, TimeDelta, Utc};
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    Rexecutor,
    backend::{Backend, memory::InMemoryBackend},
    executor::Executor,
    job::{JobId, JobStatus, query::Where, uniqueness_criteria::{Replace, UniquenessCriteria}},
};

use crate::{
    common::{Claimer, bring, all, enqueuable, error, freeze, frozen, get, millis, now, unique, waiting},
    executors::{Data, Other, Plain},
    model::{Focus, Op, Res},
    race::{Follow, Scene, Step},
    world::{Act, Setup, What, World, at, ms, simulate},
};

const P: &str = "plain";
const EARLY: TimeDelta = TimeDelta::milliseconds(100);

/// Ways in which a job obtains a schedule. Returns whether the job waits for it.
const SOURCES: [&str; 8] = [
    "enqueue", "retry", "snooze", "snooze again", "update", "update retryable", "replace", "rerun",
];

fn criteria() -> UniquenessCriteria<'static> {
    UniquenessCriteria::by_key(&"the job").on_conflict(
        Replace::scheduled_at()
            .and_data()
            .for_statuses(&JobStatus::ALL),
    )
}

/// Set up a job of the executor that is scheduled at the given time in the given way.
fn scheduled(
    backend: &InMemoryBackend,
    claimer: &mut Claimer,
    executor: &str,
    source: usize,
    scheduled_at: DateTime<Utc>,
) -> JobId {
    let past = Utc::now() - TimeDelta::hours(2);
    let new = |at| unique(enqueuable(executor, 1, at), criteria());
    let enqueue = |at| now(backend.enqueue(new(at))).unwrap();
    match source {
        0 => enqueue(scheduled_at),
        1 => {
            let id = enqueue(past);
            bring(backend, claimer, id, JobStatus::Executing);
            now(backend.mark_job_retryable(id, scheduled_at, error("e"))).unwrap();
            id
        }
        2 | 3 => {
            let id = enqueue(past);
            let status = [JobStatus::Scheduled, JobStatus::Retryable][source - 2];
            bring(backend, claimer, id, status);
            bring(backend, claimer, id, JobStatus::Executing);
            now(backend.mark_job_snoozed(id, scheduled_at)).unwrap();
            id
        }
        4 | 5 => {
            let id = enqueue(past);
            let status = [JobStatus::Scheduled, JobStatus::Retryable][source - 4];
            bring(backend, claimer, id, status);
            let mut job = get(backend, id).unwrap();
            job.scheduled_at = scheduled_at;
            now(backend.update_job(job)).unwrap();
            id
        }
        6 => {
            let id = enqueue(past);
            assert_eq!(enqueue(scheduled_at), id);
            id
        }
        _ => {
            let id = enqueue(past);
            bring(backend, claimer, id, JobStatus::Complete);
            now(backend.rerun_job(id)).unwrap();
            let mut job = get(backend, id).unwrap();
            job.scheduled_at = scheduled_at;
            now(backend.update_job(job)).unwrap();
            id
        }
    }
}

pub fn run(check: &mut Check) {
    let fine = check.by_tier(1, 2);
    check.assume("Operations of the in-memory backend happen at one instant of the virtual clock.");
    let offsets: Vec<i64> = check.by_tier(
        vec![-3_600_000, -1, 0, 1, 14, 16, 99, 100, 101, 102, 150, 1_000, 29_000, 31_000, 3_600_000],
        vec![
            -86_400_000, -3_600_000, -1000, -1, 0, 1, 2, 5, 13, 14, 15, 16, 17, 50, 98, 99, 100, 101, 102, 110, 115, 116,
            120, 150, 200, 500, 1_000, 14_000, 15_000, 29_000, 29_900, 30_000, 30_100, 31_000, 59_000, 60_000, 90_000,
            3_600_000, 86_400_000, 31_536_000_000,
        ],
    );
    let companions: Vec<Option<i64>> = vec![None, Some(-5), Some(0), Some(12), Some(50), Some(100), Some(10_000)];
    check.scenario("populations", 0, |run| {
        // Everything handed out at one instant, by how it was scheduled.
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let source = run.choose(SOURCES.len());
        let offset = *run.pick(&offsets);
        let companion = *run.pick(&companions);
        let nanos = *run.pick(&[0, 1, 999_999]);
        let other = run.flag();
        let backend = InMemoryBackend::new();
        let executor = if other { "plain_other" } else { P };
        let mut setup = Claimer::new(&backend, if other { "plain_other" } else { P });
        let scheduled_at = Utc::now() + millis(offset) + TimeDelta::nanoseconds(nanos);
        let id = scheduled(&backend, &mut setup, executor, source, scheduled_at);
        drop(setup);
        if let Some(companion) = companion {
            now(backend.enqueue(enqueuable(P, 2, Utc::now() + millis(companion)))).unwrap();
        }
        let before = all(&backend);
        let mut claimer = Claimer::new(&backend, P);
        let mut claimed = Vec::new();
        while let Some(job) = claimer.claim() {
            claimed.push(job);
            ensure!(claimed.len() < 10, "claims do not end: {claimed:?}");
        }
        for job in &claimed {
            let stored = before.iter().find(|stored| stored.id == job.id).unwrap();
            ensure!(
                stored.executor == P,
                "handed to another executor: {stored:?}"
            );
            ensure!(
                waiting(stored.status),
                "handed out although not waiting: {stored:?}"
            );
            ensure!(
                stored.scheduled_at - Utc::now() <= EARLY,
                "handed out too early: {} before {}",
                stored.scheduled_at - Utc::now(),
                SOURCES[source]
            );
        }
        run.state_of(&(source, offset, companion, other, claimed.len()));
        let _ = id;
        Ok(format!("{} claimed {}", SOURCES[source], claimed.len()))
    });
    check.scenario("statuses", 0, |run| {
        // Jobs in any status, only those waiting are handed out.
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let backend = InMemoryBackend::new();
        let mut expected = Vec::new();
        let mut setups = [Claimer::new(&backend, P), Claimer::new(&backend, "plain_other")];
        let count = 3;
        let mut chosen = Vec::new();
        for n in 0..count {
            freeze(n * 10);
            let status = *run.pick(&JobStatus::ALL);
            let other = run.flag();
            let executor = if other { "plain_other" } else { P };
            let id = now(backend.enqueue(enqueuable(executor, n, Utc::now() - millis(1000)))).unwrap();
            bring(&backend, &mut setups[other as usize], id, status);
            // Not to be claimed during the setup.
            let mut job = get(&backend, id).unwrap();
            if waiting(status) {
                job.scheduled_at = at(60_000);
                now(backend.update_job(job)).unwrap();
                if !other {
                    expected.push(i32::from(id));
                }
            }
            chosen.push((status, other));
        }
        drop(setups);
        run.state_of(&chosen.iter().map(|(s, o)| (format!("{s:?}"), *o)).collect::<Vec<_>>());
        freeze(59_000);
        let mut claimer = Claimer::new(&backend, P);
        ensure!(claimer.claim().is_none(), "handed out too early");
        freeze(60_000);
        now(async { backend.notify_all() }).unwrap();
        let mut claimed = Vec::new();
        while let Some(job) = claimer.claim() {
            claimed.push(job.id);
            ensure!(claimed.len() < 10, "claims do not end: {claimed:?}");
        }
        claimed.sort();
        for id in &claimed {
            ensure!(
                expected.contains(id),
                "a job that is not waiting was handed out: {chosen:?} {claimed:?}"
            );
        }
        Ok(format!("claimed {}", claimed.len()))
    });

    // Workers that hear about a due job at the same time, while it is taken or moved by others.
    let late: Vec<i64> = check.by_tier(
        vec![50_000_000, 100_000_001, 110_000_000, 5_000_000_000, 3_600_000_000_000],
        vec![
            50_000_000, 99_999_999, 100_000_000, 100_000_001, 101_000_000, 110_000_000, 200_000_000, 1_000_000_000,
            5_000_000_000, 60_000_000_000, 3_600_000_000_000,
        ],
    );
    check.threads("threads", check.by_tier(2, 3), fine, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let mut scene = Scene::new();
        scene.initial.focus = Focus { order: false, early: true, content: false };
        let offset = TimeDelta::nanoseconds(*run.pick(&late));
        let priority = *run.pick(&[0, 1]);
        let first = unique(enqueuable(P, 1, Utc::now() - millis(5)), criteria());
        let Res::Id(id) = scene.setup(Op::Enqueue(first))? else {
            return Err("enqueue failed".into());
        };
        let mut second = enqueuable(P, 2, Utc::now() + offset);
        second.priority = priority;
        scene.setup(Op::Enqueue(second))?;
        let change = *run.pick(&["none", "update", "replace", "wake"]);
        let steps = match change {
            "none" => vec![],
            "update" => vec![Step::Edit(id, |job| job.scheduled_at = Utc::now() + TimeDelta::minutes(1))],
            "replace" => {
                let later = enqueuable(P, 3, Utc::now() + TimeDelta::minutes(1));
                vec![Step::Op(Op::Enqueue(unique(later, criteria())))]
            }
            _ => vec![Step::NotifyAll, Step::NotifyAll],
        };
        let mut bodies = vec![
            scene.worker(P, 2, Follow::Complete, true),
            scene.worker(P, 2, Follow::Complete, true),
        ];
        if !steps.is_empty() {
            bodies.push(scene.client(steps));
        }
        scene.run(run, bodies)?;
        for (_, job) in scene.delivered.lock().unwrap().iter() {
            let early = job.scheduled_at - Utc::now();
            ensure!(early <= EARLY, "handed out {early} early");
        }
        Ok(format!("{change} {}", scene.summary()))
    });

    // Real workers in virtual time.
    let delays: Vec<i64> = check.by_tier(
        vec![0, 60, 101, 150, 5_000, 30_100, 61_000],
        vec![0, 1, 15, 16, 60, 99, 100, 101, 116, 150, 1_000, 5_000, 29_900, 30_000, 30_100, 61_000, 3_600_000],
    );
    check.scenario("workers", 0, |run| {
        let source = run.choose(6);
        let (delay, companion) = (*run.pick(&delays), *run.pick(&[None, Some(-5), Some(40), Some(120), Some(20_000)]));
        let noise = run.flag();
        let phase = *run.pick(&[0, 400_000]);
        let first = std::sync::atomic::AtomicBool::new(true);
        simulate(
            Setup::new(&[]).phase(phase),
            move |_, view| match view.data["n"].as_i64() {
                Some(1) if first.swap(false, std::sync::atomic::Ordering::SeqCst) => match source {
                    1 => Act::Fail("failed".to_owned()),
                    2 => Act::Snooze(millis(delay)),
                    3 => Act::Panic("panicked".to_owned()),
                    _ => Act::Done,
                },
                _ => Act::Done,
            },
            async |world| {
                let backend = InMemoryBackend::new();
                let guard = Rexecutor::new(backend.clone())
                    .with_executor::<Plain>()
                    .with_executor::<Other>()
                    .drop_guard();
                let start = if matches!(source, 1..=3) { 0 } else { delay };
                let id = Plain::builder()
                    .with_data(Data::n(1).backoff(delay))
                    .unique(criteria())
                    .schedule_at(Utc::now() + millis(start))
                    .enqueue_to_backend(&backend)
                    .await
                    .unwrap();
                let mut due = vec![Utc::now() + millis(start)];
                if let Some(companion) = companion {
                    Plain::builder()
                        .with_data(Data::n(2))
                        .schedule_at(Utc::now() + millis(companion))
                        .enqueue_to_backend(&backend)
                        .await
                        .unwrap();
                }
                match source {
                    4 => {
                        let mut job =
                            Plain::query_jobs_on_backend(Where::id_equals(id), &backend)
                                .await
                                .unwrap()
                                .remove(0);
                        job.scheduled_at = job.scheduled_at + millis(delay);
                        due = vec![job.scheduled_at];
                        Plain::update_job_on_backend(job, &backend).await.unwrap();
                    }
                    5 => {
                        due = vec![Utc::now() + millis(2 * delay)];
                        Plain::builder()
                            .with_data(Data::n(1).backoff(delay))
                            .unique(criteria())
                            .schedule_at(due[0])
                            .enqueue_to_backend(&backend)
                            .await
                            .unwrap();
                    }
                    _ => {}
                }
                if noise {
                    // Others keep waking everybody up.
                    for _ in 0..40 {
                        world.pass(std::time::Duration::from_millis(delay as u64 / 30 + 1), std::time::Duration::from_millis(delay as u64 / 30 + 1)).await;
                        backend.notify_all().unwrap();
                    }
                }
                let left = at(2 * delay + 30_000) - Utc::now();
                tokio::time::sleep(left.to_std().unwrap()).await;
                world.settle().await;
                punctual(run, &world)?;
                let executions = world.executions();
                let list = executions.get(&id.into()).cloned().unwrap_or_default();
                if let Some(execution) = list.first() {
                    ensure!(
                        due[0] - execution.started_at <= EARLY,
                        "started {} early",
                        due[0] - execution.started_at
                    );
                }
                if matches!(source, 1..=3) && list.len() > 1 {
                    let due = list[0].ended_at.unwrap() + millis(delay);
                    ensure!(
                        due - list[1].started_at <= EARLY,
                        "started again {} early",
                        due - list[1].started_at
                    );
                }
                drop(guard);
                Ok(format!("source {source} executions {}", list.len()))
            },
        )
    });
}

/// Nothing was started too early according to the job itself.
fn punctual(run: &mut Run, world: &World) -> Result<(), Violation> {
    for event in world.events() {
        if let What::Start { exec, view } = &event.what {
            run.state_of(&(ms(event.at), ms(view.scheduled_at), view.attempt));
            ensure!(
                view.scheduled_at - event.at <= EARLY,
                "{exec} job {} started {} early",
                view.id,
                view.scheduled_at - event.at
            );
        }
    }
    Ok(())
}
