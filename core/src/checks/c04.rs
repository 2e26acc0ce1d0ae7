//! Due jobs are handed out in schedule and priority order.
use chrono::{TimeDelta, Utc};
use mc_engine::{Check, Violation, ensure};
use rexecutor::{
    Rexecutor,
    backend::{Backend, memory::InMemoryBackend},
    executor::Executor,
    job::{JobStatus, uniqueness_criteria::{Replace, UniquenessCriteria}},
};

use crate::{
    common::{Claimer, all, enqueuable, error, freeze, frozen, get, millis, now, unique, waiting},
    executors::{Data, One},
    model::{Focus, Op, Res},
    race::{Follow, Scene, Step},
    world::{Act, Setup, What, at, simulate},
};

const P: &str = "plain";


/// Store a job of the given kind with the given schedule and priority.
fn store(backend: &InMemoryBackend, executor: &'static str, n: i64, kind: usize, scheduled: i64, priority: u16) {
    let criteria = UniquenessCriteria::by_key(&n).on_conflict(
        Replace::scheduled_at().and_priority().for_statuses(&JobStatus::ALL),
    );
    let mut job = unique(enqueuable(executor, n, at(scheduled)), criteria);
    job.priority = priority;
    let first = {
        let mut first = job.clone();
        if kind != 0 {
            // Only this job is due while it is set up.
            first.scheduled_at = at(-100_000);
        }
        if kind > 3 {
            first.priority = 7;
            first.scheduled_at = at(1_500);
        }
        now(backend.enqueue(first)).unwrap()
    };
    let mut claimer = Claimer::new(backend, executor);
    let mut claim = || assert_eq!(claimer.claim().unwrap().id, i32::from(first));
    match kind {
        0 => {}
        1 => {
            claim();
            now(backend.mark_job_retryable(first, at(scheduled), error("e"))).unwrap();
        }
        2 => {
            claim();
            now(backend.mark_job_snoozed(first, at(scheduled))).unwrap();
        }
        3 => {
            claim();
            now(backend.mark_job_complete(first)).unwrap();
            freeze(scheduled);
            now(backend.rerun_job(first)).unwrap();
            freeze(-90_000);
        }
        4 => {
            let mut job = get(backend, first).unwrap();
            job.priority = priority as i32;
            job.scheduled_at = at(scheduled);
            now(backend.update_job(job)).unwrap();
        }
        _ => assert_eq!(now(backend.enqueue(job)).unwrap(), first),
    }
}

pub fn run(check: &mut Check) {
    let fine = check.by_tier(1, 2);
    check.assume("Only jobs with equal schedule or equal priority are ordered by the property.");
    let count = check.by_tier(3, 4);
    let kinds = check.by_tier(6, 6);
    let times = [1_000, 2_000];
    check.scenario("populations", 0, move |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        freeze(-90_000);
        let backend = InMemoryBackend::new();
        let mut population = Vec::new();
        for n in 0..count {
            // The kinds vary for the first three jobs.
            let kind = if n < 3 { run.choose(kinds) } else { 0 };
            let (scheduled, priority) = (*run.pick(&times), *run.pick(&[0, 1, 256]));
            store(&backend, P, n, kind, scheduled, priority);
            population.push((kind, scheduled, priority));
        }
        // Another executor's job that would go first.
        store(&backend, "plain_other", 99, 0, 500, 0);
        run.state_of(&population);
        let before = all(&backend);
        freeze(3_000);
        let mut claimer = Claimer::new(&backend, P);
        let mut order = Vec::new();
        while let Some(job) = claimer.claim() {
            order.push(job);
            ensure!(order.len() < 10, "claims do not end");
        }
        let expected = before.iter().filter(|job| job.executor == P && waiting(job.status)).count();
        ensure!(
            order.len() == expected,
            "{} of {expected} due jobs handed out: {population:?}", order.len()
        );
        for (i, first) in order.iter().enumerate() {
            ensure!(first.executor == P, "job of another executor");
            for second in &order[i + 1..] {
                let wrong = first.scheduled_at == second.scheduled_at && first.priority > second.priority
                    || first.priority == second.priority && first.scheduled_at > second.scheduled_at;
                ensure!(
                    !wrong,
                    "job {} (priority {}) handed out before job {} (priority {}): {population:?}",
                    first.id, first.priority, second.id, second.priority
                );
            }
        }
        Ok(format!("{} jobs", order.len()))
    });
    check.scenario("close", 0, |run| {
        // Schedules and priorities which hardly differ, or differ a lot.
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let backend = InMemoryBackend::new();
        let base = at(0) - *run.pick(&[
            TimeDelta::days(500),
            TimeDelta::days(500) + TimeDelta::nanoseconds(1),
            TimeDelta::days(500) + TimeDelta::milliseconds(1),
            TimeDelta::hours(500 * 24 - 12),
        ]);
        let shapes = [
            (TimeDelta::zero(), [0, 1]),
            (TimeDelta::zero(), [1, 256]),
            (TimeDelta::zero(), [255, 256]),
            (TimeDelta::zero(), [1, 32_768]),
            (TimeDelta::zero(), [32_767, 65_535]),
            (TimeDelta::zero(), [65_534, 65_535]),
            (TimeDelta::nanoseconds(1), [3, 3]),
            (TimeDelta::microseconds(1), [3, 3]),
            (TimeDelta::milliseconds(1), [3, 3]),
            (TimeDelta::milliseconds(999), [3, 3]),
            (TimeDelta::seconds(1), [3, 3]),
            (TimeDelta::seconds(59), [3, 3]),
            (TimeDelta::minutes(59), [3, 3]),
            (TimeDelta::hours(23), [3, 3]),
            (TimeDelta::days(300), [3, 3]),
            (TimeDelta::days(499), [3, 3]),
        ];
        let (later, priorities) = *run.pick(&shapes);
        let swapped = run.flag();
        let mut jobs = [(base, priorities[0]), (base + later, priorities[1])];
        if swapped {
            jobs.swap(0, 1);
        }
        for (n, (scheduled_at, priority)) in jobs.into_iter().enumerate() {
            let mut job = enqueuable(P, n as i64, scheduled_at);
            job.priority = priority;
            now(backend.enqueue(job)).unwrap();
        }
        freeze(0);
        let mut claimer = Claimer::new(&backend, P);
        let order = [claimer.claim(), claimer.claim()].map(|job| job.map(|job| job.data["n"].as_i64()));
        run.state_of(&(base.to_string(), later, priorities, swapped));
        let expected = if swapped { [1, 0] } else { [0, 1] }.map(|n| Some(Some(n)));
        ensure!(
            order == expected,
            "jobs {later} and {priorities:?} apart handed out as {order:?} instead of {expected:?}"
        );
        Ok("in order".to_owned())
    });
    check.scenario("changing", 0, |run| {
        // Jobs arrive and change while others are handed out.
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let backend = InMemoryBackend::new();
        let mut claimer = Claimer::new(&backend, P);
        let mut history = Vec::new();
        let priorities = [0, 1, 2];
        let offsets = [-2_000, -1_000];
        for n in 0..2 {
            let (at, priority) = (*run.pick(&offsets), *run.pick(&priorities));
            store(&backend, P, n, 0, at, priority);
        }
        freeze(0);
        for n in 2..4 {
            match run.choose(4) {
                0 => {
                    let (at, priority) = (*run.pick(&offsets), *run.pick(&priorities));
                    store(&backend, P, n, 0, at, priority);
                    history.push("enqueue".to_owned());
                }
                1 => {
                    // Change the priority of the oldest waiting job.
                    let priority = *run.pick(&priorities);
                    if let Some(mut job) = all(&backend).into_iter().find(|job| waiting(job.status)) {
                        job.priority = priority as i32;
                        now(backend.update_job(job)).unwrap();
                    }
                    history.push(format!("priority {priority}"));
                }
                2 => {
                    let at_ = *run.pick(&offsets);
                    if let Some(mut job) = all(&backend).into_iter().rfind(|job| waiting(job.status)) {
                        job.scheduled_at = at(at_);
                        now(backend.update_job(job)).unwrap();
                    }
                    history.push(format!("move {at_}"));
                }
                _ => {
                    // An executing job fails.
                    if let Some(job) = all(&backend).into_iter().find(|job| job.status == JobStatus::Executing) {
                        now(backend.mark_job_retryable(job.id.into(), at(*run.pick(&offsets)), error("e"))).unwrap();
                    }
                    history.push("fail".to_owned());
                }
            }
            let before = all(&backend);
            if let Some(job) = claimer.claim() {
                let chosen = before.iter().find(|stored| stored.id == job.id).unwrap();
                for other in before.iter().filter(|other| waiting(other.status)) {
                    ensure!(
                        !(other.scheduled_at == chosen.scheduled_at && other.priority < chosen.priority
                            || other.priority == chosen.priority && other.scheduled_at < chosen.scheduled_at),
                        "job {} handed out before job {} after {history:?}", chosen.id, other.id
                    );
                }
                run.state_of(&(job.id, job.priority, job.attempt));
            }
        }
        Ok(history.join(","))
    });
    // Workers at the same time, while others add and change jobs.
    check.threads("threads", check.by_tier(2, 3), fine, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let mut scene = Scene::new();
        scene.initial.focus = Focus { order: true, early: true, content: false };
        let mut ids = Vec::new();
        let mut add = |scene: &mut Scene, n: i64, offset: i64, priority: u16| {
            let mut job = enqueuable(P, n, Utc::now() + TimeDelta::milliseconds(offset));
            job.priority = priority;
            match scene.setup(Op::Enqueue(job))? {
                Res::Id(id) => ids.push(id),
                other => return Err(Violation::from(format!("enqueue failed: {other:?}"))),
            }
            Ok(())
        };
        let shapes = [(-2_000, 1), (-1_000, 1), (-1_000, 0)];
        for n in 0..2 {
            let (offset, priority) = *run.pick(&shapes);
            add(&mut scene, n, offset, priority)?;
        }
        let mut urgent = enqueuable(P, 5, Utc::now() - TimeDelta::milliseconds(1_000));
        let change = *run.pick(&["first", "last", "lower", "raise", "earlier", "later"]);
        let id = ids[0];
        let steps = match change {
            "first" => vec![Step::Op(Op::Enqueue(urgent))],
            "last" => {
                urgent.priority = 9;
                vec![Step::Op(Op::Enqueue(urgent))]
            }
            "lower" => vec![Step::Edit(id, |job| job.priority = 0)],
            "raise" => vec![Step::Edit(id, |job| job.priority = 7)],
            "earlier" => vec![Step::Edit(id, |job| job.scheduled_at = Utc::now() - TimeDelta::milliseconds(3_000))],
            _ => vec![Step::Edit(id, |job| job.scheduled_at = Utc::now() - TimeDelta::milliseconds(500))],
        };
        let bodies = vec![
            scene.worker(P, 2, Follow::Complete, true),
            scene.client(steps),
            scene.worker(P, 2, Follow::Complete, true),
        ];
        scene.run(run, bodies)?;
        Ok(format!("{change} {}", scene.delivered.lock().unwrap().len()))
    });
    check.scenario("worker", 0, |run| {
        // A worker with one slot executes everything in order.
        let mut population = Vec::new();
        for _ in 0..3 {
            population.push((*run.pick(&[0i64, 30, 60]), *run.pick(&[0u16, 1, 2])));
        }
        let slow = run.flag();
        let again = run.flag();
        let used = std::sync::Mutex::new(std::collections::HashSet::new());
        simulate(
            Setup::new(&[]),
            move |_, view| {
                let n = view.data["n"].as_i64().unwrap();
                if n == 0 {
                    // Everything becomes due during the first job.
                    return Act::Sleep(5_000, Box::new(Act::Done));
                }
                if again && n == 1 && used.lock().unwrap().insert(n) {
                    return Act::Fail("again".to_owned());
                }
                if slow { Act::Sleep(70, Box::new(Act::Done)) } else { Act::Done }
            },
            async |world| {
                let backend = InMemoryBackend::new();
                let guard = Rexecutor::new(backend.clone()).with_executor::<One>().drop_guard();
                One::builder().with_data(Data::n(0)).enqueue_to_backend(&backend).await.unwrap();
                world.settle().await;
                for (n, (offset, priority)) in population.iter().enumerate() {
                    One::builder()
                        .with_data(Data::n(n as i64 + 1).backoff(-3_000))
                        .schedule_at(at(1_000 + offset))
                        .with_priority(*priority)
                        .enqueue_to_backend(&backend)
                        .await
                        .unwrap();
                }
                tokio::time::sleep(std::time::Duration::from_secs(8)).await;
                world.settle().await;
                let starts: Vec<_> = world
                    .events()
                    .into_iter()
                    .filter_map(|event| match event.what {
                        What::Start { view, .. } => Some(view),
                        _ => None,
                    })
                    .skip(1)
                    .collect();
                ensure!(
                    starts.len() == 3 + again as usize,
                    "{} executions of {population:?}", starts.len()
                );
                for (i, first) in starts.iter().enumerate() {
                    for second in &starts[i + 1..] {
                        if second.attempt > 1 {
                            continue; // was not waiting yet
                        }
                        ensure!(
                            !(first.scheduled_at == second.scheduled_at && first.priority > second.priority
                                || first.priority == second.priority && first.scheduled_at > second.scheduled_at),
                            "job {} before job {}: {population:?}", first.id, second.id
                        );
                    }
                }
                run.state_of(&starts.iter().map(|s| (s.id, s.attempt)).collect::<Vec<_>>());
                let _ = Utc::now();
                let _ = millis(0);
                drop(guard);
                Ok(format!("{} executions", starts.len()))
            },
        )
    });
}
