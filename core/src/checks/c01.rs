//! Each attempt of a job is handed to exactly one worker.
use std::time::Duration;

use chrono::{TimeDelta, Utc};
use mc_engine::{Check, ensure};
use rexecutor::{
    Rexecutor,
    backend::memory::InMemoryBackend,
    executor::Executor,
    job::{JobStatus, uniqueness_criteria::{Replace, UniquenessCriteria}},
};

use crate::{
    common::{enqueuable, error, frozen, millis, prune_age, unique},
    executors::{Data, Plain},
    model::{Op, Res},
    race::{Follow, Scene, Step},
    world::{Act, Drive, Gated, Kind, Release, Setup, at, drive, simulate},
};

const P: &str = "plain";
const REPLACE_ALL: Replace<'static> = Replace::data()
    .and_priority()
    .and_metadata()
    .and_max_attempts()
    .and_scheduled_at()
    .for_statuses(&JobStatus::ALL);

/// No attempt is handed out twice, unless it was snoozed or updated in between.
fn exclusive(scene: &Scene, snoozing: bool) -> Result<(), mc_engine::Violation> {
    let delivered = scene.delivered.lock().unwrap();
    for (i, (a, first)) in delivered.iter().enumerate() {
        for (b, second) in &delivered[i + 1..] {
            ensure!(
                snoozing || first.id != second.id || first.attempt != second.attempt,
                "attempt delivered twice: attempt {} of job {} to t{a} and t{b}",
                first.attempt,
                first.id
            );
        }
    }
    Ok(())
}

pub fn run(check: &mut Check) {
    let fine = check.by_tier(1, 2);
    check.assume("Threads switch only at the synchronisation operations of the in-memory backend, at starting and at finding nothing to do (sequential consistency); in the fine variants also at every allocation and reading of the clock.");
    let bound = check.by_tier(3, 5);
    check.threads("threads/claims", bound, fine, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let mut scene = Scene::new().focus(false, false);
        let jobs = 1 + run.choose(2);
        let follow = *run.pick(&[
            Follow::Keep,
            Follow::Complete,
            Follow::RetryNow,
            Follow::SnoozeNow,
            Follow::Discard,
            Follow::Cancel,
        ]);
        let subscribed = run.flag();
        for n in 0..jobs {
            scene.setup(Op::Enqueue(enqueuable(P, n as i64, Utc::now())))?;
        }
        let bodies = vec![
            scene.worker(P, 2, follow, subscribed),
            scene.worker(P, 2, follow, true),
        ];
        scene.run(run, bodies)?;
        exclusive(&scene, follow == Follow::SnoozeNow)?;
        scene.no_lost_wakeup()?;
        Ok(format!("{follow:?} {}", scene.summary()))
    });
    if check.thorough() {
        check.threads("threads/three workers", 3, fine, |run| {
            let _frozen = frozen();
            let _guard = _frozen.enter();
            let mut scene = Scene::new().focus(false, false);
            let follow = *run.pick(&[Follow::Keep, Follow::Complete, Follow::RetryNow]);
            for n in 0..2 {
                scene.setup(Op::Enqueue(enqueuable(P, n, Utc::now())))?;
            }
            let bodies = (0..3).map(|_| scene.worker(P, 2, follow, true)).collect();
            scene.run(run, bodies)?;
            exclusive(&scene, false)?;
            Ok(format!("{follow:?} {}", scene.summary()))
        });
    }
    let bound = check.by_tier(2, 3);
    check.threads("threads/claims and clients", bound, fine, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let mut scene = Scene::new().focus(false, false);
        let criteria = UniquenessCriteria::by_executor().and_statuses(&JobStatus::ALL);
        let follow = *run.pick(&[Follow::Keep, Follow::Complete, Follow::RetryNow]);
        let Res::Id(id) = scene.setup(Op::Enqueue(enqueuable(P, 1, Utc::now())))? else {
            return Err("enqueue failed".into());
        };
        let steps: Vec<Vec<Step>> = vec![
            vec![Step::Op(Op::Enqueue(enqueuable(P, 2, Utc::now())))],
            vec![Step::Op(Op::Enqueue(unique(
                enqueuable(P, 2, Utc::now()),
                criteria.clone(),
            )))],
            vec![Step::Op(Op::Enqueue(unique(
                enqueuable(P, 2, Utc::now()),
                criteria.clone().on_conflict(REPLACE_ALL),
            )))],
            vec![Step::Op(Op::Enqueue(unique(
                enqueuable(P, 2, Utc::now()),
                UniquenessCriteria::by_key(&1).on_conflict(REPLACE_ALL),
            )))],
            vec![Step::Edit(id, |job| job.priority = 7)],
            vec![Step::Edit(id, |job| job.scheduled_at = Utc::now() - millis(5000))],
            vec![Step::Op(Op::Prune(prune_age(JobStatus::Complete, -1000)))],
            vec![Step::Op(Op::Prune(prune_age(JobStatus::Executing, -1000)))],
            vec![Step::Op(Op::Prune(prune_age(JobStatus::Scheduled, -1000)))],
            vec![Step::Op(Op::Cancel(id, error("cancelled")))],
            vec![Step::NotifyAll, Step::NotifyAll],
        ];
        let steps = run.pick(&steps).clone();
        let bodies = vec![
            scene.worker(P, 2, follow, true),
            scene.client(steps),
            scene.worker(P, 2, follow, true),
        ];
        scene.run(run, bodies)?;
        exclusive(&scene, false)?;
        Ok(format!("{follow:?} {}", scene.summary()))
    });
    check.threads("threads/explicitly rescheduled", bound, fine, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let mut scene = Scene::new().focus(false, false);
        let Res::Id(id) = scene.setup(Op::Enqueue(enqueuable(P, 1, Utc::now())))? else {
            return Err("enqueue failed".into());
        };
        scene.setup_claim(P)?;
        let op = match run.choose(4) {
            0 => Op::Retry(id, Utc::now(), error("again")),
            1 => Op::Snooze(id, Utc::now()),
            2 => {
                scene.setup(Op::Complete(id))?;
                Op::Rerun(id)
            }
            _ => {
                scene.setup(Op::Discard(id, error("no")))?;
                Op::Rerun(id)
            }
        };
        let bodies = vec![
            scene.worker(P, 2, Follow::Keep, true),
            scene.worker(P, 2, Follow::Keep, true),
            scene.client(vec![Step::Op(op.clone())]),
        ];
        scene.run(run, bodies)?;
        exclusive(&scene, false)?;
        let delivered = scene.delivered.lock().unwrap().len();
        ensure!(
            delivered == 1,
            "rescheduled once: delivered {delivered} times after {}",
            op.brief()
        );
        Ok(format!("{} {delivered}", op.brief()))
    });

    // Real workers, everything they do is ordered by the explorer.
    let bound = check.by_tier(3, 5);
    check.scenario("workers", bound, |run| {
        simulate(
            Setup::new(&[Kind::Claim, Kind::Record, Kind::Body]),
            |_, _| Act::Done,
            async |world| {
                let backend = InMemoryBackend::new();
                let workers: Vec<_> = ["a", "b"]
                    .iter()
                    .map(|name| {
                        Rexecutor::new(Gated::new(&backend, &world, name))
                            .with_executor::<Plain>()
                            .drop_guard()
                    })
                    .collect();
                let jobs = 1 + run.choose(2);
                for n in 0..jobs {
                    Plain::builder()
                        .with_data(Data::n(n as i64))
                        .with_max_attempts(2)
                        .enqueue_to_backend(&backend)
                        .await
                        .unwrap();
                }
                let mut acts = 0;
                drive(
                    run,
                    &world,
                    &backend,
                    Drive {
                        horizon: at(1000),
                        free: false,
                        stall: None,
                        max_steps: 200,
                        decide: &mut |run, ticket| {
                            if ticket.kind != Kind::Body {
                                return Release::Go;
                            }
                            acts += 1;
                            if acts > 2 {
                                return Release::Act(Act::Done);
                            }
                            Release::Act(match run.choose(3) {
                                0 => Act::Done,
                                1 => Act::Fail("failed".to_owned()),
                                _ => Act::Snooze(TimeDelta::zero()),
                            })
                        },
                        observe: &mut |_| Ok(()),
                    },
                )
                .await?;
                drop(workers);
                let executions = world.executions();
                for (id, list) in &executions {
                    for pair in list.windows(2) {
                        let (first, second) = (&pair[0], &pair[1]);
                        ensure!(
                            first.end.is_some_and(|end| end < second.start),
                            "two executions of one job at once: job {id}"
                        );
                        ensure!(
                            first.attempt != second.attempt || first.act.starts_with("Snooze"),
                            "attempt delivered twice: attempt {} of job {id}",
                            first.attempt
                        );
                        ensure!(
                            !first.act.starts_with("Done"),
                            "completed job executed again: job {id}"
                        );
                    }
                }
                let total: usize = executions.values().map(Vec::len).sum();
                Ok(format!("{jobs} jobs {total} executions"))
            },
        )
    });
    let _ = Duration::ZERO;
}
