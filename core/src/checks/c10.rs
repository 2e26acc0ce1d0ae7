//! Concurrent unique enqueues never create duplicates.
use chrono::{TimeDelta, Utc};
use mc_engine::{Check, ensure};
use rexecutor::job::{
    JobStatus,
    uniqueness_criteria::{Replace, UniquenessCriteria},
};

use crate::{
    common::{enqueuable, error, frozen, millis, unique},
    model::{Op, Res},
    race::{Follow, Scene, Step},
};

const P: &str = "plain";

fn criteria(which: usize) -> UniquenessCriteria<'static> {
    match which {
        0 => UniquenessCriteria::by_key(&"key"),
        1 => UniquenessCriteria::by_executor(),
        2 => UniquenessCriteria::within(TimeDelta::hours(1)),
        3 => UniquenessCriteria::by_statuses(&JobStatus::ALL),
        4 => UniquenessCriteria::by_key(&"key")
            .and_executor()
            .and_statuses(&JobStatus::ALL),
        _ => UniquenessCriteria::by_executor()
            .and_within(TimeDelta::zero())
            .and_key(&"key")
            .and_statuses(&JobStatus::ALL),
    }
}

fn resolution(which: usize, criteria: UniquenessCriteria<'static>) -> UniquenessCriteria<'static> {
    match which {
        0 => criteria,
        1 => criteria.on_conflict(Replace::data().and_priority().for_statuses(&JobStatus::ALL)),
        2 => criteria.on_conflict(Replace::max_attempts().and_metadata()),
        _ => criteria.on_conflict(
            Replace::scheduled_at().for_statuses(&[JobStatus::Scheduled, JobStatus::Executing]),
        ),
    }
}

pub fn run(check: &mut Check) {
    let fine = check.by_tier(1, 2);
    check.assume("Threads switch only at the synchronisation operations of the in-memory backend, at starting and at finding nothing to do (sequential consistency); in the fine variants also at every allocation and reading of the clock.");
    let bound = check.by_tier(2, 3);
    let duplicates = |clients: usize| {
        move |run: &mut mc_engine::Run| {
            let _frozen = frozen();
            let _guard = _frozen.enter();
            let mut scene = Scene::new().focus(false, true);
            let which = run.choose(6);
            let how = run.choose(4);
            let mixed = run.flag();
            // An unrelated job must not be involved.
            let mut unrelated = enqueuable("plain_other", 99, Utc::now() - TimeDelta::hours(5));
            unrelated.priority = 9;
            let unrelated = match which {
                3 => None,
                _ => {
                    let Res::Id(id) = scene.setup(Op::Enqueue(unrelated))? else {
                        return Err("enqueue failed".into());
                    };
                    // Not matched by criteria which are not restricted to the executor.
                    scene.setup(Op::Complete(id))?;
                    Some(id)
                }
            };
            let mut bodies = Vec::new();
            for n in 0..clients {
                let mut job = enqueuable(P, n as i64, Utc::now());
                job.priority = n as u16 + 1;
                job.max_attempts = n as u16 + 5;
                job.metadata = serde_json::json!(format!("from {n}"));
                let how = if mixed && n > 0 { 0 } else { how };
                bodies.push(scene.client(vec![Step::Op(Op::Enqueue(unique(
                    job,
                    resolution(how, criteria(which)),
                )))]));
            }
            scene.run(run, bodies)?;
            let mut ids: Vec<i32> = scene
                .history
                .calls()
                .iter()
                .filter_map(|call| match call.res {
                    Res::Id(id) => Some(id),
                    _ => None,
                })
                .collect();
            ids.dedup();
            ensure!(
                ids.len() == 1 && Some(ids[0]) != unrelated,
                "duplicates were created: ids {ids:?}"
            );
            Ok(format!("criteria {which} resolution {how}"))
        }
    };
    check.threads("two clients", check.by_tier(4, 6), fine, duplicates(2));
    check.threads("three clients", bound, fine, duplicates(3));
    check.threads("existing job", check.by_tier(2, 4), fine, |run| {
        // Duplicates of a job that is being claimed and finished.
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let mut scene = Scene::new().focus(false, true);
        let which = run.choose(6);
        let how = run.choose(4);
        let follow = *run.pick(&[Follow::Complete, Follow::RetryNow, Follow::Keep]);
        let mut first = unique(enqueuable(P, 0, Utc::now()), criteria(which));
        first.priority = 3;
        let Res::Id(_) = scene.setup(Op::Enqueue(first))? else {
            return Err("enqueue failed".into());
        };
        let mut job = enqueuable(P, 1, Utc::now() - millis(10));
        job.priority = 7;
        job.max_attempts = 9;
        job.metadata = serde_json::json!("new");
        let bodies = vec![
            scene.worker(P, 1, follow, true),
            scene.client(vec![Step::Op(Op::Enqueue(unique(
                job,
                resolution(how, criteria(which)),
            )))]),
        ];
        scene.run(run, bodies)?;
        scene.no_lost_wakeup()?;
        Ok(format!("criteria {which} {follow:?} {}", scene.summary()))
    });
    check.threads("clients and a worker", bound, fine, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let scene = Scene::new().focus(false, true);
        let which = run.choose(6);
        let how = run.choose(4);
        let follow = *run.pick(&[Follow::Complete, Follow::Keep]);
        let mut bodies = vec![scene.worker(P, 2, follow, true)];
        for n in 0..2 {
            let mut job = enqueuable(P, n, Utc::now());
            job.priority = n as u16 + 1;
            bodies.push(scene.client(vec![Step::Op(Op::Enqueue(unique(
                job,
                resolution(how, criteria(which)),
            )))]));
        }
        scene.run(run, bodies)?;
        scene.no_lost_wakeup()?;
        Ok(format!("criteria {which} {follow:?} {}", scene.summary()))
    });
    check.threads("duplicates and other changes", bound, fine, |run| {
        // The conflicting job is changed by somebody else at the same time.
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let mut scene = Scene::new().focus(false, true);
        let which = *run.pick(&[0usize, 3, 5]);
        let how = run.choose(4);
        let Res::Id(id) =
            scene.setup(Op::Enqueue(unique(enqueuable(P, 0, Utc::now()), criteria(which))))?
        else {
            return Err("enqueue failed".into());
        };
        scene.setup_claim(P)?;
        let ops = [
            Step::Op(Op::Complete(id)),
            Step::Op(Op::Retry(id, Utc::now(), error("again"))),
            Step::Op(Op::Discard(id, error("over"))),
            Step::Op(Op::Cancel(id, error("no"))),
            Step::Op(Op::Snooze(id, Utc::now())),
            Step::Op(Op::Rerun(id)),
            Step::Edit(id, |job| job.tags = vec!["tag".to_owned()]),
            Step::Op(Op::Prune(crate::common::prune_age(JobStatus::Executing, -1))),
        ];
        let other = run.pick(&ops).clone();
        let mut job = enqueuable(P, 1, Utc::now());
        job.priority = 7;
        job.max_attempts = 9;
        let duplicate = Step::Op(Op::Enqueue(unique(job, resolution(how, criteria(which)))));
        let bodies = vec![
            scene.client(vec![other]),
            scene.client(vec![duplicate.clone()]),
            scene.client(vec![duplicate]),
        ];
        scene.run(run, bodies)?;
        Ok(format!("criteria {which} {}", scene.summary()))
    });
    check.threads("ordinary", check.by_tier(2, 3), fine, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let scene = Scene::new().focus(false, true);
        let mixed = run.flag();
        let bodies = (0..3)
            .map(|n| {
                let mut second = enqueuable(P, 10 + n, Utc::now());
                if mixed && n == 0 {
                    second = unique(second, criteria(0));
                }
                scene.client(vec![
                    Step::Op(Op::Enqueue(enqueuable(P, n, Utc::now()))),
                    Step::Op(Op::Enqueue(second)),
                ])
            })
            .collect();
        scene.run(run, bodies)?;
        let stored = crate::common::all(&scene.backend);
        ensure!(stored.len() == 6, "a job was lost: {} stored", stored.len());
        Ok(format!("{mixed}"))
    });
}
