//! The in-memory backend follows its job life-cycle contract.
use chrono::{TimeDelta, Utc};
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    backend::{BackendError, ExecutionError, Job},
    executor::Executor,
    job::{
        ErrorType, JobStatus,
        query::Where,
        uniqueness_criteria::{Replace, UniquenessCriteria},
    },
    pruner::{PruneBy, PruneSpec, Spec},
};

use crate::{
    common::{all, enqueuable, error, freeze, frozen, millis, now, unique},
    executors::{Data, Plain},
    model::{Both, Op, Res},
    race::{Follow, Scene, Step},
    world::brief,
};

const P: &str = "plain";

/// One thing to do next.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Enqueue(usize),
    Claim(&'static str),
    Complete(i32),
    Retry(i32),
    Discard(i32),
    Cancel(i32),
    CancelByApi(i32),
    Snooze(i32),
    Rerun(i32),
    RerunByApi(i32),
    Update(i32),
    UpdateByApi(i32),
    /// With the job as it was when it was enqueued.
    UpdateStale(i32),
    Prune(usize),
}

fn finished(status: JobStatus) -> bool {
    matches!(
        status,
        JobStatus::Complete | JobStatus::Cancelled | JobStatus::Discarded
    )
}

fn options(both: &Both, kinds: &[&str], most: usize) -> Vec<Do> {
    let mut options = Vec::new();
    let allowed = |kind: &str| kinds.is_empty() || kinds.contains(&kind);
    if allowed("enqueue") {
        if both.model.jobs.len() < most {
            options.extend([Do::Enqueue(0), Do::Enqueue(1), Do::Enqueue(2)]);
        }
        // Finds an existing job.
        options.extend([Do::Enqueue(3), Do::Enqueue(4)]);
    }
    if allowed("claim") {
        options.push(Do::Claim(P));
        if both.model.jobs.values().any(|e| e.job.executor == "plain_other") {
            options.push(Do::Claim("plain_other"));
        }
    }
    for (id, entry) in &both.model.jobs {
        let (id, status) = (*id, entry.job.status);
        for (kind, action) in [
            ("complete", Do::Complete(id)),
            ("retry", Do::Retry(id)),
            ("discard", Do::Discard(id)),
            ("cancel", Do::Cancel(id)),
            ("api", Do::CancelByApi(id)),
            ("update", Do::Update(id)),
            ("update", Do::UpdateStale(id)),
        ] {
            if allowed(kind) {
                options.push(action);
            }
        }
        if allowed("api") && entry.job.executor == P {
            options.push(Do::UpdateByApi(id));
        }
        // Only what is running can be snoozed, only what is over can be run again.
        if allowed("snooze") && status == JobStatus::Executing {
            options.push(Do::Snooze(id));
        }
        if finished(status) {
            if allowed("rerun") {
                options.push(Do::Rerun(id));
            }
            if allowed("api") {
                options.push(Do::RerunByApi(id));
            }
        }
    }
    if allowed("prune") {
        options.extend([Do::Prune(0), Do::Prune(1)]);
    }
    options
}

fn result(value: Result<(), rexecutor::RexecutorError>) -> Res {
    match value {
        Ok(()) => Res::Done,
        Err(rexecutor::RexecutorError::BackendError(BackendError::JobNotFound(id))) => {
            Res::NotFound(id.into())
        }
        Err(error) => Res::Failed(format!("{error:?}")),
    }
}

struct Life {
    both: Both,
    stale: Vec<Job>,
    gone: Vec<i32>,
}

impl Life {
    fn new() -> Self {
        Self {
            both: Both::new(),
            stale: Vec::new(),
            gone: Vec::new(),
        }
    }

    fn step(&mut self, action: Do, round: i64) -> Result<(), Violation> {
        let at = Utc::now();
        let later = at + millis(250 + round);
        let problem = |name: &str| error(&format!("{name} {round}"));
        let op = match action {
            Do::Enqueue(which) => {
                let mut job = enqueuable(
                    if which == 1 { "plain_other" } else { P },
                    round,
                    if which == 2 { at + millis(1_500) } else { at },
                );
                job.priority = 10 - round as u16;
                job.tags = vec![format!("tag {round}")];
                job.metadata = serde_json::json!(format!("metadata {round}"));
                match which {
                    3 => {
                        job = unique(
                            job,
                            UniquenessCriteria::by_executor()
                                .and_statuses(&JobStatus::ALL)
                                .on_conflict(Replace::priority().and_data().for_statuses(&[
                                    JobStatus::Executing,
                                    JobStatus::Complete,
                                ])),
                        )
                    }
                    4 => {
                        job = unique(
                            job,
                            UniquenessCriteria::by_statuses(&[JobStatus::Retryable])
                                .and_key(&"key")
                                .on_conflict(Replace::scheduled_at()),
                        )
                    }
                    _ => {}
                }
                let res = self.both.op(Op::Enqueue(job))?;
                let Res::Id(id) = res else {
                    return Err(format!("enqueue failed: {res:?}").into());
                };
                let job = self.both.model.jobs[&id].job.clone();
                if self.stale.iter().all(|job| job.id != id) {
                    self.stale.push(job);
                }
                return Ok(());
            }
            Do::Claim(executor) => {
                let due = self.both.model.jobs.values().any(|entry| {
                    entry.job.executor == executor
                        && crate::common::waiting(entry.job.status)
                        && entry.job.scheduled_at <= at
                });
                let job = self.both.claim(executor)?;
                ensure!(!due || job.is_some(), "a due job was not handed out");
                return Ok(());
            }
            Do::Complete(id) => Op::Complete(id),
            Do::Retry(id) => Op::Retry(id, later, problem("retry")),
            Do::Discard(id) => Op::Discard(id, problem("discard")),
            Do::Cancel(id) => Op::Cancel(id, problem("cancel")),
            Do::CancelByApi(id) => {
                let reason = Box::new(format!("because {round}"));
                let res = result(now(Plain::cancel_job_on_backend(
                    id.into(),
                    reason,
                    &self.both.backend,
                )));
                let error = ExecutionError {
                    error_type: ErrorType::Cancelled,
                    message: format!("because {round}"),
                };
                self.both.model.step(&Op::Cancel(id, error), &res, at)?;
                return Ok(());
            }
            Do::Snooze(id) => Op::Snooze(id, later),
            Do::Rerun(id) => Op::Rerun(id),
            Do::RerunByApi(id) => {
                let res = result(now(Plain::rerun_job_on_backend(
                    id.into(),
                    &self.both.backend,
                )));
                self.both.model.step(&Op::Rerun(id), &res, at)?;
                return Ok(());
            }
            Do::Update(id) => {
                let mut job = self.both.model.jobs[&id].job.clone();
                job.data = Data::n(100 + round).json();
                job.metadata = serde_json::Value::Null;
                job.tags.push(format!("updated {round}"));
                if round % 2 == 0 {
                    job.max_attempts += 2;
                    job.priority += 1;
                    job.scheduled_at = later;
                } else {
                    // Less than what has been used.
                    job.max_attempts = 0;
                    job.priority = 0;
                    job.scheduled_at -= millis(1_500);
                    // What can not be updated.
                    job.attempt += 5;
                    job.attempted_at = Some(later);
                    job.completed_at = Some(later);
                    job.inserted_at = later;
                    let more = job.errors.last().cloned();
                    job.errors.extend(more);
                    job.status = JobStatus::Cancelled;
                }
                Op::Update(job)
            }
            Do::UpdateStale(id) => {
                let mut job = self
                    .stale
                    .iter()
                    .find(|job| job.id == id)
                    .cloned()
                    .unwrap_or_else(|| self.both.model.jobs[&id].job.clone());
                job.priority = 77;
                Op::Update(job)
            }
            Do::UpdateByApi(id) => {
                let mut jobs = now(Plain::query_jobs_on_backend(
                    Where::id_equals(id.into()),
                    &self.both.backend,
                ))
                .map_err(|error| format!("query failed: {error}"))?;
                ensure!(jobs.len() == 1, "job {id} was not found");
                let mut job = jobs.remove(0);
                let mut raw = self.both.model.jobs[&id].job.clone();
                job.data = Data::n(200 + round);
                job.metadata = Some(format!("updated {round}"));
                job.priority = 3;
                job.tags = vec!["t".to_owned()];
                job.max_attempts = [9, 1][round as usize % 2];
                raw.data = Data::n(200 + round).json();
                raw.metadata = serde_json::json!(format!("updated {round}"));
                raw.priority = 3;
                raw.tags = vec!["t".to_owned()];
                raw.max_attempts = [9, 1][round as usize % 2];
                let res = result(now(Plain::update_job_on_backend(job, &self.both.backend)));
                self.both.model.step(&Op::Update(raw), &res, at)?;
                return Ok(());
            }
            Do::Prune(which) => {
                let spec = PruneSpec {
                    status: [JobStatus::Complete, JobStatus::Discarded][which],
                    prune_by: [PruneBy::MaxLength(0), PruneBy::MaxAge(TimeDelta::zero())][which],
                    executors: Spec::Except(vec!["plain_other"]),
                };
                let before: Vec<i32> = self.both.model.jobs.keys().copied().collect();
                self.both.op(Op::Prune(spec))?;
                let left = &self.both.model.jobs;
                self.gone
                    .extend(before.into_iter().filter(|id| !left.contains_key(id)));
                return Ok(());
            }
        };
        self.both.op(op)?;
        Ok(())
    }

    /// Nothing happens for jobs that do not exist.
    fn unknown(&mut self) -> Result<(), Violation> {
        let at = Utc::now();
        let mut ids = self.gone.clone();
        ids.extend([-1, 777, i32::MAX]);
        for id in ids {
            let mut job = Op::Update(Job {
                id,
                ..self.stale.first().cloned().unwrap_or_else(template)
            });
            if self.both.model.jobs.contains_key(&id) {
                continue;
            }
            for op in [
                Op::Complete(id),
                Op::Retry(id, at, error("e")),
                Op::Discard(id, error("e")),
                Op::Cancel(id, error("e")),
                Op::Snooze(id, at),
                Op::Rerun(id),
                std::mem::replace(&mut job, Op::Rerun(id)),
            ] {
                self.both.op(op)?;
            }
        }
        self.both.compare()?;
        Ok(())
    }
}

fn template() -> Job {
    let backend = rexecutor::backend::memory::InMemoryBackend::new();
    Op::Enqueue(enqueuable(P, 0, Utc::now())).perform(&backend);
    all(&backend).remove(0)
}

fn sequence(
    run: &mut Run,
    kinds: &[&str],
    prefix: &[Do],
    depth: usize,
    most: usize,
) -> mc_engine::explore::Outcome {
    let _frozen = frozen();
    let _guard = _frozen.enter();
    let mut life = Life::new();
    let mut round = 0;
    for step in 0..prefix.len() + depth {
        round += 1;
        freeze(round * 1_000);
        let action = match prefix.get(step) {
            Some(action) => *action,
            None => {
                let options = options(&life.both, kinds, most);
                *run.pick(&options)
            }
        };
        run.note(|| format!("{action:?}"));
        life.step(action, round)
            .map_err(|violation| Violation::new(kind(&action), violation.message))?;
        life.both
            .compare()
            .map_err(|message| Violation::new(kind(&action), message))?;
        run.state_of(
            &life
                .both
                .model
                .jobs
                .values()
                .map(|entry| format!("{} {:?}", brief(&entry.job), entry.job.data))
                .collect::<Vec<_>>(),
        );
    }
    life.unknown()
        .map_err(|violation| Violation::new("unknown id", violation.message))?;
    run.note(|| format!("{:?}", all(&life.both.backend).iter().map(brief).collect::<Vec<_>>()));
    Ok(format!("{} jobs", life.both.model.jobs.len()))
}

fn kind(action: &Do) -> String {
    format!("{action:?}").split('(').next().unwrap().to_owned()
}

pub fn run(check: &mut Check) {
    let fine = check.by_tier(1, 2);
    check.assume("Only running jobs are snoozed and only finished jobs are rerun; completing, retrying, discarding, cancelling and updating happens in any status.");
    let depth = check.by_tier(5, 6);
    check.scenario("everything", 0, |run| {
        sequence(run, &[], &[], depth, 2)
    });
    let depth = check.by_tier(4, 5);
    check.scenario("from two jobs", 0, |run| {
        let prefix = [Do::Enqueue(0), Do::Enqueue(0), Do::Claim(P)];
        sequence(run, &[], &prefix, depth, 3)
    });
    let depth = check.by_tier(7, 9);
    check.scenario("one job", 0, |run| {
        let kinds = [
            "claim", "complete", "retry", "discard", "cancel", "snooze", "rerun",
        ];
        sequence(run, &kinds, &[Do::Enqueue(0)], depth, 1)
    });
    let depth = check.by_tier(11, 14);
    check.scenario("long lives", 0, |run| {
        let kinds = ["claim", "retry", "snooze", "rerun"];
        sequence(run, &kinds, &[Do::Enqueue(0), Do::Claim(P)], depth, 1)
    });
    // Several threads at once.
    let bound = check.by_tier(2, 3);
    check.threads("threads", bound, fine, |run| {
        let _frozen = frozen();
        freeze(10_000);
        let _guard = _frozen.enter();
        let mut scene = Scene::new().focus(false, true);
        for n in 0..2 {
            scene.setup(Op::Enqueue(enqueuable(P, n, Utc::now() - millis(100 * n))))?;
        }
        // Both are running.
        let mut jobs = Vec::new();
        for _ in 0..2 {
            jobs.push(scene.setup_claim(P)?);
        }
        let first = jobs[0].id;
        let second = jobs[1].id;
        let action = |which: usize, id: i32| match which {
            0 => Step::Op(Op::Complete(id)),
            1 => Step::Op(Op::Retry(id, Utc::now(), error("retry"))),
            2 => Step::Op(Op::Cancel(id, error("cancel"))),
            3 => Step::Op(Op::Discard(id, error("discard"))),
            _ => Step::Edit(id, |job| job.priority += 5),
        };
        let (a, b) = (run.choose(5), run.choose(5));
        let target = *run.pick(&[first, second]);
        let third = run.choose(4);
        let mut bodies = vec![
            scene.client(vec![action(a, first)]),
            scene.client(vec![action(b, target), action(4, second)]),
        ];
        match third {
            1 => bodies.push(scene.worker(P, 1, Follow::Complete, false)),
            2 => bodies.push(scene.client(vec![action(1, second)])),
            3 => bodies.push(scene.client(vec![Step::Op(Op::Prune(crate::common::prune_length(
                JobStatus::Complete,
                0,
            )))])),
            _ => {}
        }
        scene.run(run, bodies)?;
        Ok(scene.summary())
    });
}
