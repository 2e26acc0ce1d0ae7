//! A reference model of a backend, independent of the implementation, and a checker that decides
//! whether a concurrent history is explained by some sequential order of its operations.
use std::collections::{BTreeMap, BTreeSet};

use chrono::{DateTime, TimeDelta, Utc};
use rexecutor::{
    backend::{Backend, BackendError, EnqueuableJob, ExecutionError, Job, memory::InMemoryBackend},
    job::{
        JobError, JobId, JobStatus,
        uniqueness_criteria::{Resolution, UniquenessCriteria},
    },
    pruner::{PruneBy, PruneSpec, Spec},
};

use crate::common::{now, waiting};

#[derive(Clone, Debug)]
pub enum Op {
    Enqueue(EnqueuableJob<'static>),
    Complete(i32),
    Retry(i32, DateTime<Utc>, ExecutionError),
    Discard(i32, ExecutionError),
    Cancel(i32, ExecutionError),
    Snooze(i32, DateTime<Utc>),
    Rerun(i32),
    Update(Job),
    Prune(PruneSpec),
    /// A job was handed out.
    Claim(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Id(i32),
    Done,
    NotFound(i32),
    Job(Box<Job>),
    Failed(String),
}

impl From<Result<(), BackendError>> for Res {
    fn from(value: Result<(), BackendError>) -> Self {
        match value {
            Ok(()) => Res::Done,
            Err(BackendError::JobNotFound(id)) => Res::NotFound(id.into()),
            Err(error) => Res::Failed(format!("{error:?}")),
        }
    }
}

impl Op {
    pub fn target(&self) -> Option<i32> {
        match self {
            Op::Complete(id)
            | Op::Retry(id, ..)
            | Op::Discard(id, _)
            | Op::Cancel(id, _)
            | Op::Snooze(id, _)
            | Op::Rerun(id) => Some(*id),
            Op::Update(job) => Some(job.id),
            _ => None,
        }
    }

    /// Perform the operation (other than a claim) on the implementation.
    pub fn perform(&self, backend: &InMemoryBackend) -> Res {
        let id = |id: &i32| JobId::from(*id);
        match self {
            Op::Enqueue(job) => match now(backend.enqueue(job.clone())) {
                Ok(id) => Res::Id(id.into()),
                Err(error) => Res::Failed(format!("{error:?}")),
            },
            Op::Complete(i) => now(backend.mark_job_complete(id(i))).into(),
            Op::Retry(i, at, error) => {
                now(backend.mark_job_retryable(id(i), *at, error.clone())).into()
            }
            Op::Discard(i, error) => now(backend.mark_job_discarded(id(i), error.clone())).into(),
            Op::Cancel(i, error) => now(backend.mark_job_cancelled(id(i), error.clone())).into(),
            Op::Snooze(i, at) => now(backend.mark_job_snoozed(id(i), *at)).into(),
            Op::Rerun(i) => now(backend.rerun_job(id(i))).into(),
            Op::Update(job) => now(backend.update_job(job.clone())).into(),
            Op::Prune(spec) => now(backend.prune_jobs(spec)).into(),
            Op::Claim(_) => unreachable!("claims go through a stream"),
        }
    }

    pub fn brief(&self) -> String {
        match self {
            Op::Enqueue(job) => format!(
                "enqueue {} {}{}",
                job.executor,
                job.data,
                if job.uniqueness_criteria.is_some() {
                    " unique"
                } else {
                    ""
                }
            ),
            Op::Complete(id) => format!("complete {id}"),
            Op::Retry(id, ..) => format!("retry {id}"),
            Op::Discard(id, _) => format!("discard {id}"),
            Op::Cancel(id, _) => format!("cancel {id}"),
            Op::Snooze(id, _) => format!("snooze {id}"),
            Op::Rerun(id) => format!("rerun {id}"),
            Op::Update(job) => format!("update {}", job.id),
            Op::Prune(spec) => format!("prune {:?} {:?}", spec.status, spec.prune_by),
            Op::Claim(executor) => format!("claim {executor}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub job: Job,
    pub key: Option<i64>,
}

/// What is compared besides the results of operations and who is handed which attempt.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Focus {
    /// The order in which jobs are handed out.
    pub order: bool,
    /// Jobs are not handed out too early.
    pub early: bool,
    /// The details of the jobs.
    pub content: bool,
}

impl Default for Focus {
    fn default() -> Self {
        Self {
            order: true,
            early: true,
            content: true,
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub jobs: BTreeMap<i32, Entry>,
    pub used: BTreeSet<i32>,
    pub focus: Focus,
    /// Schedules are compared as PostgreSQL does it.
    pub postgres: bool,
}

/// Whether the stored job satisfies all the criteria.
pub fn conflicts(
    criteria: &UniquenessCriteria<'_>,
    new: &EnqueuableJob<'_>,
    stored: &Entry,
    at: DateTime<Utc>,
    postgres: bool,
) -> bool {
    if let Some(key) = criteria.key
        && stored.key != Some(key)
    {
        return false;
    }
    if criteria.executor && stored.job.executor != new.executor {
        return false;
    }
    if !criteria.statuses.contains(&stored.job.status) {
        return false;
    }
    match criteria.duration {
        None => true,
        Some(duration) if postgres => (stored.job.scheduled_at - new.scheduled_at).abs() <= duration,
        Some(duration) => {
            stored.job.scheduled_at == new.scheduled_at
                || (stored.job.scheduled_at - at).abs() < duration
        }
    }
}

pub fn selected(spec: &PruneSpec, job: &Job) -> bool {
    job.status == spec.status
        && match &spec.executors {
            Spec::Except(names) => !names.contains(&job.executor.as_str()),
            Spec::Only(names) => names.contains(&job.executor.as_str()),
        }
}

impl Model {
    fn insert(&mut self, id: i32, new: &EnqueuableJob<'_>, at: DateTime<Utc>) {
        self.used.insert(id);
        let job = Job {
            id,
            status: JobStatus::Scheduled,
            executor: new.executor.clone(),
            data: new.data.clone(),
            metadata: new.metadata.clone(),
            attempt: 0,
            max_attempts: new.max_attempts.into(),
            priority: new.priority.into(),
            tags: new.tags.clone(),
            errors: Vec::new(),
            inserted_at: at,
            scheduled_at: new.scheduled_at,
            attempted_at: None,
            completed_at: None,
            cancelled_at: None,
            discarded_at: None,
        };
        let key = new.uniqueness_criteria.as_ref().and_then(|c| c.key);
        self.jobs.insert(id, Entry { job, key });
    }

    /// Whether the result is one the operation may have, the state changes accordingly.
    pub fn step(&mut self, op: &Op, res: &Res, at: DateTime<Utc>) -> Result<(), String> {
        if let Some(id) = op.target() {
            return match self.jobs.get_mut(&id) {
                None if *res == Res::NotFound(id) => Ok(()),
                None => Err(format!("{} of an unknown job: {res:?}", op.brief())),
                Some(entry) if *res == Res::Done => {
                    change(&mut entry.job, op, at);
                    Ok(())
                }
                Some(_) => Err(format!("{} failed: {res:?}", op.brief())),
            };
        }
        match (op, res) {
            (Op::Enqueue(new), Res::Id(id)) => {
                let matching: Vec<i32> = match &new.uniqueness_criteria {
                    None => Vec::new(),
                    Some(criteria) => self
                        .jobs
                        .iter()
                        .filter(|(_, stored)| conflicts(criteria, new, stored, at, self.postgres))
                        .map(|(id, _)| *id)
                        .collect(),
                };
                if matching.is_empty() {
                    if self.used.contains(id) {
                        return Err(format!(
                            "enqueue without conflict returned the id {id} which was used before"
                        ));
                    }
                    self.insert(*id, new, at);
                    Ok(())
                } else if matching.contains(id) {
                    resolve(&mut self.jobs.get_mut(id).unwrap().job, new);
                    Ok(())
                } else {
                    Err(format!(
                        "enqueue returned {id}, but it conflicts with {matching:?}"
                    ))
                }
            }
            (Op::Prune(spec), Res::Done) => {
                self.prune(spec, at);
                Ok(())
            }
            (Op::Claim(executor), Res::Job(job)) => {
                let Some(entry) = self.jobs.get(&job.id) else {
                    return Err(format!("unknown job {} handed out", job.id));
                };
                let stored = &entry.job;
                if !waiting(stored.status) {
                    return Err(format!(
                        "job {} handed out while it is {:?}",
                        job.id, stored.status
                    ));
                }
                if stored.executor != *executor {
                    return Err(format!("job {} of another executor handed out", job.id));
                }
                if self.focus.early && stored.scheduled_at - at > TimeDelta::milliseconds(100) {
                    return Err(format!("job {} handed out too early", job.id));
                }
                for other in self.jobs.values().map(|entry| &entry.job) {
                    if self.focus.order
                        && waiting(other.status)
                        && other.executor == *executor
                        && (other.scheduled_at == stored.scheduled_at
                            && other.priority < stored.priority
                            || other.priority == stored.priority
                                && other.scheduled_at < stored.scheduled_at)
                    {
                        return Err(format!(
                            "job {} handed out before job {}, against the order",
                            stored.id, other.id
                        ));
                    }
                }
                let entry = self.jobs.get_mut(&job.id).unwrap();
                entry.job.status = JobStatus::Executing;
                entry.job.attempt += 1;
                entry.job.attempted_at = Some(at);
                if self.focus.content && entry.job != **job
                    || entry.job.attempt != job.attempt
                    || entry.job.status != job.status
                {
                    return Err(format!(
                        "job handed out as {job:?}, should be {:?}",
                        entry.job
                    ));
                }
                Ok(())
            }
            _ => Err(format!("{} failed: {res:?}", op.brief())),
        }
    }

    pub fn prune(&mut self, spec: &PruneSpec, at: DateTime<Utc>) {
        match spec.prune_by {
            PruneBy::MaxAge(age) => self.jobs.retain(|_, entry| {
                !selected(spec, &entry.job) || at - entry.job.scheduled_at <= age
            }),
            PruneBy::MaxLength(length) => {
                let mut jobs: Vec<_> = self
                    .jobs
                    .iter()
                    .filter(|(_, entry)| selected(spec, &entry.job))
                    .map(|(id, entry)| (std::cmp::Reverse(entry.job.scheduled_at), *id))
                    .collect();
                jobs.sort();
                for (_, id) in jobs.into_iter().skip(length as usize) {
                    self.jobs.remove(&id);
                }
            }
        }
    }

    /// Compare with everything stored.
    pub fn compare(&self, stored: &[Job]) -> Result<(), String> {
        let mut ids = BTreeSet::new();
        for job in stored {
            if !ids.insert(job.id) {
                return Err(format!("the id {} occurs twice", job.id));
            }
            match self.jobs.get(&job.id) {
                None => return Err(format!("job {} should not exist: {job:?}", job.id)),
                Some(entry)
                    if self.focus.content && entry.job != *job
                        || entry.job.attempt != job.attempt
                        || entry.job.status != job.status =>
                {
                    return Err(format!(
                        "job {} is {job:?}, should be {:?}",
                        job.id, entry.job
                    ));
                }
                _ => {}
            }
        }
        match self.jobs.keys().find(|id| !ids.contains(id)) {
            None => Ok(()),
            Some(id) => Err(format!("job {id} is gone")),
        }
    }
}

fn change(job: &mut Job, op: &Op, at: DateTime<Utc>) {
    let first = job.attempt == 1;
    let log = |job: &mut Job, error: &ExecutionError| {
        job.errors.push(JobError {
            attempt: job.attempt as u16,
            error_type: error.error_type.clone(),
            details: error.message.clone(),
            recorded_at: at,
        })
    };
    let again = if first {
        JobStatus::Scheduled
    } else {
        JobStatus::Retryable
    };
    match op {
        Op::Complete(_) => {
            job.status = JobStatus::Complete;
            job.completed_at = Some(at);
        }
        Op::Retry(_, next, error) => {
            job.status = JobStatus::Retryable;
            job.scheduled_at = *next;
            log(job, error);
        }
        Op::Discard(_, error) => {
            job.status = JobStatus::Discarded;
            job.discarded_at = Some(at);
            log(job, error);
        }
        Op::Cancel(_, error) => {
            job.status = JobStatus::Cancelled;
            job.cancelled_at = Some(at);
            log(job, error);
        }
        Op::Snooze(_, next) => {
            job.status = again;
            job.scheduled_at = *next;
            job.attempt -= 1;
        }
        Op::Rerun(_) => {
            job.status = again;
            job.max_attempts += 1;
            job.scheduled_at = at;
            job.completed_at = None;
            job.cancelled_at = None;
            job.discarded_at = None;
        }
        Op::Update(new) => {
            job.data = new.data.clone();
            job.metadata = new.metadata.clone();
            job.max_attempts = new.max_attempts;
            job.scheduled_at = new.scheduled_at;
            job.priority = new.priority;
            job.tags = new.tags.clone();
        }
        _ => unreachable!(),
    }
}

pub fn resolve(job: &mut Job, new: &EnqueuableJob<'_>) {
    if let Some(UniquenessCriteria {
        on_conflict: Resolution::Replace(replace),
        ..
    }) = &new.uniqueness_criteria
        && replace.for_statuses.contains(&job.status)
    {
        if replace.scheduled_at {
            job.scheduled_at = new.scheduled_at;
        }
        if replace.data {
            job.data = new.data.clone();
        }
        if replace.metadata {
            job.metadata = new.metadata.clone();
        }
        if replace.priority {
            job.priority = new.priority.into();
        }
        if replace.max_attempts {
            job.max_attempts = new.max_attempts.into();
        }
    }
}

/// One operation of a concurrent history.
#[derive(Clone, Debug)]
pub struct Call {
    pub start: u64,
    pub end: u64,
    pub op: Op,
    pub res: Res,
    /// When it happened, if time passes.
    pub at: Option<DateTime<Utc>>,
}

#[derive(Default)]
pub struct History {
    inner: std::sync::Mutex<(u64, Vec<Call>)>,
}

impl History {
    fn tick(&self) -> u64 {
        let mut inner = self.inner.lock().unwrap();
        inner.0 += 1;
        inner.0
    }

    pub fn record(&self, op: Op, f: impl FnOnce(&Op) -> Res) -> Res {
        let start = self.tick();
        let res = f(&op);
        let end = self.tick();
        self.inner.lock().unwrap().1.push(Call {
            start,
            end,
            op,
            res: res.clone(),
            at: None,
        });
        res
    }

    pub fn start(&self) -> u64 {
        self.tick()
    }

    pub fn end(&self, start: u64, op: Op, res: Res) {
        let end = self.tick();
        self.inner.lock().unwrap().1.push(Call {
            start,
            end,
            op,
            res,
            at: None,
        });
    }

    pub fn end_now(&self, start: u64, op: Op, res: Res) {
        let end = self.tick();
        self.inner.lock().unwrap().1.push(Call {
            start,
            end,
            op,
            res,
            at: Some(Utc::now()),
        });
    }

    pub fn calls(&self) -> Vec<Call> {
        self.inner.lock().unwrap().1.clone()
    }
}

/// Find a sequential order of the calls, consistent with their real time order, that explains all
/// results and the final content.
pub fn linearizable(
    initial: &Model,
    calls: &[Call],
    stored: &[Job],
    at: DateTime<Utc>,
) -> Result<(), String> {
    fn search(
        model: &Model,
        calls: &[Call],
        done: &mut Vec<bool>,
        stored: &[Job],
        at: DateTime<Utc>,
        best: &mut (usize, String),
    ) -> bool {
        let count = done.iter().filter(|d| **d).count();
        if count == calls.len() {
            return match model.compare(stored) {
                Ok(()) => true,
                Err(why) => {
                    if count >= best.0 {
                        *best = (count, why);
                    }
                    false
                }
            };
        }
        for i in 0..calls.len() {
            // Everything that ended before this one started has to come first.
            if done[i]
                || (0..calls.len()).any(|j| !done[j] && j != i && calls[j].end < calls[i].start)
            {
                continue;
            }
            let mut next = model.clone();
            match next.step(&calls[i].op, &calls[i].res, calls[i].at.unwrap_or(at)) {
                Ok(()) => {
                    done[i] = true;
                    if search(&next, calls, done, stored, at, best) {
                        return true;
                    }
                    done[i] = false;
                }
                Err(why) => {
                    if count >= best.0 {
                        *best = (count, why);
                    }
                }
            }
        }
        false
    }
    let mut best = (0, String::new());
    if search(
        initial,
        calls,
        &mut vec![false; calls.len()],
        stored,
        at,
        &mut best,
    ) {
        return Ok(());
    }
    let history: Vec<String> = calls
        .iter()
        .map(|call| {
            let res = match &call.res {
                Res::Job(job) => format!("{}#{}", job.id, job.attempt),
                res => format!("{res:?}"),
            };
            format!("[{}-{}] {} -> {res}", call.start, call.end, call.op.brief())
        })
        .collect();
    Err(format!(
        "no sequential order explains the history: {}; {history:?}",
        best.1
    ))
}

/// Build the model of a backend from operations performed on both.
pub struct Both {
    pub backend: InMemoryBackend,
    pub model: Model,
}

impl Both {
    pub fn new() -> Self {
        Self {
            backend: InMemoryBackend::new(),
            model: Model::default(),
        }
    }

    pub fn op(&mut self, op: Op) -> Result<Res, String> {
        let res = op.perform(&self.backend);
        self.model.step(&op, &res, Utc::now())?;
        Ok(res)
    }

    pub fn claim(&mut self, executor: &'static str) -> Result<Option<Job>, String> {
        let mut claimer = crate::common::Claimer::new(&self.backend, executor);
        match claimer.claim() {
            None => Ok(None),
            Some(job) => {
                self.model.step(
                    &Op::Claim(executor),
                    &Res::Job(Box::new(job.clone())),
                    Utc::now(),
                )?;
                Ok(Some(job))
            }
        }
    }

    pub fn compare(&self) -> Result<(), String> {
        self.model.compare(&crate::common::all(&self.backend))
    }
}
