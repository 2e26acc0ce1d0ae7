//! Helpers shared by the checks.
use chrono::{DateTime, TimeDelta, Utc};
use mc_engine::{clock, threads::run_now};
use rexecutor::{
    backend::{Backend, EnqueuableJob, ExecutionError, Job, Query, memory::InMemoryBackend},
    job::{ErrorType, JobId, JobStatus, uniqueness_criteria::UniquenessCriteria},
    pruner::{PruneBy, PruneSpec, Spec},
};

use crate::executors::Data;

/// Operations of the in memory backend never wait.
pub fn now<F: Future>(future: F) -> F::Output {
    run_now(future).expect("operation did not finish")
}

/// Set the clock of this thread to the given milliseconds from the base and keep it there.
pub fn freeze(ms: i64) {
    clock::set(clock::Source::Manual(clock::BASE + ms * 1_000_000));
}

pub struct Frozen(tokio::runtime::Runtime);

/// A runtime that provides timers which never fire, with the clock standing still.
pub fn frozen() -> Frozen {
    freeze(0);
    Frozen(
        tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .rng_seed(tokio::runtime::RngSeed::from_bytes(b"rexecutor"))
            .build()
            .unwrap(),
    )
}

impl Frozen {
    pub fn enter(&self) -> tokio::runtime::EnterGuard<'_> {
        self.0.enter()
    }
}

impl Drop for Frozen {
    fn drop(&mut self) {
        clock::set(clock::Source::Real);
    }
}

pub fn enqueuable(executor: &str, n: i64, scheduled_at: DateTime<Utc>) -> EnqueuableJob<'static> {
    EnqueuableJob {
        executor: executor.to_owned(),
        data: Data::n(n).json(),
        metadata: serde_json::Value::Null,
        max_attempts: 3,
        scheduled_at,
        tags: Vec::new(),
        priority: 0,
        uniqueness_criteria: None,
    }
}

pub fn unique<'a>(
    mut job: EnqueuableJob<'a>,
    criteria: UniquenessCriteria<'a>,
) -> EnqueuableJob<'a> {
    job.uniqueness_criteria = Some(criteria);
    job
}

pub fn get(backend: &InMemoryBackend, id: JobId) -> Option<Job> {
    now(backend.query(Query::IdEquals(id))).unwrap().pop()
}

pub fn all(backend: &InMemoryBackend) -> Vec<Job> {
    let mut jobs = now(backend.query(Query::TagsAllOf(&[]))).unwrap();
    jobs.sort_by_key(|job| job.id);
    jobs
}

pub fn error(message: &str) -> ExecutionError {
    ExecutionError {
        error_type: ErrorType::Other("custom_error".to_owned()),
        message: message.to_owned(),
    }
}

pub fn waiting(status: JobStatus) -> bool {
    matches!(status, JobStatus::Scheduled | JobStatus::Retryable)
}

pub fn millis(ms: i64) -> TimeDelta {
    TimeDelta::milliseconds(ms)
}

pub fn prune_age(status: JobStatus, ms: i64) -> PruneSpec {
    PruneSpec {
        status,
        prune_by: PruneBy::MaxAge(millis(ms)),
        executors: Spec::Except(Vec::new()),
    }
}

pub fn prune_length(status: JobStatus, length: u32) -> PruneSpec {
    PruneSpec {
        status,
        prune_by: PruneBy::MaxLength(length),
        executors: Spec::Except(Vec::new()),
    }
}

/// Claim the next job if there is one that can be handed out right now (in frozen time).
pub struct Claimer(
    std::pin::Pin<
        Box<dyn futures::Stream<Item = Result<Job, rexecutor::backend::BackendError>> + Send>,
    >,
);

impl Claimer {
    pub fn new(backend: &InMemoryBackend, executor: &'static str) -> Self {
        Self(now(backend.subscribe_ready_jobs(executor.into())))
    }

    pub fn stream(
        &mut self,
    ) -> &mut (
             impl futures::Stream<Item = Result<Job, rexecutor::backend::BackendError>>
             + Unpin
             + Send
             + use<>
         ) {
        &mut self.0
    }

    pub fn claim(&mut self) -> Option<Job> {
        use futures::{FutureExt, StreamExt};
        // A notification that is pending makes it look again.
        for _ in 0..3 {
            if let Some(job) = self.0.next().now_or_never() {
                return Some(job.unwrap().unwrap());
            }
        }
        None
    }
}

/// Bring a job, fresh and due, to the given status.
pub fn bring(backend: &InMemoryBackend, claimer: &mut Claimer, id: JobId, status: JobStatus) {
    let claim = |claimer: &mut Claimer| {
        let job = claimer.claim().expect("no job to claim");
        assert_eq!(job.id, i32::from(id));
    };
    match status {
        JobStatus::Scheduled => {}
        JobStatus::Executing => claim(claimer),
        JobStatus::Retryable => {
            claim(claimer);
            now(backend.mark_job_retryable(id, Utc::now(), error("e"))).unwrap();
        }
        JobStatus::Complete => {
            claim(claimer);
            now(backend.mark_job_complete(id)).unwrap();
        }
        JobStatus::Cancelled => {
            claim(claimer);
            now(backend.mark_job_cancelled(id, error("e"))).unwrap();
        }
        JobStatus::Discarded => {
            claim(claimer);
            now(backend.mark_job_discarded(id, error("e"))).unwrap();
        }
    }
}
