//! Enqueue assertions decide exactly what they say.
use std::{
    cell::RefCell,
    panic::{AssertUnwindSafe, catch_unwind},
    pin::Pin,
    sync::Once,
};

use async_trait::async_trait;
use chrono::{DateTime, Utc};
use futures::Stream;
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    Rexecutor,
    backend::{
        Backend, BackendError, EnqueuableJob, ExecutionError, Job, Query, memory::InMemoryBackend,
    },
    executor::{Executor, ExecutorIdentifier},
    job::JobId,
    pruner::PruneSpec,
};

use crate::{
    common::{all, enqueuable, error, frozen, now},
    executors::{Data, Plain},
    world::{at, brief, ms},
};

#[path = "c25_shapes.rs"]
#[allow(clippy::all)]
mod shapes;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Condition {
    Data,
    Metadata,
    Tags,
    At,
    After,
    Before,
    Type,
    Name,
}

/// The values mentioned in the conditions.
#[derive(Clone, Debug)]
pub struct Values {
    pub data: Data,
    pub metadata: String,
    pub tags: [&'static str; 2],
    pub at: DateTime<Utc>,
    pub after: DateTime<Utc>,
    pub before: DateTime<Utc>,
}

const T: i64 = 60_000;

fn holds(condition: Condition, values: &Values, job: &Job) -> bool {
    match condition {
        Condition::Data => job.data == values.data.json(),
        Condition::Metadata => job.metadata == serde_json::json!(values.metadata),
        Condition::Tags => values.tags.iter().all(|tag| job.tags.iter().any(|t| t == tag)),
        Condition::At => job.scheduled_at == values.at,
        Condition::After => job.scheduled_at > values.after,
        Condition::Before => job.scheduled_at < values.before,
        Condition::Type | Condition::Name => job.executor == Plain::NAME,
    }
}

/// The expectation of each way to assert, with the name of it.
fn expected(how: usize, count: usize) -> (bool, &'static str) {
    match how % 6 {
        0 => (count >= 1, "no count"),
        1 => (count == 0, "0 jobs"),
        2 => (count == 1, "1 job"),
        3 => (count == 1, "1 jobs"),
        4 => (count == 2, "2 jobs"),
        _ => (count == 3, "3 jobs"),
    }
}

fn judge(run: &mut Run, backend: &InMemoryBackend, values: &Values) -> Result<(), Violation> {
    global();
    GLOBAL.with(|global| *global.borrow_mut() = Some(backend.clone()));
    let stored = all(backend);
    for (shape, conditions) in shapes::SHAPES.iter().enumerate() {
        let count = stored
            .iter()
            .filter(|job| conditions.iter().all(|c| holds(*c, values, job)))
            .count();
        for how in 0..12 {
            run.transitions += 1;
            let (wanted, name) = expected(how, count);
            let passed =
                catch_unwind(AssertUnwindSafe(|| shapes::assert(shape, how, values, backend)))
                    .is_ok();
            ensure!(
                passed == wanted,
                "assertion {}: {name} {conditions:?} of the {} backend with {count} such jobs; {values:?} {:?}",
                if passed { "passed" } else { "failed" },
                if how < 6 { "named" } else { "global" },
                stored.iter().map(brief).collect::<Vec<_>>()
            );
        }
    }
    run.state_of(&format!(
        "{:?}",
        stored
            .iter()
            .map(|job| (&job.executor, &job.data, &job.metadata, &job.tags, ms(job.scheduled_at)))
            .collect::<Vec<_>>()
    ));
    Ok(())
}

/// A job, matching unless it differs.
fn job(differs: usize) -> EnqueuableJob<'static> {
    let mut job = enqueuable(if differs == 1 { "plain_other" } else { "plain" }, 1, at(T));
    job.metadata = serde_json::json!("m");
    job.tags = vec!["a".to_owned(), "b".to_owned()];
    match differs {
        2 => job.data = Data::n(2).json(),
        3 => job.metadata = serde_json::json!("n"),
        4 => job.metadata = serde_json::Value::Null,
        5 => job.tags = vec!["a".to_owned()],
        6 => job.tags = vec!["c".to_owned(), "b".to_owned(), "a".to_owned()],
        7 => job.tags = vec![],
        8 => job.scheduled_at = at(T - 1),
        9 => job.scheduled_at = at(T + 1),
        10 => job.scheduled_at = at(T + 100_000),
        11 => job.scheduled_at = at(T - 100_000),
        _ => {}
    }
    job
}

fn values(which: usize) -> Values {
    Values {
        data: Data::n(1),
        metadata: "m".to_owned(),
        tags: ["a", "b"],
        at: at(T),
        after: at([T - 1, T, T - 50_000, T + 1][which]),
        before: at([T + 1, T, T + 50_000, T + 2][which]),
    }
}

pub fn run(check: &mut Check) {
    check.assume("The shapes of assertions are the 94 listed in c25_shapes.rs: all single conditions, all ordered pairs and some longer ones, with and without a count and a trailing comma.");
    check.scenario("up to two jobs", 0, |run| {
        let _frozen = frozen();
        let backend = InMemoryBackend::new().paused();
        let values = values(run.choose(3));
        for _ in 0..run.choose(3) {
            now(backend.enqueue(job(run.choose(12)))).unwrap();
        }
        judge(run, &backend, &values)?;
        Ok("asserted".to_owned())
    });
    let some = check.by_tier(vec![0, 1, 2, 3, 5, 8, 9], (0..12).collect::<Vec<_>>());
    check.scenario("three jobs", 0, |run| {
        let _frozen = frozen();
        let backend = InMemoryBackend::new().paused();
        let values = values(3 * run.choose(2));
        for _ in 0..3 {
            now(backend.enqueue(job(*run.pick(&some)))).unwrap();
        }
        judge(run, &backend, &values)?;
        Ok("asserted".to_owned())
    });
    // Jobs that are not waiting any more count as well, whatever their status.
    check.scenario("progress", 0, |run| {
        let _frozen = frozen();
        let backend = InMemoryBackend::new().paused();
        for _ in 0..2 {
            let id = now(backend.enqueue(job(0))).unwrap();
            match run.choose(5) {
                1 => now(backend.mark_job_complete(id)).unwrap(),
                2 => now(backend.mark_job_discarded(id, error("e"))).unwrap(),
                3 => now(backend.mark_job_cancelled(id, error("e"))).unwrap(),
                4 => now(backend.mark_job_retryable(id, at(T), error("e"))).unwrap(),
                _ => {}
            }
        }
        judge(run, &backend, &values(0))?;
        Ok("asserted".to_owned())
    });
}

thread_local! {
    static GLOBAL: RefCell<Option<InMemoryBackend>> = const { RefCell::new(None) };
}

fn global() {
    static SET: Once = Once::new();
    SET.call_once(|| {
        Rexecutor::new(Switch).set_global_backend().unwrap();
    });
}

/// The process wide backend: the one of the current thread.
#[derive(Clone)]
struct Switch;

fn current() -> InMemoryBackend {
    GLOBAL.with(|global| global.borrow().clone().expect("no backend on this thread"))
}

#[async_trait]
impl Backend for Switch {
    async fn subscribe_ready_jobs(
        &self,
        executor: ExecutorIdentifier,
    ) -> Pin<Box<dyn Stream<Item = Result<Job, BackendError>> + Send>> {
        current().subscribe_ready_jobs(executor).await
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        current().enqueue(job).await
    }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        current().mark_job_complete(id).await
    }
    async fn mark_job_retryable(
        &self,
        id: JobId,
        at: DateTime<Utc>,
        error: ExecutionError,
    ) -> Result<(), BackendError> {
        current().mark_job_retryable(id, at, error).await
    }
    async fn mark_job_discarded(
        &self,
        id: JobId,
        error: ExecutionError,
    ) -> Result<(), BackendError> {
        current().mark_job_discarded(id, error).await
    }
    async fn mark_job_cancelled(
        &self,
        id: JobId,
        error: ExecutionError,
    ) -> Result<(), BackendError> {
        current().mark_job_cancelled(id, error).await
    }
    async fn mark_job_snoozed(&self, id: JobId, at: DateTime<Utc>) -> Result<(), BackendError> {
        current().mark_job_snoozed(id, at).await
    }
    async fn prune_jobs(&self, spec: &PruneSpec) -> Result<(), BackendError> {
        current().prune_jobs(spec).await
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> {
        current().rerun_job(id).await
    }
    async fn update_job(&self, job: Job) -> Result<(), BackendError> {
        current().update_job(job).await
    }
    async fn query<'a>(&self, query: Query<'a>) -> Result<Vec<Job>, BackendError> {
        current().query(query).await
    }
}
