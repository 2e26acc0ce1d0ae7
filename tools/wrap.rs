use rexecutor::executor::ExecutorIdentifier;
use rexecutor::pruner::{PruneSpec, Pruner, PrunerConfig};
use std::pin::Pin;
/// The in-memory backend with faults: the hooks return true to make the call fail.
type Hook = Option<Arc<dyn Fn() -> bool + Send + Sync>>;
#[derive(Clone)]
struct Wrap { inner: InMemoryBackend, prune: Hook, read: Hook, complete: Hook }
impl Wrap { fn new(inner: InMemoryBackend) -> Self { Self { inner, prune: None, read: None, complete: None } } }
fn failing(hook: &Hook) -> bool { hook.as_ref().is_some_and(|hook| hook()) }
#[async_trait]
impl Backend for Wrap {
    async fn subscribe_ready_jobs(&self, e: ExecutorIdentifier) -> Pin<Box<dyn futures::Stream<Item = Result<Raw, BackendError>> + Send>> {
        let stream = self.inner.subscribe_ready_jobs(e).await;
        let read = self.read.clone();
        let faults = futures::stream::iter(std::iter::from_fn(move || failing(&read).then(|| Err(BackendError::BadState))));
        Box::pin(faults.chain(stream))
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> { self.inner.enqueue(job).await }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        if failing(&self.complete) { return Err(BackendError::BadState); }
        self.inner.mark_job_complete(id).await
    }
    async fn mark_job_retryable(&self, id: JobId, at: DateTime<Utc>, e: Failure) -> Result<(), BackendError> { self.inner.mark_job_retryable(id, at, e).await }
    async fn mark_job_discarded(&self, id: JobId, e: Failure) -> Result<(), BackendError> { self.inner.mark_job_discarded(id, e).await }
    async fn mark_job_cancelled(&self, id: JobId, e: Failure) -> Result<(), BackendError> { self.inner.mark_job_cancelled(id, e).await }
    async fn mark_job_snoozed(&self, id: JobId, at: DateTime<Utc>) -> Result<(), BackendError> { self.inner.mark_job_snoozed(id, at).await }
    async fn prune_jobs(&self, spec: &PruneSpec) -> Result<(), BackendError> {
        if failing(&self.prune) { return Err(BackendError::BadState); }
        self.inner.prune_jobs(spec).await
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> { self.inner.rerun_job(id).await }
    async fn update_job(&self, job: Raw) -> Result<(), BackendError> { self.inner.update_job(job).await }
    async fn query<'a>(&self, query: Query<'a>) -> Result<Vec<Raw>, BackendError> { self.inner.query(query).await }
}
