//! The asynchronous world: real workers, cron runners and pruners on a paused tokio runtime with a
//! virtual wall clock. Every interaction stops at a gate until the explorer lets it pass.
use std::{
    cell::RefCell,
    collections::HashMap,
    pin::Pin,
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    task::{Context, Poll, Wake, Waker},
    time::Duration,
};

use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use futures::{Stream, StreamExt, future::BoxFuture};
use mc_engine::{Run, clock};
use rexecutor::{
    backend::{
        Backend, BackendError, EnqueuableJob, ExecutionError, Job, Query, memory::InMemoryBackend,
    },
    executor::{ExecutionResult, ExecutorIdentifier},
    job::JobId,
    pruner::PruneSpec,
};
use tokio::sync::{Notify, oneshot};

/// What a job does.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Done,
    Fail(String),
    Cancel(String),
    Snooze(TimeDelta),
    Panic(String),
    PanicAny,
    /// Sleep for some time first.
    Sleep(u64, Box<Act>),
}

/// What happens to the operation waiting at a gate.
#[derive(Clone, Debug, PartialEq)]
pub enum Release {
    Go,
    Fault,
    Act(Act),
}

#[derive(Clone, Debug)]
pub struct Ticket {
    pub id: u64,
    pub actor: String,
    pub op: String,
    pub kind: Kind,
    pub job: Option<i32>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    /// A worker looking for the next job.
    Claim,
    /// A worker recording an outcome.
    Record,
    /// Enqueue (cron).
    Enqueue,
    /// A prune.
    Prune,
    /// A job body.
    Body,
    /// A scripted client.
    Client,
}

#[derive(Clone, Debug)]
pub enum What {
    Delivered {
        worker: String,
        job: Job,
    },
    Start {
        exec: &'static str,
        view: View,
    },
    End {
        exec: &'static str,
        id: i32,
        attempt: u16,
        act: String,
    },
    Dropped {
        exec: &'static str,
        id: i32,
        attempt: u16,
    },
    Op {
        actor: String,
        op: String,
        job: Option<i32>,
        ok: bool,
    },
    OpStart {
        actor: String,
        op: String,
    },
    Enqueued {
        actor: String,
        id: i32,
        scheduled_at: DateTime<Utc>,
        data: serde_json::Value,
    },
    Note(String),
}

#[derive(Clone, Debug)]
pub struct Event {
    pub at: DateTime<Utc>,
    pub what: What,
}

#[derive(Clone, Debug)]
pub struct Execution {
    pub exec: &'static str,
    pub attempt: u16,
    pub max_attempts: u16,
    /// Positions in the sequence of events.
    pub start: usize,
    pub end: Option<usize>,
    pub started_at: DateTime<Utc>,
    pub ended_at: Option<DateTime<Utc>>,
    pub scheduled_at: DateTime<Utc>,
    pub act: String,
}

/// The job as seen by the executor.
#[derive(Clone, Debug)]
pub struct View {
    pub id: i32,
    pub attempt: u16,
    pub max_attempts: u16,
    pub priority: u16,
    pub tags: Vec<String>,
    pub data: serde_json::Value,
    pub metadata: serde_json::Value,
    pub scheduled_at: DateTime<Utc>,
    pub errors: usize,
    pub status: rexecutor::job::JobStatus,
}

struct Pending {
    epoch: u64,
    ticket: Ticket,
    sender: oneshot::Sender<Release>,
}

#[derive(Default)]
struct Inner {
    pending: Vec<Pending>,
    next: u64,
    events: Vec<Event>,
    ended: bool,
    /// The number of operations at this instant.
    instant: Option<(tokio::time::Instant, usize)>,
    /// Counts how often the world settled.
    epoch: u64,
    /// Blocking threads which wait for a gate or the given instant.
    parked: HashMap<u64, Option<tokio::time::Instant>>,
}

pub struct World {
    inner: Mutex<Inner>,
    arrival: Notify,
    activity: AtomicU64,
    settle: Arc<Settle>,
    /// Which kinds of operations stop at a gate.
    gated: Vec<Kind>,
    /// What bodies do if they do not stop at a gate.
    script: Box<dyn Fn(&'static str, &View) -> Act + Send + Sync>,
    /// A body of a blocking executor occupied the thread of the runtime.
    hogged: AtomicBool,
    /// What somebody else does at a certain point.
    interrupt: Mutex<Option<(usize, Box<dyn FnOnce() + Send>)>>,
}

#[derive(Default)]
struct Settle {
    armed: AtomicBool,
    waker: Mutex<Option<Waker>>,
}

thread_local! {
    static CURRENT: RefCell<Option<Arc<World>>> = const { RefCell::new(None) };
}

impl World {
    pub fn current() -> Arc<World> {
        CURRENT
            .with(|current| current.borrow().clone())
            .expect("no world on this thread")
    }

    pub fn log(&self, what: What) {
        self.activity.fetch_add(1, Ordering::SeqCst);
        let at = Utc::now();
        self.inner.lock().unwrap().events.push(Event { at, what });
        self.point();
    }

    /// Whether there have been very many operations at this instant.
    fn busy(&self) -> bool {
        let now = tokio::time::Instant::now();
        let mut inner = self.inner.lock().unwrap();
        match &mut inner.instant {
            Some((at, n)) if *at == now => {
                *n += 1;
                if *n > 5_000 {
                    inner.instant = None;
                    return true;
                }
            }
            instant => *instant = Some((now, 0)),
        }
        false
    }

    /// Let somebody else, on another thread, do something at the given point from now on: right
    /// after something was logged or a property of an executor was asked for.
    pub fn at_point(&self, n: usize, action: impl FnOnce() + Send + 'static) {
        *self.interrupt.lock().unwrap() = Some((n, Box::new(action)));
    }

    /// Whether that has happened.
    pub fn reached(&self) -> bool {
        self.interrupt.lock().unwrap().is_none()
    }

    fn point(&self) {
        // Bodies of blocking executors really run in parallel, points there would neither be
        // the same every time nor in an order with what is logged.
        if !ON_RUNTIME.get() {
            return;
        }
        let mut interrupt = self.interrupt.lock().unwrap();
        match &mut *interrupt {
            Some((0, _)) => {
                let action = interrupt.take();
                drop(interrupt);
                if let Some((_, action)) = action {
                    action();
                }
            }
            Some((n, _)) => *n -= 1,
            None => {}
        }
    }

    pub fn point_of_current() {
        if let Ok(Some(world)) = CURRENT.try_with(|current| current.borrow().clone()) {
            world.point();
        }
    }

    /// Whether a body of a blocking executor occupied the thread of the runtime, which would hold
    /// up everybody else if it computed for long.
    pub fn hogged(&self) -> bool {
        self.hogged.load(Ordering::SeqCst)
    }

    pub fn note(&self, note: impl Into<String>) {
        self.log(What::Note(note.into()));
    }

    pub fn events(&self) -> Vec<Event> {
        self.inner.lock().unwrap().events.clone()
    }

    /// All executions by job, in the order of their start.
    pub fn executions(&self) -> std::collections::BTreeMap<i32, Vec<Execution>> {
        let mut executions = std::collections::BTreeMap::<i32, Vec<Execution>>::new();
        for (at, event) in self.inner.lock().unwrap().events.iter().enumerate() {
            match &event.what {
                What::Start { exec, view } => {
                    executions.entry(view.id).or_default().push(Execution {
                        exec,
                        attempt: view.attempt,
                        max_attempts: view.max_attempts,
                        start: at,
                        started_at: event.at,
                        scheduled_at: view.scheduled_at,
                        end: None,
                        ended_at: None,
                        act: String::new(),
                    })
                }
                What::End { id, act, .. } => {
                    if let Some(execution) = executions.entry(*id).or_default().last_mut() {
                        execution.end = Some(at);
                        execution.ended_at = Some(event.at);
                        execution.act = act.clone();
                    }
                }
                What::Dropped { id, .. } => {
                    if let Some(execution) = executions.entry(*id).or_default().last_mut() {
                        execution.end = Some(at);
                        execution.ended_at = Some(event.at);
                        execution.act = "Dropped".to_owned();
                    }
                }
                _ => {}
            }
        }
        executions
    }

    pub fn with_events<T>(&self, f: impl FnOnce(&[Event]) -> T) -> T {
        f(&self.inner.lock().unwrap().events)
    }

    pub async fn gate(
        &self,
        kind: Kind,
        actor: &str,
        op: impl Into<String>,
        job: Option<i32>,
    ) -> Release {
        self.gate_until(kind, actor, op, job, None).await
    }

    /// The number of blocking threads that wait for a gate or for time to pass.
    fn parked(&self) -> usize {
        let now = tokio::time::Instant::now();
        let inner = self.inner.lock().unwrap();
        inner
            .parked
            .values()
            .filter(|until| until.is_none_or(|until| until > now))
            .count()
    }

    fn park(self: &World, id: u64, until: Option<tokio::time::Instant>) -> Parked<'_> {
        let blocking = !ON_RUNTIME.with(|on| on.get());
        if blocking {
            self.inner.lock().unwrap().parked.insert(id, until);
            self.activity.fetch_add(1, Ordering::SeqCst);
        }
        Parked(self, id, blocking)
    }

    fn next(&self) -> u64 {
        let mut inner = self.inner.lock().unwrap();
        inner.next += 1;
        inner.next
    }

    async fn gate_until(
        &self,
        kind: Kind,
        actor: &str,
        op: impl Into<String>,
        job: Option<i32>,
        until: Option<tokio::time::Instant>,
    ) -> Release {
        if !self.gated.contains(&kind) {
            return Release::Go;
        }
        let (sender, receiver) = oneshot::channel();
        let id = self.next();
        let _parked;
        {
            let mut inner = self.inner.lock().unwrap();
            if inner.ended {
                return Release::Go;
            }
            let epoch = inner.epoch;
            inner.pending.push(Pending {
                epoch,
                ticket: Ticket {
                    id,
                    actor: actor.to_owned(),
                    op: op.into(),
                    kind,
                    job,
                },
                sender,
            });
        }
        _parked = self.park(id, until);
        self.activity.fetch_add(1, Ordering::SeqCst);
        self.arrival.notify_one();
        receiver.await.unwrap_or(Release::Go)
    }

    pub fn tickets(&self) -> Vec<Ticket> {
        let mut inner = self.inner.lock().unwrap();
        // The waiting operation may have been dropped (timeout, shutdown).
        inner.pending.retain(|pending| !pending.sender.is_closed());
        // What happens on blocking threads arrives in any order. Clients come last.
        inner.pending.sort_by(|a, b| {
            let key = |p: &Pending| (p.ticket.kind == Kind::Client, p.epoch);
            (key(a), &a.ticket.actor, &a.ticket.op, a.ticket.id)
                .cmp(&(key(b), &b.ticket.actor, &b.ticket.op, b.ticket.id))
        });
        inner.pending.iter().map(|p| p.ticket.clone()).collect()
    }

    pub fn release(&self, id: u64, release: Release) {
        let mut inner = self.inner.lock().unwrap();
        let at = inner
            .pending
            .iter()
            .position(|pending| pending.ticket.id == id)
            .expect("no such ticket");
        let pending = inner.pending.remove(at);
        // From now on the thread is busy.
        inner.parked.remove(&id);
        drop(inner);
        self.activity.fetch_add(1, Ordering::SeqCst);
        let _ = pending.sender.send(release);
    }

    fn end(&self) {
        let mut inner = self.inner.lock().unwrap();
        inner.ended = true;
        inner.pending.clear();
    }

    /// Run everything until nothing can happen without time passing or a gate opening.
    pub async fn settle(&self) {
        let metrics = tokio::runtime::Handle::current().metrics();
        let mut quiet = 0;
        let mut spins = 0u64;
        self.inner.lock().unwrap().epoch += 1;
        while quiet < 2 {
            let before = self.activity.load(Ordering::SeqCst);
            tokio::task::yield_now().await;
            Idle {
                settle: &self.settle,
                waited: false,
            }
            .await;
            let busy = metrics.num_blocking_threads() - metrics.num_idle_blocking_threads()
                + metrics.blocking_queue_depth();
            if busy > self.parked() {
                quiet = 0;
                spins += 1;
                if spins < 100 {
                    std::thread::yield_now();
                } else {
                    std::thread::sleep(Duration::from_micros(20));
                }
                // A body that sleeps, needs the clock to move.
                if spins > 1000 {
                    return;
                }
                continue;
            }
            if before == self.activity.load(Ordering::SeqCst) {
                quiet += 1;
            } else {
                quiet = 0;
            }
        }
    }

    /// Let time pass until something arrives at a gate, or the given instant.
    pub async fn advance_until(&self, horizon: DateTime<Utc>) -> bool {
        loop {
            // Forget about arrivals that have been seen.
            let notified = self.arrival.notified();
            tokio::pin!(notified);
            notified.as_mut().enable();
            if !self.tickets().is_empty() {
                return true;
            }
            let left = (horizon - Utc::now()).to_std().unwrap_or(Duration::ZERO);
            if left.is_zero() {
                return false;
            }
            if self.parked() > 0 {
                // Time does not pass by itself while there are blocking threads.
                tokio::time::advance(left.min(Duration::from_millis(1))).await;
                self.settle().await;
                continue;
            }
            tokio::select! {
                biased;
                _ = notified => {}
                _ = tokio::time::sleep(left) => {}
            }
            self.settle().await;
        }
    }

    /// Let exactly the given time pass, in steps.
    pub async fn pass(&self, duration: Duration, step: Duration) {
        let mut left = duration;
        while !left.is_zero() {
            let now = left.min(step);
            tokio::time::advance(now).await;
            self.settle().await;
            left -= now;
        }
    }

    /// The body of a job.
    pub async fn body(self: &Arc<Self>, exec: &'static str, view: View) -> ExecutionResult {
        struct Guard(Arc<World>, &'static str, i32, u16, bool);
        impl Drop for Guard {
            fn drop(&mut self) {
                if !self.4 {
                    self.0.log(What::Dropped {
                        exec: self.1,
                        id: self.2,
                        attempt: self.3,
                    });
                }
            }
        }
        let (id, attempt) = (view.id, view.attempt);
        if ON_RUNTIME.get() && exec.starts_with("block") {
            self.hogged.store(true, Ordering::SeqCst);
        }
        if self.with_events(|events| events.len() > 50_000) {
            // Something keeps executing jobs without time passing, do not run out of memory.
            std::future::pending::<()>().await;
        }
        self.log(What::Start {
            exec,
            view: view.clone(),
        });
        let mut guard = Guard(self.clone(), exec, id, attempt, false);
        let op = format!("body {exec} {}#{attempt}", view.data);
        let timeout = view.data["timeout_ms"]
            .as_u64()
            .map(|ms| tokio::time::Instant::now() + Duration::from_millis(ms));
        let mut act = match self
            .gate_until(Kind::Body, exec, op, Some(id), timeout)
            .await
        {
            Release::Act(act) => act,
            _ => (self.script)(exec, &view),
        };
        while let Act::Sleep(ms, then) = act {
            let until = tokio::time::Instant::now() + Duration::from_millis(ms);
            let parked = self.park(
                self.next(),
                Some(timeout.map_or(until, |timeout| timeout.min(until))),
            );
            tokio::time::sleep_until(until).await;
            drop(parked);
            act = *then;
        }
        guard.4 = true;
        self.log(What::End {
            exec,
            id,
            attempt,
            act: format!("{act:?}"),
        });
        match act {
            Act::Done => ExecutionResult::Done,
            Act::Fail(message) => Failure(message).into(),
            Act::Cancel(reason) => ExecutionResult::Cancel {
                reason: Box::new(reason),
            },
            Act::Snooze(delay) => ExecutionResult::Snooze { delay },
            Act::Panic(message) => std::panic::panic_any(message),
            Act::PanicAny => std::panic::panic_any(42u8),
            Act::Sleep(..) => unreachable!(),
        }
    }
}

struct Parked<'a>(&'a World, u64, bool);
impl Drop for Parked<'_> {
    fn drop(&mut self) {
        if self.2 {
            self.0.inner.lock().unwrap().parked.remove(&self.1);
        }
    }
}

#[derive(Debug)]
pub struct Failure(pub String);
impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Failure {}
impl rexecutor::executor::ExecutionError for Failure {
    fn error_type(&self) -> &'static str {
        "custom_error"
    }
}

struct Idle<'a> {
    settle: &'a Settle,
    waited: bool,
}

impl Future for Idle<'_> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.waited && !self.settle.armed.load(Ordering::SeqCst) {
            return Poll::Ready(());
        }
        self.waited = true;
        *self.settle.waker.lock().unwrap() = Some(cx.waker().clone());
        self.settle.armed.store(true, Ordering::SeqCst);
        Poll::Pending
    }
}

thread_local! {
    static ON_RUNTIME: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

#[derive(Clone)]
pub struct Setup {
    pub gated: Vec<Kind>,
    /// Nanoseconds added to the base of the virtual clock.
    pub phase: i64,
    /// The seed for the choices of the runtime among branches that are ready.
    pub seed: u8,
}

impl Setup {
    pub fn new(gated: &[Kind]) -> Self {
        Self {
            gated: gated.to_vec(),
            phase: 0,
            seed: 0,
        }
    }
    pub fn seed(mut self, seed: u8) -> Self {
        self.seed = seed;
        self
    }
    pub fn phase(mut self, phase: i64) -> Self {
        self.phase = phase;
        self
    }
}

/// Run one execution.
pub fn simulate<T>(
    setup: Setup,
    script: impl Fn(&'static str, &View) -> Act + Send + Sync + 'static,
    f: impl AsyncFnOnce(Arc<World>) -> T,
) -> T {
    let settle = Arc::new(Settle::default());
    let world = Arc::new(World {
        inner: Default::default(),
        arrival: Notify::new(),
        activity: AtomicU64::new(0),
        settle: settle.clone(),
        gated: setup.gated,
        script: Box::new(script),
        hogged: AtomicBool::new(false),
        interrupt: Mutex::new(None),
    });
    let source: Arc<Mutex<clock::Source>> = Arc::new(Mutex::new(clock::Source::Real));
    let runtime = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&[
            b'r', b'e', b'x', b'e', b'c', setup.seed,
        ]))
        .on_thread_park(move || {
            if settle.armed.swap(false, Ordering::SeqCst)
                && let Some(waker) = settle.waker.lock().unwrap().take()
            {
                waker.wake();
            }
        })
        .on_thread_start({
            let world = world.clone();
            let source = source.clone();
            move || {
                CURRENT.with(|current| *current.borrow_mut() = Some(world.clone()));
                clock::set(*source.lock().unwrap());
            }
        })
        .build()
        .unwrap();
    CURRENT.with(|current| *current.borrow_mut() = Some(world.clone()));
    ON_RUNTIME.set(true);
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            clock::set(clock::Source::Real);
            ON_RUNTIME.set(false);
            CURRENT.with(|current| *current.borrow_mut() = None);
        }
    }
    let _reset = Reset;
    let result = runtime.block_on(async {
        let now = clock::Source::Tokio(clock::BASE + setup.phase, tokio::time::Instant::now());
        *source.lock().unwrap() = now;
        clock::set(now);
        let result = f(world.clone()).await;
        world.end();
        result
    });
    runtime.shutdown_timeout(Duration::from_secs(5));
    result
}

pub fn at(offset_ms: i64) -> DateTime<Utc> {
    DateTime::from_timestamp_nanos(clock::BASE) + TimeDelta::milliseconds(offset_ms)
}

/// Milliseconds since the start of the virtual clock.
pub fn ms(at: DateTime<Utc>) -> i64 {
    (at - DateTime::from_timestamp_nanos(clock::BASE)).num_milliseconds()
}

/// The backend used by one actor: the real in memory backend behind gates.
#[derive(Clone)]
pub struct Gated {
    pub inner: InMemoryBackend,
    pub world: Arc<World>,
    pub actor: String,
    /// Also stop after the operation has been performed.
    pub after: bool,
}

impl Gated {
    pub fn new(inner: &InMemoryBackend, world: &Arc<World>, actor: &str) -> Self {
        Self {
            inner: inner.clone(),
            world: world.clone(),
            actor: actor.to_owned(),
            after: false,
        }
    }

    async fn op<T>(
        &self,
        kind: Kind,
        op: &str,
        job: Option<i32>,
        f: impl Future<Output = Result<T, BackendError>>,
    ) -> Result<T, BackendError> {
        if self.world.busy() {
            // Operations take some time: something that goes on for as long as the clock stands
            // still makes no progress otherwise.
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        let released = self.world.gate(kind, &self.actor, op, job).await;
        let result = if released == Release::Fault {
            Err(BackendError::BadState)
        } else {
            f.await
        };
        self.world.log(What::Op {
            actor: self.actor.clone(),
            op: op.to_owned(),
            job,
            ok: result.is_ok(),
        });
        if self.after {
            self.world
                .gate(kind, &self.actor, format!("after {op}"), job)
                .await;
        }
        result
    }
}

#[async_trait]
impl Backend for Gated {
    async fn subscribe_ready_jobs(
        &self,
        executor: ExecutorIdentifier,
    ) -> Pin<Box<dyn Stream<Item = Result<Job, BackendError>> + Send>> {
        let inner = self.inner.subscribe_ready_jobs(executor).await;
        self.world.note(format!("{} subscribed", self.actor));
        Box::pin(GatedStream {
            inner,
            world: self.world.clone(),
            actor: self.actor.clone(),
            gate: None,
            flag: Arc::new(Forward {
                woken: AtomicBool::new(true),
                outer: Mutex::new(None),
            }),
        })
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        let (scheduled_at, data) = (job.scheduled_at, job.data.clone());
        let op = format!("enqueue {data}@{}", ms(scheduled_at));
        let result = self
            .op(Kind::Enqueue, &op, None, self.inner.enqueue(job))
            .await;
        if let Ok(id) = &result {
            self.world.log(What::Enqueued {
                actor: self.actor.clone(),
                id: (*id).into(),
                scheduled_at,
                data,
            });
        }
        result
    }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        let f = self.inner.mark_job_complete(id);
        self.op(Kind::Record, "complete", Some(id.into()), f).await
    }
    async fn mark_job_retryable(
        &self,
        id: JobId,
        next_scheduled_at: DateTime<Utc>,
        error: ExecutionError,
    ) -> Result<(), BackendError> {
        let f = self.inner.mark_job_retryable(id, next_scheduled_at, error);
        self.op(Kind::Record, "retry", Some(id.into()), f).await
    }
    async fn mark_job_discarded(
        &self,
        id: JobId,
        error: ExecutionError,
    ) -> Result<(), BackendError> {
        let f = self.inner.mark_job_discarded(id, error);
        self.op(Kind::Record, "discard", Some(id.into()), f).await
    }
    async fn mark_job_cancelled(
        &self,
        id: JobId,
        error: ExecutionError,
    ) -> Result<(), BackendError> {
        let f = self.inner.mark_job_cancelled(id, error);
        self.op(Kind::Record, "cancel", Some(id.into()), f).await
    }
    async fn mark_job_snoozed(
        &self,
        id: JobId,
        next_scheduled_at: DateTime<Utc>,
    ) -> Result<(), BackendError> {
        let f = self.inner.mark_job_snoozed(id, next_scheduled_at);
        self.op(Kind::Record, "snooze", Some(id.into()), f).await
    }
    async fn prune_jobs(&self, spec: &PruneSpec) -> Result<(), BackendError> {
        let op = format!("prune {spec:?}");
        self.world.log(What::OpStart {
            actor: self.actor.clone(),
            op: op.clone(),
        });
        self.op(Kind::Prune, &op, None, self.inner.prune_jobs(spec))
            .await
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> {
        let f = self.inner.rerun_job(id);
        self.op(Kind::Record, "rerun", Some(id.into()), f).await
    }
    async fn update_job(&self, job: Job) -> Result<(), BackendError> {
        let id = job.id;
        let f = self.inner.update_job(job);
        self.op(Kind::Record, "update", Some(id), f).await
    }
    async fn query<'a>(&self, query: Query<'a>) -> Result<Vec<Job>, BackendError> {
        self.inner.query(query).await
    }
}

struct Forward {
    woken: AtomicBool,
    outer: Mutex<Option<Waker>>,
}

impl Wake for Forward {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        if let Some(waker) = self.outer.lock().unwrap().take() {
            waker.wake();
        }
    }
}

struct GatedStream {
    inner: Pin<Box<dyn Stream<Item = Result<Job, BackendError>> + Send>>,
    world: Arc<World>,
    actor: String,
    gate: Option<BoxFuture<'static, Release>>,
    flag: Arc<Forward>,
}

impl Stream for GatedStream {
    type Item = Result<Job, BackendError>;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let this = &mut *self;
        *this.flag.outer.lock().unwrap() = Some(cx.waker().clone());
        loop {
            if this.gate.is_none() {
                if !this.flag.woken.swap(false, Ordering::SeqCst) {
                    return Poll::Pending;
                }
                let (world, actor) = (this.world.clone(), this.actor.clone());
                this.gate = Some(Box::pin(async move {
                    world.gate(Kind::Claim, &actor, "claim", None).await
                }));
            }
            let released = match this.gate.as_mut().unwrap().as_mut().poll(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(released) => released,
            };
            this.gate = None;
            if released == Release::Fault {
                this.flag.woken.store(true, Ordering::SeqCst);
                this.world.note(format!("{} claim failed", this.actor));
                return Poll::Ready(Some(Err(BackendError::BadState)));
            }
            let waker = Waker::from(this.flag.clone());
            match this.inner.poll_next_unpin(&mut Context::from_waker(&waker)) {
                Poll::Pending => {
                    this.world.point();
                    continue;
                }
                Poll::Ready(item) => {
                    this.flag.woken.store(true, Ordering::SeqCst);
                    if let Some(Ok(job)) = &item {
                        this.world.log(What::Delivered {
                            worker: this.actor.clone(),
                            job: job.clone(),
                        });
                    }
                    return Poll::Ready(item);
                }
            }
        }
    }
}

/// All jobs in the backend, by id.
pub async fn all_jobs(backend: &InMemoryBackend) -> Vec<Job> {
    let mut jobs = backend.query(Query::TagsAllOf(&[])).await.unwrap();
    jobs.sort_by_key(|job| job.id);
    jobs
}

/// A summary of a job for state hashing and logs.
pub fn brief(job: &Job) -> String {
    format!(
        "{}:{}:{:?} {}/{} p{} @{} e{} {}{}{}",
        job.id,
        job.executor,
        job.status,
        job.attempt,
        job.max_attempts,
        job.priority,
        ms(job.scheduled_at),
        job.errors.len(),
        if job.completed_at.is_some() { "c" } else { "" },
        if job.cancelled_at.is_some() { "x" } else { "" },
        if job.discarded_at.is_some() { "d" } else { "" },
    )
}

pub struct Drive<'a> {
    pub horizon: DateTime<Utc>,
    /// How the next ticket to release is chosen: free choices or counted against the bound.
    pub free: bool,
    /// Offer to let this much time pass while something is waiting.
    pub stall: Option<Duration>,
    pub max_steps: usize,
    /// What to do with the chosen ticket.
    pub decide: &'a mut dyn FnMut(&mut Run, &Ticket) -> Release,
    /// Called after every step with the world settled.
    pub observe: &'a mut dyn FnMut(&mut Run) -> Result<(), mc_engine::Violation>,
}

/// Release tickets in all orders until the horizon is reached.
pub async fn drive(
    run: &mut Run,
    world: &Arc<World>,
    backend: &InMemoryBackend,
    drive: Drive<'_>,
) -> Result<(), mc_engine::Violation> {
    let mut steps = 0;
    let mut seen = 0;
    world.settle().await;
    loop {
        let summary: Vec<String> = all_jobs(backend).await.iter().map(brief).collect();
        let tickets = world.tickets();
        let waiting: Vec<String> = tickets
            .iter()
            .map(|t| format!("{} {}", t.actor, t.op))
            .collect();
        run.state_of(&(&summary, &waiting));
        if run.verbose() {
            world.with_events(|events| {
                for event in &events[seen..] {
                    run.note(|| format!("[{}] {}", ms(event.at), describe(&event.what)));
                }
                seen = events.len();
            });
        }
        (drive.observe)(run)?;
        if tickets.is_empty() {
            if !world.advance_until(drive.horizon).await {
                return Ok(());
            }
            continue;
        }
        steps += 1;
        if steps > drive.max_steps {
            return Err(mc_engine::Violation::new(
                "livelock",
                format!("still busy after {steps} steps, waiting: {waiting:?}"),
            ));
        }
        let options = tickets.len() + drive.stall.is_some() as usize;
        let chosen = if drive.free {
            run.choose(options)
        } else {
            run.deviate(options)
        };
        if chosen == tickets.len() {
            run.note(|| "let time pass".to_owned());
            let stall = drive.stall.unwrap();
            world.pass(stall, stall).await;
            continue;
        }
        let ticket = &tickets[chosen];
        let release = (drive.decide)(run, ticket);
        run.note(|| format!("-> {} {} {release:?}", ticket.actor, ticket.op));
        world.release(ticket.id, release);
        world.settle().await;
    }
}

pub fn describe(what: &What) -> String {
    match what {
        What::Delivered { worker, job } => format!("delivered to {worker}: {}", brief(job)),
        What::Start { exec, view } => {
            format!(
                "start {exec} job {} attempt {}/{}",
                view.id, view.attempt, view.max_attempts
            )
        }
        What::End {
            exec,
            id,
            attempt,
            act,
        } => {
            format!("end {exec} job {id} attempt {attempt} {act}")
        }
        What::Dropped { exec, id, attempt } => {
            format!("dropped {exec} job {id} attempt {attempt}")
        }
        What::Op { actor, op, job, ok } => format!("{actor}: {op} {job:?} ok={ok}"),
        What::OpStart { actor, op } => format!("{actor}: {op} ..."),
        What::Enqueued {
            actor,
            id,
            scheduled_at,
            data,
        } => {
            format!("{actor}: enqueued {id} {data} @{}", ms(*scheduled_at))
        }
        What::Note(note) => note.clone(),
    }
}
