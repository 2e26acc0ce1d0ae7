//! The real PostgreSQL backend talking over a socket to the model of the server, all in one thread
//! and stepwise: the explorer decides which connection makes the next step.
use std::{
    cell::{Cell, RefCell},
    path::PathBuf,
    rc::Rc,
    sync::{
        Arc,
        atomic::{AtomicBool, AtomicUsize, Ordering},
    },
    time::Duration,
};

use chrono::{DateTime, TimeDelta, Utc};
use futures::StreamExt;
use mc_engine::{Run, Violation, clock};
use pgemu::{
    db::Db,
    server::{Server, Step},
};
use rexecutor::{
    backend::{Backend, BackendError, Job, Query},
    job::JobId,
};
use rexecutor_sqlx::RexecutorPgBackend;
use sqlx::postgres::{PgConnectOptions, PgPoolOptions, PgSslMode};
use tokio::{runtime::Runtime, sync::Mutex as AsyncMutex, task::JoinHandle};

use crate::model::{History, Model, Op, Res, linearizable};

/// What exists once per thread: the socket and the migrated database.
struct Site {
    dir: PathBuf,
    server: RefCell<Server>,
    template: RefCell<Option<Db>>,
    used: Cell<bool>,
}

impl Drop for Site {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

thread_local! {
    static SITE: Rc<Site> = Rc::new(site());
}

fn micros() -> i64 {
    Utc::now().timestamp_micros()
}

/// Where the sockets are.
fn scratch() -> PathBuf {
    std::env::temp_dir().join(format!("mc-pg-{}", std::process::id()))
}

/// Remove them at the end.
pub fn clean() {
    let _ = std::fs::remove_dir_all(scratch());
}

fn site() -> Site {
    static COUNT: AtomicUsize = AtomicUsize::new(0);
    let n = COUNT.fetch_add(1, Ordering::Relaxed);
    let dir = scratch().join(n.to_string());
    std::fs::create_dir_all(&dir).expect("no scratch directory");
    let server = Server::new(&dir.join(".s.PGSQL.5432"), Db::default(), micros).expect("no socket");
    Site {
        dir,
        server: RefCell::new(server),
        template: RefCell::new(None),
        used: Cell::new(false),
    }
}

pub struct Lab {
    runtime: Option<Runtime>,
    site: Rc<Site>,
    now: Cell<i64>,
    last: Cell<Option<usize>>,
}

impl Drop for Lab {
    fn drop(&mut self) {
        // The connections are closed with the tasks of the runtime.
        drop(self.runtime.take());
        self.site.used.set(false);
        self.site.server.borrow_mut().reset(Db::default());
        clock::set(clock::Source::Real);
    }
}

impl Lab {
    /// A server with the schema installed by the migrations and nothing else.
    pub fn new() -> Self {
        let lab = Self::empty();
        if lab.site.template.borrow().is_none() {
            let backend = lab.backend(2);
            lab.block(backend.run_migrations()).expect("the migrations failed");
            drop(backend);
            lab.settle();
            *lab.site.template.borrow_mut() = Some(lab.site.server.borrow().db.clone());
            drop(lab);
            return Self::new();
        }
        let template = lab.site.template.borrow().clone().unwrap();
        lab.site.server.borrow_mut().reset(template);
        lab
    }

    /// A server with an empty database.
    pub fn empty() -> Self {
        let site = SITE.with(Rc::clone);
        assert!(!site.used.replace(true), "one laboratory per thread at a time");
        site.server.borrow_mut().reset(Db::default());
        clock::set(clock::Source::Manual(clock::BASE));
        let runtime = tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .start_paused(true)
            .event_interval(1)
            .rng_seed(tokio::runtime::RngSeed::from_bytes(b"rexecutor"))
            .build()
            .unwrap();
        Self {
            runtime: Some(runtime),
            site,
            now: Cell::new(clock::BASE),
            last: Cell::new(None),
        }
    }

    pub fn runtime(&self) -> &Runtime {
        self.runtime.as_ref().unwrap()
    }

    pub fn server(&self) -> std::cell::RefMut<'_, Server> {
        self.site.server.borrow_mut()
    }

    /// The backend, with a pool of its own.
    pub fn backend(&self, connections: u32) -> RexecutorPgBackend {
        self.try_backend(connections).expect("no backend")
    }

    pub fn try_backend(&self, connections: u32) -> Result<RexecutorPgBackend, BackendError> {
        let options = PgConnectOptions::new_without_pgpass()
            .socket(&self.site.dir)
            .port(5432)
            .username("mc")
            .database("mc")
            .ssl_mode(PgSslMode::Disable);
        let pool = PgPoolOptions::new()
            .max_connections(connections)
            .idle_timeout(None)
            .max_lifetime(None)
            .test_before_acquire(false)
            .connect_lazy_with(options);
        self.block(RexecutorPgBackend::from_pool(pool))
    }

    fn check(&self) {
        if let Some(what) = &self.site.server.borrow().unsupported {
            eprintln!("the model of the server does not know this: {what}");
            println!("NO VERDICT: the model of the server does not know this: {what}");
            std::process::exit(2);
        }
    }

    /// Drive everything until the future is done.
    pub fn block<F: Future>(&self, future: F) -> F::Output {
        let result = self.runtime().block_on(async {
            let mut future = std::pin::pin!(future);
            let mut quiet = 0;
            loop {
                if let std::task::Poll::Ready(output) = futures::poll!(future.as_mut()) {
                    return Some(output);
                }
                let any = self.site.server.borrow_mut().pump();
                tokio::task::yield_now().await;
                quiet = if any { 0 } else { quiet + 1 };
                if quiet > 2_000 {
                    return None;
                }
            }
        });
        self.check();
        match result {
            Some(output) => output,
            None => panic!("an operation does not finish"),
        }
    }

    pub fn spawn<T: Send + 'static>(
        &self,
        future: impl Future<Output = T> + Send + 'static,
    ) -> JoinHandle<T> {
        self.runtime().spawn(future)
    }

    /// Run until everyone waits for the server, for time to pass, or for each other.
    pub fn settle(&self) {
        let metrics = self.runtime().metrics();
        self.runtime().block_on(async {
            let (mut quiet, mut rounds) = (0, 0);
            let mut last = metrics.worker_poll_count(0);
            while quiet < 3 {
                let any = self.site.server.borrow_mut().pump();
                tokio::task::yield_now().await;
                let polls = metrics.worker_poll_count(0);
                quiet = if any || polls != last { 0 } else { quiet + 1 };
                last = polls;
                rounds += 1;
                if rounds > 200_000 {
                    panic!("a task never comes to rest");
                }
            }
        });
        self.check();
    }

    /// Let time pass for everyone.
    pub fn advance(&self, ms: u64) {
        self.now.set(self.now.get() + ms as i64 * 1_000_000);
        clock::set(clock::Source::Manual(self.now.get()));
        self.runtime().block_on(tokio::time::advance(Duration::from_millis(ms)));
    }

    pub fn ready(&self) -> Vec<Step> {
        self.settle();
        self.server().ready()
    }

    /// Make one step, chosen by the explorer among all possible ones. False if there is none.
    pub fn step(&self, run: &mut Run) -> bool {
        let mut ready = self.ready();
        if ready.is_empty() {
            return false;
        }
        let chosen = match ready.iter().position(|step| step.local) {
            Some(local) => local,
            None => {
                let same = self
                    .last
                    .get()
                    .and_then(|last| ready.iter().position(|step| step.conn == last));
                match same {
                    // Continuing with the same connection costs nothing.
                    Some(same) => {
                        ready.swap(0, same);
                        run.deviate(ready.len())
                    }
                    None => run.choose(ready.len()),
                }
            }
        };
        let step = ready[chosen].clone();
        self.mark(run, &ready);
        run.note(|| format!("{}: {:?} {}", step.conn, step.phase, step.label));
        self.last.set(Some(step.conn));
        self.server().step(step.conn);
        self.check();
        true
    }

    /// Count the state the server is in.
    fn mark(&self, run: &mut Run, ready: &[Step]) {
        let server = self.site.server.borrow();
        let mut text = String::new();
        for (name, table) in &server.db.tables {
            if !name.contains("sqlx") {
                for row in table.rows.values() {
                    let (newest, older) = row.versions.split_last().unwrap();
                    text += &format!("{:?}{}{:?};", newest.vals, newest.commit > 0, row.lock.is_some());
                    text += &format!("{:?}", older.last().filter(|v| v.commit > 0 && newest.commit == 0).map(|v| &v.vals));
                }
            }
        }
        let steps: Vec<_> = ready.iter().map(|step| (step.conn, step.phase)).collect();
        run.state_of(&(text, steps, server.blocked(), self.now.get()));
    }

    /// Cut the connection of the pending step, possibly after it was made.
    pub fn cut(&self, conn: usize, after: bool) {
        let mut server = self.server();
        if after {
            server.step(conn);
        }
        server.kill(conn);
    }

    /// All steps until nobody can make one.
    pub fn steps(&self, run: &mut Run, limit: usize) -> Result<usize, Violation> {
        let mut count = 0;
        while self.step(run) {
            count += 1;
            if count > limit {
                return Err(format!("no end of statements; {:?}", self.ready()).into());
            }
        }
        Ok(count)
    }
}

pub fn everything() -> Query<'static> {
    Query::And(Vec::new())
}

/// All stored jobs by id, read from the tables of the server and not through the backend.
pub async fn all(backend: &RexecutorPgBackend) -> Result<Vec<Job>, BackendError> {
    let mut jobs = backend.query(everything()).await?;
    jobs.sort_by_key(|job| job.id);
    Ok(jobs)
}

/// Perform the operation (other than a claim) on the implementation.
pub async fn perform(backend: &RexecutorPgBackend, op: &Op) -> Res {
    let id = |id: &i32| JobId::from(*id);
    match op {
        Op::Enqueue(job) => match backend.enqueue(job.clone()).await {
            Ok(id) => Res::Id(id.into()),
            Err(error) => Res::Failed(format!("{error:?}")),
        },
        Op::Complete(i) => backend.mark_job_complete(id(i)).await.into(),
        Op::Retry(i, at, error) => {
            backend.mark_job_retryable(id(i), *at, error.clone()).await.into()
        }
        Op::Discard(i, error) => backend.mark_job_discarded(id(i), error.clone()).await.into(),
        Op::Cancel(i, error) => backend.mark_job_cancelled(id(i), error.clone()).await.into(),
        Op::Snooze(i, at) => backend.mark_job_snoozed(id(i), *at).await.into(),
        Op::Rerun(i) => backend.rerun_job(id(i)).await.into(),
        Op::Update(job) => backend.update_job(job.clone()).await.into(),
        Op::Prune(spec) => backend.prune_jobs(spec).await.into(),
        Op::Claim(_) => unreachable!("claims go through a stream"),
    }
}

type JobStream =
    std::pin::Pin<Box<dyn futures::Stream<Item = Result<Job, BackendError>> + Send>>;

/// A subscription that can be asked for a job again and again.
#[derive(Clone)]
pub struct Claims(Arc<AsyncMutex<JobStream>>);

impl Claims {
    pub async fn new(backend: &RexecutorPgBackend, executor: &'static str) -> Self {
        Self(Arc::new(AsyncMutex::new(
            backend.subscribe_ready_jobs(executor.into()).await,
        )))
    }

    pub async fn next(&self) -> Result<Job, BackendError> {
        self.0.lock().await.next().await.expect("the stream ended")
    }
}

impl Lab {
    /// A job if there is one right now (steps are performed at once).
    pub fn claim(&self, backend: &RexecutorPgBackend, executor: &'static str) -> Option<Job> {
        assert!(self.server().immediate);
        let claims = self.block(Claims::new(backend, executor));
        let task = self.spawn(async move { claims.next().await });
        self.settle();
        if task.is_finished() {
            return Some(self.block(task).unwrap().expect("the stream failed"));
        }
        task.abort();
        self.settle();
        None
    }
}

pub fn at(ms: i64) -> DateTime<Utc> {
    DateTime::from_timestamp_nanos(clock::BASE) + TimeDelta::milliseconds(ms)
}

/// Operations running concurrently, and what is known about them.
pub struct Race<'l> {
    pub lab: &'l Lab,
    pub history: Arc<History>,
    pub model: Model,
    running: Vec<(String, Arc<AtomicBool>, JoinHandle<()>)>,
}

impl<'l> Race<'l> {
    pub fn new(lab: &'l Lab) -> Self {
        let model = Model {
            postgres: true,
            ..Default::default()
        };
        Self {
            lab,
            history: Default::default(),
            model,
            running: Vec::new(),
        }
    }

    /// Perform an operation on its own.
    pub fn before(&mut self, backend: &RexecutorPgBackend, op: Op) -> Result<Res, Violation> {
        let res = self.lab.block(perform(backend, &op));
        self.model.step(&op, &res, Utc::now())?;
        Ok(res)
    }

    pub fn claim_before(
        &mut self,
        backend: &RexecutorPgBackend,
        executor: &'static str,
    ) -> Result<Option<Job>, Violation> {
        let job = self.lab.claim(backend, executor);
        if let Some(job) = &job {
            let res = Res::Job(Box::new(job.clone()));
            self.model.step(&Op::Claim(executor), &res, Utc::now())?;
        }
        Ok(job)
    }

    fn go(&mut self, name: String, future: impl Future<Output = ()> + Send + 'static) {
        let flag = Arc::new(AtomicBool::new(false));
        let done = flag.clone();
        let task = self.lab.spawn(async move {
            future.await;
            done.store(true, Ordering::SeqCst);
        });
        self.running.push((name, flag, task));
    }

    /// Start operations of one client, one after the other.
    pub fn ops(&mut self, backend: &RexecutorPgBackend, ops: Vec<Op>) {
        let (backend, history) = (backend.clone(), self.history.clone());
        let name = ops.iter().map(Op::brief).collect::<Vec<_>>().join(", ");
        self.go(name, async move {
            for op in ops {
                let start = history.start();
                let res = perform(&backend, &op).await;
                history.end_now(start, op, res);
            }
        });
    }

    /// Start a worker that takes this many jobs.
    pub fn claims(&mut self, claims: &Claims, executor: &'static str, count: usize) {
        let (claims, history) = (claims.clone(), self.history.clone());
        self.go(format!("claim {executor}"), async move {
            for _ in 0..count {
                let start = history.start();
                let res = match claims.next().await {
                    Ok(job) => Res::Job(Box::new(job)),
                    Err(error) => Res::Failed(format!("{error:?}")),
                };
                history.end_now(start, Op::Claim(executor), res);
            }
        });
    }

    /// Start a worker that takes one job, and tries again after a while if that fails.
    pub fn worker(&mut self, claims: &Claims, executor: &'static str) {
        let (claims, history) = (claims.clone(), self.history.clone());
        self.go(format!("claim {executor}"), async move {
            let start = history.start();
            loop {
                if let Ok(job) = claims.next().await {
                    history.end_now(start, Op::Claim(executor), Res::Job(Box::new(job)));
                    return;
                }
                tokio::time::sleep(Duration::from_millis(50)).await;
            }
        });
    }

    pub fn unfinished(&self) -> Vec<&str> {
        self.running
            .iter()
            .filter(|(_, done, _)| !done.load(Ordering::SeqCst))
            .map(|(name, ..)| name.as_str())
            .collect()
    }

    /// Stop the one started at this position.
    pub fn abort(&self, at: usize) {
        self.running[at].2.abort();
    }

    /// A panic of one of them.
    pub fn panicked(&self) -> Option<&str> {
        self.running
            .iter()
            .find(|(_, done, task)| task.is_finished() && !done.load(Ordering::SeqCst))
            .map(|(name, ..)| name.as_str())
    }

    /// Let them run to the end in an order chosen by the explorer.
    pub fn run(&self, run: &mut Run) -> Result<(), Violation> {
        self.lab.server().immediate = false;
        self.lab.steps(run, 400)?;
        self.lab.server().immediate = true;
        if let Some(name) = self.panicked() {
            return Err(format!("an operation panicked: {name}").into());
        }
        let deadlocks = self.lab.server().deadlocks;
        if deadlocks > 0 {
            return Err(format!("deadlock; {:?}", self.names()).into());
        }
        Ok(())
    }

    pub fn names(&self) -> Vec<&str> {
        self.running.iter().map(|(name, ..)| name.as_str()).collect()
    }

    /// Compare with all sequential orders of the same operations.
    pub fn judge(&self, reader: &RexecutorPgBackend) -> Result<Vec<Job>, Violation> {
        let stored = self
            .lab
            .block(all(reader))
            .map_err(|error| format!("the jobs can not be read: {error:?}"))?;
        linearizable(&self.model, &self.history.calls(), &stored, Utc::now())?;
        Ok(stored)
    }
}
