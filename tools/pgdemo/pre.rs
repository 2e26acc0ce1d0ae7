#![allow(unused)]
use chrono::{DateTime, TimeDelta, Utc};
use futures::StreamExt;
use pgemu::{db::Db, server::Server};
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError as Failure, Job as Raw, Query};
use rexecutor::job::{ErrorType, JobId, JobStatus, uniqueness_criteria::{Replace, UniquenessCriteria}};
use rexecutor::pruner::{PruneBy, PruneSpec, Spec};
use rexecutor_sqlx::RexecutorPgBackend;
use serde_json::json;
use sqlx::postgres::{PgConnectOptions, PgPoolOptions, PgSslMode};
use std::{path::PathBuf, sync::{Arc, Mutex, mpsc}, time::Duration};

type Call = Box<dyn FnOnce(&mut Server) + Send>;

/// The model of the server in a thread of its own.
struct Pg {
    dir: PathBuf,
    calls: mpsc::Sender<Call>,
}

impl Pg {
    async fn start() -> Self {
        let dir = PathBuf::from(std::env::var("WORK").unwrap()).join("socket");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(".s.PGSQL.5432");
        let (calls, receiver) = mpsc::channel::<Call>();
        std::thread::spawn(move || {
            let mut server = Server::new(&path, Db::default(), || Utc::now().timestamp_micros()).unwrap();
            loop {
                while let Ok(call) = receiver.try_recv() {
                    call(&mut server);
                }
                server.pump();
                std::thread::sleep(Duration::from_micros(100));
            }
        });
        let pg = Self { dir, calls };
        pg.with(|_| ()).await;
        pg.backend().await.run_migrations().await.unwrap();
        pg
    }

    async fn with<T: Send + 'static>(&self, f: impl FnOnce(&mut Server) -> T + Send + 'static) -> T {
        let (sender, receiver) = tokio::sync::oneshot::channel();
        self.calls.send(Box::new(move |server| { let _ = sender.send(f(server)); })).ok().unwrap();
        receiver.await.unwrap()
    }

    async fn backend(&self) -> RexecutorPgBackend {
        let options = PgConnectOptions::new_without_pgpass()
            .socket(&self.dir)
            .port(5432)
            .username("demo")
            .database("demo")
            .ssl_mode(PgSslMode::Disable);
        let pool = PgPoolOptions::new().max_connections(5).connect_lazy_with(options);
        RexecutorPgBackend::from_pool(pool).await.unwrap()
    }

    /// Let every connection make one step in turn until nothing happens any more.
    async fn in_turn(&self) {
        let mut quiet = 0;
        while quiet < 25 {
            tokio::time::sleep(Duration::from_millis(40)).await;
            let steps = self.with(|server| {
                let ready = server.ready();
                for step in &ready {
                    server.step(step.conn);
                }
                ready.len()
            }).await;
            quiet = if steps == 0 { quiet + 1 } else { 0 };
        }
    }
}

fn raw(executor: &str, scheduled_at: DateTime<Utc>, priority: u16) -> EnqueuableJob<'static> {
    EnqueuableJob {
        executor: executor.into(),
        data: json!("data"),
        metadata: json!(null),
        max_attempts: 3,
        scheduled_at,
        tags: vec![],
        priority,
        uniqueness_criteria: None,
    }
}

async fn all(backend: &RexecutorPgBackend) -> Vec<Raw> {
    let mut jobs = backend.query(Query::And(vec![])).await.unwrap();
    jobs.sort_by_key(|job| job.id);
    jobs
}

/// The next job if there is one within this time.
async fn next(backend: &RexecutorPgBackend, executor: &'static str, ms: u64) -> Option<Raw> {
    let mut stream = backend.subscribe_ready_jobs(executor.into()).await;
    tokio::time::timeout(Duration::from_millis(ms), stream.next()).await.ok().map(|job| job.unwrap().unwrap())
}
