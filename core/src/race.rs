//! Scenarios in which real threads operate on the in memory backend at the same time.
use std::sync::Mutex;

use chrono::Utc;
use futures::StreamExt;
use mc_engine::{
    Run, Violation,
    threads::{Actor, Body, finely, interleave},
};
use rexecutor::{
    backend::{Backend, Job, Query, memory::InMemoryBackend},
    job::JobId,
};

use crate::{
    common::{Claimer, all, error, now, waiting},
    model::{Focus, History, Model, Op, Res, linearizable},
    world::brief,
};

pub struct Scene {
    pub backend: InMemoryBackend,
    pub initial: Model,
    pub history: History,
    /// Workers that found nothing to do at the end, by executor.
    pub idle: Mutex<Vec<&'static str>>,
    /// Jobs handed out.
    pub delivered: Mutex<Vec<(usize, Job)>>,
}

/// What a worker does with the jobs it gets.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Follow {
    Keep,
    Complete,
    RetryNow,
    SnoozeNow,
    Discard,
    Cancel,
}

#[derive(Clone, Debug)]
pub enum Step {
    Op(Op),
    /// Read the job, and write it back with changes.
    Edit(i32, fn(&mut Job)),
    NotifyAll,
    /// Query everything.
    Query,
}

impl Scene {
    pub fn new() -> Self {
        Self {
            backend: InMemoryBackend::new(),
            initial: Model::default(),
            history: History::default(),
            idle: Default::default(),
            delivered: Default::default(),
        }
    }

    pub fn focus(mut self, order: bool, content: bool) -> Self {
        self.initial.focus = Focus { order, early: order, content };
        self
    }

    /// Done before the threads start.
    pub fn setup(&mut self, op: Op) -> Result<Res, Violation> {
        let res = op.perform(&self.backend);
        self.initial.step(&op, &res, Utc::now())?;
        Ok(res)
    }

    pub fn setup_claim(&mut self, executor: &'static str) -> Result<Job, Violation> {
        let job = Claimer::new(&self.backend, executor)
            .claim()
            .ok_or("a due job was not handed out")?;
        self.initial.step(
            &Op::Claim(executor),
            &Res::Job(Box::new(job.clone())),
            Utc::now(),
        )?;
        Ok(job)
    }

    /// A worker of the executor: claims up to the given number of jobs and deals with each.
    pub fn worker<'a>(
        &'a self,
        executor: &'static str,
        claims: usize,
        follow: Follow,
        subscribed: bool,
    ) -> Body<'a> {
        let claimer = subscribed.then(|| Claimer::new(&self.backend, executor));
        Box::new(move |actor: &Actor| {
            let mut claimer = claimer.unwrap_or_else(|| Claimer::new(&self.backend, executor));
            for _ in 0..claims {
                let start = self.history.start();
                let Some(job) = actor.block_on(claimer.stream().next()) else {
                    self.idle.lock().unwrap().push(executor);
                    return;
                };
                let job = match job {
                    Some(Ok(job)) => job,
                    other => panic!("the stream returned {other:?}"),
                };
                self.delivered
                    .lock()
                    .unwrap()
                    .push((actor.index, job.clone()));
                let id = job.id;
                self.history
                    .end(start, Op::Claim(executor), Res::Job(Box::new(job)));
                let op = match follow {
                    Follow::Keep => continue,
                    Follow::Complete => Op::Complete(id),
                    Follow::RetryNow => Op::Retry(id, Utc::now(), error("again")),
                    Follow::SnoozeNow => Op::Snooze(id, Utc::now()),
                    Follow::Discard => Op::Discard(id, error("never")),
                    Follow::Cancel => Op::Cancel(id, error("no")),
                };
                self.history.record(op, |op| op.perform(&self.backend));
            }
        })
    }

    pub fn client<'a>(&'a self, steps: Vec<Step>) -> Body<'a> {
        Box::new(move |_| {
            for step in steps {
                match step {
                    Step::Op(op) => {
                        self.history.record(op, |op| op.perform(&self.backend));
                    }
                    Step::Edit(id, edit) => {
                        let job =
                            now(self.backend.query(Query::IdEquals(JobId::from(id)))).unwrap();
                        if let Some(mut job) = job.into_iter().next() {
                            edit(&mut job);
                            self.history
                                .record(Op::Update(job), |op| op.perform(&self.backend));
                        }
                    }
                    Step::NotifyAll => finely(|| self.backend.notify_all()).unwrap(),
                    Step::Query => {
                        all(&self.backend);
                    }
                }
            }
        })
    }

    /// Run the threads and check the history.
    pub fn run(&self, run: &mut Run, bodies: Vec<Body<'_>>) -> Result<(), Violation> {
        interleave(run, bodies)?;
        let stored = all(&self.backend);
        run.note(|| format!("{:?}", stored.iter().map(brief).collect::<Vec<_>>()));
        run.state_of(&stored.iter().map(brief).collect::<Vec<_>>());
        let calls = self.history.calls();
        if let Some(call) = calls.iter().find(|call| matches!(call.res, Res::Failed(_))) {
            return Err(format!("operation failed: {} {:?}", call.op.brief(), call.res).into());
        }
        linearizable(&self.initial, &calls, &stored, Utc::now())
            .map_err(|message| Violation::new("history", message))
    }

    /// Nobody sleeps while there is something to do.
    pub fn no_lost_wakeup(&self) -> Result<(), Violation> {
        let stored = all(&self.backend);
        for executor in self.idle.lock().unwrap().iter() {
            if let Some(job) = stored.iter().find(|job| {
                job.executor == *executor && waiting(job.status) && job.scheduled_at <= Utc::now()
            }) {
                return Err(format!(
                    "lost wake-up: a worker of {executor} sleeps while job {} is due",
                    brief(job)
                )
                .into());
            }
        }
        Ok(())
    }

    pub fn summary(&self) -> String {
        let stored = all(&self.backend);
        let mut jobs: Vec<_> = stored
            .iter()
            .map(|job| format!("{:?}#{}", job.status, job.attempt))
            .collect();
        jobs.sort();
        jobs.join(" ")
    }
}
