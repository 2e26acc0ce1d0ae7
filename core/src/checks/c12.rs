//! Enqueueing stores and delivers exactly what was asked for.
use chrono::{DateTime, Utc};
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    Rexecutor,
    backend::{Backend, Job, memory::InMemoryBackend},
    executor::{ExecutionResult, Executor},
    job::{
        JobId, JobStatus,
        builder::{JobBuilder, NoData, WithData},
        uniqueness_criteria::UniquenessCriteria,
    },
};

use crate::{
    common::{all, freeze, frozen, get, millis, now},
    executors::{Data, Plain, Unique},
    world::{Act, Setup, What, at, simulate},
};

/// An executor that uses all defaults, its data is optional.
struct Defaults;
#[async_trait::async_trait]
impl Executor for Defaults {
    type Data = Option<Data>;
    type Metadata = Vec<i64>;
    const NAME: &'static str = "defaults";
    async fn execute(job: rexecutor::job::Job<Self::Data, Self::Metadata>) -> ExecutionResult {
        crate::world::World::current().note(format!(
            "{}",
            serde_json::json!([
                job.data,
                job.metadata,
                job.tags,
                job.priority,
                job.max_attempts,
                job.scheduled_at
            ])
        ));
        ExecutionResult::Done
    }
}

struct Unit;
#[async_trait::async_trait]
impl Executor for Unit {
    type Data = ();
    type Metadata = serde_json::Value;
    const NAME: &'static str = "unit";
    const MAX_ATTEMPTS: u16 = 11;
    async fn execute(_: rexecutor::job::Job<(), serde_json::Value>) -> ExecutionResult {
        ExecutionResult::Done
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Wanted {
    executor: &'static str,
    data: serde_json::Value,
    metadata: serde_json::Value,
    tags: Vec<String>,
    priority: u16,
    max_attempts: u16,
    scheduled_at: DateTime<Utc>,
}

impl Wanted {
    fn new(executor: &'static str, max_attempts: u16) -> Self {
        Self {
            executor,
            data: serde_json::Value::Null,
            metadata: serde_json::Value::Null,
            tags: Vec::new(),
            priority: 0,
            max_attempts,
            scheduled_at: Utc::now(),
        }
    }

    fn check(&self, job: &Job, calls: &[String]) -> Result<(), Violation> {
        let stored = Wanted {
            executor: self.executor,
            data: job.data.clone(),
            metadata: job.metadata.clone(),
            tags: job.tags.clone(),
            priority: job.priority.try_into().map_err(|_| "not a priority")?,
            max_attempts: job.max_attempts.try_into().map_err(|_| "not a number of attempts")?,
            scheduled_at: job.scheduled_at,
        };
        ensure!(
            *self == stored && job.executor == self.executor,
            "stored {stored:?} instead of {self:?} after {calls:?}"
        );
        ensure!(
            job.status == JobStatus::Scheduled
                && job.attempt == 0
                && job.errors.is_empty()
                && job.inserted_at == Utc::now()
                && job.attempted_at.is_none()
                && job.completed_at.is_none()
                && job.cancelled_at.is_none()
                && job.discarded_at.is_none(),
            "not a fresh job after {calls:?}: {job:?}"
        );
        Ok(())
    }
}

enum Builder<E: Executor + 'static> {
    Without(JobBuilder<'static, E, NoData>),
    With(JobBuilder<'static, E, WithData>),
}

const CALLS: usize = 16;

macro_rules! either {
    ($builder:expr, $name:ident => $call:expr) => {
        match $builder {
            Builder::Without($name) => Builder::Without($call),
            Builder::With($name) => Builder::With($call),
        }
    };
}

/// One call on the builder (other than for data and metadata).
fn call<E: Executor + 'static>(
    n: usize,
    builder: Builder<E>,
    wanted: &mut Wanted,
    calls: &mut Vec<String>,
    metadata: fn(usize) -> E::Metadata,
    data: fn(usize) -> E::Data,
) -> Builder<E> {
    let (name, builder) = match n {
        0 | 1 => {
            wanted.data = serde_json::to_value(data(n)).unwrap();
            let builder = match builder {
                Builder::Without(builder) => builder.with_data(data(n)),
                Builder::With(builder) => builder.with_data(data(n)),
            };
            (format!("data {n}"), Builder::With(builder))
        }
        2 | 3 => {
            wanted.metadata = serde_json::to_value(metadata(n)).unwrap();
            (
                format!("metadata {n}"),
                either!(builder, b => b.with_metadata(metadata(n))),
            )
        }
        4 | 5 => {
            let tag = ["a", "b"][n - 4];
            wanted.tags.push(tag.to_owned());
            (format!("tag {tag}"), either!(builder, b => b.add_tag(tag)))
        }
        6 => {
            wanted.tags = vec!["c".to_owned(), "d".to_owned()];
            (
                "tags c d".to_owned(),
                either!(builder, b => b.with_tags(vec!["c", "d"])),
            )
        }
        7 => {
            wanted.tags = Vec::new();
            (
                "no tags".to_owned(),
                either!(builder, b => b.with_tags(Vec::<String>::new())),
            )
        }
        8 | 9 => {
            let priority = [4, u16::MAX][n - 8];
            wanted.priority = priority;
            (
                format!("priority {priority}"),
                either!(builder, b => b.with_priority(priority)),
            )
        }
        10 | 11 => {
            let max_attempts = [1, u16::MAX][n - 10];
            wanted.max_attempts = max_attempts;
            (
                format!("max attempts {max_attempts}"),
                either!(builder, b => b.with_max_attempts(max_attempts)),
            )
        }
        12 => {
            wanted.scheduled_at = at(123_456) + chrono::TimeDelta::nanoseconds(789);
            let scheduled_at = wanted.scheduled_at;
            (
                "at".to_owned(),
                either!(builder, b => b.schedule_at(scheduled_at)),
            )
        }
        13 | 14 => {
            let delay = [5_000, -7_000][n - 13];
            wanted.scheduled_at = Utc::now() + millis(delay);
            (
                format!("in {delay}"),
                either!(builder, b => b.schedule_in(millis(delay))),
            )
        }
        _ => {
            let criteria = UniquenessCriteria::by_key(&"never").and_statuses(&[]);
            (
                "unique".to_owned(),
                either!(builder, b => b.unique(criteria)),
            )
        }
    };
    calls.push(name);
    builder
}

/// All sequences of calls, returns the builder and what should be stored.
fn sequence<E: Executor + 'static>(
    run: &mut Run,
    depth: usize,
    data: fn(usize) -> E::Data,
    metadata: fn(usize) -> E::Metadata,
) -> (Builder<E>, Wanted, Vec<String>) {
    let mut calls = Vec::new();
    // The default of executors which do not define their own.
    let max_attempts = match E::NAME == Defaults::NAME {
        true => 5,
        false => E::MAX_ATTEMPTS,
    };
    let mut wanted = Wanted::new(E::NAME, max_attempts);
    let mut builder = Builder::Without(E::builder());
    for _ in 0..depth {
        let n = run.choose(CALLS + 1);
        if n == CALLS {
            break;
        }
        builder = call(n, builder, &mut wanted, &mut calls, metadata, data);
    }
    (builder, wanted, calls)
}

fn some_data(n: usize) -> Data {
    match n {
        0 => Data::n(-1),
        _ => Data::n(i64::MAX).backoff(3).timeout(Some(u64::MAX)),
    }
}

/// The job is stored next to others, which stay as they are.
fn stored(
    backend: &InMemoryBackend,
    before: &[Job],
    id: JobId,
    wanted: &Wanted,
    calls: &[String],
) -> Result<(), Violation> {
    let after = all(backend);
    ensure!(
        after.len() == before.len() + 1,
        "{} jobs stored by one enqueue after {calls:?}",
        after.len() as i64 - before.len() as i64
    );
    ensure!(
        before.iter().all(|job| job.id != i32::from(id)),
        "the id {id} is not fresh"
    );
    for job in before {
        ensure!(after.contains(job), "another job changed: {job:?}");
    }
    wanted.check(&get(backend, id).ok_or("the job is not stored")?, calls)
}

pub fn run(check: &mut Check) {
    check.assume("All builder calls and the enqueue happen at the same instant.");
    let depth = check.by_tier(4, 5);
    check.scenario("builder", 0, |run| {
        let _frozen = frozen();
        freeze(4_321);
        let (builder, mut wanted, mut calls) =
            sequence::<Plain>(run, depth, some_data, |n| format!("metadata {n}"));
        let backend = InMemoryBackend::new();
        let mut ids = Vec::new();
        for n in 0..2 {
            ids.push(now(Plain::builder().with_data(Data::n(n)).enqueue_to_backend(&backend)).unwrap());
        }
        let builder = match builder {
            Builder::With(builder) => builder,
            Builder::Without(builder) => {
                calls.push("data".to_owned());
                wanted.data = some_data(0).json();
                builder.with_data(some_data(0))
            }
        };
        let before = all(&backend);
        let id = now(builder.enqueue_to_backend(&backend)).unwrap();
        run.state_of(&format!("{wanted:?}"));
        stored(&backend, &before, id, &wanted, &calls)?;
        Ok(format!("{} calls", calls.len()))
    });
    check.scenario("optional data", 0, |run| {
        let _frozen = frozen();
        let (builder, wanted, calls) = sequence::<Defaults>(
            run,
            3,
            |n| if n == 0 { None } else { Some(some_data(n)) },
            |n| vec![n as i64; n],
        );
        let backend = InMemoryBackend::new();
        let id = match builder {
            Builder::With(builder) => now(builder.enqueue_to_backend(&backend)),
            Builder::Without(builder) => now(builder.enqueue_to_backend(&backend)),
        }
        .unwrap();
        run.state_of(&format!("{wanted:?}"));
        stored(&backend, &[], id, &wanted, &calls)?;
        Ok("stored".to_owned())
    });
    check.scenario("unit data", 0, |run| {
        let _frozen = frozen();
        let (builder, wanted, calls) = sequence::<Unit>(
            run,
            3,
            |_| (),
            |n| serde_json::json!({"nested": {"n": n, "list": [null, "ü\u{1F600}\"\\"]}}),
        );
        let backend = InMemoryBackend::new();
        let id = match builder {
            Builder::With(builder) => now(builder.enqueue_to_backend(&backend)),
            Builder::Without(builder) => now(builder.enqueue_to_backend(&backend)),
        }
        .unwrap();
        run.state_of(&format!("{wanted:?}"));
        stored(&backend, &[], id, &wanted, &calls)?;
        Ok("stored".to_owned())
    });
    check.scenario("executor with own defaults", 0, |run| {
        let _frozen = frozen();
        let (builder, mut wanted, mut calls) =
            sequence::<Unique>(run, 2, some_data, |n| format!("metadata {n}"));
        let backend = InMemoryBackend::new();
        let builder = match builder {
            Builder::With(builder) => builder,
            Builder::Without(builder) => {
                calls.push("data".to_owned());
                wanted.data = some_data(1).json();
                builder.with_data(some_data(1))
            }
        };
        let id = now(builder.enqueue_to_backend(&backend)).unwrap();
        run.state_of(&format!("{wanted:?}"));
        stored(&backend, &[], id, &wanted, &calls)?;
        Ok("stored".to_owned())
    });
    check.scenario("delivered", 0, |run| {
        // The executor receives what was asked for.
        let depth = 3;
        simulate(Setup::new(&[]).phase(123_456), |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new();
            let (builder, mut wanted, _) =
                sequence::<Plain>(run, depth, |n| Data::n(n as i64 + 40).backoff(n as i64), |n| format!("metadata {n}"));
            let builder = match builder {
                Builder::With(builder) => builder,
                Builder::Without(builder) => {
                    wanted.data = Data::n(3).json();
                    builder.with_data(Data::n(3))
                }
            };
            let id = builder.enqueue_to_backend(&backend).await.unwrap();
            let guard = Rexecutor::new(backend.clone())
                .with_executor::<Plain>()
                .with_executor::<Defaults>()
                .drop_guard();
            tokio::time::sleep(std::time::Duration::from_secs(200)).await;
            world.settle().await;
            let views: Vec<_> = world
                .events()
                .into_iter()
                .filter_map(|event| match event.what {
                    What::Start { view, .. } => Some(view),
                    _ => None,
                })
                .collect();
            ensure!(
                views.len() == 1 && views[0].id == i32::from(id),
                "delivered {} times: {wanted:?}",
                views.len()
            );
            let view = &views[0];
            let seen = Wanted {
                executor: "plain",
                data: view.data.clone(),
                metadata: view.metadata.clone(),
                tags: view.tags.clone(),
                priority: view.priority,
                max_attempts: view.max_attempts,
                scheduled_at: view.scheduled_at,
            };
            run.state_of(&format!("{wanted:?}"));
            ensure!(seen == wanted, "delivered {seen:?} instead of {wanted:?}");
            ensure!(
                view.attempt == 1 && view.errors == 0 && view.status == JobStatus::Executing,
                "not delivered as the first attempt: {view:?}"
            );
            drop(guard);
            Ok("delivered".to_owned())
        })
    });
    check.scenario("delivered with defaults", 0, |run| {
        simulate(Setup::new(&[]), |_, _| Act::Done, async |world| {
            let backend = InMemoryBackend::new();
            let (builder, wanted, _) = sequence::<Defaults>(
                run,
                2,
                |n| if n == 0 { None } else { Some(some_data(n)) },
                |n| vec![n as i64; n],
            );
            match builder {
                Builder::With(builder) => builder.enqueue_to_backend(&backend).await,
                Builder::Without(builder) => builder.enqueue_to_backend(&backend).await,
            }
            .unwrap();
            let guard = Rexecutor::new(backend.clone())
                .with_executor::<Defaults>()
                .drop_guard();
            tokio::time::sleep(std::time::Duration::from_secs(200)).await;
            world.settle().await;
            let notes: Vec<_> = world
                .events()
                .into_iter()
                .filter_map(|event| match event.what {
                    What::Note(note) => Some(note),
                    _ => None,
                })
                .collect();
            let expected = serde_json::json!([
                wanted.data,
                wanted.metadata,
                wanted.tags,
                wanted.priority,
                wanted.max_attempts,
                wanted.scheduled_at
            ])
            .to_string();
            run.state_of(&expected);
            ensure!(
                notes == [expected.clone()],
                "delivered {notes:?} instead of {expected}"
            );
            drop(guard);
            Ok("delivered".to_owned())
        })
    });
    check.scenario("many", 0, |run| {
        // Fresh ids for all, whatever happens to the others.
        let _frozen = frozen();
        let backend = InMemoryBackend::new();
        let mut ids = std::collections::BTreeSet::new();
        for n in 0..5 {
            let builder = Plain::builder().with_data(Data::n(n));
            let id = now(builder.enqueue_to_backend(&backend)).unwrap();
            ensure!(ids.insert(i32::from(id)), "the id {id} was used before");
            match run.choose(4) {
                0 => {}
                1 => now(backend.mark_job_complete(id)).unwrap(),
                2 => {
                    now(backend.mark_job_complete(id)).unwrap();
                    now(backend.prune_jobs(&crate::common::prune_length(JobStatus::Complete, 0))).unwrap();
                }
                _ => {
                    now(backend.mark_job_cancelled(id, crate::common::error("e"))).unwrap();
                    now(backend.prune_jobs(&crate::common::prune_age(JobStatus::Cancelled, -10))).unwrap();
                }
            }
            run.state_of(&all(&backend).iter().map(crate::world::brief).collect::<Vec<_>>());
        }
        Ok("distinct".to_owned())
    });
}
