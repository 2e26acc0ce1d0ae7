//! The executors used in the scenarios: what a job does is decided by the world.
use chrono::TimeDelta;
use rexecutor::{
    executor::{ExecutionResult, Executor},
    job::{
        Job, JobStatus,
        uniqueness_criteria::{Replace, UniquenessCriteria},
    },
};
use serde::{Deserialize, Serialize};

use crate::world::{View, World};

#[derive(Serialize, Deserialize, Clone, Debug, Hash, PartialEq, Eq, Default)]
pub struct Data {
    pub n: i64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub timeout_ms: Option<u64>,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub backoff_ms: i64,
}

fn is_zero(value: &i64) -> bool {
    *value == 0
}

impl Data {
    pub fn n(n: i64) -> Self {
        Self {
            n,
            ..Default::default()
        }
    }
    pub fn backoff(mut self, ms: i64) -> Self {
        self.backoff_ms = ms;
        self
    }
    pub fn timeout(mut self, ms: Option<u64>) -> Self {
        self.timeout_ms = ms;
        self
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::to_value(self).unwrap()
    }
}

pub fn backoff_of(data: &Data) -> TimeDelta {
    match data.backoff_ms {
        i64::MAX => TimeDelta::MAX,
        i64::MIN => TimeDelta::MIN,
        ms => TimeDelta::milliseconds(ms),
    }
}

pub fn view(job: &Job<Data, String>) -> View {
    View {
        id: job.id.into(),
        attempt: job.attempt,
        max_attempts: job.max_attempts,
        priority: job.priority,
        tags: job.tags.clone(),
        data: job.data.json(),
        metadata: serde_json::to_value(&job.metadata).unwrap(),
        scheduled_at: job.scheduled_at,
        errors: job.errors.len(),
        status: job.status,
    }
}

macro_rules! executor {
    ($type:ident, $name:literal, $concurrency:expr, $blocking:literal) => {
        executor!($type, $name, $concurrency, $blocking, 3, None);
    };
    ($type:ident, $name:literal, $concurrency:expr, $blocking:literal, $attempts:literal, $unique:expr) => {
        pub struct $type;
        #[async_trait::async_trait]
        impl Executor for $type {
            type Data = Data;
            type Metadata = String;
            const NAME: &'static str = $name;
            const MAX_ATTEMPTS: u16 = $attempts;
            const MAX_CONCURRENCY: Option<usize> = $concurrency;
            const BLOCKING: bool = $blocking;
            const UNIQUENESS_CRITERIA: Option<UniquenessCriteria<'static>> = $unique;
            async fn execute(job: Job<Self::Data, Self::Metadata>) -> ExecutionResult {
                World::current().body(Self::NAME, view(&job)).await
            }
            fn backoff(job: &Job<Self::Data, Self::Metadata>) -> TimeDelta {
                World::point_of_current();
                backoff_of(&job.data)
            }
            fn timeout(job: &Job<Self::Data, Self::Metadata>) -> Option<std::time::Duration> {
                World::point_of_current();
                job.data.timeout_ms.map(std::time::Duration::from_millis)
            }
        }
    };
}

executor!(Plain, "plain", None, false);
executor!(Other, "plain_other", None, false);
executor!(One, "one", Some(1), false);
executor!(Two, "two", Some(2), false);
executor!(Three, "three", Some(3), false);
executor!(Block, "block", None, true);
executor!(BlockOne, "block_one", Some(1), true);
executor!(BlockTwo, "block_two", Some(2), true);
executor!(
    Unique,
    "unique",
    None,
    false,
    7,
    Some(
        UniquenessCriteria::by_executor()
            .on_conflict(Replace::priority().for_statuses(&JobStatus::ALL))
    )
);

/// Executors to choose from.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Which {
    Plain,
    Other,
    One,
    Two,
    Three,
    Block,
    BlockOne,
    BlockTwo,
}

impl Which {
    pub fn name(self) -> &'static str {
        match self {
            Which::Plain => Plain::NAME,
            Which::Other => Other::NAME,
            Which::One => One::NAME,
            Which::Two => Two::NAME,
            Which::Three => Three::NAME,
            Which::Block => Block::NAME,
            Which::BlockOne => BlockOne::NAME,
            Which::BlockTwo => BlockTwo::NAME,
        }
    }

    pub fn limit(self) -> usize {
        match self {
            Which::Plain | Which::Other | Which::Block => usize::MAX,
            Which::One | Which::BlockOne => 1,
            Which::Two | Which::BlockTwo => 2,
            Which::Three => 3,
        }
    }

    pub fn add<B>(
        self,
        rexecutor: rexecutor::Rexecutor<B, rexecutor::GlobalUnset>,
    ) -> rexecutor::Rexecutor<B, rexecutor::GlobalUnset>
    where
        B: rexecutor::backend::Backend + Clone + Send + Sync + 'static,
    {
        match self {
            Which::Plain => rexecutor.with_executor::<Plain>(),
            Which::Other => rexecutor.with_executor::<Other>(),
            Which::One => rexecutor.with_executor::<One>(),
            Which::Two => rexecutor.with_executor::<Two>(),
            Which::Three => rexecutor.with_executor::<Three>(),
            Which::Block => rexecutor.with_executor::<Block>(),
            Which::BlockOne => rexecutor.with_executor::<BlockOne>(),
            Which::BlockTwo => rexecutor.with_executor::<BlockTwo>(),
        }
    }
}
