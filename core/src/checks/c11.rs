//! Uniqueness criteria match and resolve conflicts exactly as specified.
use chrono::{DateTime, TimeDelta, Utc};
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    backend::{Backend, EnqueuableJob, Job, memory::InMemoryBackend},
    executor::Executor,
    job::{JobId, JobStatus, uniqueness_criteria::{Replace, Resolution, UniquenessCriteria}},
};

use crate::{
    common::{Claimer, all, bring, enqueuable, freeze, frozen, get, millis, now, unique},
    executors::{Data, Plain, Unique},
    world::at,
};

const P: &str = "plain";
const SECOND: i64 = 1_000;

/// What is meant by the criteria.
#[derive(Clone, Debug, Default)]
struct Meaning {
    key: Option<&'static str>,
    executor: bool,
    statuses: &'static [JobStatus],
    within: Option<i64>,
    replace: Option<(Fields, &'static [JobStatus])>,
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Fields {
    scheduled_at: bool,
    data: bool,
    metadata: bool,
    priority: bool,
    max_attempts: bool,
}

const DEFAULT: &[JobStatus] = &[JobStatus::Scheduled];
const STATUSES: [&[JobStatus]; 5] = [
    DEFAULT,
    &[JobStatus::Complete],
    &[],
    &[JobStatus::Executing, JobStatus::Retryable],
    &JobStatus::ALL,
];

fn fields(mask: usize) -> Fields {
    Fields {
        scheduled_at: mask & 1 != 0,
        data: mask & 2 != 0,
        metadata: mask & 4 != 0,
        priority: mask & 8 != 0,
        max_attempts: mask & 16 != 0,
    }
}

/// The criteria as a plain value.
fn literal(meaning: &Meaning) -> UniquenessCriteria<'static> {
    let mut criteria = UniquenessCriteria {
        key: None,
        executor: meaning.executor,
        duration: meaning.within.map(millis),
        statuses: meaning.statuses,
        on_conflict: match meaning.replace {
            None => Resolution::DoNothing,
            Some((fields, for_statuses)) => Resolution::Replace(Replace {
                scheduled_at: fields.scheduled_at,
                data: fields.data,
                metadata: fields.metadata,
                priority: fields.priority,
                max_attempts: fields.max_attempts,
                for_statuses,
            }),
        },
    };
    if let Some(key) = meaning.key {
        criteria = criteria.and_key(&key);
    }
    criteria
}

#[derive(Clone, Debug, Hash)]
struct Stored {
    executor: &'static str,
    status: usize,
    key: Option<&'static str>,
    /// Relative to now, or the same as the new one.
    offset: Option<i64>,
}

const ORDER: [JobStatus; 6] = [
    JobStatus::Scheduled,
    JobStatus::Complete,
    JobStatus::Executing,
    JobStatus::Retryable,
    JobStatus::Cancelled,
    JobStatus::Discarded,
];

impl Stored {
    fn scheduled_at(&self, new: DateTime<Utc>) -> DateTime<Utc> {
        match self.offset {
            Some(offset) => Utc::now() + millis(offset),
            None => new,
        }
    }

    fn satisfies(&self, meaning: &Meaning, executor: &str, new: DateTime<Utc>) -> bool {
        let age = (self.scheduled_at(new) - Utc::now()).num_milliseconds().abs();
        meaning.key.is_none_or(|key| self.key == Some(key))
            && (!meaning.executor || self.executor == executor)
            && meaning.statuses.contains(&ORDER[self.status])
            && meaning
                .within
                .is_none_or(|within| age < within || self.scheduled_at(new) == new)
    }

    /// Whether it is exactly at the border of the duration.
    fn border(&self, meaning: &Meaning, new: DateTime<Utc>) -> bool {
        let age = (self.scheduled_at(new) - Utc::now()).num_milliseconds().abs();
        meaning.within == Some(age) && self.scheduled_at(new) != new
    }

    fn store(&self, backend: &InMemoryBackend, n: i64, new: DateTime<Utc>) -> JobId {
        let mut job = enqueuable(self.executor, n, at(-1_000_000));
        job.metadata = serde_json::json!("old");
        job.tags = vec!["old".to_owned()];
        job.priority = 5;
        job.max_attempts = 4;
        if let Some(key) = self.key {
            // Criteria which match nothing.
            let criteria = UniquenessCriteria::by_statuses(&[]).and_key(&key);
            job = unique(job, criteria);
        }
        let id = now(backend.enqueue(job)).unwrap();
        let mut claimer = Claimer::new(backend, self.executor);
        bring(backend, &mut claimer, id, ORDER[self.status]);
        let mut job = get(backend, id).unwrap();
        job.scheduled_at = self.scheduled_at(new);
        now(backend.update_job(job)).unwrap();
        id
    }
}

fn new_job(executor: &str, scheduled_at: DateTime<Utc>) -> EnqueuableJob<'static> {
    let mut job = enqueuable(executor, 77, scheduled_at);
    job.metadata = serde_json::json!("new");
    job.tags = vec!["new".to_owned()];
    job.priority = 40_001;
    job.max_attempts = 50_009;
    job
}

/// Judge the enqueue of the new job given what was stored before.
fn judge(
    stored: &[Stored],
    ids: &[JobId],
    before: &[Job],
    after: &[Job],
    result: JobId,
    meaning: &Meaning,
    new: &EnqueuableJob<'_>,
) -> Result<&'static str, Violation> {
    let what = || format!("{meaning:?} enqueued {} with {stored:?}", new.executor);
    let matching: Vec<JobId> = stored
        .iter()
        .zip(ids)
        .filter(|(stored, _)| stored.satisfies(meaning, &new.executor, new.scheduled_at))
        .map(|(_, id)| *id)
        .collect();
    let outcome = if matching.is_empty() {
        ensure!(
            !ids.contains(&result),
            "a conflict was found where there is none: {}",
            what()
        );
        ensure!(
            after.len() == before.len() + 1,
            "the job was not stored: {}",
            what()
        );
        let job = after.iter().find(|job| job.id == i32::from(result));
        ensure!(
            job.is_some_and(|job| job.data == new.data
                && job.metadata == new.metadata
                && job.priority == new.priority as i32
                && job.max_attempts == new.max_attempts as i32
                && job.scheduled_at == new.scheduled_at
                && job.executor == new.executor
                && job.tags == new.tags
                && job.status == JobStatus::Scheduled),
            "the job was stored wrongly as {job:?}: {}",
            what()
        );
        "stored"
    } else {
        ensure!(
            after.len() == before.len(),
            "a duplicate was stored: {}",
            what()
        );
        ensure!(
            matching.contains(&result),
            "returned {result} instead of the conflicting {matching:?}: {}",
            what()
        );
        "conflict"
    };
    for job in before {
        let mut expected = job.clone();
        if job.id == i32::from(result)
            && !matching.is_empty()
            && let Some((fields, statuses)) = meaning.replace
            && statuses.contains(&job.status)
        {
            if fields.scheduled_at {
                expected.scheduled_at = new.scheduled_at;
            }
            if fields.data {
                expected.data = new.data.clone();
            }
            if fields.metadata {
                expected.metadata = new.metadata.clone();
            }
            if fields.priority {
                expected.priority = new.priority as i32;
            }
            if fields.max_attempts {
                expected.max_attempts = new.max_attempts as i32;
            }
        }
        let stored = after.iter().find(|stored| stored.id == job.id);
        ensure!(
            stored == Some(&expected),
            "job {} became {stored:?} instead of {expected:?}: {}",
            job.id,
            what()
        );
    }
    Ok(outcome)
}

const KEYS: [Option<&str>; 3] = [None, Some("a"), Some("b")];
const EXECUTORS: [&str; 2] = [P, "plain_other"];

fn pick_stored(run: &mut Run, offsets: &[Option<i64>]) -> Stored {
    Stored {
        executor: run.pick(&EXECUTORS),
        status: run.choose(6),
        key: *run.pick(&KEYS),
        offset: *run.pick(offsets),
    }
}

fn everything() -> Option<(Fields, &'static [JobStatus])> {
    Some((fields(31), &JobStatus::ALL))
}

pub fn run(check: &mut Check) {
    check.assume("A stored job exactly at the border of the duration may count either way.");
    let offsets: Vec<Option<i64>> = check.by_tier(
        vec![None, Some(-1_001), Some(-999), Some(0), Some(999), Some(1_001)],
        vec![None, Some(-86_400_000), Some(-1_001), Some(-999), Some(-1), Some(0), Some(1), Some(999), Some(1_001), Some(5_000), Some(86_400_000)],
    );
    check.scenario("criteria", 0, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let meaning = Meaning {
            key: *run.pick(&[None, Some("a")]),
            executor: run.flag(),
            statuses: *run.pick(&STATUSES),
            within: *run.pick(&[None, Some(0), Some(SECOND), Some(86_400_000_000), Some(i64::MAX)]),
            replace: if run.flag() { everything() } else { None },
        };
        let scheduled_at = Utc::now() + millis(*run.pick(&[0, 5_000]));
        let stored = pick_stored(run, &offsets);
        if stored.border(&meaning, scheduled_at) {
            return Ok("border".to_owned());
        }
        run.state_of(&(format!("{meaning:?}"), &stored));
        let backend = InMemoryBackend::new();
        let id = stored.store(&backend, 0, scheduled_at);
        let before = all(&backend);
        let new = unique(new_job(P, scheduled_at), literal(&meaning));
        let result = now(backend.enqueue(new.clone())).unwrap();
        judge(&[stored], &[id], &before, &all(&backend), result, &meaning, &new).map(str::to_owned)
    });
    check.scenario("resolutions", 0, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let replace = fields(run.choose(32));
        let meaning = Meaning {
            statuses: &JobStatus::ALL,
            executor: run.flag(),
            replace: Some((replace, run.pick(&STATUSES))),
            ..Default::default()
        };
        let stored = pick_stored(run, &[Some(0)]);
        // More or less than what is stored.
        let low = run.flag();
        let scheduled_at = Utc::now() + millis(if low { -5_000 } else { 5_000 });
        run.state_of(&(format!("{meaning:?}"), &stored, low));
        let backend = InMemoryBackend::new();
        let id = stored.store(&backend, 0, scheduled_at);
        let mut new = unique(new_job(P, scheduled_at), literal(&meaning));
        if low {
            // Less than what has been used.
            new.priority = 1;
            new.max_attempts = 0;
        }
        let before = all(&backend);
        let result = now(backend.enqueue(new.clone())).unwrap();
        judge(&[stored], &[id], &before, &all(&backend), result, &meaning, &new).map(str::to_owned)
    });
    let small = [None, Some(500), Some(3_000)];
    check.scenario("several stored", 0, |run| {
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let meaning = Meaning {
            key: *run.pick(&[None, Some("a")]),
            executor: run.flag(),
            statuses: *run.pick(&[DEFAULT, &[JobStatus::Complete], &JobStatus::ALL]),
            within: *run.pick(&[None, Some(SECOND)]),
            replace: if run.flag() { everything() } else { None },
        };
        let scheduled_at = Utc::now() + millis(5_000);
        let mut stored = Vec::new();
        for _ in 0..2 {
            stored.push(Stored {
                executor: run.pick(&EXECUTORS),
                status: run.choose(3),
                key: *run.pick(&[None, Some("a")]),
                offset: *run.pick(&small),
            });
        }
        run.state_of(&(format!("{meaning:?}"), &stored));
        let backend = InMemoryBackend::new();
        let ids: Vec<_> = stored
            .iter()
            .enumerate()
            .map(|(n, stored)| stored.store(&backend, n as i64, scheduled_at))
            .collect();
        let before = all(&backend);
        let new = unique(new_job(P, scheduled_at), literal(&meaning));
        let result = now(backend.enqueue(new.clone())).unwrap();
        judge(&stored, &ids, &before, &all(&backend), result, &meaning, &new).map(str::to_owned)
    });
    let depth = check.by_tier(3, 4);
    check.scenario("builders", 0, |run| {
        // All sequences of builder calls against a fixed set of stored jobs.
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let (meaning, criteria) = build(run, depth);
        let scheduled_at = Utc::now() + millis(5_000);
        let stored: Vec<Stored> = match run.choose(4) {
            0 => vec![(P, 0, None, Some(500))],
            1 => vec![("plain_other", 1, Some("a"), Some(3_000))],
            2 => vec![(P, 2, Some("b"), Some(3_000)), ("plain_other", 0, Some("a"), None)],
            _ => vec![(P, 1, Some("a"), Some(-500)), ("plain_other", 3, None, Some(0))],
        }
        .into_iter()
        .map(|(executor, status, key, offset)| Stored { executor, status, key, offset })
        .collect();
        run.state_of(&format!("{meaning:?}{stored:?}"));
        let backend = InMemoryBackend::new();
        let ids: Vec<_> = stored
            .iter()
            .enumerate()
            .map(|(n, stored)| stored.store(&backend, n as i64, scheduled_at))
            .collect();
        let before = all(&backend);
        let template = new_job(P, scheduled_at);
        let result = now(Plain::builder()
            .unique(criteria)
            .with_data(Data::n(77))
            .with_metadata("new".to_owned())
            .with_tags(vec!["new"])
            .with_priority(40_001)
            .with_max_attempts(50_009)
            .schedule_at(scheduled_at)
            .enqueue_to_backend(&backend))
        .unwrap();
        judge(&stored, &ids, &before, &all(&backend), result, &meaning, &template).map(str::to_owned)
    });
    check.scenario("executor defaults", 0, |run| {
        // The default of this executor: one scheduled job, its priority is replaced.
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let explicit = run.choose(3);
        let stored = Stored {
            executor: if run.flag() { "unique" } else { "plain_other" },
            status: run.choose(6),
            key: *run.pick(&[None, Some("a")]),
            offset: *run.pick(&small),
        };
        let scheduled_at = Utc::now() + millis(5_000);
        let backend = InMemoryBackend::new();
        let id = stored.store(&backend, 0, scheduled_at);
        let before = all(&backend);
        let mut meaning = Meaning {
            executor: true,
            statuses: DEFAULT,
            replace: Some((Fields { priority: true, ..Default::default() }, &JobStatus::ALL)),
            ..Default::default()
        };
        let mut builder = Unique::builder();
        match explicit {
            0 => {}
            1 => {
                meaning = Meaning { key: Some("a"), statuses: &JobStatus::ALL, ..Default::default() };
                builder = builder.unique(literal(&meaning));
            }
            _ => {
                meaning = Meaning { statuses: &[], ..Default::default() };
                builder = builder.unique(literal(&meaning));
            }
        }
        let mut template = new_job("unique", scheduled_at);
        template.max_attempts = 7;
        run.state_of(&(explicit, &stored));
        let result = now(builder
            .with_data(Data::n(77))
            .with_metadata("new".to_owned())
            .with_tags(vec!["new"])
            .with_priority(40_001)
            .schedule_at(scheduled_at)
            .enqueue_to_backend(&backend))
        .unwrap();
        judge(&[stored], &[id], &before, &all(&backend), result, &meaning, &template).map(str::to_owned)
    });
    check.scenario("sequences", 0, |run| {
        // What is stored by unique enqueues is found by the following ones, as time passes.
        let _frozen = frozen();
        let _guard = _frozen.enter();
        let backend = InMemoryBackend::new();
        let mut stored: Vec<Stored> = Vec::new();
        let mut ids: Vec<JobId> = Vec::new();
        let mut outcomes = Vec::new();
        for step in 0..3 {
            freeze(step * 700);
            let mut meaning = Meaning {
                key: *run.pick(&[None, Some("a"), Some("b")]),
                executor: run.flag(),
                statuses: *run.pick(&[DEFAULT, &[]]),
                within: *run.pick(&[None, Some(SECOND)]),
                replace: None,
            };
            if meaning.key.is_none() && run.flag() {
                meaning.executor = true;
            }
            let executor = *run.pick(&EXECUTORS);
            let scheduled_at = Utc::now();
            // Offsets are relative to now.
            for (stored, id) in stored.iter_mut().zip(&ids) {
                let job = get(&backend, *id).unwrap();
                stored.offset = Some((job.scheduled_at - Utc::now()).num_milliseconds());
            }
            let before = all(&backend);
            let new = unique(new_job(executor, scheduled_at), literal(&meaning));
            let result = now(backend.enqueue(new.clone())).unwrap();
            let outcome = judge(&stored, &ids, &before, &all(&backend), result, &meaning, &new)?;
            outcomes.push(outcome);
            if outcome == "stored" {
                ids.push(result);
                stored.push(Stored { executor, status: 0, key: meaning.key, offset: None });
            }
            run.state_of(&(step, format!("{meaning:?}"), ids.len()));
        }
        Ok(outcomes.join(","))
    });
    let _ = TimeDelta::zero();
}

/// A sequence of builder calls and what it means.
fn build(run: &mut Run, depth: usize) -> (Meaning, UniquenessCriteria<'static>) {
    let mut meaning = Meaning {
        statuses: DEFAULT,
        ..Default::default()
    };
    let mut criteria = match run.choose(4) {
        0 => {
            meaning.executor = true;
            UniquenessCriteria::by_executor()
        }
        1 => {
            meaning.within = Some(SECOND);
            UniquenessCriteria::within(millis(SECOND))
        }
        2 => {
            meaning.statuses = &[JobStatus::Complete];
            UniquenessCriteria::by_statuses(&[JobStatus::Complete])
        }
        _ => {
            meaning.key = Some("a");
            UniquenessCriteria::by_key(&"a")
        }
    };
    for _ in 0..depth {
        match run.choose(8) {
            0 => return (meaning, criteria),
            1 => {
                meaning.executor = true;
                criteria = criteria.and_executor();
            }
            2 => {
                meaning.within = Some(86_400_000);
                criteria = criteria.and_within(millis(86_400_000));
            }
            3 => {
                meaning.statuses = &JobStatus::ALL;
                criteria = criteria.and_statuses(&JobStatus::ALL);
            }
            4 => {
                meaning.key = Some("b");
                criteria = criteria.and_key(&"b");
            }
            5 => {
                let (fields, replace) = build_replace(run);
                meaning.replace = Some(fields);
                criteria = criteria.on_conflict(replace);
            }
            6 => {
                meaning.replace = None;
                criteria = criteria.on_conflict_do_nothing();
            }
            _ => {
                meaning.key = Some("a");
                criteria = criteria.and_key(&"a");
            }
        }
    }
    (meaning, criteria)
}

fn build_replace(run: &mut Run) -> ((Fields, &'static [JobStatus]), Replace<'static>) {
    let first = run.choose(5);
    let mut mask = 1 << first;
    let mut replace = match first {
        0 => Replace::scheduled_at(),
        1 => Replace::data(),
        2 => Replace::metadata(),
        3 => Replace::priority(),
        _ => Replace::max_attempts(),
    };
    let mut statuses = DEFAULT;
    match run.choose(7) {
        0 => {}
        1 => {
            statuses = &JobStatus::ALL;
            replace = replace.for_statuses(&JobStatus::ALL);
        }
        n => {
            mask |= 1 << (n - 2);
            replace = match n - 2 {
                0 => replace.and_scheduled_at(),
                1 => replace.and_data(),
                2 => replace.and_metadata(),
                3 => replace.and_priority(),
                _ => replace.and_max_attempts(),
            };
            if n % 2 == 0 {
                statuses = &[JobStatus::Complete];
                replace = replace.for_statuses(&[JobStatus::Complete]);
            }
        }
    }
    ((fields(mask), statuses), replace)
}
