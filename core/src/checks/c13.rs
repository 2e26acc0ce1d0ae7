//! Queries return exactly the matching jobs of the executor.
use chrono::{DateTime, Utc};
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    backend::{Backend, Job, Query, memory::InMemoryBackend},
    executor::Executor,
    job::{JobId, JobStatus, query::Where},
};

use crate::{
    common::{Claimer, all, bring, enqueuable, frozen, get, now},
    executors::{Data, Other, Plain},
    world::{at, ms},
};

pub(crate) const P: &str = "plain";

/// A condition.
#[derive(Clone, Debug, PartialEq)]
pub(crate) enum Leaf {
    Data(i64),
    Metadata(&'static str),
    Id(usize),
    NoId,
    Ids(Vec<usize>),
    Status(JobStatus),
    AllOf(&'static [&'static str]),
    OneOf(&'static [&'static str]),
    At(i64),
    Before(i64),
    After(i64),
    OlderThan(i64),
    Within(i64),
}

#[derive(Clone, Debug)]
pub(crate) enum Tree {
    Leaf(usize),
    Not(Box<Tree>),
    And(Box<Tree>, Box<Tree>),
    Or(Box<Tree>, Box<Tree>),
}

pub(crate) fn leaves() -> Vec<Leaf> {
    vec![
        // The first ones are used in larger trees.
        Leaf::Data(1),
        Leaf::Status(JobStatus::Complete),
        Leaf::OneOf(&["a", "b"]),
        Leaf::Before(2_000),
        Leaf::Ids(vec![0, 2, 5]),
        Leaf::AllOf(&["a", "b"]),
        Leaf::Metadata("m"),
        Leaf::After(1_000),
        // The others alone and in pairs.
        Leaf::Id(3),
        Leaf::NoId,
        Leaf::Ids(vec![]),
        Leaf::Ids(vec![4]),
        Leaf::AllOf(&[]),
        Leaf::OneOf(&[]),
        Leaf::AllOf(&["c"]),
        Leaf::OneOf(&["zzz"]),
        Leaf::At(1_000),
        Leaf::Before(1_000),
        Leaf::After(2_000),
        Leaf::OlderThan(500),
        Leaf::Within(500),
        Leaf::OlderThan(-1_000),
        Leaf::Status(JobStatus::Scheduled),
        Leaf::Status(JobStatus::Executing),
        Leaf::Status(JobStatus::Retryable),
        Leaf::Status(JobStatus::Discarded),
        Leaf::Data(2),
        Leaf::Metadata("plain_other"),
        Leaf::Id(8),
    ]
}

/// The stored jobs, those of the other executor look the same.
pub(crate) struct Population {
    pub(crate) backend: InMemoryBackend,
    pub(crate) ids: Vec<JobId>,
    pub(crate) jobs: Vec<Job>,
}

pub(crate) const NOW: i64 = 1_500;

pub(crate) fn populate() -> Population {
    let backend = InMemoryBackend::new();
    let mut ids = Vec::new();
    for (executor, n) in [P, "plain_other"].iter().flat_map(|executor| (0..8).map(move |n| (*executor, n))) {
        let (job, status, scheduled_at) = member(executor, n);
        let id = now(backend.enqueue(job)).unwrap();
        let mut claimer = Claimer::new(&backend, if executor == P { P } else { "plain_other" });
        bring(&backend, &mut claimer, id, status);
        let mut job = get(&backend, id).unwrap();
        job.scheduled_at = scheduled_at;
        now(backend.update_job(job)).unwrap();
        ids.push(id);
    }
    let jobs = all(&backend);
    Population { backend, ids, jobs }
}

/// A member of the population, its status and when it is scheduled in the end.
pub(crate) fn member(executor: &str, n: usize) -> (rexecutor::backend::EnqueuableJob<'static>, JobStatus, DateTime<Utc>) {
    let statuses = [
        JobStatus::Scheduled,
        JobStatus::Complete,
        JobStatus::Executing,
        JobStatus::Complete,
        JobStatus::Retryable,
        JobStatus::Cancelled,
        JobStatus::Discarded,
        JobStatus::Complete,
    ];
    let tags: [&[&str]; 8] = [&[], &["a"], &["a", "b"], &["b", "a", "c"], &["b"], &["ab"], &["c", "a", "a"], &["a", "a"]];
    let mut job = enqueuable(executor, [1, 2, 1, 1, 3, 2, 1, 2][n], at(-100_000));
    job.tags = tags[n].iter().map(|tag| tag.to_string()).collect();
    job.metadata = match n % 4 {
        0 => serde_json::json!("m"),
        1 => serde_json::Value::Null,
        2 => serde_json::json!("plain_other"),
        _ => serde_json::json!("m"),
    };
    job.priority = n as u16;
    job.max_attempts = 5 + n as u16;
    (job, statuses[n], at([1_000, 2_000, 0, 1_000, 3_000, 2_000, 1_001, 1_999][n]))
}

impl Leaf {
    pub(crate) fn holds(&self, job: &Job, ids: &[JobId]) -> bool {
        let has = |tag: &&str| job.tags.iter().any(|t| t == tag);
        let offset = ms(job.scheduled_at);
        match self {
            Leaf::Data(n) => job.data == Data::n(*n).json(),
            Leaf::Metadata(m) => job.metadata == serde_json::json!(m),
            Leaf::Id(at) => job.id == i32::from(ids[*at]),
            Leaf::NoId => false,
            Leaf::Ids(list) => list.iter().any(|at| job.id == i32::from(ids[*at])),
            Leaf::Status(status) => job.status == *status,
            Leaf::AllOf(tags) => tags.iter().all(has),
            Leaf::OneOf(tags) => tags.iter().any(has),
            Leaf::At(at) => offset == *at,
            Leaf::Before(at) => offset < *at,
            Leaf::After(at) => offset > *at,
            Leaf::OlderThan(duration) => offset < NOW - duration,
            Leaf::Within(duration) => offset > NOW - duration,
        }
    }
}

impl Tree {
    pub(crate) fn holds(&self, leaves: &[Leaf], job: &Job, ids: &[JobId]) -> bool {
        match self {
            Tree::Leaf(leaf) => leaves[*leaf].holds(job, ids),
            Tree::Not(inner) => !inner.holds(leaves, job, ids),
            Tree::And(a, b) => a.holds(leaves, job, ids) && b.holds(leaves, job, ids),
            Tree::Or(a, b) => a.holds(leaves, job, ids) || b.holds(leaves, job, ids),
        }
    }

    pub(crate) fn text(&self, leaves: &[Leaf]) -> String {
        match self {
            Tree::Leaf(leaf) => format!("{:?}", leaves[*leaf]),
            Tree::Not(inner) => format!("!{}", inner.text(leaves)),
            Tree::And(a, b) => format!("({} and {})", a.text(leaves), b.text(leaves)),
            Tree::Or(a, b) => format!("({} or {})", a.text(leaves), b.text(leaves)),
        }
    }
}

/// The parts a query borrows from.
pub(crate) struct Parts {
    data: Vec<Data>,
    metadata: Vec<String>,
    ids: Vec<Vec<JobId>>,
    raw: Vec<serde_json::Value>,
}

pub(crate) fn parts(leaves: &[Leaf], ids: &[JobId]) -> Parts {
    let mut parts = Parts {
        data: vec![],
        metadata: vec![],
        ids: vec![],
        raw: vec![],
    };
    for leaf in leaves {
        parts.data.push(match leaf {
            Leaf::Data(n) => Data::n(*n),
            _ => Data::default(),
        });
        parts.metadata.push(match leaf {
            Leaf::Metadata(m) => m.to_string(),
            _ => String::new(),
        });
        parts.ids.push(match leaf {
            Leaf::Ids(list) => list.iter().map(|at| ids[*at]).collect(),
            _ => vec![],
        });
        parts.raw.push(match leaf {
            Leaf::Data(n) => Data::n(*n).json(),
            Leaf::Metadata(m) => serde_json::json!(m),
            _ => serde_json::Value::Null,
        });
    }
    parts
}

pub(crate) fn when(offset: i64) -> DateTime<Utc> {
    at(offset)
}

pub(crate) fn build<'a>(tree: &Tree, leaves: &'a [Leaf], parts: &'a Parts, ids: &[JobId]) -> Where<'a, Data, String> {
    match tree {
        Tree::Leaf(at) => match &leaves[*at] {
            Leaf::Data(_) => Where::data_equals(&parts.data[*at]),
            Leaf::Metadata(_) => Where::metadata_equals(&parts.metadata[*at]),
            Leaf::Id(id) => Where::id_equals(ids[*id]),
            Leaf::NoId => Where::id_equals(JobId::from(99_999)),
            Leaf::Ids(_) => Where::id_in(&parts.ids[*at]),
            Leaf::Status(status) => Where::status_equals(*status),
            Leaf::AllOf(tags) => Where::tagged_by_all_of(tags),
            Leaf::OneOf(tags) => Where::tagged_by_one_of(tags),
            Leaf::At(offset) => Where::scheduled_at_equals(when(*offset)),
            Leaf::Before(offset) => Where::scheduled_at_before(when(*offset)),
            Leaf::After(offset) => Where::scheduled_at_after(when(*offset)),
            Leaf::OlderThan(duration) => Where::scheduled_at_older_than(crate::common::millis(*duration)),
            Leaf::Within(duration) => Where::scheduled_at_within_the_last(crate::common::millis(*duration)),
        },
        Tree::Not(inner) => !build(inner, leaves, parts, ids),
        Tree::And(a, b) => build(a, leaves, parts, ids).and(build(b, leaves, parts, ids)),
        Tree::Or(a, b) => build(a, leaves, parts, ids).or(build(b, leaves, parts, ids)),
    }
}

/// The query on the level of the backend.
pub(crate) fn raw<'a>(tree: &Tree, leaves: &'a [Leaf], parts: &'a Parts, ids: &[JobId]) -> Query<'a> {
    match tree {
        Tree::Leaf(at) => match &leaves[*at] {
            Leaf::Data(_) => Query::DataEquals(parts.raw[*at].clone()),
            Leaf::Metadata(_) => Query::MetadataEquals(parts.raw[*at].clone()),
            Leaf::Id(id) => Query::IdEquals(ids[*id]),
            Leaf::NoId => Query::IdEquals(JobId::from(99_999)),
            Leaf::Ids(_) => Query::IdIn(&parts.ids[*at]),
            Leaf::Status(status) => Query::StatusEqual(*status),
            Leaf::AllOf(tags) => Query::TagsAllOf(tags),
            Leaf::OneOf(tags) => Query::TagsOneOf(tags),
            Leaf::At(offset) => Query::ScheduledAtEqual(when(*offset)),
            Leaf::Before(offset) => Query::ScheduledAtBefore(when(*offset)),
            Leaf::After(offset) => Query::ScheduledAtAfter(when(*offset)),
            Leaf::OlderThan(duration) => Query::ScheduledAtBefore(when(NOW - duration)),
            Leaf::Within(duration) => Query::ScheduledAtAfter(when(NOW - duration)),
        },
        Tree::Not(inner) => Query::Not(Box::new(raw(inner, leaves, parts, ids))),
        Tree::And(a, b) => Query::And(vec![raw(a, leaves, parts, ids), raw(b, leaves, parts, ids)]),
        Tree::Or(a, b) => Query::Or(vec![raw(a, leaves, parts, ids), raw(b, leaves, parts, ids)]),
    }
}

/// The same job.
pub(crate) fn same(found: &rexecutor::job::Job<Data, String>, job: &Job) -> bool {
    i32::from(found.id) == job.id
        && found.status == job.status
        && found.executor == job.executor
        && found.data.json() == job.data
        && serde_json::to_value(&found.metadata).unwrap() == job.metadata
        && found.attempt as i32 == job.attempt
        && found.max_attempts as i32 == job.max_attempts
        && found.priority as i32 == job.priority
        && found.tags == job.tags
        && found.errors == job.errors
        && found.inserted_at == job.inserted_at
        && found.scheduled_at == job.scheduled_at
        && found.attempted_at == job.attempted_at
        && found.completed_at == job.completed_at
        && found.cancelled_at == job.cancelled_at
        && found.discarded_at == job.discarded_at
}

thread_local! {
    static POPULATION: Population = populate();
}

pub(crate) fn judge(run: &mut Run, tree: &Tree) -> Result<usize, Violation> {
    let leaves = leaves();
    let _frozen = frozen();
    POPULATION.with(|population| {
        crate::common::freeze(NOW);
        let Population { backend, ids, jobs } = population;
        let parts = parts(&leaves, ids);
        let mut count = 0;
        for executor in [P, "plain_other"] {
            let expected: Vec<&Job> = jobs
                .iter()
                .filter(|job| job.executor == executor && tree.holds(&leaves, job, ids))
                .collect();
            let query = build(tree, &leaves, &parts, ids);
            let mut found = match executor {
                P => now(Plain::query_jobs_on_backend(query, backend)),
                _ => now(Other::query_jobs_on_backend(query, backend)),
            }
            .map_err(|error| format!("query failed: {error} for {}", tree.text(&leaves)))?;
            found.sort_by_key(|job| i32::from(job.id));
            let ids = found.iter().map(|job| i32::from(job.id)).collect::<Vec<_>>();
            let wanted = expected.iter().map(|job| job.id).collect::<Vec<_>>();
            ensure!(
                ids == wanted,
                "{executor}: found jobs {ids:?} instead of {wanted:?} for {}",
                tree.text(&leaves)
            );
            for (found, job) in found.iter().zip(&expected) {
                ensure!(
                    same(found, job),
                    "found {found:?} instead of {job:?} for {}",
                    tree.text(&leaves)
                );
            }
            count += found.len();
        }
        let mut found = now(backend.query(raw(tree, &leaves, &parts, ids)))
            .map_err(|error| format!("query failed: {error} for {}", tree.text(&leaves)))?;
        found.sort_by_key(|job| job.id);
        let expected: Vec<Job> = jobs
            .iter()
            .filter(|job| tree.holds(&leaves, job, ids))
            .cloned()
            .collect();
        ensure!(
            found == expected,
            "the backend found {:?} instead of {:?} for {}",
            found.iter().map(|job| job.id).collect::<Vec<_>>(),
            expected.iter().map(|job| job.id).collect::<Vec<_>>(),
            tree.text(&leaves)
        );
        run.state_of(&tree.text(&leaves));
        Ok(count)
    })
}

pub(crate) fn leaf(run: &mut Run, count: usize) -> Tree {
    negated(run, |run| Tree::Leaf(run.choose(count)))
}

pub(crate) fn negated(run: &mut Run, tree: impl FnOnce(&mut Run) -> Tree) -> Tree {
    let negate = run.flag();
    let tree = tree(run);
    if negate { Tree::Not(Box::new(tree)) } else { tree }
}

pub(crate) fn join(run: &mut Run, a: Tree, b: Tree) -> Tree {
    let (a, b) = (Box::new(a), Box::new(b));
    negated(run, |run| if run.flag() { Tree::And(a, b) } else { Tree::Or(a, b) })
}

pub fn run(check: &mut Check) {
    check.assume("The content of the store is fixed: sixteen jobs of two executors with the same varied features.");
    let every = leaves().len();
    check.scenario("one and two conditions", 0, |run| {
        let tree = if run.flag() {
            let tree = leaf(run, every);
            negated(run, |_| tree)
        } else {
            let (a, b) = (leaf(run, every), leaf(run, every));
            join(run, a, b)
        };
        judge(run, &tree).map(|n| format!("{n} jobs"))
    });
    let some = check.by_tier(6, 12);
    check.scenario("three conditions", 0, |run| {
        let (a, b, c) = (leaf(run, some), leaf(run, some), leaf(run, some));
        let tree = if run.flag() {
            let left = join(run, a, b);
            join(run, left, c)
        } else {
            let right = join(run, b, c);
            join(run, a, right)
        };
        judge(run, &tree).map(|n| format!("{n} jobs"))
    });
    let some = check.by_tier(3, 5);
    check.scenario("four conditions", 0, |run| {
        let mut plain = || Tree::Leaf(run.choose(some));
        let (a, b, c, d) = (plain(), plain(), plain(), plain());
        let tree = match run.choose(5) {
            0 => {
                let (left, right) = (join(run, a, b), join(run, c, d));
                join(run, left, right)
            }
            1 => {
                let left = join(run, a, b);
                let left = join(run, left, c);
                join(run, left, d)
            }
            2 => {
                let right = join(run, c, d);
                let right = join(run, b, right);
                join(run, a, right)
            }
            3 => {
                let middle = join(run, b, c);
                let left = join(run, a, middle);
                join(run, left, d)
            }
            _ => {
                let middle = join(run, b, c);
                let right = join(run, middle, d);
                join(run, a, right)
            }
        };
        judge(run, &tree).map(|n| format!("{n} jobs"))
    });
    check.scenario("empty and nested", 0, |run| {
        // Conjunctions and disjunctions of any length on the level of the backend.
        let _frozen = frozen();
        let leaves = leaves();
        POPULATION.with(|population| {
            let Population { backend, ids, jobs } = population;
            let parts = parts(&leaves, ids);
            let mut members = Vec::new();
            let mut trees = Vec::new();
            let count = run.choose(4);
            for _ in 0..count {
                let tree = Tree::Leaf(run.choose(6));
                members.push(raw(&tree, &leaves, &parts, ids));
                trees.push(tree);
            }
            let (and, not, wrapped) = (run.flag(), run.flag(), run.choose(3));
            let mut query = if and { Query::And(members) } else { Query::Or(members) };
            match wrapped {
                1 => query = Query::And(vec![query, Query::And(vec![])]),
                2 => query = Query::Or(vec![query, Query::Or(vec![])]),
                _ => {}
            }
            if not {
                query = Query::Not(Box::new(query));
            }
            let expected: Vec<Job> = jobs
                .iter()
                .filter(|job| {
                    let holds = if and {
                        trees.iter().all(|tree| tree.holds(&leaves, job, ids))
                    } else {
                        trees.iter().any(|tree| tree.holds(&leaves, job, ids))
                    };
                    holds != not
                })
                .cloned()
                .collect();
            run.state_of(&format!("{query:?}"));
            let what = format!("{query:?}");
            let mut found = now(backend.query(query)).map_err(|error| format!("query failed: {error}"))?;
            found.sort_by_key(|job| job.id);
            ensure!(
                found == expected,
                "found {:?} instead of {:?} for {what}",
                found.iter().map(|job| job.id).collect::<Vec<_>>(),
                expected.iter().map(|job| job.id).collect::<Vec<_>>()
            );
            Ok(format!("{} jobs", found.len()))
        })
    });
    check.scenario("many jobs", 0, |run| {
        let _frozen = frozen();
        let backend = InMemoryBackend::new();
        let count = *run.pick(&[300, 1_100]);
        let mut ids = Vec::new();
        for n in 0..count {
            for executor in [P, "plain_other"] {
                let mut job = enqueuable(executor, n % 3, at(n));
                job.tags = vec![format!("tag {}", n % 2)];
                let id = now(backend.enqueue(job)).unwrap();
                if executor == P {
                    ids.push(id);
                }
            }
        }
        let data = Data::n(1);
        let (query, expected): (_, fn(i64) -> bool) = match run.choose(6) {
            0 => (Where::status_equals(JobStatus::Scheduled), |_| true),
            1 => (Where::data_equals(&data), |n| n % 3 == 1),
            2 => (!Where::data_equals(&data), |n| n % 3 != 1),
            3 => (Where::tagged_by_one_of(&["tag 1"]), |n| n % 2 == 1),
            4 => (Where::id_in(&ids), |_| true),
            _ => (Where::scheduled_at_after(at(100)), |n| n > 100),
        };
        let found = now(Plain::query_jobs_on_backend(query, &backend)).map_err(|error| format!("query failed: {error}"))?;
        let mut found: Vec<i32> = found.iter().map(|job| job.id.into()).collect();
        found.sort();
        let expected: Vec<i32> = (0..count).filter(|n| expected(*n)).map(|n| ids[n as usize].into()).collect();
        run.state_of(&(count, expected.len()));
        ensure!(found == expected, "{} jobs found instead of {}", found.len(), expected.len());
        Ok(format!("{} jobs", found.len()))
    });
    // All lists of tags and ids, also with repetitions, and all pairs of values.
    check.scenario("lists and values", 0, |run| {
        let _frozen = frozen();
        let backend = InMemoryBackend::new();
        let mut ids = Vec::new();
        for n in 0..3 {
            ids.push(now(backend.enqueue(enqueuable(P, n, at(0)))).unwrap());
        }
        let mut other = enqueuable("plain_other", 0, at(0));
        let mut stored = enqueuable(P, 0, at(0));
        let kind = run.choose(4);
        let expected: Vec<usize>;
        let found = match kind {
            0 => {
                let (tags, wanted) = (list(run, &TAGS), list(run, &TAGS));
                let any = run.flag();
                stored.tags = tags.iter().map(|tag| tag.to_string()).collect();
                other.tags = stored.tags.clone();
                run.state_of(&(&tags, &wanted, any));
                let mut holds = !any;
                for tag in &wanted {
                    if tags.contains(tag) == any {
                        holds = any;
                    }
                }
                expected = match (holds, any, wanted.is_empty()) {
                    (true, false, true) => vec![0, 1, 2, 3],
                    (true, ..) => vec![3],
                    _ => vec![],
                };
                ids.push(now(backend.enqueue(stored)).unwrap());
                now(backend.enqueue(other)).unwrap();
                let query = if any { Where::tagged_by_one_of(&wanted) } else { Where::tagged_by_all_of(&wanted) };
                now(Plain::query_jobs_on_backend(query, &backend))
            }
            1 => {
                ids.push(now(backend.enqueue(stored)).unwrap());
                ids.push(now(backend.enqueue(other)).unwrap());
                ids.push(i32::MAX.into());
                let picked = list(run, &[0usize, 2, 3, 4, 5]);
                run.state_of(&picked);
                expected = (0..4).filter(|n| picked.contains(n)).collect();
                let wanted: Vec<JobId> = picked.iter().map(|n| ids[*n]).collect();
                now(Plain::query_jobs_on_backend(Where::id_in(&wanted), &backend))
            }
            2 => {
                // Instants that differ by as little as possible.
                const STEPS: [i64; 9] = [-86_400_000_000_000, -1_000_000_000, -1_000_000, -1, 0, 1, 1_000_000, 1_000_000_000, 86_400_000_000_000];
                let base = at(1_000_000_000);
                let step = *run.pick(&STEPS);
                let comparison = run.choose(3);
                run.state_of(&(step, comparison));
                stored.scheduled_at = base + chrono::TimeDelta::nanoseconds(step);
                ids.push(now(backend.enqueue(stored)).unwrap());
                now(backend.enqueue(other)).unwrap();
                let (query, holds) = match comparison {
                    0 => (Where::scheduled_at_before(base), step < 0),
                    1 => (Where::scheduled_at_equals(base), step == 0),
                    _ => (Where::scheduled_at_after(base), step > 0),
                };
                expected = match (comparison, holds) {
                    (0, true) => vec![0, 1, 2, 3],
                    (0, false) => vec![0, 1, 2],
                    (_, true) => vec![3],
                    _ => vec![],
                };
                now(Plain::query_jobs_on_backend(query, &backend))
            }
            _ => {
                let values = values();
                let (has, wants) = (run.choose(values.len()), run.choose(values.len()));
                let metadata = run.flag();
                run.state_of(&(has, wants, metadata));
                if metadata {
                    stored.metadata = values[has].clone();
                } else {
                    stored.data = values[has].clone();
                }
                stored.executor = "values".into();
                let id = now(backend.enqueue(stored)).unwrap();
                let wanted = values[wants].clone();
                let query = if metadata { Query::MetadataEquals(wanted) } else { Query::DataEquals(wanted) };
                let query = Query::And(vec![Query::ExecutorEqual("values"), query]);
                let found = now(backend.query(query)).map_err(|error| format!("query failed: {error}"))?;
                let found: Vec<i32> = found.iter().map(|job| job.id).collect();
                let matching = values[has] == values[wants];
                ensure!(
                    found == if matching { vec![i32::from(id)] } else { vec![] },
                    "found {found:?} when {} was looked for and {} is stored",
                    values[wants],
                    values[has]
                );
                return Ok(format!("value {matching}"));
            }
        };
        let found = found.map_err(|error| format!("query failed: {error}"))?;
        let found: Vec<JobId> = found.iter().map(|job| job.id).collect();
        let expected: Vec<JobId> = expected.iter().map(|n| ids[*n]).collect();
        ensure!(
            found.len() == expected.len() && expected.iter().all(|id| found.contains(id)),
            "found {found:?} instead of {expected:?}"
        );
        Ok(format!("{kind}: {}", found.len()))
    });
}

pub(crate) const TAGS: [&str; 3] = ["a", "b", "ab"];

/// Any list of up to three of the items.
pub(crate) fn list<T: Copy>(run: &mut Run, items: &[T]) -> Vec<T> {
    let count = run.choose(4);
    (0..count).map(|_| items[run.choose(items.len())]).collect()
}

/// Values, no two of which are equal but for the order of their keys.
pub(crate) fn values() -> Vec<serde_json::Value> {
    vec![
        serde_json::json!(null),
        serde_json::json!({}),
        serde_json::json!([]),
        serde_json::json!({"a": 1}),
        serde_json::json!({"a": 1, "b": 2}),
        serde_json::json!({"b": 2, "a": 1, "c": null}),
        serde_json::json!({"b": 2, "a": 1}),
        serde_json::json!([1, 2]),
        serde_json::json!([2, 1]),
        serde_json::json!([1, 2, 2]),
        serde_json::json!("1"),
        serde_json::json!(1),
        serde_json::json!("a"),
        serde_json::json!("A"),
        serde_json::json!("a "),
        serde_json::json!(""),
        serde_json::json!({"a": {"b": [1, {"c": 2}]}}),
        serde_json::json!({"a": {"b": [1, {"c": 3}]}}),
    ]
}
