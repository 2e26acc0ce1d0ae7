//! Queries return exactly the matching jobs.
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    backend::{Backend, Job, Query},
    executor::Executor,
    job::{JobId, JobStatus, query::Where},
};
use rexecutor_sqlx::RexecutorPgBackend;

use super::{
    c13::{self, Tree, build, join, leaf, leaves, list, member, negated, parts, raw, same},
    c20::{P, stored},
};
use crate::{
    common::{enqueuable, error, freeze, now},
    executors::{Other, Plain},
    lab::*,
    model::Op,
};

/// The same jobs as in the check of the in-memory backend.
struct Population {
    lab: Lab,
    backend: RexecutorPgBackend,
    ids: Vec<JobId>,
    jobs: Vec<Job>,
    memory: c13::Population,
}

fn populate() -> Population {
    let memory = {
        let _frozen = crate::common::frozen();
        c13::populate()
    };
    let lab = Lab::new();
    let backend = lab.backend(2);
    let mut ids = Vec::new();
    for (executor, n) in [P, "plain_other"].iter().flat_map(|executor| (0..8).map(move |n| (*executor, n))) {
        let (job, status, scheduled_at) = member(executor, n);
        let id = lab.block(backend.enqueue(job)).expect("enqueue failed");
        if status != JobStatus::Scheduled {
            let job = lab.claim(&backend, executor).expect("no job to claim");
            assert_eq!(job.id, i32::from(id));
        }
        let i = i32::from(id);
        let op = match status {
            JobStatus::Scheduled | JobStatus::Executing => None,
            JobStatus::Retryable => Some(Op::Retry(i, at(0), error("e"))),
            JobStatus::Complete => Some(Op::Complete(i)),
            JobStatus::Cancelled => Some(Op::Cancel(i, error("e"))),
            JobStatus::Discarded => Some(Op::Discard(i, error("e"))),
        };
        if let Some(op) = op {
            lab.block(perform(&backend, &op));
        }
        let mut job = stored(&lab, &backend).unwrap().into_iter().find(|job| job.id == i).unwrap();
        job.scheduled_at = scheduled_at;
        lab.block(backend.update_job(job)).expect("update failed");
        ids.push(id);
    }
    let jobs = stored(&lab, &backend).unwrap();
    Population { lab, backend, ids, jobs, memory }
}

/// Kept for all executions on a thread, it is only read.
fn with<R>(f: impl FnOnce(&Population) -> R) -> R {
    thread_local! {
        static POPULATION: std::mem::ManuallyDrop<Population> = std::mem::ManuallyDrop::new(populate());
    }
    POPULATION.with(|population| {
        freeze(c13::NOW);
        f(population)
    })
}

fn ids_of(jobs: &[Job]) -> Vec<i32> {
    jobs.iter().map(|job| job.id).collect()
}

/// The jobs are the same but for their ids.
fn alike(memory: &Job, job: &Job, id: i32) -> bool {
    let mut memory = memory.clone();
    memory.id = id;
    memory == *job
}

fn judge(run: &mut Run, tree: &Tree) -> Result<usize, Violation> {
    let leaves = leaves();
    with(|population| {
        let Population { lab, backend, ids, jobs, memory } = population;
        let parts = parts(&leaves, ids);
        let mut count = 0;
        for executor in [P, "plain_other"] {
            let expected: Vec<&Job> = jobs
                .iter()
                .filter(|job| job.executor == executor && tree.holds(&leaves, job, ids))
                .collect();
            let query = build(tree, &leaves, &parts, ids);
            let mut found = match executor {
                P => lab.block(Plain::query_jobs_on_backend(query, backend)),
                _ => lab.block(Other::query_jobs_on_backend(query, backend)),
            }
            .map_err(|error| format!("query failed: {error} for {}", tree.text(&leaves)))?;
            found.sort_by_key(|job| i32::from(job.id));
            let ids = found.iter().map(|job| i32::from(job.id)).collect::<Vec<_>>();
            let wanted = expected.iter().map(|job| job.id).collect::<Vec<_>>();
            ensure!(
                ids == wanted,
                "{executor}: found jobs {ids:?} instead of {wanted:?} for {}",
                tree.text(&leaves)
            );
            for (found, job) in found.iter().zip(&expected) {
                ensure!(
                    same(found, job),
                    "found {found:?} instead of {job:?} for {}",
                    tree.text(&leaves)
                );
            }
            count += found.len();
        }
        let mut found = lab
            .block(backend.query(raw(tree, &leaves, &parts, ids)))
            .map_err(|error| format!("query failed: {error} for {}", tree.text(&leaves)))?;
        found.sort_by_key(|job| job.id);
        let expected: Vec<Job> = jobs.iter().filter(|job| tree.holds(&leaves, job, ids)).cloned().collect();
        ensure!(
            found == expected,
            "the backend found {:?} instead of {:?} for {}",
            ids_of(&found),
            ids_of(&expected),
            tree.text(&leaves)
        );
        // The other backend returns the same.
        let parts = c13::parts(&leaves, &memory.ids);
        let others = now(memory.backend.query(raw(tree, &leaves, &parts, &memory.ids)))
            .map_err(|error| format!("query failed: {error}"))?;
        ensure!(
            others.len() == found.len()
                && found.iter().all(|job| {
                    let at = ids.iter().position(|id| i32::from(*id) == job.id).unwrap();
                    let id = i32::from(memory.ids[at]);
                    others.iter().any(|other| other.id == id && alike(other, job, job.id))
                }),
            "the backends differ for {}: {found:?} and {others:?}",
            tree.text(&leaves)
        );
        run.state_of(&tree.text(&leaves));
        Ok(count)
    })
}

pub fn run(check: &mut Check) {
    check.assume("The content of the store is fixed in all but the last scenario: sixteen jobs of two executors with the same varied features.");
    check.assume("The server evaluates statements as modelled, in particular its grammar, operator precedence, types of parameters, and the operators on arrays, jsonb and timestamps.");
    let every = leaves().len();
    check.scenario("one and two conditions", 0, |run| {
        let tree = if run.flag() {
            let tree = leaf(run, every);
            negated(run, |_| tree)
        } else {
            let (a, b) = (leaf(run, every), leaf(run, every));
            join(run, a, b)
        };
        judge(run, &tree).map(|n| format!("{n} jobs"))
    });
    let some = check.by_tier(6, 10);
    check.scenario("three conditions", 0, |run| {
        let (a, b, c) = (leaf(run, some), leaf(run, some), leaf(run, some));
        let tree = if run.flag() {
            let left = join(run, a, b);
            join(run, left, c)
        } else {
            let right = join(run, b, c);
            join(run, a, right)
        };
        judge(run, &tree).map(|n| format!("{n} jobs"))
    });
    let some = check.by_tier(3, 5);
    check.scenario("four conditions", 0, |run| {
        let mut plain = || Tree::Leaf(run.choose(some));
        let (a, b, c, d) = (plain(), plain(), plain(), plain());
        let tree = match run.choose(5) {
            0 => {
                let (left, right) = (join(run, a, b), join(run, c, d));
                join(run, left, right)
            }
            1 => {
                let left = join(run, a, b);
                let left = join(run, left, c);
                join(run, left, d)
            }
            2 => {
                let right = join(run, c, d);
                let right = join(run, b, right);
                join(run, a, right)
            }
            3 => {
                let middle = join(run, b, c);
                let left = join(run, a, middle);
                join(run, left, d)
            }
            _ => {
                let middle = join(run, b, c);
                let right = join(run, middle, d);
                join(run, a, right)
            }
        };
        judge(run, &tree).map(|n| format!("{n} jobs"))
    });
    check.scenario("empty and nested", 0, |run| {
        // Conjunctions and disjunctions of any length on the level of the backend.
        let leaves = leaves();
        with(|population| {
            let Population { lab, backend, ids, jobs, .. } = population;
            let parts = parts(&leaves, ids);
            let mut members = Vec::new();
            let mut trees = Vec::new();
            let count = run.choose(4);
            for _ in 0..count {
                let tree = Tree::Leaf(run.choose(6));
                members.push(raw(&tree, &leaves, &parts, ids));
                trees.push(tree);
            }
            let (and, not, wrapped) = (run.flag(), run.flag(), run.choose(3));
            let mut query = if and { Query::And(members) } else { Query::Or(members) };
            match wrapped {
                1 => query = Query::And(vec![query, Query::And(vec![])]),
                2 => query = Query::Or(vec![query, Query::Or(vec![])]),
                _ => {}
            }
            if not {
                query = Query::Not(Box::new(query));
            }
            let expected: Vec<Job> = jobs
                .iter()
                .filter(|job| {
                    let holds = if and {
                        trees.iter().all(|tree| tree.holds(&leaves, job, ids))
                    } else {
                        trees.iter().any(|tree| tree.holds(&leaves, job, ids))
                    };
                    holds != not
                })
                .cloned()
                .collect();
            let what = format!("{query:?}");
            run.state_of(&what);
            let mut found = lab.block(backend.query(query)).map_err(|error| format!("query failed: {error}"))?;
            found.sort_by_key(|job| job.id);
            ensure!(
                found == expected,
                "found {:?} instead of {:?} for {what}",
                ids_of(&found),
                ids_of(&expected)
            );
            Ok(format!("{} jobs", found.len()))
        })
    });
    check.scenario("many jobs", 0, |run| {
        let lab = Lab::new();
        let backend = lab.backend(2);
        let count = *run.pick(&[300, 1_100]);
        let mut ids = Vec::new();
        for n in 0..count {
            for executor in [P, "plain_other"] {
                let mut job = enqueuable(executor, n % 3, at(n));
                job.tags = vec![format!("tag {}", n % 2)];
                let id = lab.block(backend.enqueue(job)).expect("enqueue failed");
                if executor == P {
                    ids.push(id);
                }
            }
        }
        let data = crate::executors::Data::n(1);
        let queries: [(_, fn(i64) -> bool); 6] = [
            (Where::status_equals(JobStatus::Scheduled), |_| true),
            (Where::data_equals(&data), |n| n % 3 == 1),
            (!Where::data_equals(&data), |n| n % 3 != 1),
            (Where::tagged_by_one_of(&["tag 1"]), |n| n % 2 == 1),
            (Where::id_in(&ids), |_| true),
            (Where::scheduled_at_after(at(100)), |n| n > 100),
        ];
        for (query, expected) in queries {
            let found = lab
                .block(Plain::query_jobs_on_backend(query, &backend))
                .map_err(|error| format!("query failed: {error}"))?;
            let mut found: Vec<i32> = found.iter().map(|job| job.id.into()).collect();
            found.sort();
            let expected: Vec<i32> = (0..count).filter(|n| expected(*n)).map(|n| ids[n as usize].into()).collect();
            run.state_of(&(count, expected.len()));
            run.transitions += 1;
            ensure!(found == expected, "{} jobs found instead of {}", found.len(), expected.len());
        }
        Ok(format!("{count} jobs"))
    });
    // All lists of tags and ids, also with repetitions, and all pairs of values.
    check.scenario("lists and values", 0, |run| {
        let kind = run.choose(4);
        let mut stored = enqueuable(P, 0, at(0));
        let mut other = enqueuable("plain_other", 0, at(0));
        let lab = Lab::new();
        let backend = lab.backend(2);
        let mut ids = Vec::new();
        let put = |job| lab.block(backend.enqueue(job)).expect("enqueue failed");
        for n in 0..3 {
            ids.push(put(enqueuable(P, n, at(0))));
        }
        let expected: Vec<usize>;
        let found = match kind {
            0 => {
                let (tags, wanted) = (list(run, &c13::TAGS), list(run, &c13::TAGS));
                let any = run.flag();
                stored.tags = tags.iter().map(|tag| tag.to_string()).collect();
                other.tags = stored.tags.clone();
                run.state_of(&(&tags, &wanted, any));
                let mut holds = !any;
                for tag in &wanted {
                    if tags.contains(tag) == any {
                        holds = any;
                    }
                }
                expected = match (holds, any, wanted.is_empty()) {
                    (true, false, true) => vec![0, 1, 2, 3],
                    (true, ..) => vec![3],
                    _ => vec![],
                };
                ids.push(put(stored));
                put(other);
                let query = if any { Where::tagged_by_one_of(&wanted) } else { Where::tagged_by_all_of(&wanted) };
                lab.block(Plain::query_jobs_on_backend(query, &backend))
            }
            1 => {
                ids.push(put(stored));
                ids.push(put(other));
                ids.push(i32::MAX.into());
                let picked = list(run, &[0usize, 2, 3, 4, 5]);
                run.state_of(&picked);
                expected = (0..4).filter(|n| picked.contains(n)).collect();
                let wanted: Vec<JobId> = picked.iter().map(|n| ids[*n]).collect();
                lab.block(Plain::query_jobs_on_backend(Where::id_in(&wanted), &backend))
            }
            2 => {
                // Instants that differ by as little as the server can tell apart.
                const STEPS: [i64; 9] = [-86_400_000_000, -1_000_000, -1_000, -1, 0, 1, 1_000, 1_000_000, 86_400_000_000];
                let base = at(1_000_000_000);
                let step = *run.pick(&STEPS);
                let comparison = run.choose(3);
                run.state_of(&(step, comparison));
                stored.scheduled_at = base + chrono::TimeDelta::microseconds(step);
                ids.push(put(stored));
                put(other);
                let (query, holds) = match comparison {
                    0 => (Where::scheduled_at_before(base), step < 0),
                    1 => (Where::scheduled_at_equals(base), step == 0),
                    _ => (Where::scheduled_at_after(base), step > 0),
                };
                expected = match (comparison, holds) {
                    (0, true) => vec![0, 1, 2, 3],
                    (0, false) => vec![0, 1, 2],
                    (_, true) => vec![3],
                    _ => vec![],
                };
                lab.block(Plain::query_jobs_on_backend(query, &backend))
            }
            _ => {
                let values = c13::values();
                let (has, wants) = (run.choose(values.len()), run.choose(values.len()));
                let metadata = run.flag();
                run.state_of(&(has, wants, metadata));
                if metadata {
                    stored.metadata = values[has].clone();
                } else {
                    stored.data = values[has].clone();
                }
                stored.executor = "values".into();
                let id = put(stored);
                let wanted = values[wants].clone();
                let query = if metadata { Query::MetadataEquals(wanted) } else { Query::DataEquals(wanted) };
                let query = Query::And(vec![Query::ExecutorEqual("values"), query]);
                let found = lab.block(backend.query(query)).map_err(|error| format!("query failed: {error}"))?;
                let found: Vec<i32> = found.iter().map(|job| job.id).collect();
                let matching = values[has] == values[wants];
                ensure!(
                    found == if matching { vec![i32::from(id)] } else { vec![] },
                    "found {found:?} when {} was looked for and {} is stored",
                    values[wants],
                    values[has]
                );
                return Ok(format!("value {matching}"));
            }
        };
        let found = found.map_err(|error| format!("query failed: {error}"))?;
        let found: Vec<JobId> = found.iter().map(|job| job.id).collect();
        let expected: Vec<JobId> = expected.iter().map(|n| ids[*n]).collect();
        ensure!(
            found.len() == expected.len() && expected.iter().all(|id| found.contains(id)),
            "found {found:?} instead of {expected:?}"
        );
        Ok(format!("{kind}: {}", found.len()))
    });
}
