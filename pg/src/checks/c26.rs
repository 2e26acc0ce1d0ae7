//! PostgreSQL: failures are reported and leave nothing half done.
use chrono::Utc;
use mc_engine::{Check, Run, Violation, ensure};
use pgemu::server::Phase;
use rexecutor::{
    backend::{Backend, Query},
    job::{
        JobStatus,
        uniqueness_criteria::{Replace, UniquenessCriteria},
    },
};
use rexecutor_sqlx::RexecutorPgBackend;

use super::c20::{P, enqueue, stored};
use crate::{
    common::{enqueuable, error, prune_age, prune_length, unique},
    lab::{Claims, Lab, Race, all, at, everything, perform},
    model::{Model, Op, Res},
};

const CODES: [&str; 4] = ["57014", "40001", "40P01", "53200"];

/// Jobs in all sorts of states, by id: waiting, executing, complete, discarded and retryable.
pub fn population(race: &mut Race, backend: &RexecutorPgBackend) -> Result<Vec<i32>, Violation> {
    let mut ids = Vec::new();
    let criteria = UniquenessCriteria::by_statuses(&[]).and_key(&"k");
    for n in 1..5 {
        let id = enqueue(race, backend, unique(enqueuable(P, n, at(-10 - n)), criteria.clone()))?;
        let claimed = race.claim_before(backend, P)?;
        ensure!(claimed.is_some_and(|job| job.id == id), "the job is not handed out");
        let op = match n {
            1 => None,
            2 => Some(Op::Complete(id)),
            3 => Some(Op::Discard(id, error("discarded"))),
            _ => Some(Op::Retry(id, at(60_000), error("retried"))),
        };
        if let Some(op) = op {
            race.before(backend, op)?;
        }
        ids.push(id);
    }
    ids.insert(0, enqueue(race, backend, unique(enqueuable(P, 0, at(-10)), criteria))?);
    Ok(ids)
}

pub fn operations(ids: &[i32], model: &Model) -> Vec<(&'static str, Op)> {
    let criteria = |key: &'static str| UniquenessCriteria::by_executor().and_key(&key).and_statuses(&JobStatus::ALL);
    let replacing = criteria("k").on_conflict(
        Replace::data().and_priority().and_scheduled_at().and_metadata().and_max_attempts().for_statuses(&JobStatus::ALL),
    );
    let mut changed = model.jobs[&ids[0]].job.clone();
    changed.data = serde_json::json!("changed");
    changed.priority = 9;
    changed.tags = vec!["changed".to_owned()];
    changed.scheduled_at = at(4_000);
    let mut gone = changed.clone();
    gone.id = 777;
    vec![
        ("enqueue", Op::Enqueue(enqueuable(P, 7, at(-1)))),
        ("enqueue unique", Op::Enqueue(unique(enqueuable(P, 7, at(-1)), criteria("l")))),
        ("enqueue duplicate", Op::Enqueue(unique(enqueuable(P, 7, at(-1)), criteria("k")))),
        ("replace", Op::Enqueue(unique(enqueuable(P, 7, at(-1)), replacing))),
        ("complete", Op::Complete(ids[1])),
        ("retry", Op::Retry(ids[1], at(2_000), error("r"))),
        ("discard", Op::Discard(ids[1], error("d"))),
        ("cancel", Op::Cancel(ids[1], error("c"))),
        ("cancel the waiting", Op::Cancel(ids[0], error("c"))),
        ("cancel the retryable", Op::Cancel(ids[4], error("c"))),
        ("snooze", Op::Snooze(ids[1], at(2_000))),
        ("rerun the complete", Op::Rerun(ids[2])),
        ("rerun the discarded", Op::Rerun(ids[3])),
        ("update", Op::Update(changed)),
        ("prune by length", Op::Prune(prune_length(JobStatus::Complete, 0))),
        ("prune by age", Op::Prune(prune_age(JobStatus::Discarded, 1))),
        ("complete nothing", Op::Complete(777)),
        ("retry nothing", Op::Retry(777, at(2_000), error("r"))),
        ("discard nothing", Op::Discard(777, error("d"))),
        ("cancel nothing", Op::Cancel(777, error("c"))),
        ("snooze nothing", Op::Snooze(777, at(2_000))),
        ("rerun nothing", Op::Rerun(777)),
        ("update nothing", Op::Update(gone)),
    ]
}

/// Let something go wrong with one of the steps, if there is still one.
fn fault(lab: &Lab, run: &mut Run, steps: usize) -> Option<(usize, Phase)> {
    lab.server().immediate = false;
    for _ in 0..run.choose(steps) {
        lab.step(run);
    }
    let ready = lab.ready();
    if ready.is_empty() {
        return None;
    }
    let kind = run.choose(3);
    let hit = run.pick(&ready).clone();
    run.note(|| format!("fault {kind} at {hit:?}"));
    match kind {
        0 => {
            let code = run.pick(&CODES);
            lab.server().fail(hit.conn, code);
        }
        1 => lab.cut(hit.conn, false),
        // The answer is lost.
        _ => lab.cut(hit.conn, true),
    }
    Some((kind, hit.phase))
}

/// What was reported agrees with what is stored. Tells whether the operation had its effect.
fn agree(lab: &Lab, backend: &RexecutorPgBackend, model: &mut Model, op: &Op, res: &Res) -> Result<bool, Violation> {
    let found = lab
        .block(all(backend))
        .map_err(|error| format!("the jobs can not be read afterwards: {error:?}"))?;
    if !matches!(res, Res::Failed(_)) {
        model.step(op, res, Utc::now())?;
        model.compare(&found)?;
        return Ok(true);
    }
    // It did not happen, or all of it did.
    let problem = match model.compare(&found) {
        Ok(()) => return Ok(false),
        Err(problem) => problem,
    };
    let mut candidates = vec![Res::Done];
    if let Op::Enqueue(_) = op {
        candidates = found.iter().map(|job| Res::Id(job.id)).collect();
    }
    for res in candidates {
        let mut after = model.clone();
        if after.step(op, &res, Utc::now()).is_ok() && after.compare(&found).is_ok() {
            *model = after;
            return Ok(true);
        }
    }
    Err(format!("an operation failed half way: {} {res:?}: {problem}", op.brief()).into())
}

pub fn run(check: &mut Check) {
    check.assume("A failing statement, or losing the connection before or after the server dealt with a statement, are what can go wrong; an operation may be repeated internally.");
    let again = check.by_tier(1, 2);
    check.scenario("operations", 0, |run| {
        let lab = Lab::new();
        let connections = 2 + run.choose(2) as u32;
        let backend = lab.backend(connections);
        let reader = lab.backend(2);
        let mut race = Race::new(&lab);
        lab.advance(1);
        let ids = population(&mut race, &backend)?;
        let (name, op) = run.pick(&operations(&ids, &race.model)).clone();
        let mut model = race.model.clone();
        let mut kinds = Vec::new();
        let once = matches!(op, Op::Snooze(..) | Op::Rerun(_));
        let mut done = false;
        for _ in 0..again {
            if done && once {
                break;
            }
            let mut race = Race::new(&lab);
            race.ops(&backend, vec![op.clone()]);
            kinds.extend(fault(&lab, run, 7));
            race.run(run)?;
            let waiting = race.unfinished();
            ensure!(waiting.is_empty(), "an operation does not finish: {waiting:?}");
            let res = race.history.calls()[0].res.clone();
            run.note(|| format!("{name}: {res:?}"));
            done = agree(&lab, &reader, &mut model, &op, &res)?;
            run.state_of(&(name, format!("{kinds:?}"), done, format!("{res:?}")));
            if kinds.is_empty() {
                ensure!(!matches!(res, Res::Failed(_)), "{name} failed for no reason: {res:?}");
            }
        }
        // Everything works again.
        let steps = operations(&ids, &race.model);
        for op in [&op, &steps[0].1, &steps[1].1, &steps[3].1, &steps[4].1].into_iter().skip((done && once) as usize) {
            let res = lab.block(perform(&backend, op));
            ensure!(!matches!(res, Res::Failed(_)), "{} failed afterwards: {res:?}", op.brief());
            model.step(op, &res, Utc::now())?;
            model.compare(&stored(&lab, &reader)?)?;
        }
        Ok(format!("{name} {}", kinds.len()))
    });
    // Others are not affected.
    let bound = check.by_tier(0, 1);
    check.scenario("with another", bound, |run| {
        let lab = Lab::new();
        let shared = run.flag();
        let backend = lab.backend(3);
        let reader = lab.backend(2);
        let mut race = Race::new(&lab);
        lab.advance(1);
        let ids = population(&mut race, &backend)?;
        let all = operations(&ids, &race.model);
        let (name, op) = all[run.choose(16)].clone();
        let (other_name, other) = all[*run.pick(&[1, 3, 5, 7, 13])].clone();
        let before = race.model.clone();
        race.ops(&backend, vec![op.clone()]);
        race.ops(if shared { &backend } else { &reader }, vec![other.clone()]);
        let what = fault(&lab, run, 6);
        race.run(run)?;
        let waiting = race.unfinished();
        ensure!(waiting.is_empty(), "an operation does not finish: {waiting:?}");
        let calls = race.history.calls();
        let failed = calls.iter().filter(|call| matches!(call.res, Res::Failed(_))).count();
        ensure!(
            failed <= what.is_some() as usize,
            "{failed} failures reported: {:?}",
            calls.iter().map(|call| (call.op.brief(), &call.res)).collect::<Vec<_>>()
        );
        // What failed did not happen, or all of it did, before or after the other.
        let found = stored(&lab, &reader)?;
        let mut problem = String::new();
        let mut fine = false;
        for order in [[0, 1], [1, 0]] {
            let mut models = vec![before.clone()];
            for n in order {
                let call = &calls[n];
                let mut next = Vec::new();
                for model in models {
                    let results = match &call.res {
                        Res::Failed(_) => {
                            next.push(model.clone());
                            match &call.op {
                                Op::Enqueue(_) => found.iter().map(|job| Res::Id(job.id)).collect(),
                                _ => vec![Res::Done],
                            }
                        }
                        res => vec![res.clone()],
                    };
                    for res in results {
                        let mut model = model.clone();
                        match model.step(&call.op, &res, Utc::now()) {
                            Ok(_) => next.push(model),
                            Err(error) => problem = error,
                        }
                    }
                }
                models = next;
            }
            for model in models {
                match model.compare(&found) {
                    Ok(()) => fine = true,
                    Err(error) => problem = error,
                }
            }
        }
        ensure!(
            fine,
            "{name} and {other_name} with a failure: {problem}; {:?}",
            calls.iter().map(|call| (call.op.brief(), &call.res)).collect::<Vec<_>>()
        );
        run.state_of(&(name, other_name, shared, format!("{what:?}"), failed));
        Ok(format!("{failed} failed"))
    });
    // Reading.
    check.scenario("queries", 0, |run| {
        let lab = Lab::new();
        let backend = lab.backend(2);
        let mut race = Race::new(&lab);
        lab.advance(1);
        let ids = population(&mut race, &backend)?;
        let which = run.choose(3);
        let (id, key) = (ids[1].into(), P);
        let expected = match which {
            0 => ids.len(),
            1 => 1,
            _ => ids.len() - 1,
        };
        let asking = backend.clone();
        let task = lab.spawn(async move {
            let query = match which {
                0 => everything(),
                1 => Query::IdEquals(id),
                _ => Query::And(vec![
                    Query::ExecutorEqual(key),
                    Query::Not(Box::new(Query::StatusEqual(JobStatus::Complete))),
                ]),
            };
            asking.query(query).await
        });
        let what = fault(&lab, run, 5);
        lab.steps(run, 100)?;
        lab.server().immediate = true;
        lab.settle();
        ensure!(task.is_finished(), "a query does not finish");
        let result = lab.block(task).map_err(|_| "a query panicked".to_owned())?;
        run.state_of(&(which, format!("{what:?}"), result.is_ok()));
        match result {
            Ok(jobs) => ensure!(jobs.len() == expected, "{} jobs instead of {expected}", jobs.len()),
            Err(error) => ensure!(what.is_some(), "a query failed for no reason: {error:?}"),
        }
        ensure!(stored(&lab, &backend)?.len() == ids.len(), "wrong number of jobs afterwards");
        Ok(format!("query {which}"))
    });
    // Taking a job fails, the next one does not.
    check.scenario("streams", check.by_tier(0, 1), |run| {
        let lab = Lab::new();
        let backend = lab.backend(2 + run.choose(2) as u32);
        let reader = lab.backend(2);
        let mut race = Race::new(&lab);
        lab.advance(1);
        for n in 0..2 {
            enqueue(&mut race, &backend, enqueuable(P, n, at(-1)))?;
        }
        // Nothing is left that wakes the stream later.
        lab.advance(100);
        lab.settle();
        let claims = lab.block(Claims::new(&backend, P));
        race.claims(&claims, P, 3);
        let mut lost = 0;
        let mut faults = 0;
        for _ in 0..again {
            if let Some((kind, phase)) = fault(&lab, run, 8) {
                faults += 1;
                lost += (kind == 2 && phase == Phase::Commit) as i32;
            }
        }
        lab.steps(run, 200)?;
        // Whatever waits before trying again.
        for _ in 0..40 {
            lab.advance(100);
            lab.steps(run, 200)?;
        }
        lab.server().immediate = true;
        if let Some(name) = race.panicked() {
            return Err(format!("a stream panicked: {name}").into());
        }
        let (mut handed, mut failures) = (Vec::new(), 0);
        for call in race.history.calls() {
            match call.res {
                Res::Job(job) => handed.push(job.id),
                _ => failures += 1,
            }
        }
        ensure!(failures <= faults, "{failures} failures were reported for {faults}");
        let left = stored(&lab, &reader)?;
        let claimed = left.iter().filter(|job| job.status == JobStatus::Executing).count() as i32;
        ensure!(
            claimed - handed.len() as i32 <= lost,
            "{claimed} jobs were claimed, {} handed out, {lost} answers lost",
            handed.len()
        );
        let taken = handed.len() + failures;
        ensure!(
            taken >= 3 || claimed == 2,
            "the stream does not go on after {faults} faults: {handed:?}, {failures} failures"
        );
        run.state_of(&(handed.clone(), failures, faults, lost));
        Ok(format!("{} handed out, {failures} failures", handed.len()))
    });
    // All connections are in use for long.
    check.scenario("no connection", 0, |run| {
        let lab = Lab::new();
        let backend = lab.backend(2);
        let reader = lab.backend(2);
        let mut race = Race::new(&lab);
        lab.advance(1);
        let ids = population(&mut race, &backend)?;
        let all = operations(&ids, &race.model);
        let (name, op) = run.pick(&all).clone();
        let mut model = race.model.clone();
        // One that gets no answer, on the only connection.
        lab.server().immediate = false;
        let started = Utc::now();
        let slow = Op::Enqueue(enqueuable("plain_other", 1, at(-1)));
        race.ops(&backend, vec![slow.clone()]);
        lab.settle();
        race.ops(&backend, vec![op.clone()]);
        lab.settle();
        for _ in 0..35 {
            lab.advance(1_000);
            lab.settle();
        }
        lab.steps(run, 100)?;
        lab.server().immediate = true;
        lab.settle();
        let calls = race.history.calls();
        if let Some(name) = race.panicked() {
            return Err(format!("an operation panicked: {name}").into());
        }
        for call in &calls {
            run.note(|| format!("{} {:?}", call.op.brief(), call.res));
        }
        let res = |op: &Op| calls.iter().find(|call| call.op.brief() == op.brief()).map(|call| call.res.clone());
        let first = res(&slow);
        ensure!(matches!(first, Some(Res::Id(_))), "the slow one: {first:?}");
        model.step(&slow, &first.unwrap(), started)?;
        let Some(res) = res(&op) else {
            return Err(format!("{name} does not finish").into());
        };
        let done = agree(&lab, &reader, &mut model, &op, &res)?;
        run.state_of(&(name, done));
        if done && matches!(op, Op::Snooze(..) | Op::Rerun(_)) {
            return Ok(format!("{done}"));
        }
        let res = lab.block(perform(&backend, &op));
        ensure!(!matches!(res, Res::Failed(_)), "{name} failed afterwards: {res:?}");
        model.step(&op, &res, Utc::now())?;
        model.compare(&stored(&lab, &reader)?)?;
        Ok(format!("{done}"))
    });
}
