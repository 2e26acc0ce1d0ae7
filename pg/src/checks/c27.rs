//! PostgreSQL: the migrations.
use chrono::Utc;
use mc_engine::{Check, Run, Violation, ensure};
use pgemu::server::Phase;
use rexecutor::{backend::Backend, backend::BackendError, job::JobStatus};
use rexecutor_sqlx::RexecutorPgBackend;
use tokio::task::JoinHandle;

use super::{
    c20::{P, stored},
    c26::{operations, population},
};
use crate::{
    common::{enqueuable, prune_length},
    lab::{Claims, Lab, Race, at},
    model::{Model, Op, Res},
};

const BETWEEN: &str =
    "the migration was interrupted after the tables were created and before that was recorded";

const KEPT: &str =
    "a process whose migrations failed because of a failing statement keeps the lock for running migrations";

fn migrate(lab: &Lab, backend: &RexecutorPgBackend) -> JoinHandle<Result<(), BackendError>> {
    let backend = backend.clone();
    lab.spawn(async move { backend.run_migrations().await })
}

fn result(
    lab: &Lab,
    task: JoinHandle<Result<(), BackendError>>,
    failed: bool,
) -> Result<Result<(), BackendError>, Violation> {
    if !task.is_finished() {
        // Of somebody who is not running migrations any more.
        let server = lab.server();
        if failed && server.blocked().iter().all(|(_, holder)| !server.busy(*holder)) {
            return Err(Violation::new(KEPT, format!("{KEPT}, others wait forever")));
        }
        return Err("the migrations do not finish".into());
    }
    Ok(lab.block(task).map_err(|_| "the migrations panicked".to_owned())?)
}

/// Whether everything is there but for the note that it is.
fn unrecorded(lab: &Lab) -> bool {
    let server = lab.server();
    let recorded = server
        .db
        .tables
        .contains_key("_sqlx_migrations")
        .then(|| server.db.rows("_sqlx_migrations").len());
    server.db.tables.contains_key("rexecutor_jobs") && server.db.triggers.len() == 2 && recorded == Some(0)
}

/// They have to succeed now.
fn succeeds(lab: &Lab, backend: &RexecutorPgBackend, when: &str, failed: bool) -> Result<(), Violation> {
    let between = unrecorded(lab);
    let task = migrate(lab, backend);
    lab.settle();
    match result(lab, task, failed)? {
        Ok(()) => Ok(()),
        Err(error) if between => Err(Violation::new(BETWEEN, format!("{BETWEEN}, they fail from then on: {error:?}"))),
        Err(error) => Err(format!("the migrations fail {when}: {error:?}").into()),
    }
}

/// Whether jobs are stored, handed out and noticed. Completes a job.
fn usable(lab: &Lab, backend: &RexecutorPgBackend, model: &mut Model) -> Result<(), Violation> {
    let mut race = Race::new(lab);
    race.model = model.clone();
    let claims = lab.block(Claims::new(backend, P));
    lab.settle();
    race.claims(&claims, P, 1);
    lab.settle();
    lab.advance(40);
    lab.settle();
    let early = race.history.calls().len();
    let op = Op::Enqueue(enqueuable(P, 9, at(-1)));
    let res = lab.block(crate::lab::perform(backend, &op));
    let Res::Id(id) = res else {
        return Err(format!("nothing can be enqueued: {res:?}").into());
    };
    race.model.step(&op, &res, Utc::now())?;
    if early == 0 {
        for _ in 0..10 {
            lab.settle();
            if !race.history.calls().is_empty() {
                break;
            }
            lab.advance(10);
        }
        lab.settle();
        let calls = race.history.calls();
        ensure!(calls.len() == 1, "a waiting worker does not notice a new job");
        let call = &calls[0];
        ensure!(
            matches!(&call.res, Res::Job(job) if job.id == id),
            "a worker gets {:?} instead of the only job",
            call.res
        );
        race.model.step(&call.op, &call.res, Utc::now())?;
        race.before(backend, Op::Complete(id))?;
    } else {
        return Err("a job is handed out that nobody enqueued".into());
    }
    race.model.compare(&stored(lab, backend)?)?;
    race.before(backend, Op::Prune(prune_length(JobStatus::Complete, 1)))?;
    race.model.compare(&stored(lab, backend)?)?;
    *model = race.model.clone();
    Ok(())
}

/// Let something go wrong after some steps, if there are still any: a statement fails, or a
/// connection is lost before or after a step.
fn fault(lab: &Lab, run: &mut Run, steps: usize, kinds: &[usize]) -> Option<(usize, Phase)> {
    lab.server().immediate = false;
    for _ in 0..run.choose(steps) {
        if !lab.step(run) {
            return None;
        }
    }
    let ready = lab.ready();
    if ready.is_empty() {
        return None;
    }
    let kind = *run.pick(kinds);
    let hit = run.pick(&ready).clone();
    run.note(|| format!("fault {kind} at {hit:?}"));
    match kind {
        0 => lab.server().fail(hit.conn, "57014"),
        1 => lab.cut(hit.conn, false),
        _ => lab.cut(hit.conn, true),
    }
    Some((kind, hit.phase))
}

pub fn run(check: &mut Check) {
    check.assume("A failing statement, or losing the connection before or after the server dealt with a statement, are what can go wrong.");
    let rounds = check.by_tier(1, 2);
    check.scenario("interrupted", 0, |run| {
        let lab = Lab::empty();
        let mut backend = lab.backend(2);
        let mut what = Vec::new();
        // Of a statement, in a process that goes on.
        let mut failed = false;
        let mut model = Race::new(&lab).model;
        for _ in 0..rounds {
            let between = unrecorded(&lab);
            let task = migrate(&lab, &backend);
            let fault = fault(&lab, run, 60, &[0, 1, 2]);
            lab.steps(run, 200)?;
            lab.server().immediate = true;
            lab.settle();
            let result = result(&lab, task, failed)?;
            run.state_of(&(format!("{fault:?}"), result.is_ok()));
            match (&result, fault) {
                (Ok(()), _) => {}
                (Err(error), None) if between => {
                    return Err(Violation::new(BETWEEN, format!("{BETWEEN}, they fail from then on: {error:?}")));
                }
                (Err(error), None) => return Err(format!("the migrations fail for no reason: {error:?}").into()),
                (Err(_), Some((0, _))) => failed = true,
                // The process is gone.
                (Err(_), Some(_)) => backend = lab.backend(2),
            }
            if result.is_ok() {
                usable(&lab, &lab.backend(2), &mut model)?;
            }
            what.push((fault.is_some(), result.is_ok()));
        }
        // Once more, by itself.
        succeeds(&lab, &backend, "after they were interrupted", failed)?;
        usable(&lab, &backend, &mut model)?;
        succeeds(&lab, &lab.backend(2), "again", failed)?;
        model.compare(&stored(&lab, &backend)?)?;
        usable(&lab, &backend, &mut model)?;
        Ok(format!("{what:?}"))
    });
    let bound = check.by_tier(1, 2);
    check.scenario("several", bound, |run| {
        let lab = Lab::empty();
        let interrupted = run.flag();
        let count = if interrupted { 2 } else { 2 + run.choose(2) };
        let backends: Vec<_> = (0..count).map(|_| lab.backend(2)).collect();
        let tasks: Vec<_> = backends.iter().map(|backend| migrate(&lab, backend)).collect();
        let mut hit = None;
        if interrupted {
            hit = fault(&lab, run, 60, &[0, 1, 2]);
            if hit.is_none() {
                return Ok("nothing to interrupt".to_owned());
            }
        }
        let mut between = false;
        lab.server().immediate = false;
        let mut count = 0;
        loop {
            lab.settle();
            // Nobody is about to note it.
            between |= unrecorded(&lab) && hit.is_some();
            if !lab.step(run) {
                break;
            }
            count += 1;
            ensure!(count < 400, "no end of statements");
        }
        lab.server().immediate = true;
        lab.settle();
        ensure!(lab.server().deadlocks == 0, "deadlock");
        let mut failed = 0;
        for task in tasks {
            if let Err(error) = result(&lab, task, matches!(hit, Some((0, _))))? {
                failed += 1;
                if failed > hit.is_some() as usize {
                    if between {
                        return Err(Violation::new(BETWEEN, format!("{BETWEEN}, others fail: {error:?}")));
                    }
                    return Err(format!("the migrations fail with several instances: {error:?}").into());
                }
            }
        }
        run.state_of(&(format!("{hit:?}"), failed));
        let mut model = Race::new(&lab).model;
        for backend in [lab.backend(2), backends[0].clone()] {
            // The first one may have lost its only connection.
            let _ = lab.block(backend.query(crate::lab::everything()));
            succeeds(&lab, &backend, "after others", matches!(hit, Some((0, _))))?;
            usable(&lab, &backend, &mut model)?;
        }
        Ok(format!("{} interrupted", hit.is_some()))
    });
    let bound = check.by_tier(1, 2);
    check.scenario("in use", bound, |run| {
        let lab = Lab::new();
        let backend = lab.backend(3);
        let mut race = Race::new(&lab);
        lab.advance(1);
        let ids = population(&mut race, &backend)?;
        let all = operations(&ids, &race.model);
        let which = run.choose(all.len() - 7 + 1);
        let other = lab.backend(2);
        if which < all.len() - 7 {
            let (name, op) = all[which].clone();
            run.note(|| name.to_owned());
            race.ops(&backend, vec![op]);
        } else {
            let claims = lab.block(Claims::new(&backend, P));
            race.claims(&claims, P, 1);
        }
        let task = migrate(&lab, &other);
        let faulty = run.flag();
        let hit = if faulty { fault(&lab, run, 20, &[0, 1, 2]) } else { None };
        race.run(run)?;
        lab.settle();
        ensure!(race.unfinished().is_empty(), "an operation does not finish");
        let migrated = result(&lab, task, false)?;
        let failed = migrated.is_err() && matches!(hit, Some((0, _)));
        let calls = race.history.calls();
        let failures = calls.iter().filter(|call| matches!(call.res, Res::Failed(_))).count() + migrated.is_err() as usize;
        ensure!(
            failures <= hit.is_some() as usize,
            "{failures} failures: {migrated:?} {:?}",
            calls.iter().map(|call| &call.res).collect::<Vec<_>>()
        );
        run.state_of(&(which, format!("{hit:?}"), failures));
        if calls.iter().all(|call| !matches!(call.res, Res::Failed(_))) {
            race.judge(&backend)?;
        }
        succeeds(&lab, &other, "on a database in use", failed)?;
        let before = stored(&lab, &backend)?;
        succeeds(&lab, &lab.backend(2), "on a database in use", failed)?;
        ensure!(stored(&lab, &backend)? == before, "the migrations change stored jobs");
        Ok(format!("{failures} failures"))
    });
}
