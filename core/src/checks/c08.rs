//! Concurrency limits are respected and capacity is used.
use chrono::Utc;
use mc_engine::{Check, ensure};
use rexecutor::{Rexecutor, backend::{Backend, memory::InMemoryBackend}};

use crate::{
    common::{enqueuable, get, millis, waiting},
    executors::{Data, Which},
    world::{Act, Gated, Kind, Release, Setup, What, World, simulate},
};

/// Executions of the executor in flight.
fn in_flight(world: &World, executor: &str) -> Vec<i32> {
    world.with_events(|events| {
        let mut flying = Vec::new();
        for event in events {
            match &event.what {
                What::Start { exec, view } if *exec == executor => flying.push(view.id),
                What::End { exec, id, .. } | What::Dropped { exec, id, .. } if *exec == executor => {
                    if let Some(at) = flying.iter().position(|other| other == id) {
                        flying.remove(at);
                    }
                }
                _ => {}
            }
        }
        flying
    })
}

/// Not more than the limit at any point so far.
fn within(world: &World, which: Which) -> Result<(), mc_engine::Violation> {
    world.with_events(|events| {
        let mut flying = 0usize;
        for event in events {
            match &event.what {
                What::Start { exec, .. } if *exec == which.name() => flying += 1,
                What::End { exec, .. } | What::Dropped { exec, .. } if *exec == which.name() => flying -= 1,
                _ => {}
            }
            ensure!(flying <= which.limit(), "{flying} executions of {which:?} in flight");
        }
        Ok(())
    })
}

pub fn run(check: &mut Check) {
    check.assume("Execution counts as in flight from its start until its body ends.");
    let workers = [
        Which::Plain,
        Which::One,
        Which::Two,
        Which::Three,
        Which::Block,
        Which::BlockOne,
        Which::BlockTwo,
    ];
    for (jobs, bound) in check.by_tier(vec![(4, 2), (3, 3)], vec![(4, 4), (5, 3)]) {
    check.scenario(&format!("slots/{jobs} jobs"), bound, |run| {
        let which = *run.pick(&workers);
        let other = *run.pick(&[None, Some(Which::One), Some(Which::Plain)]);
        let other = other.filter(|other| *other != which);
        // Some become due while others are executing.
        let late = run.choose(3);
        simulate(
            Setup::new(&[Kind::Body]),
            |_, _| Act::Done,
            async |world| {
                let backend = InMemoryBackend::new();
                let mut rexecutor = which.add(Rexecutor::new(Gated::new(&backend, &world, "worker")));
                if let Some(other) = other {
                    rexecutor = other.add(rexecutor);
                }
                let guard = rexecutor.drop_guard();
                world.settle().await;
                let mut ids = Vec::new();
                for n in 0..jobs {
                    let delay = if (n as usize) < late { 5_000 } else { 0 };
                    let mut job = enqueuable(which.name(), n, Utc::now() + millis(delay));
                    job.max_attempts = 2;
                    job.data = Data::n(n).backoff(100_000).timeout(if n == 1 { Some(3_000) } else { None }).json();
                    ids.push(backend.enqueue(job).await.unwrap());
                    if let Some(other) = other && n < 2 {
                        backend.enqueue(enqueuable(other.name(), 100 + n, Utc::now())).await.unwrap();
                    }
                }
                for round in 0..3 * jobs as usize {
                    world.settle().await;
                    for which in [Some(which), other].into_iter().flatten() {
                        within(&world, which)?;
                        let flying = in_flight(&world, which.name());
                        let due = crate::common::all(&backend)
                            .iter()
                            .filter(|job| job.executor == which.name() && waiting(job.status) && job.scheduled_at <= Utc::now())
                            .count();
                        let expected = which.limit().min(flying.len() + due);
                        run.state_of(&(which, &flying, due, crate::common::all(&backend).iter().map(crate::world::brief).collect::<Vec<_>>()));
                        ensure!(
                            flying.len() == expected,
                            "{which:?}: {} in flight with {due} more due, round {round}",
                            flying.len()
                        );
                    }
                    let tickets = world.tickets();
                    let outcomes = [
                        Act::Done,
                        Act::Fail("f".to_owned()),
                        Act::Panic("p".to_owned()),
                        Act::Snooze(millis(200_000)),
                        Act::Cancel("c".to_owned()),
                    ];
                    // Let somebody finish, or time pass.
                    let choice = run.deviate(tickets.len() + 1);
                    if choice == tickets.len() {
                        if tickets.is_empty() && round > 0 && late == 0 {
                            break;
                        }
                        run.note(|| "time passes".to_owned());
                        world.pass(std::time::Duration::from_millis(5_200), std::time::Duration::from_millis(400)).await;
                    } else {
                        let act = outcomes[run.deviate(outcomes.len())].clone();
                        run.note(|| format!("{} {act:?}", tickets[choice].op));
                        world.release(tickets[choice].id, Release::Act(act));
                    }
                }
                let _ = get(&backend, ids[0]);
                drop(guard);
                Ok(format!("{which:?}"))
            },
        )
    });
    }
    // Several instances of the application share the work.
    check.scenario("instances", check.by_tier(2, 4), |run| {
        let which = *run.pick(&[Which::One, Which::BlockOne, Which::Two, Which::Plain]);
        let instances = 2 + run.choose(2);
        let jobs = 1 + run.choose(5);
        let before = run.flag();
        simulate(
            Setup::new(&[Kind::Body]),
            |_, _| Act::Done,
            async |world| {
                let backend = InMemoryBackend::new();
                let mut guards = Vec::new();
                for step in 0..2 {
                    if (step == 0) == before {
                        for n in 0..jobs {
                            let mut job = enqueuable(which.name(), n as i64, Utc::now());
                            job.data = Data::n(n as i64).backoff(100_000).json();
                            backend.enqueue(job).await.unwrap();
                        }
                    } else {
                        for _ in 0..instances {
                            guards.push(which.add(Rexecutor::new(backend.clone())).drop_guard());
                        }
                        world.settle().await;
                    }
                }
                for _ in 0..=jobs {
                    world.settle().await;
                    let flying = in_flight(&world, which.name()).len();
                    let left = crate::common::all(&backend)
                        .iter()
                        .filter(|job| waiting(job.status) && job.scheduled_at <= Utc::now()
                            || job.status == rexecutor::job::JobStatus::Executing)
                        .count();
                    let expected = which.limit().saturating_mul(instances).min(left);
                    run.state_of(&(flying, left, which, instances));
                    ensure!(
                        flying == expected,
                        "{which:?}: {flying} in flight in {instances} instances with {left} to do"
                    );
                    let tickets = world.tickets();
                    if tickets.is_empty() {
                        break;
                    }
                    let ticket = &tickets[run.deviate(tickets.len())];
                    let act = [Act::Done, Act::Fail("f".to_owned())][run.deviate(2)].clone();
                    run.note(|| format!("{} {act:?}", ticket.op));
                    world.release(ticket.id, Release::Act(act));
                }
                drop(guards);
                Ok(format!("{which:?}"))
            },
        )
    });
    // Everything that is due runs at once, whatever the number.
    check.scenario("many", 0, |run| {
        let which = *run.pick(&[Which::Plain, Which::Block, Which::Three, Which::BlockTwo]);
        // There are 512 threads for blocking executions.
        let jobs = *run.pick(&[5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257]);
        let before = run.flag();
        simulate(
            Setup::new(&[Kind::Body]),
            |_, _| Act::Done,
            async |world| {
                let backend = InMemoryBackend::new();
                let mut guard = None;
                for step in 0..2 {
                    if (step == 0) == before {
                        for n in 0..jobs {
                            backend.enqueue(enqueuable(which.name(), n, Utc::now())).await.unwrap();
                        }
                    } else {
                        guard = Some(which.add(Rexecutor::new(backend.clone())).drop_guard());
                        world.settle().await;
                    }
                }
                for round in 0..3 {
                    world.settle().await;
                    let flying = in_flight(&world, which.name()).len();
                    let left = crate::common::all(&backend)
                        .iter()
                        .filter(|job| job.status != rexecutor::job::JobStatus::Complete)
                        .count();
                    run.state_of(&(flying, left, which));
                    ensure!(
                        flying == which.limit().min(left),
                        "{which:?}: {flying} in flight with {left} to do, round {round}"
                    );
                    for ticket in world.tickets().into_iter().take(2) {
                        world.release(ticket.id, Release::Go);
                    }
                }
                // So that no thread stays behind.
                while let Some(ticket) = { world.settle().await; world.tickets().first().cloned() } {
                    for ticket in world.tickets() {
                        world.release(ticket.id, Release::Go);
                    }
                    let _ = ticket;
                }
                drop(guard);
                Ok(format!("{which:?}"))
            },
        )
    });
    // Whatever goes wrong, the capacity stays the same.
    check.scenario("spoiled", check.by_tier(4, 6), |run| {
        let which = *run.pick(&[Which::One, Which::Two, Which::BlockOne, Which::BlockTwo]);
        let bad: Vec<usize> = (0..3).map(|_| run.choose(4)).collect();
        simulate(
            Setup::new(&[Kind::Body, Kind::Record]),
            |_, _| Act::Done,
            async |world| {
                let backend = InMemoryBackend::new();
                let mut spoiled = Vec::<i32>::new();
                for (n, bad) in bad.iter().enumerate() {
                    let mut job = enqueuable(which.name(), n as i64, Utc::now() - millis(10));
                    job.max_attempts = 1;
                    match bad {
                        // What can not be understood.
                        0 => job.data = serde_json::json!(["bad"]),
                        1 => job.metadata = serde_json::json!({ "bad": 1 }),
                        2 => job.data = Data::n(n as i64).timeout(Some(50)).json(),
                        _ => {}
                    }
                    spoiled.push(backend.enqueue(job).await.unwrap().into());
                }
                let good = which.limit() + 2;
                for n in 0..good {
                    backend.enqueue(enqueuable(which.name(), 10 + n as i64, Utc::now())).await.unwrap();
                }
                let guard = which.add(Rexecutor::new(Gated::new(&backend, &world, "worker"))).drop_guard();
                for _ in 0..40 {
                    world.settle().await;
                    within(&world, which)?;
                    let tickets = world.tickets();
                    let started = world.executions().len();
                    run.state_of(&(started, which, tickets.iter().map(|t| t.op.clone()).collect::<Vec<_>>()));
                    // The first ones come to an end somehow.
                    let early: Vec<_> = tickets
                        .iter()
                        .filter(|ticket| ticket.kind == Kind::Record || ticket.job.is_some_and(|id| spoiled.contains(&id)))
                        .collect();
                    if early.is_empty() {
                        break;
                    }
                    let ticket = early[run.deviate(early.len())];
                    let release = match ticket.kind {
                        Kind::Record => [Release::Go, Release::Fault][run.deviate(2)].clone(),
                        _ if run.deviate(2) == 1 => {
                            world.step(60).await;
                            Release::Act(Act::PanicAny)
                        }
                        _ => Release::Go,
                    };
                    run.note(|| format!("{} {release:?}", ticket.op));
                    world.release(ticket.id, release);
                }
                for left in (0..=good).rev() {
                    world.settle().await;
                    while let Some(ticket) = world.tickets().into_iter().find(|ticket| ticket.kind == Kind::Record) {
                        world.release(ticket.id, Release::Go);
                        world.settle().await;
                    }
                    within(&world, which)?;
                    let flying = in_flight(&world, which.name()).len();
                    ensure!(
                        flying == which.limit().min(left),
                        "{which:?}: {flying} in flight with {left} to do"
                    );
                    if let Some(ticket) = world.tickets().first() {
                        world.release(ticket.id, Release::Go);
                    }
                }
                drop(guard);
                Ok(format!("{which:?}"))
            },
        )
    });
    // Every operation of the worker is delayed in every way.
    let bound = check.by_tier(3, 5);
    check.scenario("gates", bound, |run| {
        let which = *run.pick(&[Which::One, Which::Two, Which::BlockOne, Which::Plain, Which::BlockTwo]);
        simulate(
            Setup::new(&[Kind::Body, Kind::Claim, Kind::Record]),
            |_, _| Act::Done,
            async |world| {
                let backend = InMemoryBackend::new();
                for n in 0..3 {
                    let mut job = enqueuable(which.name(), n, Utc::now());
                    job.data = Data::n(n).backoff(10).json();
                    backend.enqueue(job).await.unwrap();
                }
                let guard = which.add(Rexecutor::new(Gated::new(&backend, &world, "worker"))).drop_guard();
                let mut failed = false;
                for _ in 0..60 {
                    world.settle().await;
                    within(&world, which)?;
                    let tickets = world.tickets();
                    let tickets_len = tickets.len();
                    if tickets_len == 0 {
                        world.step(7).await;
                        continue;
                    }
                    // Once nothing but bodies is waiting, as many as possible are in flight.
                    if tickets.iter().all(|ticket| ticket.kind == Kind::Body) {
                        let flying = in_flight(&world, which.name()).len();
                        let due = crate::common::all(&backend)
                            .iter()
                            .filter(|job| waiting(job.status) && job.scheduled_at <= Utc::now())
                            .count();
                        run.state_of(&(flying, due, which, crate::common::all(&backend).iter().map(crate::world::brief).collect::<Vec<_>>()));
                        ensure!(
                            flying == which.limit().min(flying + due),
                            "{which:?}: {flying} in flight with {due} more due"
                        );
                    }
                    let ticket = &tickets[run.deviate(tickets_len)];
                    let release = if ticket.kind == Kind::Body && !failed && run.deviate(2) == 1 {
                        failed = true;
                        Release::Act(Act::Fail("f".to_owned()))
                    } else {
                        Release::Go
                    };
                    run.note(|| format!("{} {release:?}", ticket.op));
                    world.release(ticket.id, release);
                }
                world.settle().await;
                let unfinished = crate::common::all(&backend)
                    .iter()
                    .filter(|job| job.status != rexecutor::job::JobStatus::Complete)
                    .count();
                ensure!(unfinished == 0, "{which:?}: {unfinished} jobs unfinished");
                drop(guard);
                Ok(format!("{which:?}"))
            },
        )
    });
}
