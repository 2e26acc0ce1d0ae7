//! Attempts are counted exactly and retries are bounded.
use std::time::Duration;

use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    Rexecutor,
    backend::{Backend, memory::InMemoryBackend},
    job::{JobId, JobStatus, uniqueness_criteria::{Replace, UniquenessCriteria}},
};

use crate::{
    common::{enqueuable, get, millis, unique, waiting},
    executors::{Data, Which},
    world::{Act, Gated, Kind, Release, Setup, What, World, simulate},
};

const STEP: Duration = Duration::from_millis(500);

/// How long until the next attempt.
const DELAY: i64 = 1_000;

struct Case {
    id: JobId,
    which: Which,
    /// Attempts that were not snoozed.
    counted: u16,
    max: u16,
    waiting: bool,
    history: Vec<String>,
}

fn criteria() -> UniquenessCriteria<'static> {
    UniquenessCriteria::by_key(&6)
        .and_statuses(&JobStatus::ALL)
        .on_conflict(Replace::max_attempts().for_statuses(&JobStatus::ALL))
}

impl Case {
    /// The job as stored agrees with the count.
    fn check(&self, backend: &InMemoryBackend, executing: bool) -> Result<(), Violation> {
        let job = get(backend, self.id).unwrap();
        let counted = self.counted + executing as u16;
        ensure!(
            job.attempt == counted as i32,
            "attempt {} stored instead of {counted} after {:?}",
            job.attempt,
            self.history
        );
        ensure!(
            job.max_attempts == self.max as i32,
            "max attempts {} stored instead of {} after {:?}",
            job.max_attempts,
            self.max,
            self.history
        );
        Ok(())
    }

    async fn set_max(&mut self, backend: &InMemoryBackend, max: u16, replace: bool) {
        self.history.push(format!("max {max}"));
        self.max = max;
        if replace {
            let mut job = unique(
                enqueuable(self.which.name(), 1, chrono::Utc::now() + millis(10 * DELAY)),
                criteria(),
            );
            job.max_attempts = max;
            assert_eq!(backend.enqueue(job).await.unwrap(), self.id);
        } else {
            let mut job = get(backend, self.id).unwrap();
            job.max_attempts = max as i32;
            backend.update_job(job).await.unwrap();
        }
    }
}

pub fn run(check: &mut Check) {
    check.assume("The maximum is changed between executions, not while one is running.");
    let (depth, maxima): (usize, Vec<u16>) = check.by_tier((4, vec![1, 2, 3]), (6, vec![1, 2, 3, 4]));
    let sequences = |run: &mut Run, which: Which, max: u16, depth: usize| {
        // One of the ways to time out, or none.
        let timeout = if run.flag() { Some(5) } else { None };
        simulate(
            Setup::new(&[Kind::Body]),
            |_, _| Act::Done,
            async |world| {
                let backend = InMemoryBackend::new();
                let mut job = unique(enqueuable(which.name(), 1, chrono::Utc::now()), criteria());
                job.data = Data::n(1).backoff(DELAY).timeout(timeout).json();
                job.max_attempts = max;
                let id = backend.enqueue(job).await.unwrap();
                let guard = which
                    .add(Rexecutor::new(Gated::new(&backend, &world, "worker")))
                    .drop_guard();
                let mut case = Case {
                    id,
                    which,
                    counted: 0,
                    max,
                    waiting: true,
                    history: Vec::new(),
                };
                let result = sequence(run, &world, &backend, &mut case, depth, timeout).await;
                drop(guard);
                result?;
                let status = get(&backend, id).unwrap().status;
                Ok(format!("{status:?} {}/{}", case.counted, case.max))
            },
        )
    };
    check.scenario("sequences", check.by_tier(2, 3), |run| {
        let which = *run.pick(&[Which::Plain, Which::BlockOne]);
        let max = *run.pick(&maxima);
        sequences(run, which, max, depth)
    });
    check.scenario("large maxima", check.by_tier(1, 2), |run| {
        let max = *run.pick(&[255, 256, 257, 32_767, 32_768, 40_000, 65_000]);
        sequences(run, Which::Plain, max, depth - 1)
    });
    let most = check.by_tier(vec![127, 128, 254, 255, 256, 257, 300], vec![127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1_025]);
    check.scenario("many attempts", 0, |run| {
        let max = *run.pick(&most);
        // Every so many executions are snoozed.
        let snoozed = *run.pick(&[0, 2, 7, 256]);
        let panics = run.flag();
        let seen = std::sync::atomic::AtomicUsize::new(0);
        simulate(
            Setup::new(&[]),
            move |_, _| {
                let n = 1 + seen.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if snoozed > 0 && n % snoozed == 0 {
                    Act::Snooze(millis(1))
                } else if panics {
                    Act::Panic("panicked".to_owned())
                } else {
                    Act::Fail("failed".to_owned())
                }
            },
            async |world| {
                let backend = InMemoryBackend::new();
                let mut job = enqueuable(Which::Plain.name(), 1, chrono::Utc::now());
                job.data = Data::n(1).backoff(1).json();
                job.max_attempts = max;
                let id = backend.enqueue(job).await.unwrap();
                let guard = Which::Plain.add(Rexecutor::new(backend.clone())).drop_guard();
                world.pass(Duration::from_secs(2 * max as u64), Duration::from_secs(1)).await;
                world.settle().await;
                drop(guard);
                let list = world.executions().remove(&id.into()).unwrap_or_default();
                let mut counted = 0;
                for (n, execution) in list.iter().enumerate() {
                    ensure!(
                        execution.attempt == counted + 1,
                        "execution {} has attempt {} instead of {}",
                        n + 1,
                        execution.attempt,
                        counted + 1
                    );
                    if snoozed == 0 || (n + 1) % snoozed != 0 {
                        counted += 1;
                    }
                }
                ensure!(counted == max, "{counted} attempts instead of {max}");
                let job = get(&backend, id).unwrap();
                run.state_of(&(max, snoozed, panics));
                ensure!(job.status == JobStatus::Discarded, "{:?} after {counted} attempts", job.status);
                ensure!(
                    job.attempt == max as i32 && job.max_attempts == max as i32,
                    "attempt {} of {} stored instead of {max}",
                    job.attempt,
                    job.max_attempts
                );
                let numbers: Vec<u16> = job.errors.iter().map(|error| error.attempt).collect();
                ensure!(
                    numbers.iter().copied().eq(1..=max),
                    "the errors are recorded for the attempts {numbers:?}"
                );
                Ok(format!("{} executions", list.len()))
            },
        )
    });
}

async fn sequence(
    run: &mut Run,
    world: &World,
    backend: &InMemoryBackend,
    case: &mut Case,
    depth: usize,
    timeout: Option<u64>,
) -> Result<(), Violation> {
    let mut executions = 0;
    while executions < depth {
        // Wait for the next execution.
        let mut ticket = None;
        for _ in 0..8 {
            world.settle().await;
            ticket = world.tickets().pop();
            if ticket.is_some() {
                break;
            }
            world.pass(STEP, STEP).await;
        }
        let Some(ticket) = ticket else {
            ensure!(
                !case.waiting,
                "not executed again after {:?}, {} of {} attempts used: {:?}",
                case.history,
                case.counted,
                case.max,
                get(backend, case.id)
            );
            return Ok(());
        };
        executions += 1;
        ensure!(
            case.waiting,
            "executed again although it was finished after {:?}",
            case.history
        );
        let view = world
            .with_events(|events| {
                events.iter().rev().find_map(|event| match &event.what {
                    What::Start { view, .. } => Some(view.clone()),
                    _ => None,
                })
            })
            .unwrap();
        run.state_of(&(view.attempt, view.max_attempts, case.history.len()));
        ensure!(
            view.attempt == case.counted + 1,
            "attempt {} instead of {} after {:?}",
            view.attempt,
            case.counted + 1,
            case.history
        );
        ensure!(
            view.max_attempts == case.max,
            "max attempts {} instead of {} after {:?}",
            view.max_attempts,
            case.max,
            case.history
        );
        case.check(backend, true)?;
        let acts = [
            Some(Act::Fail("failed".to_owned())),
            Some(Act::Snooze(millis(DELAY))),
            Some(Act::Panic("panicked".to_owned())),
            Some(Act::Done),
            Some(Act::Cancel("cancelled".to_owned())),
            None,
        ];
        let act = acts[run.choose(if timeout.is_some() { 6 } else { 5 })].clone();
        run.note(|| format!("attempt {} of {}: {act:?}", view.attempt, view.max_attempts));
        case.history.push(match &act {
            Some(act) => format!("{act:?}").split('(').next().unwrap().to_owned(),
            None => "timeout".to_owned(),
        });
        match &act {
            Some(act) => world.release(ticket.id, Release::Act(act.clone())),
            None => world.pass(Duration::from_millis(6), Duration::from_millis(1)).await,
        }
        world.settle().await;
        let wanted = match act {
            Some(Act::Snooze(_)) => None,
            Some(Act::Done) => Some(JobStatus::Complete),
            Some(Act::Cancel(_)) => Some(JobStatus::Cancelled),
            _ if case.counted + 1 >= case.max => Some(JobStatus::Discarded),
            _ => None,
        };
        if !matches!(act, Some(Act::Snooze(_))) {
            case.counted += 1;
        }
        case.check(backend, false)?;
        let status = get(backend, case.id).unwrap().status;
        match wanted {
            Some(wanted) => ensure!(
                status == wanted,
                "{status:?} instead of {wanted:?} after {:?} ({} of {})",
                case.history,
                case.counted,
                case.max
            ),
            None => ensure!(
                waiting(status),
                "{status:?} instead of waiting after {:?} ({} of {})",
                case.history,
                case.counted,
                case.max
            ),
        }
        case.waiting = wanted.is_none();
        // Somebody may interfere.
        match run.deviate(if case.waiting { 5 } else { 3 }) {
            0 => {}
            1 if !case.waiting => {
                backend.rerun_job(case.id).await.unwrap();
                case.history.push("rerun".to_owned());
                case.max += 1;
                case.waiting = true;
            }
            2 if !case.waiting => {
                // The one more attempt may be taken back, or more be granted.
                backend.rerun_job(case.id).await.unwrap();
                case.history.push("rerun".to_owned());
                case.max += 1;
                case.waiting = true;
                let max = case.max + 1;
                case.set_max(backend, max, true).await;
            }
            1 => case.set_max(backend, 1, false).await,
            2 => case.set_max(backend, case.counted.max(1), true).await,
            3 => case.set_max(backend, case.max + 1, false).await,
            _ => case.set_max(backend, case.max.max(2) - 1, true).await,
        }
        case.check(backend, false)?;
    }
    Ok(())
}
