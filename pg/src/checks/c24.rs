//! The PostgreSQL backend follows its job life-cycle contract.
use chrono::{DateTime, TimeDelta, Utc};
use mc_engine::{Check, Run, Violation, ensure};
use rexecutor::{
    backend::{BackendError, ExecutionError, Job, testing},
    executor::Executor,
    job::{
        ErrorType, JobStatus,
        query::Where,
        uniqueness_criteria::{Replace, UniquenessCriteria},
    },
    pruner::{PruneBy, PruneSpec, Spec},
};
use rexecutor_sqlx::RexecutorPgBackend;
use serde_json::{Value, json};

use super::c20::{P, enqueue, stored};
use crate::{
    common::{enqueuable, error, millis, unique, waiting},
    executors::{Data, Plain},
    lab::*,
    model::{Op, Res},
    world::brief,
};

/// One thing to do next.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Enqueue(usize),
    Claim(&'static str),
    Complete(i32),
    Retry(i32),
    Discard(i32),
    Cancel(i32),
    CancelByApi(i32),
    Snooze(i32),
    Rerun(i32),
    RerunByApi(i32),
    Update(i32),
    UpdateByApi(i32),
    /// With the job as it was when it was enqueued.
    UpdateStale(i32),
    Prune(usize),
}

fn finished(status: JobStatus) -> bool {
    matches!(
        status,
        JobStatus::Complete | JobStatus::Cancelled | JobStatus::Discarded
    )
}

fn result(value: Result<(), rexecutor::RexecutorError>) -> Res {
    match value {
        Ok(()) => Res::Done,
        Err(rexecutor::RexecutorError::BackendError(BackendError::JobNotFound(id))) => {
            Res::NotFound(id.into())
        }
        Err(error) => Res::Failed(format!("{error:?}")),
    }
}

struct Life<'l> {
    race: Race<'l>,
    lab: &'l Lab,
    backend: RexecutorPgBackend,
    stale: Vec<Job>,
    gone: Vec<i32>,
}

impl<'l> Life<'l> {
    fn new(lab: &'l Lab) -> Self {
        Self {
            race: Race::new(lab),
            lab,
            backend: lab.backend(2),
            stale: Vec::new(),
            gone: Vec::new(),
        }
    }

    fn options(&self, kinds: &[&str], most: usize) -> Vec<Do> {
        let jobs = &self.race.model.jobs;
        let mut options = Vec::new();
        let allowed = |kind: &str| kinds.is_empty() || kinds.contains(&kind);
        if allowed("enqueue") {
            if jobs.len() < most {
                options.extend([Do::Enqueue(0), Do::Enqueue(1), Do::Enqueue(2)]);
            }
            // Finds an existing job.
            options.extend([Do::Enqueue(3), Do::Enqueue(4)]);
        }
        if allowed("claim") {
            options.push(Do::Claim(P));
            if jobs.values().any(|e| e.job.executor == "plain_other") {
                options.push(Do::Claim("plain_other"));
            }
        }
        for (id, entry) in jobs {
            let (id, status) = (*id, entry.job.status);
            for (kind, action) in [
                ("complete", Do::Complete(id)),
                ("retry", Do::Retry(id)),
                ("discard", Do::Discard(id)),
                ("cancel", Do::Cancel(id)),
                ("api", Do::CancelByApi(id)),
                ("update", Do::Update(id)),
                ("update", Do::UpdateStale(id)),
            ] {
                if allowed(kind) {
                    options.push(action);
                }
            }
            if allowed("api") && entry.job.executor == P {
                options.push(Do::UpdateByApi(id));
            }
            // Only what is running can be snoozed, only what is over can be run again.
            if allowed("snooze") && status == JobStatus::Executing {
                options.push(Do::Snooze(id));
            }
            if finished(status) {
                if allowed("rerun") {
                    options.push(Do::Rerun(id));
                }
                if allowed("api") {
                    options.push(Do::RerunByApi(id));
                }
            }
        }
        if allowed("prune") {
            options.extend([Do::Prune(0), Do::Prune(1)]);
        }
        options
    }

    fn op(&mut self, op: Op) -> Result<Res, Violation> {
        self.race.before(&self.backend, op)
    }

    fn job(&self, id: i32) -> Job {
        self.race.model.jobs[&id].job.clone()
    }

    fn step(&mut self, action: Do, round: i64) -> Result<(), Violation> {
        let at = Utc::now();
        let later = at + millis(250 + round);
        let problem = |name: &str, error_type| ExecutionError {
            error_type,
            message: format!("{name} {round}"),
        };
        let op = match action {
            Do::Enqueue(which) => {
                let mut job = enqueuable(
                    if which == 1 { "plain_other" } else { P },
                    round,
                    // Not exactly now: the stream would wait for zero time again and again.
                    if which == 2 { at + millis(1_500) } else { at - millis(1) },
                );
                job.priority = 10 - round as u16;
                job.tags = vec![format!("tag {round}"), "a \"b\", {c} \\ NULL".to_owned()];
                job.metadata = json!(format!("metadata {round}"));
                match which {
                    3 => {
                        job = unique(
                            job,
                            UniquenessCriteria::by_executor()
                                .and_statuses(&JobStatus::ALL)
                                .on_conflict(Replace::priority().and_data().for_statuses(&[
                                    JobStatus::Executing,
                                    JobStatus::Complete,
                                ])),
                        )
                    }
                    4 => {
                        job = unique(
                            job,
                            UniquenessCriteria::by_statuses(&[JobStatus::Retryable])
                                .and_key(&"key")
                                .on_conflict(Replace::scheduled_at()),
                        )
                    }
                    _ => {}
                }
                let res = self.op(Op::Enqueue(job))?;
                let Res::Id(id) = res else {
                    return Err(format!("enqueue failed: {res:?}").into());
                };
                let job = self.job(id);
                if self.stale.iter().all(|job| job.id != id) {
                    self.stale.push(job);
                }
                return Ok(());
            }
            Do::Claim(executor) => {
                let due = self.race.model.jobs.values().any(|entry| {
                    entry.job.executor == executor
                        && waiting(entry.job.status)
                        && entry.job.scheduled_at <= at
                });
                let job = self.race.claim_before(&self.backend, executor)?;
                ensure!(!due || job.is_some(), "a due job was not handed out");
                return Ok(());
            }
            Do::Complete(id) => Op::Complete(id),
            Do::Retry(id) => Op::Retry(id, later, problem("retry", ErrorType::Timeout)),
            Do::Discard(id) => Op::Discard(id, problem("discard", ErrorType::Panic)),
            Do::Cancel(id) => {
                Op::Cancel(id, problem("cancel", ErrorType::Other("it's {odd}".to_owned())))
            }
            Do::CancelByApi(id) => {
                let message = format!("because {round}");
                let res = self.lab.block(Plain::cancel_job_on_backend(
                    id.into(),
                    Box::new(message.clone()),
                    &self.backend,
                ));
                let error = ExecutionError {
                    error_type: ErrorType::Cancelled,
                    message,
                };
                self.race.model.step(&Op::Cancel(id, error), &result(res), at)?;
                return Ok(());
            }
            Do::Snooze(id) => Op::Snooze(id, later),
            Do::Rerun(id) => Op::Rerun(id),
            Do::RerunByApi(id) => {
                let res = self.lab.block(Plain::rerun_job_on_backend(id.into(), &self.backend));
                self.race.model.step(&Op::Rerun(id), &result(res), at)?;
                return Ok(());
            }
            Do::Update(id) => {
                let mut job = self.job(id);
                job.data = Data::n(100 + round).json();
                job.metadata = Value::Null;
                job.tags.push(format!("updated {round}"));
                if round % 2 == 0 {
                    job.max_attempts += 2;
                    job.priority += 1;
                    job.scheduled_at = later;
                } else {
                    // Less than what has been used.
                    job.max_attempts = 0;
                    job.priority = 0;
                    job.scheduled_at -= millis(1_500);
                    // What can not be updated.
                    job.attempt += 5;
                    job.attempted_at = Some(later);
                    job.completed_at = Some(later);
                    job.inserted_at = later;
                    let more = job.errors.last().cloned();
                    job.errors.extend(more);
                    job.status = JobStatus::Cancelled;
                }
                Op::Update(job)
            }
            Do::UpdateStale(id) => {
                let mut job = self.stale.iter().find(|job| job.id == id).cloned().unwrap_or_else(|| self.job(id));
                job.priority = 77;
                Op::Update(job)
            }
            Do::UpdateByApi(id) => {
                let mut jobs = self
                    .lab
                    .block(Plain::query_jobs_on_backend(Where::id_equals(id.into()), &self.backend))
                    .map_err(|error| format!("query failed: {error}"))?;
                ensure!(jobs.len() == 1, "job {id} was not found");
                let mut job = jobs.remove(0);
                let mut raw = self.job(id);
                job.data = Data::n(200 + round);
                job.metadata = Some(format!("updated {round}"));
                job.priority = 3;
                job.tags = vec!["t".to_owned()];
                job.max_attempts = [9, 1][round as usize % 2];
                raw.data = Data::n(200 + round).json();
                raw.metadata = json!(format!("updated {round}"));
                raw.priority = 3;
                raw.tags = vec!["t".to_owned()];
                raw.max_attempts = [9, 1][round as usize % 2];
                let res = self.lab.block(Plain::update_job_on_backend(job, &self.backend));
                self.race.model.step(&Op::Update(raw), &result(res), at)?;
                return Ok(());
            }
            Do::Prune(which) => {
                let spec = PruneSpec {
                    status: [JobStatus::Complete, JobStatus::Discarded][which],
                    prune_by: [PruneBy::MaxLength(0), PruneBy::MaxAge(TimeDelta::zero())][which],
                    executors: Spec::Except(vec!["plain_other"]),
                };
                let before: Vec<i32> = self.race.model.jobs.keys().copied().collect();
                self.op(Op::Prune(spec))?;
                let left = &self.race.model.jobs;
                self.gone.extend(before.into_iter().filter(|id| !left.contains_key(id)));
                return Ok(());
            }
        };
        self.op(op)?;
        Ok(())
    }

    fn compare(&self) -> Result<(), Violation> {
        Ok(self.race.model.compare(&stored(self.lab, &self.backend)?)?)
    }

    /// Nothing happens for jobs that do not exist.
    fn unknown(&mut self) -> Result<(), Violation> {
        let at = Utc::now();
        let mut ids = self.gone.clone();
        ids.extend([-1, 777, i32::MAX]);
        let template = match self.stale.first() {
            Some(job) => job.clone(),
            None => {
                let id = enqueue(&mut self.race, &self.backend, enqueuable(P, 0, at))?;
                self.job(id)
            }
        };
        for id in ids {
            if self.race.model.jobs.contains_key(&id) {
                continue;
            }
            let job = Job { id, ..template.clone() };
            for op in [
                Op::Complete(id),
                Op::Retry(id, at, error("e")),
                Op::Discard(id, error("e")),
                Op::Cancel(id, error("e")),
                Op::Snooze(id, at),
                Op::Rerun(id),
                Op::Update(job),
            ] {
                self.op(op)?;
            }
        }
        self.compare()
    }
}

fn kind(action: &Do) -> String {
    format!("{action:?}").split('(').next().unwrap().to_owned()
}

fn sequence(
    run: &mut Run,
    kinds: &[&str],
    prefix: &[Do],
    depth: usize,
    most: usize,
) -> mc_engine::explore::Outcome {
    let lab = Lab::new();
    let mut life = Life::new(&lab);
    for step in 0..prefix.len() + depth {
        lab.advance(1_000);
        let action = match prefix.get(step) {
            Some(action) => *action,
            None => *run.pick(&life.options(kinds, most)),
        };
        run.note(|| format!("{action:?}"));
        life.step(action, 1 + step as i64)
            .and_then(|()| life.compare())
            .map_err(|violation| Violation::new(kind(&action), violation.message))?;
        run.state_of(
            &life
                .race
                .model
                .jobs
                .values()
                .map(|entry| format!("{} {:?}", brief(&entry.job), entry.job.data))
                .collect::<Vec<_>>(),
        );
    }
    life.unknown()
        .map_err(|violation| Violation::new("unknown id", violation.message))?;
    Ok(format!("{} jobs", life.race.model.jobs.len()))
}

fn values() -> Vec<Value> {
    vec![
        Value::Null,
        json!(true),
        json!(0),
        json!(-17),
        json!(i64::MAX),
        json!(1.5),
        json!(""),
        json!("null"),
        json!("it's \"quoted\" \\ \u{e9}\u{1f600} \n\t"),
        json!([]),
        json!({}),
        json!([1, "two", null, [3], {"four": 5}]),
        json!({"z": 1, "a": {"nested": [null]}, "": ""}),
    ]
}

fn tags() -> Vec<Vec<String>> {
    [
        &[][..],
        &["a"],
        &["b", "a", "b"],
        &["", "NULL", "with space", "quo\"te", "it's", "{br,ace}", "back\\slash", "\u{e9}\u{1f600}"],
    ]
    .iter()
    .map(|tags| tags.iter().map(|tag| tag.to_string()).collect())
    .collect()
}

fn instants() -> Vec<DateTime<Utc>> {
    vec![
        at(0),
        at(-86_400_000 * 365 * 20),
        at(86_400_000 * 365 * 100),
        at(123) + TimeDelta::microseconds(457),
        DateTime::UNIX_EPOCH - TimeDelta::microseconds(1),
    ]
}

/// What makes a job runnable, given two waiting for later, one that is running and one that is
/// finished.
fn wakers(wake: &Wake, when: DateTime<Utc>) -> Vec<(&'static str, Op)> {
    let Wake { later, running, done, .. } = wake;
    let (running, done) = (*running, *done);
    let criteria = UniquenessCriteria::by_key(&"k").and_statuses(&JobStatus::ALL);
    let mut sooner = later.clone();
    sooner.scheduled_at = when;
    let mut again = wake.retryable.clone();
    again.scheduled_at = when;
    vec![
        ("enqueue", Op::Enqueue(enqueuable(P, 7, when))),
        (
            "enqueue unique",
            Op::Enqueue(unique(enqueuable(P, 7, when), UniquenessCriteria::by_key(&"new"))),
        ),
        (
            "replace the schedule",
            Op::Enqueue(unique(
                enqueuable(P, 7, when),
                criteria.on_conflict(Replace::scheduled_at().for_statuses(&[JobStatus::Scheduled])),
            )),
        ),
        ("update", Op::Update(sooner)),
        (
            "replace the schedule of the retryable",
            Op::Enqueue(unique(
                enqueuable(P, 7, when),
                UniquenessCriteria::by_key(&"r")
                    .and_statuses(&[JobStatus::Retryable])
                    .on_conflict(Replace::scheduled_at().for_statuses(&[JobStatus::Retryable])),
            )),
        ),
        ("update the retryable", Op::Update(again)),
        ("retry", Op::Retry(running, when, error("e"))),
        ("snooze", Op::Snooze(running, when)),
        ("retry the waiting", Op::Retry(later.id, when, error("e"))),
        ("retry the finished", Op::Retry(done, when, error("e"))),
        ("rerun", Op::Rerun(done)),
    ]
}

type Described = (String, Vec<String>, Vec<(String, String)>);

/// What sqlx has recorded about the statements when it was connected to a server.
fn described() -> Vec<Described> {
    fn name(ty: &Value) -> String {
        match ty {
            Value::String(name) => name.clone(),
            ty => ty.as_object().and_then(|ty| ty.keys().next()).cloned().unwrap_or_default(),
        }
    }
    let mut found = Vec::new();
    for entry in std::fs::read_dir("/repo/rexecutor-sqlx/.sqlx").into_iter().flatten().flatten() {
        let Some(file) = std::fs::read(entry.path()).ok().and_then(|text| serde_json::from_slice::<Value>(&text).ok()) else {
            continue;
        };
        let list = |value: &Value| value.as_array().cloned().unwrap_or_default();
        let describe = &file["describe"];
        let params = list(&describe["parameters"]["Left"]).iter().map(name).collect();
        let columns = list(&describe["columns"])
            .iter()
            .map(|column| (column["name"].as_str().unwrap_or_default().to_owned(), name(&column["type_info"])))
            .collect();
        found.push((file["query"].as_str().unwrap_or_default().to_owned(), params, columns));
    }
    found.sort();
    found
}

struct Wake {
    later: Job,
    retryable: Job,
    running: i32,
    done: i32,
}

/// A job for much later, one to be tried again much later, one that is running and a finished one.
fn wake_setup(race: &mut Race, backend: &RexecutorPgBackend) -> Result<Wake, Violation> {
    let done = enqueue(race, backend, enqueuable(P, 3, at(-10)))?;
    race.claim_before(backend, P)?;
    race.before(backend, Op::Complete(done))?;
    let retryable = unique(enqueuable(P, 4, at(-7)), UniquenessCriteria::by_key(&"r"));
    let retryable = enqueue(race, backend, retryable)?;
    race.claim_before(backend, P)?;
    race.before(backend, Op::Retry(retryable, at(600_000), error("again")))?;
    let running = enqueue(race, backend, enqueuable(P, 2, at(-5)))?;
    let claimed = race.claim_before(backend, P)?;
    ensure!(claimed.is_some_and(|job| job.id == running), "the job is not handed out");
    let later = enqueue(
        race,
        backend,
        unique(enqueuable(P, 1, at(500_000)), UniquenessCriteria::by_key(&"k")),
    )?;
    Ok(Wake {
        later: race.model.jobs[&later].job.clone(),
        retryable: race.model.jobs[&retryable].job.clone(),
        running,
        done,
    })
}

/// A pool may hand out connections that are lost a few times.
fn restarted(lab: &Lab, backend: &RexecutorPgBackend, op: &Op) -> Res {
    let mut res = Res::Done;
    for _ in 0..6 {
        res = lab.block(perform(backend, op));
        if !matches!(res, Res::Failed(_)) {
            break;
        }
    }
    res
}

/// Wait until the job is due, it is handed out promptly then and not earlier.
fn handed(lab: &Lab, race: &Race, when: DateTime<Utc>, name: &str) -> Result<(), Violation> {
    for _ in 0..400 {
        lab.settle();
        let calls = race.history.calls();
        if let Some(job) = calls.iter().find_map(|call| match &call.res {
            Res::Job(job) => Some(job),
            _ => None,
        }) {
            ensure!(
                when - Utc::now() <= millis(100),
                "{name}: job {} was handed out at {} but is scheduled at {when}",
                job.id,
                Utc::now()
            );
            return Ok(());
        }
        ensure!(
            Utc::now() < when + millis(150),
            "{name}: the job scheduled at {when} is not handed out at {} to a waiting stream",
            Utc::now()
        );
        lab.advance(if when - Utc::now() > millis(200) { 100 } else { 10 });
    }
    Err("the time does not pass".into())
}

pub fn run(check: &mut Check) {
    check.assume("Only running jobs are snoozed and only finished jobs are rerun; completing, retrying, discarding, cancelling and updating happens in any status.");
    check.assume("Error kinds called panic, timeout or cancelled are the predefined ones.");
    let depth = check.by_tier(4, 5);
    check.scenario("everything", 0, |run| sequence(run, &[], &[], depth, 2));
    let (depth, most) = check.by_tier((3, 3), (4, 2));
    check.scenario("from two jobs", 0, |run| {
        let prefix = [Do::Enqueue(0), Do::Enqueue(0), Do::Claim(P)];
        sequence(run, &[], &prefix, depth, most)
    });
    let depth = check.by_tier(6, 7);
    check.scenario("one job", 0, |run| {
        let kinds = ["claim", "complete", "retry", "discard", "cancel", "snooze", "rerun"];
        sequence(run, &kinds, &[Do::Enqueue(0)], depth, 1)
    });
    let depth = check.by_tier(9, 12);
    check.scenario("long lives", 0, |run| {
        let kinds = ["claim", "retry", "snooze", "rerun"];
        sequence(run, &kinds, &[Do::Enqueue(0), Do::Claim(P)], depth, 1)
    });
    check.scenario("contents", 0, |run| {
        let lab = Lab::new();
        let mut life = Life::new(&lab);
        lab.advance(1);
        // Others which stay as they are.
        for (n, executor) in [P, "plain_other"].into_iter().enumerate() {
            enqueue(&mut life.race, &life.backend, enqueuable(executor, n as i64, at(900_000)))?;
        }
        let mut job = enqueuable("content", 0, at(-1));
        let part = run.choose(5);
        match part {
            0 => {
                job.data = run.pick(&values()).clone();
                job.metadata = run.pick(&values()).clone();
            }
            1 => {
                job.tags = run.pick(&tags()).clone();
                job.data = run.pick(&values()).clone();
            }
            2 => {
                job.scheduled_at = *run.pick(&instants());
                job.priority = *run.pick(&[0, 1, u16::MAX]);
            }
            // About what goes wrong, below.
            3 => {}
            _ => {
                job.priority = *run.pick(&[0, 1, 7, u16::MAX]);
                job.max_attempts = *run.pick(&[0, 1, 7, u16::MAX]);
            }
        }
        if run.flag() {
            job = unique(job, UniquenessCriteria::by_key(&"content"));
        }
        let id = enqueue(&mut life.race, &life.backend, job.clone())?;
        life.compare()?;
        let mut changed = life.job(id);
        if run.flag() {
            // The same by updating.
            let back = changed.clone();
            changed.data = json!("something else");
            changed.metadata = json!(["else"]);
            changed.tags = vec!["else".to_owned()];
            changed.scheduled_at = at(77);
            changed.priority = if part == 4 { *run.pick(&[5, 65_535]) } else { 5 };
            changed.max_attempts = 70_000 - changed.priority;
            life.op(Op::Update(changed))?;
            life.compare()?;
            life.op(Op::Update(back))?;
            life.compare()?;
        }
        if job.scheduled_at < Utc::now() {
            let claimed = life.race.claim_before(&life.backend, "content")?;
            ensure!(claimed.is_some(), "the job is not handed out");
            let message = match if part == 3 { run.choose(4) } else { 1 } {
                0 => String::new(),
                1 => "it's \"bad\" \\ \u{e9}\n{x}".to_owned(),
                2 => "null".to_owned(),
                _ => "long \u{e9} ".repeat(10_000),
            };
            let types = [
                    ErrorType::Panic,
                    ErrorType::Timeout,
                    ErrorType::Cancelled,
                    ErrorType::Other(String::new()),
                    ErrorType::Other(" Some\tThing ".to_owned()),
                    ErrorType::Other("Panic: 'x' \u{1f600} \\".to_owned()),
                ];
            let error_type = if part == 3 { run.pick(&types).clone() } else { ErrorType::Timeout };
            let problem = ExecutionError { error_type, message };
            life.op(Op::Retry(id, Utc::now() - millis(2), problem.clone()))?;
            life.compare()?;
            life.race.claim_before(&life.backend, "content")?;
            let last = run.flag();
            life.op(match last {
                true => Op::Discard(id, problem),
                false => Op::Cancel(id, problem),
            })?;
            life.compare()?;
        }
        run.state_of(&format!("{:?}", life.race.model.jobs));
        Ok(format!("part {part}"))
    });
    check.scenario("waking", 0, |run| {
        let lab = Lab::new();
        // Through the same instance, through another one, and with a third one that also waits.
        let (here, there) = (lab.backend(4), lab.backend(2));
        let mut race = Race::new(&lab);
        lab.advance(1);
        let wake = wake_setup(&mut race, &here)?;
        if run.flag() {
            // Another executor has nothing to do with it.
            enqueue(&mut race, &here, enqueuable("plain_other", 4, at(-1_000)))?;
        }
        let soon = *run.pick(&[-1, 50, 2_000, -7_200_000]);
        let waited = *run.pick(&[10, 7_000, 31_000]);
        let when = at(1 + waited + soon);
        let ops = wakers(&wake, when);
        let (name, op) = run.pick(&ops).clone();
        // Others who would like to know: one which is busy and does not ask for a job at the moment,
        // one which has gone, one which waits elsewhere.
        let company = *run.pick(&["none", "busy before", "busy after", "gone", "elsewhere"]);
        let mut busy = Vec::new();
        match company {
            "busy before" => busy.push(lab.block(Claims::new(&here, P))),
            "gone" => drop(lab.block(Claims::new(&here, P))),
            _ => (),
        }
        let claims = lab.block(Claims::new(&here, P));
        race.claims(&claims, P, 1);
        match company {
            "busy after" => busy.push(lab.block(Claims::new(&here, P))),
            "elsewhere" => {
                let claims = lab.block(Claims::new(&there, P));
                race.claims(&claims, P, 1);
            }
            _ => (),
        }
        lab.settle();
        let mut left = waited;
        while left > 0 {
            let part = left.min(1_000);
            lab.advance(part as u64);
            lab.settle();
            left -= part;
        }
        ensure!(race.history.calls().is_empty(), "something was handed out before anything was due");
        let when = if name == "rerun" { Utc::now() } else { when };
        let by = if run.flag() { &here } else { &there };
        // Notifications arrive sooner or later.
        let held = run.flag();
        lab.server().hold_notifications = held;
        let start = race.history.start();
        let res = lab.block(perform(by, &op));
        race.history.end_now(start, op, res);
        if held {
            lab.settle();
            let ids = lab.server().held();
            ensure!(!ids.is_empty(), "{name}: nobody is notified");
            for id in ids {
                lab.server().deliver(id);
            }
            lab.server().hold_notifications = false;
        }
        handed(&lab, &race, when, name)?;
        lab.settle();
        race.judge(&here)?;
        run.state_of(&(name, soon, waited, company, held));
        Ok(name.to_owned())
    });
    let bound = check.by_tier(5, 9);
    check.scenario("waking while going to sleep", bound, |run| {
        let lab = Lab::new();
        let (here, there) = (lab.backend(3), lab.backend(2));
        let mut race = Race::new(&lab);
        lab.advance(1);
        let wake = wake_setup(&mut race, &here)?;
        let when = at(*run.pick(&[0, 300]));
        let ops = wakers(&wake, when);
        let (name, op) = run.pick(&ops).clone();
        let when = if name == "rerun" { Utc::now() } else { when };
        let claims = lab.block(Claims::new(&here, P));
        race.claims(&claims, P, 1);
        race.ops(&there, vec![op]);
        let held = run.flag();
        lab.server().hold_notifications = held;
        // So may be the answers to statements.
        lab.server().hold_answers = run.flag();
        lab.server().immediate = false;
        // The notification is one more step.
        for _ in 0..100 {
            let held = lab.server().held();
            if !held.is_empty() && (lab.ready().is_empty() || run.deviate(2) == 1) {
                for id in held {
                    lab.server().deliver(id);
                }
            } else if !lab.step(run) {
                break;
            }
        }
        lab.server().immediate = true;
        handed(&lab, &race, when, name)?;
        lab.settle();
        ensure!(race.unfinished().is_empty(), "{name} does not finish");
        race.model.focus.order = false;
        race.judge(&here)?;
        Ok(name.to_owned())
    });
    check.scenario("the listening connection is lost", 0, |run| {
        let lab = Lab::new();
        let (here, there) = (lab.backend(3), lab.backend(2));
        let mut race = Race::new(&lab);
        lab.advance(1);
        let wake = wake_setup(&mut race, &here)?;
        let claims = lab.block(Claims::new(&here, P));
        race.worker(&claims, P);
        lab.settle();
        let outage = *run.pick(&[0, 500, 5_000, 45_000]);
        // Only that connection, or all of them: the server is restarted.
        let all = run.flag();
        let lost = if all { lab.server().connections() } else { lab.server().listeners() };
        lab.server().refuse = outage > 0;
        for id in lost {
            lab.server().kill(id);
        }
        lab.settle();
        let mut left = outage;
        while left > 0 {
            lab.advance(500);
            lab.settle();
            left -= 500;
        }
        lab.server().refuse = false;
        // Time to connect again.
        for _ in 0..20 {
            lab.advance(500);
            lab.settle();
        }
        let soon = *run.pick(&[-1, 2_000]);
        let when = Utc::now() + millis(soon);
        let ops = wakers(&wake, when);
        let (name, op) = run.pick(&ops).clone();
        let when = if name == "rerun" { Utc::now() } else { when };
        let by = if run.flag() { &here } else { &there };
        let start = race.history.start();
        let res = restarted(&lab, by, &op);
        race.history.end_now(start, op, res);
        handed(&lab, &race, when, name)?;
        run.state_of(&format!("{name} {:?}", stored(&lab, &here)?.iter().map(brief).collect::<Vec<_>>()));
        Ok(name.to_owned())
    });
    check.scenario("a change while the listening connection is lost", 0, |run| {
        let lab = Lab::new();
        let (here, there) = (lab.backend(3), lab.backend(2));
        let mut race = Race::new(&lab);
        lab.advance(1);
        let wake = wake_setup(&mut race, &here)?;
        let outage = *run.pick(&[0, 500, 5_000]);
        // Others who do not ask for a job at the moment.
        let company = *run.pick(&["none", "busy before", "busy after", "gone", "another executor"]);
        let mut busy = Vec::new();
        match company {
            "busy before" => busy.push(lab.block(Claims::new(&here, P))),
            "gone" => drop(lab.block(Claims::new(&here, P))),
            "another executor" => busy.push(lab.block(Claims::new(&here, "plain_other"))),
            _ => (),
        }
        let claims = lab.block(Claims::new(&here, P));
        race.worker(&claims, P);
        if company == "busy after" {
            busy.push(lab.block(Claims::new(&here, P)));
        }
        lab.settle();
        let all = run.flag();
        let when = Utc::now() - millis(1);
        let ops = wakers(&wake, when);
        let (name, op) = run.pick(&ops).clone();
        // The change is committed, the notification is lost with the connection.
        lab.server().hold_notifications = true;
        let start = race.history.start();
        let res = lab.block(perform(&there, &op));
        ensure!(!matches!(res, Res::Failed(_)), "{name} failed: {res:?}");
        race.history.end_now(start, op, res);
        let lost = if all { lab.server().connections() } else { lab.server().listeners() };
        lab.server().refuse = outage > 0;
        for id in lost {
            lab.server().kill(id);
        }
        lab.server().hold_notifications = false;
        lab.settle();
        let mut left = outage;
        while left > 0 {
            lab.advance(500);
            lab.settle();
            left -= 500;
        }
        lab.server().refuse = false;
        for _ in 0..8 {
            lab.advance(500);
            lab.settle();
        }
        ensure!(
            !race.history.calls().iter().all(|call| !matches!(call.op, Op::Claim(_))),
            "{name}: a due job is not handed out 4 s after the server is back"
        );
        run.state_of(&format!("{name} {:?}", stored(&lab, &here).map(|jobs| jobs.iter().map(brief).collect::<Vec<_>>()).ok()));
        Ok(name.to_owned())
    });
    check.scenario("another notification on the channel", 0, |run| {
        let lab = Lab::new();
        let (here, there) = (lab.backend(3), lab.backend(2));
        let mut race = Race::new(&lab);
        lab.advance(1);
        let wake = wake_setup(&mut race, &here)?;
        let claims = lab.block(Claims::new(&here, P));
        race.claims(&claims, P, 1);
        lab.settle();
        let payload = *run.pick(&[
            "{\"executor\":\"nobody\",\"scheduled_at\":\"2024-01-01T00:00:00+00:00\"}",
            "{\"executor\":\"plain\",\"scheduled_at\":\"2024-01-01T00:00:00+00:00\"}",
            "hello",
            "{}",
            "",
        ]);
        lab.server().notify("public.rexecutor_scheduled", payload);
        lab.settle();
        let when = Utc::now() - millis(1);
        let ops = wakers(&wake, when);
        let (name, op) = run.pick(&ops).clone();
        let when = if name == "rerun" { Utc::now() } else { when };
        let start = race.history.start();
        let res = lab.block(perform(&there, &op));
        race.history.end_now(start, op, res);
        handed(&lab, &race, when, name)?;
        run.state_of(&format!("{name} {:?}", stored(&lab, &here)?.iter().map(brief).collect::<Vec<_>>()));
        Ok(name.to_owned())
    });
    let bound = check.by_tier(3, 5);
    check.scenario("at once", bound, |run| {
        let lab = Lab::new();
        let backends = [lab.backend(2), lab.backend(2)];
        let mut race = Race::new(&lab);
        lab.advance(1);
        let mut ids = Vec::new();
        for n in 0..2 {
            let id = enqueue(&mut race, &backends[0], enqueuable(P, n, at(-10 * n)))?;
            ids.push(id);
        }
        for _ in 0..2 {
            race.claim_before(&backends[0], P)?;
        }
        let changed = |race: &Race, id: i32| {
            let mut job = race.model.jobs[&id].job.clone();
            job.priority += 5;
            job.tags = vec!["changed".to_owned()];
            Op::Update(job)
        };
        let action = |race: &Race, which: usize, id: i32| match which {
            0 => Op::Complete(id),
            1 => Op::Retry(id, at(60_000), error("retry")),
            2 => Op::Cancel(id, error("cancel")),
            3 => Op::Discard(id, error("discard")),
            4 => Op::Snooze(id, at(70_000)),
            _ => changed(race, id),
        };
        let (a, b) = (run.choose(6), run.choose(6));
        let target = *run.pick(&ids);
        let more = run.choose(3);
        let first = vec![action(&race, a, ids[0])];
        let mut second = vec![action(&race, b, target)];
        match more {
            0 => {}
            1 => second.push(action(&race, 1, ids[1])),
            _ => second.push(Op::Rerun(ids[0])),
        }
        // Snoozing twice or what is not running is not meant.
        if matches!(first[0], Op::Snooze(..)) && matches!(second[0], Op::Snooze(..)) && target == ids[0] {
            return Ok("no".into());
        }
        race.ops(&backends[0], first);
        race.ops(&backends[1], second);
        race.run(run)?;
        ensure!(race.unfinished().is_empty(), "an operation does not finish");
        race.judge(&backends[0])?;
        Ok(format!("{a} {b} {more}"))
    });
    // Not about the property: how well the model of the server agrees with the real one that has
    // described these statements.
    let described = described();
    check.scenario("statements described by a real server", 0, |run| {
        let lab = Lab::new();
        if described.is_empty() {
            return Ok("none".into());
        }
        let (sql, params, columns) = run.pick(&described);
        run.state_of(sql);
        let found = lab.server().describe(sql);
        run.note(|| format!("{sql}: {found:?}"));
        Ok(match found {
            Ok((p, c)) if p == *params && c == *columns => "the same".into(),
            Ok(_) => "different".into(),
            Err(error) => error,
        })
    });
    check.scenario("the suite for backends", 0, |run| {
        let lab = Lab::new();
        let backend = lab.backend(4);
        lab.advance(1);
        let count = 26;
        let which = run.choose(count);
        macro_rules! suite {
            ($($name:ident)*) => {{
                let mut n = 0;
                $(
                    if n == which {
                        let backend = backend.clone();
                        run.note(|| stringify!($name).to_owned());
                        run.state_of(&which);
                        let task = lab.spawn(testing::$name(backend));
                        // Time passes while it runs.
                        lab.server().immediate = false;
                        for _ in 0..10_000 {
                            let ready = lab.ready();
                            if task.is_finished() {
                                break;
                            }
                            match ready.first() {
                                Some(step) => lab.server().step(step.conn),
                                None => lab.advance(9),
                            }
                            lab.advance(1);
                        }
                        lab.server().immediate = true;
                        ensure!(task.is_finished(), "{} does not finish", stringify!($name));
                        if lab.block(task).is_err() {
                            return Err(format!("{} fails", stringify!($name)).into());
                        }
                        return Ok(stringify!($name).to_owned());
                    }
                    n += 1;
                )*
                assert_eq!(n, count);
                unreachable!()
            }};
        }
        suite! {
            subscribe_ready_jobs subscribe_ready_jobs_enqueuing_wakes_subscriber
            subscribe_ready_jobs_streams_jobs_by_priority
            subscribe_ready_jobs_streams_only_one_steam_receives_job enqueue enqueue_unique
            enqueue_unique_no_matching enqueue_unique_replace update_job update_job_not_found
            mark_job_complete mark_job_complete_not_found rerun_job_first_attempt
            rerun_job_first_subsequent_attempt rerun_job_not_found mark_job_snoozed_first_attempt
            mark_job_snoozed_other_attempt mark_job_snoozed_not_found mark_job_discarded
            mark_job_discarded_not_found mark_job_retryable mark_job_retryable_not_found
            mark_job_cancelled mark_job_cancelled_not_found query prune_jobs
        }
    });
}
