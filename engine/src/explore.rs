//! Stateless exhaustive exploration: every execution is a deterministic function of the answers to
//! its choice points, all answers are enumerated depth first.
use std::{
    collections::{HashMap, HashSet},
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Arc, Condvar, Mutex,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

/// What went wrong in an execution. The signature identifies the failing case independently of
/// details such as ids or times.
#[derive(Debug, Clone)]
pub struct Violation {
    pub signature: String,
    pub message: String,
}

impl Violation {
    pub fn new(signature: impl Into<String>, message: impl Into<String>) -> Self {
        Self {
            signature: signature.into(),
            message: message.into(),
        }
    }
}

impl From<String> for Violation {
    fn from(message: String) -> Self {
        let signature = message.split([':', ';']).next().unwrap_or("").to_owned();
        Self { signature, message }
    }
}

impl From<&str> for Violation {
    fn from(message: &str) -> Self {
        message.to_owned().into()
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::Violation::from(format!($($arg)*)));
        }
    };
}

/// One execution.
pub struct Run {
    prefix: Vec<u32>,
    // (answer, number of answers, cost of a non default answer)
    trace: Vec<(u32, u32, u32)>,
    cost: u32,
    bound: u32,
    pub log: Vec<String>,
    verbose: bool,
    states: HashSet<u64>,
    pub transitions: u64,
    mismatch: bool,
    /// Threads may also be switched at every allocation and reading of the clock.
    pub fine: bool,
}

impl Run {
    fn new(prefix: Vec<u32>, bound: u32, verbose: bool) -> Self {
        Self {
            prefix,
            trace: Vec::new(),
            cost: 0,
            bound,
            log: Vec::new(),
            verbose,
            states: HashSet::new(),
            transitions: 0,
            mismatch: false,
            fine: false,
        }
    }

    /// Choose one of `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        self.choose_at_cost(n, 0)
    }

    /// Choose one of `n` alternatives, where every answer but the first counts against the bound.
    pub fn deviate(&mut self, n: usize) -> usize {
        self.choose_at_cost(n, 1)
    }

    fn choose_at_cost(&mut self, n: usize, cost: u32) -> usize {
        assert!(n > 0, "choice without alternatives");
        self.transitions += 1;
        let n = if self.cost + cost > self.bound { 1 } else { n };
        if n == 1 {
            return 0;
        }
        let at = self.trace.len();
        let mut answer = self.prefix.get(at).copied().unwrap_or(0);
        if answer as usize >= n {
            self.mismatch = true;
            answer = 0;
        }
        if answer > 0 {
            self.cost += cost;
        }
        self.trace.push((answer, n as u32, cost));
        answer as usize
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.choose(items.len())]
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// Record a visited state.
    pub fn state(&mut self, hash: u64) {
        self.states.insert(hash);
    }

    pub fn state_of(&mut self, value: &impl std::hash::Hash) {
        use std::hash::{DefaultHasher, Hasher};
        let mut hasher = DefaultHasher::new();
        value.hash(&mut hasher);
        self.states.insert(hasher.finish());
    }

    /// Record a line for the replay.
    pub fn note(&mut self, line: impl FnOnce() -> String) {
        if self.verbose {
            self.log.push(line());
        }
    }

    pub fn verbose(&self) -> bool {
        self.verbose
    }

    pub(crate) fn prefix(&self) -> &[u32] {
        &self.prefix
    }

    pub(crate) fn bound(&self) -> u32 {
        self.bound
    }

    pub(crate) fn parts(&self) -> (&[(u32, u32, u32)], Vec<u64>, bool) {
        (&self.trace, self.states.iter().copied().collect(), self.mismatch)
    }

    /// Take over what happened in another process.
    pub(crate) fn adopt(
        &mut self,
        trace: Vec<(u32, u32, u32)>,
        states: Vec<u64>,
        transitions: u64,
        mismatch: bool,
        log: Vec<String>,
    ) {
        self.cost = trace.iter().filter(|entry| entry.0 > 0).map(|entry| entry.2).sum();
        self.trace = trace;
        self.states.extend(states);
        self.transitions += transitions;
        self.mismatch |= mismatch;
        self.log.extend(log);
    }
}

pub type Outcome = Result<String, Violation>;

#[derive(Default, Debug)]
pub struct Explored {
    pub executions: u64,
    pub transitions: u64,
    pub states: HashSet<u64>,
    pub outcomes: HashMap<String, u64>,
    pub samples: Vec<String>,
    pub max_depth: usize,
    pub mismatches: u64,
    pub unreproduced: u64,
    pub complete: bool,
    pub known: HashMap<String, u64>,
    pub violation: Option<(Violation, Vec<u32>, Vec<String>)>,
}

#[derive(Clone)]
pub struct Config {
    pub bound: u32,
    pub threads: usize,
    pub deadline: Option<Instant>,
    pub known: Arc<HashSet<String>>,
    /// Called from the watchdog when an execution hangs.
    pub on_hang: Arc<dyn Fn(Vec<u32>) + Send + Sync>,
    pub hang: Duration,
}

struct Shared {
    queue: Mutex<(Vec<Vec<u32>>, usize)>,
    wake: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    executions: AtomicU64,
    timed_out: AtomicBool,
}

type Slot = Mutex<Option<(Instant, Vec<u32>)>>;

pub fn execute<F>(f: &F, prefix: Vec<u32>, bound: u32, verbose: bool) -> (Run, Outcome)
where
    F: Fn(&mut Run) -> Outcome,
{
    let mut run = Run::new(prefix, bound, verbose);
    let outcome = catch_unwind(AssertUnwindSafe(|| f(&mut run))).unwrap_or_else(|panic| {
        let message = panic
            .downcast_ref::<&str>()
            .map(ToString::to_string)
            .or_else(|| panic.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        Err(Violation::new(
            format!("panic {message}"),
            format!("panic: {message}"),
        ))
    });
    (run, outcome)
}

pub fn explore<F>(config: &Config, f: F) -> Explored
where
    F: Fn(&mut Run) -> Outcome + Sync,
{
    let shared = Shared {
        queue: Mutex::new((vec![Vec::new()], 0)),
        wake: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        executions: AtomicU64::new(0),
        timed_out: AtomicBool::new(false),
    };
    let slots: Vec<Slot> = (0..config.threads).map(|_| Mutex::new(None)).collect();
    let finished = AtomicBool::new(false);
    let mut total = Explored {
        complete: true,
        ..Default::default()
    };

    std::thread::scope(|scope| {
        let workers: Vec<_> = slots
            .iter()
            .map(|slot| scope.spawn(|| worker(config, &shared, slot, &f)))
            .collect();
        let watchdog = scope.spawn(|| {
            while !finished.load(Ordering::Relaxed) {
                std::thread::park_timeout(Duration::from_millis(200));
                // An execution which does not terminate might run out of memory first.
                let hang = if resident() > 9_000_000_000 {
                    config.hang.min(Duration::from_secs(4))
                } else {
                    config.hang
                };
                for slot in &slots {
                    let hung = match &*slot.lock().unwrap() {
                        Some((start, prefix)) if start.elapsed() > hang => {
                            Some(prefix.clone())
                        }
                        _ => None,
                    };
                    if let Some(prefix) = hung {
                        (config.on_hang)(prefix);
                    }
                }
            }
        });
        for worker in workers {
            let part = worker.join().unwrap();
            total.executions += part.executions;
            total.transitions += part.transitions;
            total.mismatches += part.mismatches;
            total.unreproduced += part.unreproduced;
            total.max_depth = total.max_depth.max(part.max_depth);
            total.states.extend(part.states);
            for (k, v) in part.outcomes {
                *total.outcomes.entry(k).or_default() += v;
            }
            for (k, v) in part.known {
                *total.known.entry(k).or_default() += v;
            }
            if total.samples.len() < 3 {
                total.samples.extend(part.samples);
            }
            if let Some(violation) = part.violation {
                // Prefer the shortest counterexample.
                if total
                    .violation
                    .as_ref()
                    .is_none_or(|other| other.1.len() > violation.1.len())
                {
                    total.violation = Some(violation);
                }
            }
        }
        finished.store(true, Ordering::Relaxed);
        watchdog.thread().unpark();
    });
    total.samples.truncate(3);
    if shared.timed_out.load(Ordering::Relaxed) || total.violation.is_some() {
        total.complete = false;
    }
    total
}

/// The memory in use, in bytes.
fn resident() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|statm| statm.split(' ').nth(1)?.parse::<u64>().ok())
        .map_or(0, |pages| pages * 4_096)
}

fn worker<F>(config: &Config, shared: &Shared, slot: &Slot, f: &F) -> Explored
where
    F: Fn(&mut Run) -> Outcome + Sync,
{
    let mut part = Explored::default();
    let mut local: Vec<Vec<u32>> = Vec::new();
    loop {
        if shared.stop.load(Ordering::Relaxed) {
            shared.wake.notify_all();
            return part;
        }
        let prefix = match local.pop() {
            Some(prefix) => prefix,
            None => {
                let mut queue = shared.queue.lock().unwrap();
                queue.1 += 1;
                shared.idle.store(queue.1, Ordering::Relaxed);
                loop {
                    if let Some(prefix) = queue.0.pop() {
                        queue.1 -= 1;
                        shared.idle.store(queue.1, Ordering::Relaxed);
                        break prefix;
                    }
                    if queue.1 == config.threads || shared.stop.load(Ordering::Relaxed) {
                        shared.stop.store(true, Ordering::Relaxed);
                        shared.wake.notify_all();
                        return part;
                    }
                    queue = shared
                        .wake
                        .wait_timeout(queue, Duration::from_millis(100))
                        .unwrap()
                        .0;
                }
            }
        };
        *slot.lock().unwrap() = Some((Instant::now(), prefix.clone()));
        let depth = prefix.len();
        let verbose = part.samples.is_empty() && shared.executions.load(Ordering::Relaxed) < 3;
        let (run, outcome) = execute(f, prefix, config.bound, verbose);
        *slot.lock().unwrap() = None;

        let count = shared.executions.fetch_add(1, Ordering::Relaxed);
        part.executions += 1;
        part.transitions += run.transitions.max(1);
        part.max_depth = part.max_depth.max(run.trace.len());
        part.states.extend(run.states);
        if run.mismatch {
            part.mismatches += 1;
        }
        let answers: Vec<u32> = run.trace.iter().map(|t| t.0).collect();
        if verbose && !run.log.is_empty() {
            part.samples.push(run.log.join(" | "));
        }
        match outcome {
            Ok(label) => *part.outcomes.entry(label).or_default() += 1,
            Err(violation) if config.known.contains(&violation.signature) => {
                *part.known.entry(violation.signature).or_default() += 1
            }
            Err(violation) => {
                // Make sure that it is reproducible and get the log.
                let mut again = None;
                for _ in 0..20 {
                    let (run, outcome) = execute(f, answers.clone(), config.bound, true);
                    if let Err(violation) = outcome {
                        again = Some((run, violation));
                        break;
                    }
                }
                match again {
                    None => {
                        // Not a property of this schedule, so nothing that could be replayed.
                        part.unreproduced += 1;
                        eprintln!("not reproducible: {}", violation.message);
                    }
                    Some((_, violation)) if config.known.contains(&violation.signature) => {
                        *part.known.entry(violation.signature).or_default() += 1;
                    }
                    Some((again, violation)) => {
                        part.violation = Some((violation, answers, again.log));
                        shared.stop.store(true, Ordering::Relaxed);
                        shared.wake.notify_all();
                        return part;
                    }
                }
            }
        }
        // Alternatives of all the choices made in this execution.
        let mut cost = 0;
        for (at, (answer, n, price)) in run.trace.iter().enumerate() {
            if at >= depth {
                for other in (1..*n).rev() {
                    if cost + price <= config.bound {
                        let mut prefix = answers[..at].to_vec();
                        prefix.push(other);
                        local.push(prefix);
                    }
                }
            } else if *answer > 0 {
                cost += price;
            }
        }
        if shared.idle.load(Ordering::Relaxed) > 0 && local.len() > 1 {
            // The oldest half has the shortest prefixes, thus the largest subtrees.
            let keep = local.split_off(local.len() / 2);
            let give = std::mem::replace(&mut local, keep);
            shared.queue.lock().unwrap().0.extend(give);
            shared.wake.notify_all();
        }
        if count % 64 == 0
            && let Some(deadline) = config.deadline
            && Instant::now() > deadline
        {
            shared.timed_out.store(true, Ordering::Relaxed);
            shared.stop.store(true, Ordering::Relaxed);
        }
    }
}
