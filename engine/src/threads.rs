//! Exploration of the interleavings of real threads: only one runs at a time and hands control back
//! at every instrumented operation.
use std::{
    cell::RefCell,
    future::Future,
    panic::{AssertUnwindSafe, catch_unwind},
    pin::pin,
    sync::{
        Arc, Condvar, Mutex,
        atomic::{AtomicBool, Ordering},
    },
    task::{Context, Poll, Wake, Waker},
    time::Duration,
};

use crate::{
    clock,
    explore::{Run, Violation},
};

#[derive(Clone, Debug, PartialEq, Eq)]
enum State {
    Running,
    /// Allowed to run, but has not noticed yet.
    Granted,
    /// About to perform an operation.
    Ready(&'static str, usize),
    /// Found an operation blocked.
    Blocked(&'static str, usize),
    /// Waiting for a waker.
    Waiting,
    Done,
}

struct Inner {
    states: Vec<State>,
    /// The thread allowed to run.
    granted: Option<usize>,
    /// Nothing can happen any more, waiting threads have to finish.
    ended: bool,
    /// Blocked in something that is not instrumented.
    unscheduled: Vec<bool>,
    /// The ids of the threads.
    tids: Vec<i64>,
}

/// Whether the thread sleeps in the kernel, and how often it has done so.
fn sleeping(tid: i64) -> Option<String> {
    let status = std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).ok()?;
    let line = |name: &str| status.lines().find(|line| line.starts_with(name));
    line("State:")?.contains('S').then(|| line("voluntary_ctxt").unwrap_or("").to_owned())
}

unsafe extern "C" {
    fn syscall(number: i64, ...) -> i64;
}

fn tid() -> i64 {
    // gettid
    #[cfg(target_arch = "x86_64")]
    return unsafe { syscall(186) };
    #[cfg(not(target_arch = "x86_64"))]
    return unsafe { syscall(178) };
}

pub struct World {
    inner: Mutex<Inner>,
    controller: Condvar,
    actors: Vec<Condvar>,
    woken: Vec<Flag>,
    fine: bool,
}

struct Flag(Arc<WakeFlag>);
struct WakeFlag(AtomicBool);

impl Wake for WakeFlag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

#[derive(Clone)]
pub struct Actor {
    world: Arc<World>,
    pub index: usize,
}

thread_local! {
    static CURRENT: RefCell<Option<Actor>> = const { RefCell::new(None) };
}

/// To be registered as the hook of the instrumentation.
pub fn hook(operation: &'static str, address: usize, blocked: bool) {
    let _off = Fine::enter(false);
    let actor = CURRENT.with(|current| current.borrow().clone());
    match actor {
        Some(actor) => actor.stop(if blocked {
            State::Blocked(operation, address)
        } else {
            State::Ready(operation, address)
        }),
        None if blocked => std::thread::yield_now(),
        None => {}
    }
}

impl Actor {
    fn stop(&self, state: State) {
        let _off = Fine::enter(false);
        let mut inner = self.world.inner.lock().unwrap();
        inner.states[self.index] = state;
        if inner.granted == Some(self.index) {
            inner.granted = None;
        }
        inner.unscheduled[self.index] = false;
        self.world.controller.notify_one();
        while inner.granted != Some(self.index) {
            inner = self.world.actors[self.index].wait(inner).unwrap();
        }
        inner.states[self.index] = State::Running;
    }

    /// An explicit scheduling point.
    pub fn point(&self, label: &'static str) {
        self.stop(State::Ready(label, 0));
    }

    /// Run the future, returns [`None`] if it is still pending when nothing can happen any more.
    pub fn block_on<F: Future>(&self, future: F) -> Option<F::Output> {
        let mut future = pin!(future);
        let flag = self.world.woken[self.index].0.clone();
        let waker = Waker::from(flag.clone());
        let mut context = Context::from_waker(&waker);
        let nested = Nested::enter(&flag);
        loop {
            flag.0.store(false, Ordering::SeqCst);
            let polled = {
                let _fine = Fine::enter(self.world.fine);
                future.as_mut().poll(&mut context)
            };
            if let Poll::Ready(output) = polled {
                return Some(output);
            }
            if !flag.0.load(Ordering::SeqCst) {
                self.stop(State::Waiting);
            } else {
                self.stop(State::Ready("poll", 0));
            }
            if self.world.inner.lock().unwrap().ended {
                drop(nested);
                return None;
            }
        }
    }
}

thread_local! {
    static FINE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// While this exists, allocations and readings of the clock are scheduling points.
struct Fine(bool);

impl Fine {
    fn enter(fine: bool) -> Self {
        Self(FINE.replace(fine))
    }
}

impl Drop for Fine {
    fn drop(&mut self) {
        FINE.set(self.0);
    }
}

/// Run code under test such that allocations and readings of the clock are scheduling points, if
/// that has been asked for.
pub fn finely<T>(f: impl FnOnce() -> T) -> T {
    let fine = CURRENT.with(|current| current.borrow().as_ref().is_some_and(|a| a.world.fine));
    let _fine = Fine::enter(fine);
    f()
}

/// A scheduling point that is only used if it has been asked for.
pub fn fine_point(label: &'static str) {
    if !FINE.get() || std::thread::panicking() {
        return;
    }
    let _off = Fine::enter(false);
    let actor = CURRENT.try_with(|current| current.try_borrow().ok().and_then(|a| a.clone()));
    if let Ok(Some(actor)) = actor {
        actor.stop(State::Ready(label, 0));
    }
}

/// The allocator of the system, with scheduling points.
pub struct Points;

unsafe impl std::alloc::GlobalAlloc for Points {
    unsafe fn alloc(&self, layout: std::alloc::Layout) -> *mut u8 {
        fine_point("alloc");
        unsafe { std::alloc::System.alloc(layout) }
    }
    unsafe fn alloc_zeroed(&self, layout: std::alloc::Layout) -> *mut u8 {
        fine_point("alloc");
        unsafe { std::alloc::System.alloc_zeroed(layout) }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: std::alloc::Layout) {
        fine_point("free");
        unsafe { std::alloc::System.dealloc(ptr, layout) }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: std::alloc::Layout, size: usize) -> *mut u8 {
        fine_point("realloc");
        unsafe { std::alloc::System.realloc(ptr, layout, size) }
    }
}

thread_local! {
    static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// A future that is polled while another one is polled by the same thread: the wakers of the outer
/// one might be called in the meantime, so it has to be polled again.
struct Nested(Option<Arc<WakeFlag>>);

impl Nested {
    fn enter(flag: &Arc<WakeFlag>) -> Self {
        let depth = DEPTH.get();
        DEPTH.set(depth + 1);
        Self((depth > 0).then(|| flag.clone()))
    }
}

impl Drop for Nested {
    fn drop(&mut self) {
        DEPTH.set(DEPTH.get() - 1);
        if let Some(flag) = &self.0 {
            flag.0.store(true, Ordering::SeqCst);
        }
    }
}

/// Run an operation that does not wait for anything but other threads of the scenario. Returns
/// [`None`] if it can not finish.
pub fn run_now<F: Future>(future: F) -> Option<F::Output> {
    if let Some(actor) = CURRENT.with(|current| current.borrow().clone()) {
        return actor.block_on(future);
    }
    let mut future = pin!(future);
    let flag = Arc::new(WakeFlag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut context = Context::from_waker(&waker);
    while flag.0.swap(false, Ordering::SeqCst) {
        if let Poll::Ready(output) = future.as_mut().poll(&mut context) {
            return Some(output);
        }
    }
    None
}

pub struct Report {
    /// Some thread got stuck outside of the instrumentation, the schedule was not under control.
    pub uncontrolled: bool,
}

pub type Body<'a> = Box<dyn FnOnce(&Actor) + Send + 'a>;

/// Run the given bodies concurrently, all scheduling decisions are choices of the run. A decision
/// to switch away from a thread that could continue counts against the bound.
pub fn interleave(run: &mut Run, bodies: Vec<Body<'_>>) -> Result<Report, Violation> {
    let n = bodies.len();
    let world = Arc::new(World {
        inner: Mutex::new(Inner {
            states: vec![State::Running; n],
            granted: None,
            ended: false,
            unscheduled: vec![false; n],
            tids: vec![0; n],
        }),
        controller: Condvar::new(),
        actors: (0..n).map(|_| Condvar::new()).collect(),
        woken: (0..n)
            .map(|_| Flag(Arc::new(WakeFlag(AtomicBool::new(false)))))
            .collect(),
        fine: run.fine,
    });
    let panics: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let source = clock::get();
    let handle = tokio::runtime::Handle::try_current().ok();

    std::thread::scope(|scope| {
        for (index, body) in bodies.into_iter().enumerate() {
            let actor = Actor {
                world: world.clone(),
                index,
            };
            let panics = &panics;
            let handle = handle.clone();
            scope.spawn(move || {
                clock::set(source);
                let _guard = handle.as_ref().map(|handle| handle.enter());
                CURRENT.with(|current| *current.borrow_mut() = Some(actor.clone()));
                actor.world.inner.lock().unwrap().tids[index] = tid();
                actor.point("start");
                let result = catch_unwind(AssertUnwindSafe(|| body(&actor)));
                CURRENT.with(|current| *current.borrow_mut() = None);
                if let Err(panic) = result {
                    let message = panic
                        .downcast_ref::<&str>()
                        .map(ToString::to_string)
                        .or_else(|| panic.downcast_ref::<String>().cloned())
                        .unwrap_or_default();
                    panics.lock().unwrap().push(message);
                }
                let mut inner = actor.world.inner.lock().unwrap();
                inner.states[index] = State::Done;
                if inner.granted == Some(index) {
                    inner.granted = None;
                }
                inner.unscheduled[index] = false;
                actor.world.controller.notify_one();
            });
        }
        control(run, &world)
    })
    .and_then(
        |report| match panics.into_inner().unwrap().into_iter().next() {
            None => Ok(report),
            Some(message) => Err(Violation::new(
                format!("panic {message}"),
                format!("panic in the code under test: {message}"),
            )),
        },
    )
}

fn control(run: &mut Run, world: &World) -> Result<Report, Violation> {
    let n = world.actors.len();
    let mut report = Report {
        uncontrolled: false,
    };
    let mut current = 0;
    // Whether another thread did something since the thread found itself blocked.
    let mut retry = vec![false; n];
    let mut deadlock = None;
    let mut counts = vec![0u32; n];
    let mut steps = 0u64;
    loop {
        let mut inner = world.inner.lock().unwrap();
        // Wait until everybody has stopped, or sleeps somewhere else.
        let mut quick = inner.unscheduled.iter().any(|u| *u);
        let mut seen: Vec<(Option<String>, u32)> = vec![(None, 0); n];
        while inner
            .states
            .iter()
            .any(|state| matches!(state, State::Running | State::Granted))
        {
            let wait = if quick { 1 } else { 10 };
            let (guard, timeout) = world
                .controller
                .wait_timeout(inner, Duration::from_millis(wait))
                .unwrap();
            inner = guard;
            if !timeout.timed_out() {
                continue;
            }
            quick = true;
            for i in 0..n {
                if inner.states[i] != State::Running {
                    continue;
                }
                let now = sleeping(inner.tids[i]);
                seen[i] = match now {
                    Some(_) if now == seen[i].0 => (now, seen[i].1 + 1),
                    now => (now, 0),
                };
            }
            // Everybody who has not stopped has been sleeping for a while.
            if (0..n).all(|i| match inner.states[i] {
                State::Running => seen[i].1 >= 4,
                State::Granted => false,
                _ => true,
            }) {
                for i in 0..n {
                    if inner.states[i] == State::Running {
                        inner.unscheduled[i] = true;
                        if inner.granted == Some(i) {
                            inner.granted = None;
                        }
                        report.uncontrolled = true;
                    }
                }
                break;
            }
        }
        if inner.states.iter().all(|state| *state == State::Done) {
            return match deadlock {
                None => Ok(report),
                Some(message) => Err(Violation::new("deadlock", message)),
            };
        }
        let enabled = |i: usize| match inner.states[i] {
            State::Ready(..) => true,
            State::Blocked(..) => retry[i],
            State::Waiting => inner.ended || world.woken[i].0.0.load(Ordering::SeqCst),
            State::Running | State::Granted | State::Done => false,
        };
        let mut candidates: Vec<usize> = (0..n).filter(|i| enabled(*i)).collect();
        let next = if candidates.is_empty() {
            if inner.unscheduled.iter().any(|u| *u) {
                // Give it some more time.
                drop(
                    world
                        .controller
                        .wait_timeout(inner, Duration::from_millis(50)),
                );
                steps += 1;
                if steps > 400 {
                    // Leaving the scope would wait for the threads forever.
                    hang("deadlock, threads are stuck and nothing else can run".into());
                }
                continue;
            }
            if !inner.ended
                && inner
                    .states
                    .iter()
                    .all(|state| matches!(state, State::Waiting | State::Done))
            {
                inner.ended = true;
                continue;
            }
            // A deadlock. There is no way to end the threads, so let them retry a few times for
            // the case that this is a misunderstanding.
            steps += 1;
            if steps > 200 {
                deadlock = Some(format!("deadlock, threads: {:?}", inner.states));
                // Leaving the scope would wait for the threads forever.
                hang(deadlock.clone().unwrap());
            }
            retry.iter_mut().for_each(|r| *r = true);
            continue;
        } else if candidates.len() == 1 {
            candidates[0]
        } else if let Some(at) = candidates.iter().position(|i| *i == current)
            && !matches!(inner.states[current], State::Blocked(..))
        {
            candidates.remove(at);
            candidates.insert(0, current);
            candidates[run.deviate(candidates.len())]
        } else {
            candidates[run.choose(candidates.len())]
        };
        run.transitions += 1;
        counts[next] += 1;
        run.state_of(&(
            &counts,
            inner
                .states
                .iter()
                .map(|state| match state {
                    State::Ready(op, _) | State::Blocked(op, _) => op,
                    State::Waiting => "waiting",
                    State::Done => "done",
                    State::Running | State::Granted => "running",
                })
                .collect::<Vec<_>>(),
        ));
        run.note(|| match &inner.states[next] {
            State::Ready(op, _) => format!("t{next}:{op}"),
            State::Blocked(op, _) => format!("t{next}:retry {op}"),
            _ => format!("t{next}:wake"),
        });
        if !matches!(inner.states[next], State::Blocked(..)) {
            for (i, r) in retry.iter_mut().enumerate() {
                if i != next {
                    *r = true;
                }
            }
        }
        retry[next] = false;
        current = next;
        inner.states[next] = State::Granted;
        inner.granted = Some(next);
        world.actors[next].notify_one();
    }
}

thread_local! {
    static ON_DEADLOCK: RefCell<Option<Box<dyn Fn(String)>>> = const { RefCell::new(None) };
}

/// What to do about a deadlock, which can not be cleaned up. Has to end the process.
pub fn on_deadlock(f: impl Fn(String) + 'static) {
    ON_DEADLOCK.with(|slot| *slot.borrow_mut() = Some(Box::new(f)));
}

fn hang(message: String) -> ! {
    ON_DEADLOCK.with(|slot| {
        if let Some(f) = &*slot.borrow() {
            f(message)
        }
    });
    // The watchdog reports this.
    loop {
        std::thread::park();
    }
}
