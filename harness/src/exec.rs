//! Executors that poll a task only after it was woken, so that a lost wakeup or a deadlock is seen and not papered over.
use crate::rng::Rng;
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag {
    woken: AtomicBool,
    wakes: AtomicU64,
}
impl Flag {
    pub fn new() -> Arc<Flag> {
        Arc::new(Flag { woken: AtomicBool::new(true), wakes: AtomicU64::new(0) })
    }
    pub fn take(&self) -> bool {
        self.woken.swap(false, SeqCst)
    }
    pub fn is_set(&self) -> bool {
        self.woken.load(SeqCst)
    }
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wakes.fetch_add(1, SeqCst);
        self.woken.store(true, SeqCst);
    }
}

#[derive(Debug, Clone)]
pub enum Stuck {
    /// nothing was woken although something is unfinished
    NoWakeup { polls: u64 },
    /// woken again and again without finishing
    Budget { polls: u64 },
}
impl std::fmt::Display for Stuck {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Stuck::NoWakeup { polls } => write!(
                f,
                "an operation neither finished nor arranged to be woken (lost wakeup or deadlock) after {polls} polls"
            ),
            Stuck::Budget { polls } => write!(f, "an operation did not finish within {polls} polls"),
        }
    }
}

thread_local! {
    static POLLS: Cell<u64> = const { Cell::new(0) };
}
/// polls made by `run` on this thread so far
pub fn polls() -> u64 {
    POLLS.with(|p| p.get())
}
fn count_poll() {
    POLLS.with(|p| p.set(p.get() + 1));
    crate::watch::tick();
}

pub const BUDGET: u64 = 5_000_000;

/// Runs one future to its end.
pub fn run<F: Future>(fut: F) -> Result<F::Output, Stuck> {
    run_budget(fut, BUDGET)
}

pub fn run_budget<F: Future>(fut: F, budget: u64) -> Result<F::Output, Stuck> {
    let mut fut = std::pin::pin!(fut);
    let flag = Flag::new();
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut n = 0;
    loop {
        if !flag.take() {
            return Err(Stuck::NoWakeup { polls: n });
        }
        if n >= budget {
            return Err(Stuck::Budget { polls: n });
        }
        n += 1;
        count_poll();
        if let Poll::Ready(x) = fut.as_mut().poll(&mut cx) {
            return Ok(x);
        }
    }
}

/// Polls a future at most `n` times (only when woken), then gives it back unfinished.
pub enum Partial<F: Future> {
    Done(F::Output),
    Unfinished(Pin<Box<F>>),
}
pub fn run_partial<F: Future>(fut: F, n: u64) -> Result<Partial<F>, Stuck> {
    let mut fut = Box::pin(fut);
    let flag = Flag::new();
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    for i in 0..n {
        if !flag.take() {
            return Err(Stuck::NoWakeup { polls: i });
        }
        count_poll();
        if let Poll::Ready(x) = fut.as_mut().poll(&mut cx) {
            return Ok(Partial::Done(x));
        }
    }
    Ok(Partial::Unfinished(fut))
}

pub struct Task<'a> {
    fut: Option<Pin<Box<dyn Future<Output = ()> + 'a>>>,
    flag: Arc<Flag>,
}

/// Interleaves tasks at their suspension points; the choice of the next task is the rng's.
#[derive(Default)]
pub struct Sched<'a> {
    pub tasks: Vec<Task<'a>>,
    pub schedule: Vec<u8>,
    /// poll tasks that were not woken too, now and then (allowed by the `Future` contract)
    pub spurious: bool,
    /// probability in percent of staying with the task that ran last
    pub sticky: u32,
}

impl<'a> Sched<'a> {
    pub fn spawn(&mut self, fut: impl Future<Output = ()> + 'a) -> usize {
        self.tasks.push(Task { fut: Some(Box::pin(fut)), flag: Flag::new() });
        self.tasks.len() - 1
    }
    pub fn unfinished(&self) -> usize {
        self.tasks.iter().filter(|t| t.fut.is_some()).count()
    }
    pub fn is_done(&self, i: usize) -> bool {
        self.tasks[i].fut.is_none()
    }
    /// Drops a task's future where it stands.
    pub fn cancel(&mut self, i: usize) {
        self.tasks[i].fut = None;
    }
    /// Makes one poll; false when no task is left.
    pub fn step(&mut self, rng: &mut Rng, last: &mut usize) -> Result<bool, Stuck> {
        let live: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].fut.is_some()).collect();
        if live.is_empty() {
            return Ok(false);
        }
        let ready: Vec<usize> = live.iter().copied().filter(|i| self.tasks[*i].flag.is_set()).collect();
        if ready.is_empty() {
            return Err(Stuck::NoWakeup { polls: self.schedule.len() as u64 });
        }
        let i = if self.spurious && rng.pct(5) {
            *rng.pick(&live)
        } else if ready.contains(last) && rng.pct(self.sticky) {
            *last
        } else {
            *rng.pick(&ready)
        };
        *last = i;
        self.poll_task(i);
        Ok(true)
    }
    pub fn is_ready(&self, i: usize) -> bool {
        self.tasks[i].fut.is_some() && self.tasks[i].flag.is_set()
    }
    /// Polls one given task, which must have been woken.
    pub fn step_task(&mut self, i: usize) -> Result<(), Stuck> {
        if !self.is_ready(i) {
            return Err(Stuck::NoWakeup { polls: self.schedule.len() as u64 });
        }
        self.poll_task(i);
        Ok(())
    }
    fn poll_task(&mut self, i: usize) {
        let t = &mut self.tasks[i];
        t.flag.take();
        let waker = Waker::from(t.flag.clone());
        let mut cx = Context::from_waker(&waker);
        self.schedule.push(i as u8);
        count_poll();
        if t.fut.as_mut().unwrap().as_mut().poll(&mut cx).is_ready() {
            t.fut = None;
        }
    }
    pub fn run(&mut self, rng: &mut Rng, budget: u64) -> Result<(), Stuck> {
        let mut last = 0;
        let mut n = 0;
        while self.step(rng, &mut last)? {
            n += 1;
            if n > budget {
                return Err(Stuck::Budget { polls: n });
            }
        }
        Ok(())
    }
}
