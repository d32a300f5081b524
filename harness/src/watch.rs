//! Watchdog: one poll that burns this much CPU is an endless loop, and one whose thread sleeps this long without ever
//! running is blocked on a lock, whatever the load of the machine.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub const HANG_CPU_S: u64 = 20;
pub const BLOCKED_S: u64 = 60;

pub struct Slot {
    ticks: AtomicU64,
    case: AtomicU64,
    active: AtomicU64,
    clock: libc::clockid_t,
    tid: i64,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());

thread_local! {
    static SLOT: Cell<Option<&'static Slot>> = const { Cell::new(None) };
}

fn slot() -> &'static Slot {
    SLOT.with(|s| {
        if let Some(x) = s.get() {
            return x;
        }
        let mut clock: libc::clockid_t = 0;
        // SAFETY: plain libc query about the calling thread
        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
        let a = Arc::new(Slot { ticks: 0.into(), case: 0.into(), active: 0.into(), clock, tid: unsafe { libc::syscall(libc::SYS_gettid) } });
        SLOTS.lock().unwrap().push(a.clone());
        let l: &'static Slot = unsafe { &*Arc::into_raw(a) };
        s.set(Some(l));
        l
    })
}

pub fn tick() {
    slot().ticks.fetch_add(1, SeqCst);
}
pub fn enter(case: u64) {
    let s = slot();
    s.case.store(case, SeqCst);
    s.ticks.fetch_add(1, SeqCst);
    s.active.store(1, SeqCst);
}
pub fn leave() {
    slot().active.store(0, SeqCst);
}

/// Nanoseconds.
fn cpu(clock: libc::clockid_t) -> Option<u64> {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: `ts` is valid for writing
    (unsafe { libc::clock_gettime(clock, &mut ts) } == 0).then_some(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64)
}

/// Whether the thread sleeps at this moment (rather than running or waiting for a processor).
fn asleep(tid: i64) -> bool {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    stat.rsplit_once(") ").is_some_and(|(_, r)| r.starts_with('S'))
}

struct Seen {
    ticks: u64,
    cpu_then: u64,
    cpu: u64,
    sleeps: u64,
}

/// Starts the watcher; `on_hang(case, what)` is called from it and should end the process.
pub fn start(on_hang: impl Fn(u64, String) + Send + 'static) {
    std::thread::spawn(move || {
        let mut seen: Vec<Option<Seen>> = vec![];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let slots = SLOTS.lock().unwrap().clone();
            seen.resize_with(slots.len(), || None);
            for (s, old) in slots.iter().zip(seen.iter_mut()) {
                if s.active.load(SeqCst) == 0 {
                    *old = None;
                    continue;
                }
                let t = s.ticks.load(SeqCst);
                let Some(c) = cpu(s.clock) else { continue };
                match old {
                    Some(o) if o.ticks == t => {
                        let idle = o.cpu == c && asleep(s.tid);
                        o.sleeps = if idle { o.sleeps + 1 } else { 0 };
                        o.cpu = c;
                        if c - o.cpu_then >= HANG_CPU_S * 1_000_000_000 {
                            on_hang(
                                s.case.load(SeqCst),
                                format!("an operation ran for more than {HANG_CPU_S} s of CPU time without returning to its executor (endless loop)"),
                            );
                        } else if o.sleeps >= 2 * BLOCKED_S {
                            on_hang(s.case.load(SeqCst), format!("an operation blocked its thread for {BLOCKED_S} s without ever running (deadlock)"));
                        }
                    }
                    _ => *old = Some(Seen { ticks: t, cpu_then: c, cpu: c, sleeps: 0 }),
                }
            }
        }
    });
}
