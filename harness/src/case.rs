//! Cases, what they observe, and the verdict of a check.
use crate::rng::{hash, mix, Rng};
use crate::watch;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

pub type R = Result<(), String>;

#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Obs {
    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_default() += n;
    }
    pub fn max(&mut self, what: &'static str, n: u64) {
        let e = self.maxima.entry(what).or_default();
        *e = n.max(*e);
    }
    /// Counts a case as a distinct non-trivial one.
    pub fn distinct(&mut self, of: impl AsRef<[u8]>) {
        self.distinct.insert(hash(of.as_ref()));
    }
    fn merge(&mut self, o: Obs) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = v.max(*e);
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Ctx {
    pub case: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub obs: Obs,
    tracing: bool,
    pub trace: Vec<String>,
    dig: u64,
}
impl Ctx {
    fn new(id: &str, seed: u64, case: u64, thorough: bool, tracing: bool) -> Self {
        let s = mix(hash(id.as_bytes()) ^ mix(seed)) ^ mix(case.wrapping_mul(0x9e37));
        Ctx { case, thorough, rng: Rng::new(s), obs: Obs::default(), tracing, trace: vec![], dig: 0 }
    }
    /// Notes a step of the case; kept as text only when the case is replayed.
    pub fn t(&mut self, f: impl FnOnce() -> String) {
        if self.tracing || (self.case < 2 && self.trace.len() < 12) {
            let s = f();
            self.trace.push(s);
        }
    }
    /// Mixes something into the case's identity.
    pub fn id(&mut self, x: u64) {
        self.dig = mix(self.dig ^ x);
    }
    pub fn id_bytes(&mut self, b: &[u8]) {
        self.id(hash(b));
    }
    /// Counts the case (as identified so far) as distinct and non-trivial.
    pub fn nontrivial(&mut self) {
        let d = self.dig;
        self.obs.distinct.insert(d);
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    /// what a case is and what makes it non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> R,
    /// counters that must reach a minimum, or the check has observed too little to answer
    pub require: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        if std::env::var_os("HBMON_BT").is_some() {
            eprintln!("panic: {m} at {:?}\n{bt}", i.location());
        }
        let l = blame(&bt).unwrap_or_else(|| i.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line())));
        PANIC.with(|p| *p.borrow_mut() = Some((m, l)));
    }));
}
/// The innermost frame of a backtrace that is hyperbee's or ours.
fn blame(bt: &str) -> Option<String> {
    let mut own = false;
    for l in bt.lines() {
        let Some(at) = l.trim().strip_prefix("at ") else { continue };
        if at.starts_with("/repo/") {
            return Some(at.to_string());
        }
        // the frames of this hook come first
        let ours = at.starts_with("./src/") || at.starts_with("src/") || at.contains("/harness/src/") || at.contains("standins/");
        if ours && !at.contains("src/case.rs") {
            return Some(format!("harness {at}"));
        }
        own |= ours;
    }
    own.then(|| "harness case.rs".to_string())
}
pub fn take_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()))
}

#[derive(Debug, Clone)]
pub enum Verdict {
    Held,
    Violated(String),
    /// the harness itself failed
    Broken(String),
}

/// Runs one case, turning panics into a verdict.
pub fn guarded(f: impl FnOnce() -> R) -> Verdict {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(m)) => match m.strip_prefix("HARNESS ") {
            Some(h) => Verdict::Broken(h.to_string()),
            None => Verdict::Violated(m),
        },
        Err(_) => {
            let (m, l) = take_panic();
            if l.starts_with("harness ") {
                Verdict::Broken(format!("panic in the harness at {l}: {m}"))
            } else {
                Verdict::Violated(format!("panicked: {m} (at {l})"))
            }
        }
    }
}

fn run_case(c: &Check, seed: u64, case: u64, thorough: bool, tracing: bool) -> (Verdict, Ctx) {
    let mut ctx = Ctx::new(c.id, seed, case, thorough, tracing);
    watch::enter(case);
    let v = guarded(|| (c.run)(&mut ctx));
    watch::leave();
    if case < 2 && ctx.obs.samples.is_empty() && !ctx.trace.is_empty() {
        let s = format!("case {case}: {}", ctx.trace[..ctx.trace.len().min(12)].join("; "));
        ctx.obs.samples.push(s.chars().take(600).collect());
    }
    (v, ctx)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
pub fn json_list(xs: &[String]) -> String {
    format!("[{}]", xs.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "))
}

fn out_dir() -> PathBuf {
    std::env::var_os("HBMON_EVIDENCE").map(PathBuf::from).unwrap_or_else(|| "evidence".into())
}

fn write_replay(c: &Check, seed: u64, case: u64, thorough: bool, msg: &str, trace: &[String]) -> PathBuf {
    let dir = out_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}.json", c.id, seed, case));
    let from = trace.len().saturating_sub(4000);
    let body = format!(
        "{{\n \"property\": {},\n \"seed\": {seed},\n \"case\": {case},\n \"tier\": \"{}\",\n \"what\": {},\n \"replay_cmd\": {},\n \"trace\": [\n  {}\n ]\n}}\n",
        json_str(c.id),
        if thorough { "thorough" } else { "quick" },
        json_str(msg),
        json_str(&format!("tools/check.sh {} --replay {}:{}", c.id, seed, case)),
        trace[from..].iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n  ")
    );
    let _ = std::fs::write(&p, body);
    p
}

fn say_violation(c: &Check, p: &std::path::Path, msg: &str) {
    println!("VIOLATION property={} replay={}", c.id, p.display());
    let m: String = msg.chars().take(1500).collect();
    println!("  {m}");
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(c: &Check, seed: u64, thorough: bool, ran: u64, obs: &Obs, wall: f64, violations: u64) {
    let dir = out_dir();
    let _ = std::fs::create_dir_all(&dir);
    let mut extra = String::new();
    let mut observed = vec![];
    for (k, v) in &obs.counts {
        observed.push(format!("{}: {v}", json_str(k)));
    }
    for (k, v) in &obs.maxima {
        observed.push(format!("{}: {v}", json_str(&format!("max {k}"))));
    }
    extra += &format!("\n  \"observed\": {{\n   {}\n  }}", observed.join(",\n   "));
    let body = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"{}\",\n \"coverage\": {{\n  \"evaluations\": {ran},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},{extra}\n }},\n \"assumptions\": {},\n \"wall_s\": {wall:.1},\n \"violations\": {violations}\n}}\n",
        c.id,
        if thorough { "thorough" } else { "quick" },
        c.level,
        obs.distinct.len(),
        json_str(c.rule),
        json_list(&obs.samples),
        json_list(&c.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
    );
    let _ = std::fs::write(dir.join(format!("{}.json", c.id)), body);
}

/// Runs a check; returns the exit code.
pub fn run_check(c: &'static Check, seed: u64, thorough: bool, only: Option<u64>) -> i32 {
    quiet_panics();
    let t0 = Instant::now();
    watch::start(move |case, msg| {
        let p = write_replay(c, seed, case, thorough, &msg, &[]);
        write_evidence(c, seed, thorough, case, &Obs::default(), 0.0, 1);
        say_violation(c, &p, &msg);
        std::process::exit(1);
    });
    if let Some(case) = only {
        let (v, ctx) = run_case(c, seed, case, thorough, true);
        for l in &ctx.trace {
            println!("{l}");
        }
        return match v {
            Verdict::Held => {
                println!("case {case} held");
                0
            }
            Verdict::Violated(m) => {
                let p = write_replay(c, seed, case, thorough, &m, &ctx.trace);
                say_violation(c, &p, &m);
                1
            }
            Verdict::Broken(m) => {
                println!("{m}");
                2
            }
        };
    }
    // C27 runs part of a check's cases
    let scale: Option<u64> = std::env::var("HBMON_SCALE").ok().and_then(|s| s.parse().ok());
    let total = if thorough { c.thorough } else { c.quick } * scale.unwrap_or(100) / 100;
    let cap_s = std::env::var("HBMON_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000.0 } else { 240.0 });
    let next = AtomicU64::new(0);
    let ran = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let all: Mutex<Obs> = Default::default();
    let bad: Mutex<BTreeMap<u64, Verdict>> = Default::default();
    let threads = std::env::var("HBMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let case = next.fetch_add(1, SeqCst);
                    if case >= total || stop.load(SeqCst) || t0.elapsed().as_secs_f64() > cap_s {
                        return;
                    }
                    let (v, ctx) = run_case(c, seed, case, thorough, false);
                    ran.fetch_add(1, SeqCst);
                    all.lock().unwrap().merge(ctx.obs);
                    if !matches!(v, Verdict::Held) {
                        bad.lock().unwrap().insert(case, v);
                        stop.store(true, SeqCst);
                    }
                })
                .expect("spawn");
        }
    });
    let ran = ran.into_inner();
    let obs = all.into_inner().unwrap();
    let bad = bad.into_inner().unwrap();
    let wall = || t0.elapsed().as_secs_f64();
    let violated = bad.iter().find_map(|(k, v)| match v {
        Verdict::Violated(m) => Some((*k, m.clone())),
        _ => None,
    });
    if let Some((case, msg)) = violated {
        // once more, with a trace
        let (again, ctx) = run_case(c, seed, case, thorough, true);
        let mut msg = msg;
        if matches!(again, Verdict::Held) {
            msg += " (a second run of the case held: the schedule was not the executor's alone)";
        }
        let p = write_replay(c, seed, case, thorough, &msg, &ctx.trace);
        write_evidence(c, seed, thorough, ran, &obs, wall(), 1);
        say_violation(c, &p, &format!("case {case}: {msg}"));
        return 1;
    }
    if let Some((case, v)) = bad.iter().next() {
        println!("{}: case {case} could not be decided: {v:?}", c.id);
        return 2;
    }
    write_evidence(c, seed, thorough, ran, &obs, wall(), 0);
    if ran < total.div_ceil(4) {
        println!("{}: inconclusive, only {ran} of {total} cases within {cap_s} s", c.id);
        return 3;
    }
    if ran == total && scale.is_none() {
        for (what, min) in c.require {
            let have = obs.counts.get(what).copied().unwrap_or(0);
            if have < *min {
                println!("{}: inconclusive, observed {what} {have} times, at least {min} needed", c.id);
                return 3;
            }
        }
    }
    let counts: Vec<String> = obs.counts.iter().map(|(k, v)| format!("{k} {v}")).collect();
    println!("{}: held on {ran} cases, {} distinct ({}) in {:.1} s", c.id, obs.distinct.len(), counts.join(", "), wall());
    0
}
