//! Drives the C interface of hyperbee as a C program would: only the exported symbols, plain pointers, callbacks.
//! usage: hbcapi SEED FROM COUNT SCALE   (SCALE: full, asan, miri)
//! Prints `case N`, then `held`, or `VIOLATED what`; a summary line of counters at the end.
use std::collections::BTreeMap;
use std::ffi::{c_char, c_uchar, c_ulonglong, c_void, CStr, CString};
use std::path::Path;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

mod alloc;
mod rng;
use rng::Rng;

#[global_allocator]
static ALLOC: alloc::Checking = alloc::Checking;

// linked for its symbols; the Rust interface also prepares trees and gives the expected answers
use hyperbee::Hyperbee;

type Callback = unsafe extern "C" fn(i64, *const c_char, c_ulonglong, *mut u8, usize);
extern "C" {
    fn init_runtime() -> *mut c_void;
    fn close_runtime(rt: *mut c_void);
    fn hyperbee_from_storage_directory(rt: *mut c_void, dir: *const c_char) -> *mut c_void;
    fn close_hyperbee(hb: *mut c_void);
    fn hb_get(rt: *mut c_void, hb: *mut c_void, key: *const c_uchar, len: usize, cb: Callback) -> i32;
    fn deallocate_rust_string(p: *mut c_char);
    fn deallocate_rust_buffer(p: *mut u8, len: usize);
}

/// What a callback was given. The pointers stay valid until they are passed back.
#[derive(Clone, Copy)]
struct Given {
    code: i64,
    message: *mut c_char,
    seq: u64,
    value: *mut u8,
    len: usize,
}
// SAFETY: the buffers belong to whoever holds this
unsafe impl Send for Given {}
unsafe impl Sync for Given {}
const SLOTS: usize = 48;
struct Slot {
    given: Vec<Given>,
    /// give the buffers back inside the callback, keeping copies
    inside: bool,
    copies: Vec<(Vec<u8>, Vec<u8>)>,
    next: Option<(P, P, Box<[u8]>, usize)>,
}
static TABLE: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
static CALLED: Condvar = Condvar::new();

unsafe fn message(p: *mut c_char) -> Vec<u8> {
    if p.is_null() {
        return vec![];
    }
    CStr::from_ptr(p).to_bytes().to_vec()
}
unsafe fn value(p: *mut u8, len: usize) -> Vec<u8> {
    if len == 0 {
        return vec![];
    }
    std::slice::from_raw_parts(p, len).to_vec()
}
unsafe fn give_back(g: &Given) {
    if !g.message.is_null() {
        deallocate_rust_string(g.message);
    }
    if !g.value.is_null() {
        deallocate_rust_buffer(g.value, g.len);
    }
}

unsafe extern "C" fn callback<const N: usize>(code: i64, msg: *const c_char, seq: c_ulonglong, buf: *mut u8, len: usize) {
    let g = Given { code, message: msg as *mut c_char, seq, value: buf, len };
    let copies = (message(g.message), value(g.value, len));
    let mut t = TABLE.lock().unwrap();
    let Some(s) = t.get_mut(N) else { return };
    let inside = s.inside;
    if inside {
        s.copies.push(copies);
        give_back(&g);
    }
    s.given.push(g);
    let next = s.next.take();
    drop(t);
    // a get from within a callback, on the runtime's own thread
    if let Some((rt, hb, mut key, slot)) = next {
        let r = hb_get(rt.p(), hb.p(), key.as_ptr(), key.len(), CALLBACKS[slot]);
        key.fill(0xee);
        drop(key);
        if r != 0 {
            println!("VIOLATED hb_get from within a callback gives {r}");
            std::process::exit(1);
        }
    }
    CALLED.notify_all();
}

macro_rules! callbacks {
    ($($n:literal)*) => { [$(callback::<$n> as Callback),*] };
}
static CALLBACKS: [Callback; SLOTS] = callbacks!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47);

type R = Result<(), String>;
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Entry(u64, Vec<u8>),
    Absent,
    Error,
}

struct Ctx {
    obs: BTreeMap<&'static str, u64>,
    scale: String,
}
impl Ctx {
    fn add(&mut self, k: &'static str, n: u64) {
        *self.obs.entry(k).or_default() += n;
    }
    fn miri(&self) -> bool {
        self.scale == "miri"
    }
}

fn driver<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().build().expect("runtime").block_on(f)
}

fn cpu_ms() -> u64 {
    if cfg!(miri) {
        return 0;
    }
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    (f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)) * 10
}

/// Waits until `n` slots were called; decides that nothing more will come when the process has been idle for 30 of this
/// thread's one-second waits, or has used a minute of CPU time.
fn wait(n: usize) -> R {
    let mut t = TABLE.lock().unwrap();
    let (start, mut idle, mut last) = (cpu_ms(), 0, cpu_ms());
    loop {
        let have = t.iter().filter(|s| !s.given.is_empty()).count();
        if have >= n {
            return Ok(());
        }
        if cfg!(miri) {
            // Miri knows when every thread is blocked for good
            t = CALLED.wait(t).unwrap();
            continue;
        }
        let r = CALLED.wait_timeout(t, Duration::from_secs(1)).unwrap();
        t = r.0;
        if r.1.timed_out() {
            let now = cpu_ms();
            idle = if now <= last + 10 { idle + 1 } else { 0 };
            last = now;
            if idle >= 30 {
                return Err(format!("{} of {n} gets never called back (the process is idle)", n - have));
            }
            if now > start + 60_000 {
                return Err(format!("{} of {n} gets did not call back within a minute of CPU time", n - have));
            }
        }
    }
}

fn show(b: &[u8]) -> String {
    if b.len() > 24 {
        return format!("{}..({} bytes)", show(&b[..24]), b.len());
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// One slot's calls against what was expected.
fn judge(key: &[u8], want: &Want, s: &Slot, obs: &mut BTreeMap<&'static str, u64>) -> R {
    let k = show(key);
    if s.given.len() != 1 {
        return Err(format!("get of {k} called back {} times", s.given.len()));
    }
    let g = s.given[0];
    let (msg, val) = match s.copies.first() {
        Some(c) => c.clone(),
        None => unsafe { (message(g.message), value(g.value, g.len)) },
    };
    let what = match (g.code, want) {
        (0, Want::Entry(seq, v)) => {
            if g.seq != *seq {
                return Err(format!("get of {k} reports sequence number {}, not {seq}", g.seq));
            }
            if val != *v {
                return Err(format!("get of {k} reports the value {}, not {}", show(&val), show(v)));
            }
            if v.is_empty() { "empty or absent values" } else { "values" }
        }
        (0, Want::Absent) => {
            if g.seq != 0 || !val.is_empty() {
                return Err(format!("get of the absent {k} reports sequence number {} and {} bytes", g.seq, val.len()));
            }
            "absent keys"
        }
        (0, Want::Error) => return Err(format!("get of {k} fails, but reports error code 0 and sequence number {}", g.seq)),
        (_, Want::Error) => {
            if msg.is_empty() {
                return Err(format!("get of {k} reports error code {} without a message", g.code));
            }
            if std::str::from_utf8(&msg).is_err() {
                return Err(format!("get of {k} reports a message that is not text"));
            }
            "errors"
        }
        (c, w) => return Err(format!("get of {k} reports error {c} ({}), expected {w:?}", String::from_utf8_lossy(&msg))),
    };
    *obs.entry(what).or_default() += 1;
    Ok(())
}

fn key(rng: &mut Rng, miri: bool) -> Vec<u8> {
    match rng.below(8) {
        0 => vec![],
        1 => vec![0],
        2 => vec![*rng.pick(&[0u8, 0x61, 0x7f, 0x80, 0xff]); 2],
        3 if !miri => rng.bytes(300),
        4 => {
            let n = rng.below(6);
            rng.bytes(n)
        }
        _ => format!("{:03}", rng.below(60)).into_bytes(),
    }
}

/// Fills a directory through the Rust interface.
fn fill(dir: &Path, rng: &mut Rng, n: usize, miri: bool) -> Vec<Vec<u8>> {
    let mut keys = vec![];
    driver(async {
        let hb = Hyperbee::from_storage_dir(dir).await.expect("HARNESS open");
        for _ in 0..n {
            let k = key(rng, miri);
            let v = match rng.below(12) {
                0 | 1 => None,
                2 => Some(vec![]),
                3 if !miri => Some(vec![rng.u64() as u8; *rng.pick(&[255, 4096, 65536, 1 << 20])]),
                _ => {
                    let n = 1 + rng.below(40);
                    Some(rng.bytes(n))
                }
            };
            if rng.pct(90) {
                hb.put(&k, v.as_deref()).await.expect("HARNESS put");
            } else {
                hb.del(&k).await.expect("HARNESS del");
            }
            keys.push(k);
        }
    });
    keys
}
/// A log of one node whose blocks come after very many that are not here, so its sequence numbers are huge.
fn fill_late(dir: &Path, rng: &mut Rng) -> (Vec<Vec<u8>>, Vec<Want>) {
    fn varint(mut x: u64, out: &mut Vec<u8>) {
        while x >= 0x80 {
            out.push(x as u8 | 0x80);
            x >>= 7;
        }
        out.push(x as u8);
    }
    fn field(n: u8, b: &[u8], out: &mut Vec<u8>) {
        out.push(n << 3 | 2);
        varint(b.len() as u64, out);
        out.extend(b);
    }
    let gap = *rng.pick(&[1 << 7, 1 << 16, (1 << 31) - 2, 1 << 31, (1 << 32) - 2, 1 << 32, 1 << 40, (1 << 53) - 1, 1 << 62]);
    let mut keys: Vec<Vec<u8>> = (0..1 + rng.below(8)).map(|_| key(rng, true)).collect();
    keys.sort();
    keys.dedup();
    let (mut level, mut index) = (vec![], vec![]);
    let mut seqs = vec![];
    (1..=keys.len() as u64).for_each(|i| varint(gap + i, &mut seqs));
    field(1, &seqs, &mut level);
    field(1, &level, &mut index);
    let mut header = vec![];
    field(1, b"hyperbee", &mut header);
    let mut blocks = vec![header];
    let mut want = vec![];
    for (i, k) in keys.iter().enumerate() {
        let (mut b, v) = (vec![], vec![i as u8; rng.below(3)]);
        field(1, if i + 1 == keys.len() { &index } else { &[] }, &mut b);
        field(2, k, &mut b);
        if rng.pct(80) || !v.is_empty() {
            field(3, &v, &mut b);
        }
        blocks.push(b);
        want.push(Want::Entry(gap + 1 + i as u64, v));
    }
    std::fs::create_dir_all(dir).expect("HARNESS dir");
    let data: Vec<u8> = blocks.iter().flat_map(|b| (b.len() as u64).to_le_bytes().into_iter().chain(b.iter().copied())).collect();
    std::fs::write(dir.join("data"), data).expect("HARNESS data");
    std::fs::write(dir.join("gap"), format!("1 {gap}")).expect("HARNESS gap");
    (keys, want)
}
/// What the Rust interface says about each key.
fn expect(dir: &Path, keys: &[Vec<u8>]) -> Vec<Want> {
    driver(async {
        let hb = Hyperbee::from_storage_dir(dir).await.expect("HARNESS open");
        let mut out = vec![];
        for k in keys {
            out.push(match hb.get(k).await {
                Ok(Some((s, v))) => Want::Entry(s, v.unwrap_or_default()),
                Ok(None) => Want::Absent,
                Err(_) => Want::Error,
            });
        }
        out
    })
}

#[derive(Clone, Copy)]
struct P(*mut c_void);
// SAFETY: the C interface is used from many threads
unsafe impl Send for P {}
unsafe impl Sync for P {}
impl P {
    fn p(&self) -> *mut c_void {
        self.0
    }
}

struct Open {
    hb: P,
    keys: Vec<Vec<u8>>,
    want: Vec<Want>,
}

/// One batch of gets in flight at once.
fn batch(rt: P, open: &[Open], rng: &mut Rng, ctx: &mut Ctx) -> Result<Vec<Given>, String> {
    let max = if ctx.miri() { 4 } else { SLOTS };
    let n = 1 + rng.below(max);
    let threads = if rng.pct(40) { 1 + rng.below(if ctx.miri() { 2 } else { 4 }) } else { 1 };
    let mut asks: Vec<(usize, usize)> = vec![];
    *TABLE.lock().unwrap() = (0..n).map(|_| Slot { given: vec![], inside: rng.pct(50), copies: vec![], next: None }).collect();
    for _ in 0..n {
        let o = rng.below(open.len());
        asks.push((o, rng.below(open[o].keys.len())));
    }
    // some are asked for by the callback of the one before
    let nested: Vec<bool> = (0..n).map(|i| i > 0 && rng.pct(20)).collect();
    for i in (0..n).filter(|i| nested[*i]) {
        let o = &open[asks[i].0];
        TABLE.lock().unwrap()[i - 1].next = Some((rt, o.hb, o.keys[asks[i].1].clone().into_boxed_slice(), i));
        ctx.add("gets from within callbacks", 1);
    }
    let nested = &nested;
    let nulls = rng.pct(50);
    let ask = |i: usize| -> R {
        let (o, k) = asks[i];
        let o = &open[o];
        // the key lives in memory of its own, which is overwritten and freed as soon as hb_get returns
        let mut b: Box<[u8]> = o.keys[k].clone().into_boxed_slice();
        let p = if b.is_empty() && nulls { std::ptr::null() } else { b.as_ptr() };
        let r = unsafe { hb_get(rt.p(), o.hb.p(), p, b.len(), CALLBACKS[i]) };
        b.fill(0xee);
        drop(b);
        if r != 0 {
            return Err(format!("hb_get refused the key {} with {r}", show(&o.keys[k])));
        }
        Ok(())
    };
    let ask = &ask;
    let results: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|t| s.spawn(move || (0..n).filter(|i| i % threads == t && !nested[*i]).try_for_each(ask))).collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    results.into_iter().collect::<R>()?;
    wait(n)?;
    ctx.add("gets", n as u64);
    if threads > 1 {
        ctx.add("batches from several threads", 1);
    }
    let m = ctx.obs.entry("max gets in flight").or_default();
    *m = (*m).max(n as u64);
    let t = TABLE.lock().unwrap();
    let mut later = vec![];
    for (i, s) in t.iter().enumerate() {
        let (o, k) = asks[i];
        judge(&open[o].keys[k], &open[o].want[k], s, &mut ctx.obs)?;
        if !s.inside {
            later.extend(s.given.iter().copied());
        }
    }
    Ok(later)
}

/// What a later call found in buffers that were not given back yet.
fn digest(g: &Given) -> u64 {
    unsafe { rng::hash(&value(g.value, g.len)) ^ rng::hash(&message(g.message)).rotate_left(7) }
}

fn c_path(p: &Path) -> CString {
    use std::os::unix::ffi::OsStrExt;
    CString::new(p.as_os_str().as_bytes()).expect("path")
}

/// A runtime, one or more trees, some batches, everything closed. The same `seed` does the same each time.
fn session(seed: u64, base: &Path, ctx: &mut Ctx) -> R {
    let mut rng = Rng::new(seed);
    let miri = ctx.miri();
    let dirs = 1 + rng.below(2);
    let batches = if miri { 1 + rng.below(2) } else { 1 + rng.below(6) };
    let rt = P(unsafe { init_runtime() });
    if rt.0.is_null() {
        return Err("init_runtime gives null".into());
    }
    // bad arguments give null
    let file = base.join("file");
    std::fs::write(&file, b"x").expect("HARNESS file");
    for p in [None, Some(c_path(&file)), Some(c_path(&file.join("below"))), Some(CString::new("/dev/null/below").unwrap())] {
        let h = unsafe { hyperbee_from_storage_directory(rt.0, p.as_ref().map_or(std::ptr::null(), |p| p.as_ptr())) };
        if !h.is_null() {
            return Err(format!("opening {p:?} gives a handle"));
        }
        ctx.add("refused paths", 1);
    }
    let mut open = vec![];
    for i in 0..dirs {
        let dir = base.join(format!("{i}-é"));
        if i == 0 && rng.pct(25) {
            // directories whose names are not text, and look alike when made into text
            use std::os::unix::ffi::OsStrExt;
            for b in [&b"d\xff"[..], b"d\xfe\xfe", "d\u{fffd}".as_bytes()] {
                let dir = base.join(std::ffi::OsStr::from_bytes(b));
                let n = 3 + rng.below(6);
                let keys = fill(&dir, &mut rng, n, true);
                let want = expect(&dir, &keys);
                let before = std::fs::read_dir(base).expect("HARNESS dir").count();
                let hb = unsafe { hyperbee_from_storage_directory(rt.0, c_path(&dir).as_ptr()) };
                let after = std::fs::read_dir(base).expect("HARNESS dir").count();
                if before != after {
                    return Err(format!("opening {dir:?} makes another directory"));
                }
                if hb.is_null() {
                    // null for a path it cannot take is an answer too, unless it is text
                    if std::str::from_utf8(b).is_ok() {
                        return Err(format!("a good directory gives null ({})", dir.display()));
                    }
                    ctx.add("paths that are not text refused", 1);
                    continue;
                }
                ctx.add("paths that look alike opened", 1);
                open.push(Open { hb: P(hb), keys, want });
            }
        }
        if rng.pct(15) {
            let (keys, want) = fill_late(&dir, &mut rng);
            if expect(&dir, &keys) != want {
                return Err(format!("the entries of a log with huge sequence numbers read {:?}, not {want:?}", expect(&dir, &keys)));
            }
            let hb = unsafe { hyperbee_from_storage_directory(rt.0, c_path(&dir).as_ptr()) };
            if hb.is_null() {
                return Err(format!("a good directory gives null ({})", dir.display()));
            }
            ctx.add("trees with huge sequence numbers", 1);
            open.push(Open { hb: P(hb), keys, want });
            continue;
        }
        let n = if miri { rng.below(8) } else { rng.below(70) };
        let mut keys = fill(&dir, &mut rng, n, miri);
        for _ in 0..8 {
            keys.push(key(&mut rng, miri));
        }
        match rng.below(6) {
            0 => {
                let fs: String = (0..=n).filter(|_| rng.pct(20)).map(|i| format!("get {i}\n")).collect();
                std::fs::write(dir.join("faults"), fs).expect("HARNESS faults");
            }
            1 => {
                let fs: String = (0..=n).map(|i| format!("get {i}\n")).collect();
                std::fs::write(dir.join("faults"), fs).expect("HARNESS faults");
            }
            2 => std::fs::write(dir.join("faults"), format!("suspend {}\n", 1 + rng.below(3))).expect("HARNESS faults"),
            3 => {
                let p = dir.join("data");
                let mut d = std::fs::read(&p).expect("HARNESS data");
                // not the lengths of records, which the stand-in for hypercore relies on
                let mut at = 0;
                while at + 8 <= d.len() {
                    let l = u64::from_le_bytes(d[at..at + 8].try_into().unwrap()) as usize;
                    if l > 0 && rng.pct(30) {
                        let x = at + 8 + rng.below(l);
                        d[x] ^= 1 + rng.below(255) as u8;
                    }
                    at += 8 + l;
                }
                std::fs::write(&p, d).expect("HARNESS data");
            }
            _ => (),
        }
        let want = expect(&dir, &keys);
        let path = c_path(&dir);
        let hb = unsafe { hyperbee_from_storage_directory(rt.0, path.as_ptr()) };
        drop(path);
        if hb.is_null() {
            return Err(format!("a good directory gives null ({})", dir.display()));
        }
        open.push(Open { hb: P(hb), keys, want });
    }
    let mut kept = vec![];
    for _ in 0..batches {
        kept.extend(batch(rt, &open, &mut rng, ctx)?.into_iter().map(|g| (digest(&g), g)));
    }
    let (early, late): (Vec<_>, Vec<_>) = kept.into_iter().partition(|_| rng.pct(50));
    // given back from another thread, before or after the tree and the runtime are closed
    std::thread::scope(|s| {
        s.spawn(|| early.iter().for_each(|(_, g)| unsafe { give_back(g) }));
    });
    for o in open {
        unsafe { close_hyperbee(o.hb.0) };
        ctx.add("trees closed", 1);
    }
    unsafe { close_runtime(rt.0) };
    ctx.add("runtimes closed", 1);
    for (was, g) in &late {
        if digest(g) != *was {
            return Err("a buffer that was not given back changed when the tree was closed".into());
        }
        unsafe { give_back(g) };
        ctx.add("buffers given back after closing", 1);
    }
    let t = std::mem::take(&mut *TABLE.lock().unwrap());
    if let Some(s) = t.iter().find(|s| s.given.len() != 1) {
        return Err(format!("a get called back {} times by the time the runtime was closed", s.given.len()));
    }
    if let Some(f) = alloc::fault() {
        return Err(f.into());
    }
    Ok(())
}

fn fds() -> i64 {
    if cfg!(miri) {
        return 0;
    }
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count() as i64)
}

fn case(seed: u64, n: u64, ctx: &mut Ctx) -> R {
    let s = rng::mix(seed ^ rng::mix(n));
    let dir = std::env::temp_dir().join(format!("hbcapi-{}-{n}", std::process::id()));
    let run = |ctx: &mut Ctx| {
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("HARNESS dir");
        let r = session(s, &dir, ctx);
        let _ = std::fs::remove_dir_all(&dir);
        r
    };
    run(ctx)?;
    if ctx.miri() {
        return Ok(());
    }
    let mut skip = Ctx { obs: BTreeMap::new(), scale: ctx.scale.clone() };
    // the same again holds no more than before
    run(&mut skip)?;
    let (a, fa) = (alloc::held(), fds());
    run(&mut skip)?;
    let (b, fb) = (alloc::held(), fds());
    if b.1 > a.1 || fb > fa {
        for _ in 0..10 {
            run(&mut skip)?;
        }
        let (c, fc) = (alloc::held(), fds());
        if c.1 - b.1 >= 10 {
            return Err(format!("memory is held after everything is closed: {} blocks, {} bytes more after 10 times the same session", c.1 - b.1, c.0 - b.0));
        }
        if fc - fb >= 10 {
            return Err(format!("{} files stay open after 10 times the same session", fc - fb));
        }
    }
    ctx.add("sessions balanced for memory and files", 1);
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<u64>().expect("number");
    let mut ctx = Ctx { obs: BTreeMap::new(), scale: a[4].clone() };
    std::panic::set_hook(Box::new(|i| println!("panic {i}")));
    for n in num(2)..num(2) + num(3) {
        println!("case {n}");
        if let Err(e) = case(num(1), n, &mut ctx) {
            println!("VIOLATED {e}");
            std::process::exit(1);
        }
        println!("held");
    }
    ctx.add("deallocations checked", alloc::freed());
    let obs: Vec<String> = ctx.obs.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    println!("summary {{{}}}", obs.join(", "));
}
