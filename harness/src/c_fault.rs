//! C13 failed operations, C15 reopening and crashes, C16 sparse readers and replication, C17 malformed logs.
use crate::c_conc::{copy, random_op};
use crate::c_range::*;
use crate::case::*;
use crate::codec;
use crate::exec;
use crate::gen::*;
use crate::model::*;
use crate::shape::LogView;
use futures_lite::StreamExt;
use hyperbee::prefixed::PrefixedConfig;
use hyperbee::traverse::TraverseConfig;
use hyperbee::Hyperbee;
use hypercore::standin::{CoreState, Decision, OpKind, Verdict as V};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub const CHECKS: &[&Check] = &[&C13, &C15, &C16, &C17];
const ASSUME: &[&str] = &["hypercore, replicator, derive_builder and futures-lite are stand-ins (see DESIGN.md)"];

// ---------------------------------------------------------------- C13

static C13: Check = Check {
    id: "C13",
    level: "fault_enumeration",
    rule: "a case is a tree, one operation on it and every storage access it makes in turn, failing there (error before the effect, error after it, or block absent), on warm and cold handles with a traversal open; result, map through all handles, log, open traversal and a retry are checked; every fourth case is a history with random faults instead; non-trivial if the operation is a mutation; counted by the hash of tree, operation and fault",
    quick: 16000,
    thorough: 400000,
    run: c13,
    require: &[("faults injected", 30000), ("failed appends that took effect", 1000), ("retries", 20000), ("operations of faulty histories", 20000), ("faulty traversals", 3000)],
    assumptions: ASSUME,
};

/// Makes the `k`th access (of get and append) go wrong.
fn fault_at(core: &CoreState, k: u64, verdict: V) -> Arc<Mutex<Option<OpKind>>> {
    let hit: Arc<Mutex<Option<OpKind>>> = Default::default();
    let h = hit.clone();
    let mut n = 0;
    core.set_policy(Some(Box::new(move |op| {
        if *op == OpKind::Info {
            return Decision::NORMAL;
        }
        n += 1;
        if n - 1 == k {
            *h.lock().unwrap() = Some(op.clone());
            return Decision { before: 0, verdict, after: 0 };
        }
        Decision::NORMAL
    })));
    hit
}

/// Well-formed newest tree with the model's entries.
fn newest(core: &CoreState, model: &Model) -> R {
    let mut v = LogView::default();
    v.extend(&core.blocks())?;
    let e = if core.len() > 1 { v.tree(core.len() - 1)?.entries } else { vec![] };
    match diff(&e, &model.entries()) {
        Some(d) => Err(format!("the tree in the log holds {d}")),
        None => Ok(()),
    }
}

fn c13(cx: &mut Ctx) -> R {
    if cx.case % 4 == 3 {
        return c13_history(cx);
    }
    let keys = any_universe(&mut cx.rng, &[1, 4, 9, 12, 25, 60, 120]);
    let grow = if cx.case % 9 == 0 { 0 } else { keys.len() * cx.rng.range(1, 3) };
    let (base, _, model0) = grown(cx, &keys, grow)?;
    let op = random_op(cx, &keys, &model0);
    let warm = cx.rng.pct(50);
    let through_sub = cx.rng.pct(20);
    cx.id_bytes(op.short().as_bytes());
    cx.id(model0.len);
    let old_blocks = base.blocks();
    let setup = || -> Result<(Arc<CoreState>, Hyperbee), String> {
        let core = copy(&base);
        let hb = bee(&core);
        if warm {
            collect_ok(&H::Bee(&hb), Default::default())?;
        }
        Ok((core, hb))
    };
    // how many accesses it makes
    let total = {
        let (core, hb) = setup()?;
        let c = &core.counters;
        let n0 = c.gets.load(SeqCst) + c.appends.load(SeqCst);
        let mut m = model0.clone();
        step(&H::Bee(&hb), &mut m, &op)?;
        c.gets.load(SeqCst) + c.appends.load(SeqCst) - n0
    };
    cx.obs.max("storage accesses of an operation", total);
    let all = model0.entries();
    for k in 0..total {
        for verdict in [V::ErrBefore, V::ErrAfter, V::Missing] {
            let (core, hb) = setup()?;
            let sub = hb.sub(b"", PrefixedConfig { seperator: vec![] });
            let hb2 = bee(&core);
            if k % 3 == 1 {
                collect_ok(&H::Bee(&hb2), Default::default())?;
            }
            // a traversal half-way through
            let mut stream = open(&H::Bee(&hb), TraverseConfig::default())?;
            let mut got = vec![];
            if let Some(s) = &mut stream {
                for _ in 0..cx.rng.below(all.len().min(12) + 1) {
                    match exec::run(s.next()).map_err(stuck)? {
                        Some(Ok(x)) => got.push((x.key, x.seq, x.value)),
                        Some(Err(e)) => return Err(err_chain(&e)),
                        None => break,
                    }
                }
            }
            let h = if through_sub { H::Sub(&sub) } else { H::Bee(&hb) };
            let hit = fault_at(&core, k, verdict);
            let mut seen = vec![];
            let mut model = model0.clone();
            let what = format!("{} with {verdict:?} at access {k} of {total} (warm {warm})", op.short());
            cx.t(|| what.clone());
            let res = exec::run(perform(&h, &op, &mut seen)).map_err(|e| format!("{what}: {e}"))?;
            core.set_policy(None);
            let hit = hit.lock().unwrap().clone();
            cx.obs.add("faults injected", hit.is_some() as u64);
            if seen.len() > 1 {
                return Err(format!("{what}: the predicate was called {} times", seen.len()));
            }
            match &res {
                Ok(out) => {
                    // whatever went wrong was coped with: then it must have had its full effect
                    let (want, _) = model.apply(&op);
                    if out != &want {
                        return Err(format!("{what}: returned {} although the storage failed; {} is right", show(out), show(&want)));
                    }
                    crate::c_map::allow_header(&op, &mut model, &core);
                    if core.len() != model.len {
                        return Err(format!("{what}: succeeded and left {} blocks, expected {}", core.len(), model.len));
                    }
                }
                Err(_) => {
                    let n = core.len();
                    let appended_node = matches!(&hit, Some(OpKind::Append(_))) && verdict == V::ErrAfter;
                    let mut done = model.clone();
                    done.apply(&op);
                    if n == model.len {
                    } else if model.len == 0 && n == 1 {
                        model.len = 1;
                    } else if appended_node && n == done.len {
                        model = done;
                        cx.obs.add("failed appends that took effect", 1);
                    } else {
                        return Err(format!("{what}: failed and left {n} blocks, {} before", model.len));
                    }
                }
            }
            let probes: Vec<Bytes> = (0..4).map(|_| cx.rng.pick(&keys).clone()).chain([op.key().clone()]).collect();
            for (name, h) in [("the same handle", &hb), ("another handle", &hb2), ("a fresh handle", &bee(&core))] {
                same(h, &model, &probes).map_err(|e| format!("{what}: then {name}: {e}"))?;
            }
            newest(&core, &model).map_err(|e| format!("{what}: then {e}"))?;
            let now = core.blocks();
            if let Some(i) = (0..old_blocks.len()).find(|i| now.get(*i) != Some(&old_blocks[*i])) {
                return Err(format!("{what}: block {i} changed"));
            }
            // retry
            // through the same handle, or through another one
            let fresh = bee(&core);
            let via = match cx.rng.below(4) {
                0 => H::Bee(&hb2),
                1 => H::Bee(&fresh),
                _ => h,
            };
            if cx.rng.pct(40) {
                // something else is written first
                let o = random_op(cx, &keys, &model);
                step(&via, &mut model, &o).map_err(|e| format!("{what}: then {}: {e}", o.short()))?;
                crate::c_map::allow_header(&o, &mut model, &core);
            }
            step(&via, &mut model, &op).map_err(|e| format!("{what}: retry: {e}"))?;
            crate::c_map::allow_header(&op, &mut model, &core);
            cx.obs.add("retries", 1);
            for h in [&hb, &hb2] {
                same(h, &model, &[]).map_err(|e| format!("{what}: after the retry {e}"))?;
            }
            newest(&core, &model).map_err(|e| format!("{what}: after the retry {e}"))?;
            // the open traversal goes on
            if let Some(mut s) = stream {
                while let Some(x) = exec::run(s.next()).map_err(stuck)? {
                    let x = x.map_err(|e| format!("{what}: open traversal: {}", err_chain(&e)))?;
                    got.push((x.key, x.seq, x.value));
                    if got.len() > all.len() {
                        break;
                    }
                }
                if let Some(d) = diff(&got, &all) {
                    return Err(format!("{what}: the traversal opened before it gives {d}"));
                }
            }
        }
    }
    if model0.is_mutation(&op) {
        cx.nontrivial();
    }
    Ok(())
}

/// Some of `all`, in order (or reversed).
fn is_sub(got: &[Entry], all: &[Entry]) -> bool {
    let mut it = all.iter();
    got.iter().all(|g| it.any(|a| a == g))
}

/// Drains a traversal under faults; (items, errors).
fn drain_faulty(mut s: BoxStream, cap: usize) -> Result<(Vec<Entry>, u64), String> {
    let (mut items, mut errors) = (vec![], 0);
    let mut after = 0;
    while let Some(x) = exec::run(s.next()).map_err(stuck)? {
        match x {
            Ok(x) => items.push((x.key, x.seq, x.value)),
            Err(_) => errors += 1,
        }
        after += 1;
        if after > cap {
            return Err(format!("a traversal yields more than {cap} results ({errors} of them errors)"));
        }
    }
    Ok((items, errors))
}

fn c13_history(cx: &mut Ctx) -> R {
    let keys = any_universe(&mut cx.rng, &[2, 5, 9, 14, 25, 60]);
    let core = CoreState::in_memory(true, [7; 32]);
    let hb = bee(&core);
    let hb2 = bee(&core);
    let sub = hb.sub(b"", PrefixedConfig { seperator: vec![] });
    let mut model = Model::default();
    let total = keys.len() * 4;
    let ph = phases(&mut cx.rng, total, 20);
    let mut hist = History::new(keys.clone(), ph);
    let pct = *cx.rng.pick(&[1u32, 5, 15]);
    let mut r = cx.rng.fork();
    let mut policy = || -> hypercore::standin::Policy {
        let mut r = r.fork();
        Box::new(move |op| {
            let verdict = if *op == OpKind::Info || !r.pct(pct) {
                V::Normal
            } else {
                *r.pick(&[V::ErrBefore, V::ErrAfter, V::Missing])
            };
            Decision { before: r.pct(10) as u32, verdict, after: r.pct(10) as u32 }
        })
    };
    let mut n = 0;
    let mut failures = 0;
    while let Some(op) = hist.next(&mut cx.rng) {
        n += 1;
        let other = cx.rng.pct(15);
        let hs = H::Sub(&sub);
        let (hbh, hb2h) = (H::Bee(&hb), H::Bee(&hb2));
        let h = if other { &hb2h } else if cx.rng.pct(20) { &hs } else { &hbh };
        core.set_policy(Some(policy()));
        let f0 = core.counters.faults.load(SeqCst);
        let mut seen = vec![];
        let res = exec::run(perform(h, &op, &mut seen)).map_err(|e| format!("step {n} {}: {e}", op.short()))?;
        core.set_policy(None);
        let faulted = core.counters.faults.load(SeqCst) > f0;
        cx.t(|| format!("{n} {} -> {:?} (faulted {faulted})", op.short(), res.as_ref().map(show).map_err(|e| err_chain(e))));
        cx.id_bytes(op.short().as_bytes());
        cx.id(faulted as u64);
        cx.obs.add("operations of faulty histories", 1);
        match res {
            Ok(out) => {
                let (want, _) = model.apply(&op);
                if out != want {
                    return Err(format!("step {n} {}: returned {}, expected {} (faulted {faulted})", op.short(), show(&out), show(&want)));
                }
                crate::c_map::allow_header(&op, &mut model, &core);
            }
            Err(e) => {
                if !faulted {
                    return Err(format!("step {n} {}: failed without a storage fault, after {failures} failed operations: {}", op.short(), err_chain(&e)));
                }
                failures += 1;
                let len = core.len();
                let mut done = model.clone();
                done.apply(&op);
                if len == model.len {
                } else if model.len == 0 && len == 1 {
                    model.len = 1;
                } else if model.is_mutation(&op) && len == done.len {
                    model = done;
                } else {
                    return Err(format!("step {n} {}: failed and left {len} blocks, {} before", op.short(), model.len));
                }
            }
        }
        if core.len() != model.len {
            return Err(format!("step {n} {}: {} blocks in the log, expected {}", op.short(), core.len(), model.len));
        }
        if n % 6 == 0 {
            let h = if cx.rng.pct(50) { &hb } else { &hb2 };
            same(h, &model, &[op.key().clone()]).map_err(|e| format!("after step {n}: {e}"))?;
            newest(&core, &model).map_err(|e| format!("after step {n}: {e}"))?;
        }
        if n % 5 == 0 {
            // a traversal on failing storage, cold or warm
            let cold = bee(&core);
            let h = if cx.rng.pct(60) { &cold } else { &hb };
            let rev = cx.rng.pct(50);
            let mut all = model.entries();
            if rev {
                all.reverse();
            }
            let conf = Cfg { rev, ..Cfg::all() }.make(false)?;
            core.set_policy(Some(policy()));
            let f0 = core.counters.faults.load(SeqCst);
            let opened: Result<Option<BoxStream>, String> = open(&H::Bee(h), conf);
            let faulted_open = core.counters.faults.load(SeqCst) > f0;
            match opened {
                Err(e) if !faulted_open => return Err(e),
                Err(_) => (),
                Ok(None) => {
                    if model.len > 1 {
                        return Err(format!("after step {n}: traverse reports no root in a log of {} blocks", model.len));
                    }
                }
                Ok(Some(s)) => {
                    let (items, errors) = drain_faulty(s, 4 * all.len() + 64)?;
                    let faulted = core.counters.faults.load(SeqCst) > f0;
                    if errors > 0 && !faulted {
                        return Err(format!("after step {n}: a traversal failed without a storage fault"));
                    }
                    if errors == 0 {
                        if let Some(d) = diff(&items, &all) {
                            return Err(format!("after step {n}: a traversal on failing storage (faulted {faulted}) reports no error but gives {d}"));
                        }
                    } else if !is_sub(&items, &all) {
                        return Err(format!("after step {n}: a traversal on failing storage yields entries that are not in the map or out of order"));
                    }
                }
            }
            core.set_policy(None);
            cx.obs.add("faulty traversals", 1);
        }
    }
    for h in [&hb, &hb2, &bee(&core)] {
        same(h, &model, &keys).map_err(|e| format!("in the end: {e}"))?;
    }
    if failures > 0 {
        cx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

static C15: Check = Check {
    id: "C15",
    level: "fault_enumeration",
    rule: "a case is a history on a tree in a storage directory with reopenings, crashes at random accesses (the operation abandoned, all handles dropped), and afterwards the log cut at every block and the file cut at arbitrary bytes; one case in 60 is a child process killed with SIGKILL while writing; after each the reopened map is compared with the model's version; non-trivial if the log had been reopened or cut with entries in it; counted by the hash of history and cut",
    quick: 2400,
    thorough: 60000,
    run: c15,
    require: &[("reopened", 3000), ("crash points", 2000), ("file cuts", 3000), ("log prefixes", 5000), ("processes killed", 8), ("trees in similar directories", 100)],
    assumptions: ASSUME,
};

pub struct TempDir(pub PathBuf);
impl TempDir {
    pub fn new(tag: &str) -> Result<TempDir, String> {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var_os("HBMON_TMP").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!("hbmon-{}-{}-{tag}", std::process::id(), N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&d).map_err(|e| format!("HARNESS {e}"))?;
        Ok(TempDir(d))
    }
}
impl Drop for TempDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Opens a directory; also gives its core.
pub fn open_dir(dir: &Path) -> Result<(Hyperbee, Arc<CoreState>), String> {
    hypercore::standin::forget_last();
    let hb = exec::run(Hyperbee::from_storage_dir(dir))
        .map_err(stuck)?
        .map_err(|e| format!("opening the storage directory failed: {}", err_chain(&e)))?;
    let core = hypercore::standin::last_created().ok_or("opening a storage directory made no core")?;
    hypercore::standin::forget_last();
    Ok((hb, core))
}

/// Names of directories, with another one that is not the same.
static LOOK_ALIKE: &[(&[u8], &[u8])] = &[
    (b"tree", b"Tree"),
    (b"tree", b"tree "),
    (b"a/b/c", b"a/b"),
    (b"with space", b"withspace"),
    ("\u{e4}\u{1f41d}".as_bytes(), b"a\xcc\x88\xf0\x9f\x90\x9d"),
    (b"t\xff", b"t\xfe"),
    (b"t\xff", "t\u{fffd}".as_bytes()),
    (b"%20", b" "),
    (b"~", b"."),
    (b"-x", b"x"),
    (b"a\nb", b"a"),
    (b"tree.d", b"tree"),
    (b".", b"data.d"),
];
fn path_of(name: &[u8]) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    PathBuf::from(std::ffi::OsStr::from_bytes(name))
}
/// Fills the tree at `there`, reopens it when `here` was opened and is empty, and removes it.
fn neighbour(cx: &mut Ctx, here: &Path, there: &Path) -> R {
    if here.starts_with(there) || there.starts_with(here) {
        return Ok(());
    }
    let (hb, core) = open_dir(there)?;
    exec::run(hb.put(b"neighbour", Some(b"v"))).map_err(stuck)?.map_err(|e| err_chain(&e))?;
    let (h, c) = open_dir(here)?;
    if c.len() != 0 || exec::run(h.version()).map_err(stuck)? != 0 {
        return Err(format!("a new tree at {here:?} has the {} blocks of the one at {there:?}", c.len()));
    }
    drop((h, c, hb, core));
    let (hb, _core) = open_dir(there)?;
    let got = exec::run(hb.get(b"neighbour")).map_err(stuck)?.map_err(|e| err_chain(&e))?;
    if got != Some((1, Some(b"v".to_vec()))) {
        return Err(format!("the tree at {there:?} reads {got:?} after one at {here:?} was opened"));
    }
    cx.obs.add("trees in similar directories", 1);
    Ok(())
}

fn c15(cx: &mut Ctx) -> R {
    if cx.case % 60 == 29 {
        return c15_kill(cx);
    }
    let tmp = TempDir::new("c15")?;
    let (name, other) = *cx.rng.pick(LOOK_ALIKE);
    let dir = tmp.0.join(path_of(name));
    // a tree in a directory of a similar name is another tree
    if cx.rng.pct(20) {
        neighbour(cx, &dir, &tmp.0.join(path_of(other)))?;
    }
    let link = tmp.0.join("link");
    let spell = |rng: &mut crate::rng::Rng| -> PathBuf {
        match rng.below(6) {
            0 => dir.join(""),
            1 => dir.join("."),
            2 => {
                let _ = std::os::unix::fs::symlink(&dir, &link);
                link.clone()
            }
            3 => {
                // relative to the working directory
                let up = std::env::current_dir().map_or(0, |d| d.components().count() - 1);
                (0..up).map(|_| "..").collect::<PathBuf>().join(dir.strip_prefix("/").unwrap_or(&dir))
            }
            _ => dir.clone(),
        }
    };
    let keys = any_universe(&mut cx.rng, &[1, 3, 9, 14, 30, 60]);
    let ph = {
        let n = keys.len() * 3;
        phases(&mut cx.rng, n, 10)
    };
    let mut hist = History::new(keys.clone(), ph);
    // the map at each length of the log
    let mut versions: Vec<Model> = vec![Model::default(), Model { len: 1, ..Model::default() }];
    let mut model = Model::default();
    let (mut hb, mut core) = open_dir(&dir)?;
    let explicit = cx.rng.pct(20);
    if explicit {
        let o = exec::run(hb.create_header(None)).map_err(stuck)?.map_err(|e| err_chain(&e))?;
        if o.length != 1 {
            return Err(format!("create_header reports a length of {}", o.length));
        }
        model.len = 1;
    }
    let mut reopened_full = false;
    let mut n = 0;
    macro_rules! reopen {
        ($why:expr) => {{
            drop(hb);
            drop(core);
            let at = spell(&mut cx.rng);
            let x = open_dir(&at).map_err(|e| format!("{} (after step {n}), at {at:?}: {e}", $why))?;
            hb = x.0;
            core = x.1;
            cx.obs.add("reopened", 1);
            reopened_full |= !model.map.is_empty();
            let probes: Vec<Bytes> = (0..3).map(|_| cx.rng.pick(&keys).clone()).collect();
            same(&hb, &model, &probes).map_err(|e| format!("{} (after step {n}), reopened: {e}", $why))?;
        }};
    }
    if cx.rng.pct(50) {
        reopen!("nothing written");
    }
    while let Some(op) = hist.next(&mut cx.rng) {
        n += 1;
        cx.t(|| op.short());
        cx.id_bytes(op.short().as_bytes());
        match cx.rng.below(10) {
            0 | 1 => {
                // crash somewhere inside
                core.set_policy(Some(Box::new(|_| Decision { before: 1, verdict: V::Normal, after: 1 })));
                let k = cx.rng.below(24) as u64;
                let mut seen = vec![];
                let acked = {
                    let h = H::Bee(&hb);
                    let p = exec::run_partial(perform(&h, &op, &mut seen), k).map_err(|e| format!("step {n} {}: {e}", op.short()))?;
                    match p {
                        exec::Partial::Done(r) => {
                            r.map_err(|e| format!("step {n} {}: failed without a storage fault: {}", op.short(), err_chain(&e)))?;
                            true
                        }
                        exec::Partial::Unfinished(_) => false,
                    }
                };
                let what = format!("step {n} {} crashed after {k} polls", op.short());
                let len = core.len();
                let mut done = model.clone();
                done.apply(&op);
                if acked {
                    crate::c_map::allow_header(&op, &mut done, &core);
                    model = done;
                } else if len == model.len {
                } else if model.len == 0 && len == 1 {
                    model.len = 1;
                } else if model.is_mutation(&op) && len == done.len {
                    model = done;
                } else {
                    return Err(format!("{what}: the log has {len} blocks, {} before", model.len));
                }
                cx.obs.add("crash points", 1);
                cx.id(k);
                reopen!(what);
            }
            2 => {
                step(&H::Bee(&hb), &mut model, &op)?;
                crate::c_map::allow_header(&op, &mut model, &core);
                reopen!(op.short());
            }
            _ => {
                step(&H::Bee(&hb), &mut model, &op)?;
                crate::c_map::allow_header(&op, &mut model, &core);
            }
        }
        while versions.len() as u64 <= model.len {
            versions.push(model.clone());
        }
        versions[model.len as usize] = model.clone();
        // acknowledged means it is in the file
        if n % 3 == 0 {
            let raw = std::fs::read(dir.join("data")).map_err(|e| format!("step {n}: no data on disk: {e}"))?;
            let on_disk = records(&raw).len();
            if on_disk as u64 != model.len {
                return Err(format!("step {n} {}: {on_disk} blocks on disk, {} acknowledged", op.short(), model.len));
            }
        }
    }
    reopen!("the whole history");
    if reopened_full {
        cx.nontrivial();
    }
    drop(hb);
    // the file cut anywhere
    let raw = std::fs::read(dir.join("data")).map_err(|e| format!("no data on disk: {e}"))?;
    drop(core);
    let ends = records(&raw);
    for _ in 0..12 {
        let cut = cx.rng.below(raw.len() + 1);
        let len = ends.iter().take_while(|e| **e <= cut).count();
        let d2 = tmp.0.join("cut");
        std::fs::create_dir_all(&d2).map_err(|e| format!("HARNESS {e}"))?;
        std::fs::write(d2.join("data"), &raw[..cut]).map_err(|e| format!("HARNESS {e}"))?;
        let (hb, core) = open_dir(&d2).map_err(|e| format!("the file cut at byte {cut}: {e}"))?;
        let mut m = versions[len].clone();
        m.len = len as u64;
        let probes: Vec<Bytes> = (0..2).map(|_| cx.rng.pick(&keys).clone()).collect();
        same(&hb, &m, &probes).map_err(|e| format!("the file cut at byte {cut} ({len} whole blocks): {e}"))?;
        for _ in 0..2 {
            let op = random_op(cx, &keys, &m);
            step(&H::Bee(&hb), &mut m, &op).map_err(|e| format!("after a cut at byte {cut}: {e}"))?;
            crate::c_map::allow_header(&op, &mut m, &core);
        }
        drop((hb, core));
        let (hb, _) = open_dir(&d2)?;
        same(&hb, &m, &[]).map_err(|e| format!("cut at byte {cut}, extended and reopened: {e}"))?;
        cx.obs.add("file cuts", 1);
        cx.id(cut as u64);
    }
    // every length of the log
    let blocks: Vec<Vec<u8>> = {
        let mut at = 0;
        ends.iter()
            .map(|e| {
                let b = raw[at + 8..*e].to_vec();
                at = *e;
                b
            })
            .collect()
    };
    let step_by = (blocks.len() / 40).max(1);
    for len in (0..=blocks.len()).step_by(step_by) {
        let core = CoreState::with_blocks(blocks[..len].iter().cloned().map(Some).collect(), true);
        let hb = bee(&core);
        let mut m = versions[len].clone();
        m.len = len as u64;
        same(&hb, &m, &[]).map_err(|e| format!("the first {len} blocks: {e}"))?;
        let op = random_op(cx, &keys, &m);
        step(&H::Bee(&hb), &mut m, &op).map_err(|e| format!("the first {len} blocks: {e}"))?;
        cx.obs.add("log prefixes", 1);
    }
    Ok(())
}

/// Ends of the whole records in a data file of the stand-in.
fn records(raw: &[u8]) -> Vec<usize> {
    let mut at = 0;
    let mut out = vec![];
    while raw.len() - at >= 8 {
        let n = u64::from_le_bytes(raw[at..at + 8].try_into().unwrap()) as usize;
        if raw.len() - at - 8 < n {
            break;
        }
        at += 8 + n;
        out.push(at);
    }
    out
}

fn kill_history(seed: u64) -> Vec<Op> {
    let mut r = crate::rng::Rng::new(seed);
    let keys = any_universe(&mut r, &[9, 30, 60]);
    let ph = phases(&mut r, 4000, 0);
    let mut h = History::new(keys, ph);
    let mut out = vec![];
    while let Some(op) = h.next(&mut r) {
        if !matches!(op, Op::Get(_)) {
            out.push(op);
        }
    }
    out
}
/// The child of `c15_kill`: writes and says what is done, until it is killed.
pub fn child(dir: &str, seed: u64) -> ! {
    use std::io::Write;
    let hb = exec::run(Hyperbee::from_storage_dir(dir)).expect("run").expect("open");
    let out = std::io::stdout();
    for op in kill_history(seed) {
        let mut seen = vec![];
        exec::run(perform(&H::Bee(&hb), &op, &mut seen)).expect("run").expect("operation");
        let mut o = out.lock();
        let _ = o.write_all(b".");
        let _ = o.flush();
    }
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
    }
}
fn c15_kill(cx: &mut Ctx) -> R {
    use std::io::Read;
    let tmp = TempDir::new("kill")?;
    let seed = cx.rng.u64();
    let exe = std::env::current_exe().map_err(|e| format!("HARNESS {e}"))?;
    let mut child = std::process::Command::new(exe)
        .args(["--child", tmp.0.to_str().unwrap(), &seed.to_string()])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| format!("HARNESS {e}"))?;
    let ops = kill_history(seed);
    let stop = cx.rng.below(ops.len() * 3 / 4);
    let mut acked = 0;
    let mut pipe = child.stdout.take().unwrap();
    let mut buf = [0u8; 64];
    while acked <= stop {
        match pipe.read(&mut buf) {
            Ok(0) | Err(_) => break,
            Ok(n) => acked += n,
        }
    }
    let early = acked <= stop;
    let _ = child.kill();
    let _ = child.wait();
    let mut rest = vec![];
    let _ = pipe.read_to_end(&mut rest);
    acked += rest.len();
    cx.id(seed);
    cx.id(acked as u64);
    cx.nontrivial();
    if early {
        return Err(format!("the writing process failed after {acked} operations"));
    }
    // the model at every point
    let mut m = Model::default();
    for op in &ops[..acked] {
        m.apply(op);
    }
    let (hb, core) = open_dir(&tmp.0)?;
    let len = core.len();
    let lo = m.len;
    for op in &ops[acked..] {
        if m.len >= len {
            break;
        }
        m.apply(op);
    }
    if len < lo {
        return Err(format!("a process killed after {acked} acknowledged operations ({lo} blocks) left {len} blocks"));
    }
    if len > lo + 1 {
        return Err(format!("a process killed after {acked} acknowledged operations ({lo} blocks) left {len} blocks: more than one was not acknowledged"));
    }
    let keys: Vec<Bytes> = ops.iter().take(30).map(|o| o.key().clone()).collect();
    same(&hb, &m, &keys).map_err(|e| format!("after a SIGKILL behind operation {acked}: {e}"))?;
    step(&H::Bee(&hb), &mut m, &Op::Put(b"after".to_vec(), None))?;
    cx.obs.add("processes killed", 1);
    Ok(())
}

// ---------------------------------------------------------------- C16

static C16: Check = Check {
    id: "C16",
    level: "exploration",
    rule: "a case is a writer's log whose blocks reach a reader in a seeded order with gaps, while long-lived and fresh handles of the reader get and traverse between (and, suspended, during) arrivals; each result is compared with the newest version known during the operation and each error with the blocks that were really missing; one case in ten connects trees by streams instead; non-trivial if an operation failed for a missing block and succeeded later; counted by the hash of order and results",
    quick: 8000,
    thorough: 200000,
    run: c16,
    require: &[("reads answered", 50000), ("reads refused for a missing block", 10000), ("refused writes", 5000), ("reads during arrivals", 5000), ("connected trees converged", 100), ("mute connections", 20), ("reads while connected", 1000)],
    assumptions: ASSUME,
};

/// Blocks a cold read asks for, with everything there.
pub fn needed(full: &Arc<CoreState>, f: impl FnOnce(&Hyperbee) -> R) -> Result<BTreeSet<u64>, String> {
    let core = copy(full);
    let set: Arc<Mutex<BTreeSet<u64>>> = Default::default();
    let s = set.clone();
    core.set_policy(Some(Box::new(move |op| {
        if let OpKind::Get(i) = op {
            s.lock().unwrap().insert(*i);
        }
        Decision::NORMAL
    })));
    f(&bee(&core))?;
    let x = set.lock().unwrap().clone();
    Ok(x)
}

fn c16(cx: &mut Ctx) -> R {
    if cx.case % 10 == 4 {
        return c16_streams(cx);
    }
    // the writer
    let keys = any_universe(&mut cx.rng, &[3, 9, 14, 30, 60, 120]);
    let wcore = CoreState::in_memory(true, [7; 32]);
    let whb = bee(&wcore);
    let mut model = Model::default();
    let mut versions = vec![Model::default(), Model { len: 1, ..Model::default() }];
    let total = keys.len() * 2;
    let ph = phases(&mut cx.rng, total, 0);
    let mut hist = History::new(keys.clone(), ph);
    while let Some(op) = hist.next(&mut cx.rng) {
        step(&H::Bee(&whb), &mut model, &op)?;
        while versions.len() as u64 <= model.len {
            versions.push(model.clone());
        }
    }
    if model.len < 2 {
        step(&H::Bee(&whb), &mut model, &Op::Put(b"k".to_vec(), None))?;
        versions.push(model.clone());
    }
    let blocks: Vec<Vec<u8>> = wcore.blocks().into_iter().map(|b| b.unwrap().to_vec()).collect();
    let n = blocks.len();
    let mut view = LogView::default();
    view.extend(&wcore.blocks()).map_err(|e| format!("HARNESS {e}"))?;
    // what of a log of some length is needed to find a key, or everything
    let way = |len: u64, key: Option<&[u8]>| if len > 1 { view.way(len - 1, key) } else { Default::default() };
    // the reader
    let rcore = CoreState::in_memory(false, [7; 32]);
    let hb = bee(&rcore);
    let sub = hb.sub(b"", PrefixedConfig { seperator: vec![] });
    let pos = positions(&keys);
    // the order of arrival
    let mut order: Vec<usize> = (0..n).collect();
    match cx.rng.below(6) {
        0 => (),
        1 => order.reverse(),
        2 => cx.rng.shuffle(&mut order),
        3 => {
            // a window
            for c in order.chunks_mut(8) {
                let mut v = c.to_vec();
                cx.rng.shuffle(&mut v);
                c.copy_from_slice(&v);
            }
        }
        4 => order.rotate_left(n / 2),
        _ => {
            // the newest first, then the rest in order
            order.rotate_right(1);
        }
    }
    if cx.rng.pct(40) {
        rcore.extend_to(cx.rng.below(n + 1) as u64);
    }
    let (mut missed_before, mut answered_after) = (false, false);
    let every = (n / 24).max(1);
    let quick_probe = |cx: &mut Ctx| cx.rng.pick(&keys).clone();
    // full cores by length, to learn what is needed
    let mut full: BTreeMap<u64, Arc<CoreState>> = Default::default();
    for (at, i) in order.iter().enumerate() {
        let suspended = at % every == 0 && cx.rng.pct(30);
        if suspended {
            // arrivals during an operation
            let from = rcore.len();
            let all_there = rcore.blocks().iter().all(|b| b.is_some());
            let k = quick_probe(cx);
            let mut r = cx.rng.fork();
            suspending(&rcore, r.u64(), 80);
            let mut f = Box::pin(hb.get(&k));
            let lead = r.below(4) as u64;
            let first = exec::run_partial(&mut f, lead).map_err(stuck)?;
            rcore.ingest(*i as u64, blocks[*i].clone());
            let res = match first {
                exec::Partial::Done(x) => x,
                exec::Partial::Unfinished(_) => exec::run(&mut f).map_err(stuck)?,
            };
            drop(f);
            rcore.set_policy(None);
            let to = rcore.len();
            cx.obs.add("reads during arrivals", 1);
            cx.t(|| format!("block {i} arrives during {}: {:?}", Op::Get(k.clone()).short(), res.as_ref().map_err(|e| err_chain(e))));
            match res {
                Ok(x) => {
                    if !(from..=to).any(|v| versions[v as usize].map.get(&k).cloned() == x) {
                        return Err(format!(
                            "{} while block {i} arrives returned {x:02x?}, right in none of the versions {from} to {to}",
                            Op::Get(k.clone()).short()
                        ));
                    }
                }
                Err(e) => {
                    if all_there && from == to {
                        return Err(format!("{} failed with no block missing: {}", Op::Get(k.clone()).short(), err_chain(&e)));
                    }
                }
            }
        } else {
            rcore.ingest(*i as u64, blocks[*i].clone());
            cx.t(|| format!("block {i} arrives"));
        }
        cx.id(*i as u64);
        if at % every != 0 && at + 1 != n {
            continue;
        }
        let len = rcore.len();
        let want = versions[len as usize].clone();
        let have: BTreeSet<u64> = (0..len).filter(|i| rcore.block(*i).is_some()).collect();
        let fresh = bee(&rcore);
        let fcore = full
            .entry(len)
            .or_insert_with(|| CoreState::with_blocks(blocks[..len as usize].iter().cloned().map(Some).collect(), false))
            .clone();
        let v = exec::run(hb.version()).map_err(stuck)?;
        if v != len {
            return Err(format!("version is {v} with {len} blocks known"));
        }
        for _ in 0..3 {
            let k = if cx.rng.pct(60) && !want.map.is_empty() {
                let i = cx.rng.below(want.map.len());
                want.map.keys().nth(i).unwrap().clone()
            } else {
                quick_probe(cx)
            };
            let need = needed(&fcore, |h| exec::run(h.get(&k)).map_err(stuck)?.map(|_| ()).map_err(|e| err_chain(&e)))?;
            for (name, res) in [
                ("long-lived", exec::run(hb.get(&k)).map_err(stuck)?),
                ("fresh", exec::run(fresh.get(&k)).map_err(stuck)?),
                ("sub", exec::run(sub.get(&k)).map_err(stuck)?),
            ] {
                cx.id(res.is_ok() as u64);
                match res {
                    Ok(x) => {
                        if x != want.map.get(&k).cloned() {
                            return Err(format!(
                                "with blocks {have:?} of {len} the {name} handle answers {} with {x:02x?}, expected {:02x?}",
                                Op::Get(k.clone()).short(),
                                want.map.get(&k)
                            ));
                        }
                        cx.obs.add("reads answered", 1);
                        answered_after |= missed_before;
                    }
                    Err(e) => {
                        if need.is_subset(&have) || way(len, Some(&k)).is_subset(&have) {
                            return Err(format!(
                                "with blocks {have:?} of {len} the {name} handle fails on {}, which needs only {need:?}: {}",
                                Op::Get(k.clone()).short(),
                                err_chain(&e)
                            ));
                        }
                        cx.obs.add("reads refused for a missing block", 1);
                        missed_before = true;
                    }
                }
            }
        }
        // a traversal
        let mut range = Cfg { rev: cx.rng.pct(50), ..Cfg::all() };
        if cx.rng.pct(50) && !pos.is_empty() {
            range = any_cfg(&mut cx.rng, &pos);
            if !range.valid() {
                range = Cfg::all();
            }
        }
        let conf = || range.make(false);
        let all = range.pick(&want.entries());
        let need = needed(&fcore, |h| collect_ok(&H::Bee(h), conf()?).map(|_| ()))?;
        let all_there = need.is_subset(&have) || len < 2 || {
            let end = |b: &B| if let B::At(k) = b { Some(k.clone()) } else { None };
            view.range(len - 1, end(&range.min).as_deref(), end(&range.max).as_deref()).is_subset(&have)
        };
        cx.obs.add("traversals of a partial log with all they need", (all_there && have.len() < len as usize) as u64);
        for (name, h) in [("long-lived", &hb), ("fresh", &fresh)] {
            match exec::run(async { h.traverse(conf().unwrap()).await.map(|s| Box::pin(s) as BoxStream) }).map_err(stuck)? {
                Err(hyperbee::HyperbeeError::NoRootError) => {
                    if len > 1 {
                        return Err(format!("with blocks {have:?} of {len} a traversal finds no root"));
                    }
                }
                Err(e) => {
                    if all_there {
                        return Err(format!("with blocks {have:?} of {len} a traversal ({range:?}) of the {name} handle fails: {}", err_chain(&e)));
                    }
                    cx.obs.add("reads refused for a missing block", 1);
                    missed_before = true;
                }
                Ok(s) => {
                    let (items, errors) = drain_faulty(s, 4 * all.len() + 64)?;
                    if errors == 0 {
                        if let Some(d) = diff(&items, &all) {
                            return Err(format!("with blocks {have:?} of {len} a traversal of the {name} handle gives {d}"));
                        }
                        cx.obs.add("reads answered", 1);
                    } else {
                        if all_there {
                            return Err(format!("with blocks {have:?} of {len} a traversal of the {name} handle fails"));
                        }
                        if !is_sub(&items, &all) {
                            return Err(format!("with blocks {have:?} of {len} a traversal yields entries that version {len} lacks"));
                        }
                        cx.obs.add("reads refused for a missing block", 1);
                        missed_before = true;
                    }
                }
            }
        }
        // writes are refused
        let op = random_op(cx, &keys, &want);
        if want.is_mutation(&op) {
            let before = rcore.blocks();
            let mut seen = vec![];
            let hs = H::Sub(&sub);
            let hh = H::Bee(&hb);
            let h = if cx.rng.pct(30) { &hs } else { &hh };
            let r = exec::run(perform(h, &op, &mut seen)).map_err(stuck)?;
            if let Ok(x) = r {
                return Err(format!("{} on a read-only tree returned {}", op.short(), show(&x)));
            }
            if rcore.blocks() != before {
                return Err(format!("{} changed a read-only tree", op.short()));
            }
            cx.obs.add("refused writes", 1);
            // and leave no trace
            if have.len() as u64 == len {
                same(&hb, &Model { len, ..want.clone() }, &[op.key().clone()]).map_err(|e| format!("after the refused {}: {e}", op.short()))?;
            } else if let Ok(x) = exec::run(hb.get(op.key())).map_err(stuck)? {
                if x != want.map.get(op.key()).cloned() {
                    return Err(format!("after the refused {} get returns {x:02x?}", op.short()));
                }
            }
        }
    }
    // everything is there now
    same(&hb, &model, &keys).map_err(|e| format!("with all blocks there: {e}"))?;
    if let Some(d) = diff(&collect_ok(&H::Sub(&sub), Default::default())?, &model.entries()) {
        return Err(format!("with all blocks there a sub-tree of the reader gives {d}"));
    }
    if exec::run(hb.create_header(None)).map_err(stuck)?.is_ok() {
        return Err("create_header succeeded on a reader".into());
    }
    if answered_after {
        cx.nontrivial();
    }
    Ok(())
}

fn c16_streams(cx: &mut Ctx) -> R {
    let rt = tokio::runtime::Builder::new_current_thread().build().map_err(|e| format!("HARNESS {e}"))?;
    let keys = any_universe(&mut cx.rng, &[3, 14, 60]);
    let readers = if cx.case % 50 == 24 { cx.rng.range(8, 24) } else { cx.rng.range(1, 3) };
    let same_role = cx.case % 40 == 14;
    let wcore = CoreState::in_memory(true, [7; 32]);
    let whb = bee(&wcore);
    let (rs, model) = rt.block_on(async {
        let mut model = Model::default();
        let total = keys.len() * 2;
        let ph = phases(&mut cx.rng, total, 0);
        let mut hist = History::new(keys.clone(), ph);
        let early = cx.rng.below(total + 1);
        let mut n = 0;
        let mut versions = vec![Model::default(), Model { len: 1, ..Model::default() }];
        macro_rules! write {
            ($op:expr) => {{
                let op = $op;
                let mut seen = vec![];
                let got = perform(&H::Bee(&whb), &op, &mut seen).await.map_err(|e| format!("{}: {}", op.short(), err_chain(&e)))?;
                let (want, _) = model.apply(&op);
                if got != want {
                    return Err(format!("{} on a replicated tree returned {}, expected {}", op.short(), show(&got), show(&want)));
                }
                while versions.len() as u64 <= model.len {
                    versions.push(model.clone());
                }
            }};
        }
        while n < early {
            let Some(op) = hist.next(&mut cx.rng) else { break };
            write!(op);
            n += 1;
        }
        let mut rs = vec![];
        for _ in 0..readers {
            let rcore = CoreState::in_memory(false, [7; 32]);
            let rhb = bee(&rcore);
            let (a, b) = replicator::utils::create_connected_streams();
            let w_first = cx.rng.pct(50);
            cx.id(w_first as u64);
            let r1 = whb.add_stream(a, w_first).await;
            let r2 = rhb.add_stream(b, w_first == same_role).await;
            for r in [r1, r2] {
                r.map_err(|e| format!("add_stream: {}", err_chain(&e)))?;
            }
            rs.push((rcore, rhb, w_first));
        }
        // reads go on while blocks arrive: any answer is that of the length known
        let mut done = false;
        let mut rounds = 0;
        while !done || rounds == 0 {
            if n < total {
                for _ in 0..cx.rng.range(1, 6) {
                    if let Some(op) = hist.next(&mut cx.rng) {
                        write!(op);
                        n += 1;
                    } else {
                        n = total;
                    }
                }
            } else {
                done = true;
            }
            let mut polls = 0;
            loop {
                let mut behind = false;
                for (rcore, _, _) in &rs {
                    behind |= rcore.len() < model.len;
                }
                if !behind || polls > 20_000 || (!done && polls > 20) {
                    break;
                }
                polls += 1;
                tokio::task::yield_now().await;
            }
            rounds += 1;
            if rounds % 4 == 1 {
                for (rcore, rhb, _) in rs.iter().take(3) {
                    let k = cx.rng.pick(&keys).clone();
                    let from = rcore.len();
                    let missing = rcore.blocks().iter().any(|b| b.is_none());
                    let res = rhb.get(&k).await;
                    let to = rcore.len();
                    match res {
                        Ok(x) if !(from..=to).any(|v| versions[v as usize].map.get(&k).cloned() == x) => {
                            return Err(format!(
                                "{} on a connected reader returned {x:02x?}, right in none of the versions {from} to {to}",
                                Op::Get(k.clone()).short()
                            ));
                        }
                        Err(e) if !missing && from == to => {
                            return Err(format!("{} on a connected reader failed with no block missing: {}", Op::Get(k.clone()).short(), err_chain(&e)));
                        }
                        _ => cx.obs.add("reads while connected", 1),
                    }
                }
            }
        }
        Ok::<_, String>((rs, model))
    })?;
    // outside of the runtime, whose budget for a task's polls our executor does not know
    for (rcore, rhb, w_first) in &rs {
        if same_role {
            // two equal ends must not be made to connect: the roles given are the roles used
            if rcore.len() != 0 {
                return Err("two ends that were both given the same role connected: is_initiator is not passed on".into());
            }
            cx.obs.add("mute connections", 1);
            continue;
        }
        if rcore.len() != model.len {
            return Err(format!(
                "a reader connected by a stream (writer initiates: {w_first}) has {} of {} blocks and gets no more",
                rcore.len(),
                model.len
            ));
        }
        same(rhb, &model, &keys).map_err(|e| format!("a connected reader: {e}"))?;
        cx.obs.add("connected trees converged", 1);
        cx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

static C17: Check = Check {
    id: "C17",
    level: "exploration",
    rule: "a case is a log with one to three blocks damaged (bytes flipped, cut, random, swapped, a header for a node and back; node lists odd, short or long; references to blocks or nodes that do not exist, or that form a cycle), or a log with 2 to 60000 levels, read by gets and traversals in all directions and ranges, by fresh handles and by ones warm from before; panics, endless work and unreadable unaffected entries are violations (where the way down has no end, of each step, and range traversals and print are left out); non-trivial if a read failed or changed its answer; counted by the hash of the damaged blocks",
    quick: 80000,
    thorough: 2000000,
    run: c17,
    require: &[("reads of damaged logs", 300000), ("reads that failed", 50000), ("entries shown to be unaffected", 50000), ("structural damage", 5000), ("byte damage", 5000), ("diagnostics of damaged logs", 50000), ("reads that had to fail", 50000), ("logs with a way down that has no end", 500), ("logs with more or fewer levels", 100)],
    assumptions: ASSUME,
};

mod wire {
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct Node {
        #[prost(bytes = "vec", required, tag = "1")]
        pub index: Vec<u8>,
        #[prost(bytes = "vec", required, tag = "2")]
        pub key: Vec<u8>,
        #[prost(bytes = "vec", optional, tag = "3")]
        pub value: Option<Vec<u8>>,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct Index {
        #[prost(message, repeated, tag = "1")]
        pub levels: Vec<Level>,
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct Level {
        #[prost(uint64, repeated, tag = "1")]
        pub keys: Vec<u64>,
        #[prost(uint64, repeated, tag = "2")]
        pub children: Vec<u64>,
    }
}
/// The nodes of a block as any protobuf decoder sees them.
pub fn lenient(raw: &[u8]) -> Option<Vec<codec::Level>> {
    use prost::Message;
    let n = wire::Node::decode(raw).ok()?;
    let i = wire::Index::decode(&n.index[..]).ok()?;
    Some(i.levels.into_iter().map(|l| codec::Level { keys: l.keys, children: l.children }).collect())
}

/// How many nodes a full walk visits; None if references form a cycle or there are too many.
pub fn walk_size(nodes: &[Option<Vec<codec::Level>>], at: (u64, u64), path: &mut Vec<(u64, u64)>, left: &mut u64) -> Option<u64> {
    let Some(Some(ls)) = nodes.get(at.0 as usize) else { return Some(0) };
    let Some(l) = ls.get(at.1 as usize) else { return Some(0) };
    if path.contains(&at) {
        return None;
    }
    *left = left.checked_sub(1 + l.keys.len() as u64)?;
    path.push(at);
    let mut n = 1 + l.keys.len() as u64;
    for c in l.children.chunks(2) {
        n += 1 + match c {
            [a, b] => walk_size(nodes, (*a, *b), path, left)?,
            _ => 0,
        };
    }
    path.pop();
    Some(n)
}

/// Where a walk has no end: how many nodes and keys a way down can visit. (A tree has fewer than 64 levels.)
pub fn endless_size(nodes: &[Option<Vec<codec::Level>>]) -> u64 {
    let wide = nodes.iter().flatten().flatten().map(|l| l.keys.len() as u64).max().unwrap_or(0);
    64 * (2 + wide)
}

/// The damaged block, if there is only one and nobody can decode it.
/// (The tree in a block that is not the last need not be looked at by those who want its key.)
pub fn undecodable(hurt: &BTreeMap<u64, Vec<u8>>, last: u64) -> Option<u64> {
    use prost::Message;
    let (i, b) = hurt.iter().next().filter(|_| hurt.len() == 1)?;
    (wire::Node::decode(&b[..]).is_err() || (*i == last && lenient(b).is_none())).then_some(*i)
}

/// A reference to some node that block `i` could refer to.
fn any_node(cx: &mut Ctx, blocks: &[Vec<u8>], i: usize) -> (u64, u64) {
    for _ in 0..8 {
        let s = cx.rng.below(i.max(1));
        if let Some(b) = codec::decode_block(&blocks[s]) {
            if !b.levels.is_empty() {
                // the root more often than not
                let o = if cx.rng.pct(60) { 0 } else { cx.rng.below(b.levels.len()) };
                return (s as u64, o as u64);
            }
        }
    }
    (0, 0)
}

pub fn damage(cx: &mut Ctx, blocks: &[Vec<u8>], i: usize) -> Vec<u8> {
    let raw = &blocks[i];
    let n = blocks.len() as u64;
    if cx.rng.pct(55) {
        if let Some(mut b) = codec::decode_block(raw) {
            cx.obs.add("structural damage", 1);
            let weird = |cx: &mut Ctx| match cx.rng.below(8) {
                0 => 0,
                1 => n,
                2 => u64::MAX,
                3 => u32::MAX as u64 + 1,
                4 => i as u64,
                5 => n + 7,
                6 => i64::MAX as u64,
                _ => cx.rng.below(n as usize + 3) as u64,
            };
            for _ in 0..cx.rng.range(1, 2) {
                if b.levels.is_empty() {
                    break;
                }
                let li = if cx.rng.pct(60) { 0 } else { cx.rng.below(b.levels.len()) };
                let nl = b.levels.len();
                match cx.rng.below(26) {
                    0 => b.levels.clear(),
                    1 => {
                        b.levels.truncate(nl - 1);
                    }
                    2 => {
                        let l = &mut b.levels[li];
                        l.children.pop();
                    }
                    3 => {
                        let l = &mut b.levels[li];
                        l.children.pop();
                        l.children.pop();
                    }
                    4 => {
                        let x = weird(cx);
                        b.levels[li].children.push(x);
                    }
                    5 => {
                        let (x, y) = (weird(cx), weird(cx));
                        b.levels[li].children.extend([x, y]);
                    }
                    6 => b.levels[li].children.clear(),
                    7 => b.levels[li].keys.clear(),
                    8 => {
                        let x = weird(cx);
                        b.levels[li].keys.push(x);
                    }
                    9 => {
                        b.levels[li].keys.pop();
                    }
                    10 | 11 => {
                        let x = weird(cx);
                        let l = &mut b.levels[li];
                        if l.children.is_empty() || cx.rng.pct(40) {
                            if !l.keys.is_empty() {
                                let j = cx.rng.below(l.keys.len());
                                l.keys[j] = x;
                            }
                        } else {
                            let j = cx.rng.below(l.children.len());
                            l.children[j] = x;
                        }
                    }
                    // well-formed nodes in the wrong place
                    14..=17 => {
                        let (s, o) = any_node(cx, blocks, i);
                        let l = &mut b.levels[li];
                        if l.children.len() >= 2 {
                            let j = cx.rng.below(l.children.len() / 2) * 2;
                            l.children[j] = s;
                            l.children[j + 1] = o;
                        } else if l.keys.len() == 1 {
                            let (t, p) = any_node(cx, blocks, i);
                            l.children = vec![s, o, t, p];
                        }
                    }
                    18..=20 => {
                        // a new root over nodes of any height
                        let n = cx.rng.range(1, 3);
                        let keys = (0..n).map(|_| cx.rng.below(i.max(1)) as u64 + 1).collect();
                        let children = (0..=n).map(|_| any_node(cx, blocks, i)).flat_map(|(s, o)| [s, o]).collect();
                        b.levels[0] = codec::Level { keys, children };
                    }
                    21 => {
                        let l = &mut b.levels[li];
                        if l.children.len() >= 4 {
                            let (j, k) = (cx.rng.below(l.children.len() / 2) * 2, cx.rng.below(l.children.len() / 2) * 2);
                            l.children.swap(j, k);
                            l.children.swap(j + 1, k + 1);
                        } else {
                            let n = l.keys.len().min(1);
                            l.keys.rotate_left(n);
                        }
                    }
                    22 => {
                        let l = &mut b.levels[li];
                        if l.keys.len() > 1 {
                            l.keys.pop();
                            let n = l.children.len().saturating_sub(2);
                            l.children.truncate(n);
                        }
                    }
                    // back to itself, to the nodes above it or to a later block
                    23 | 24 => {
                        let s = if cx.rng.pct(70) { i } else { cx.rng.range(i, blocks.len() - 1) } as u64;
                        let o = cx.rng.below(nl) as u64;
                        let l = &mut b.levels[li];
                        if l.children.len() >= 2 {
                            let j = cx.rng.below(l.children.len() / 2) * 2;
                            l.children[j] = s;
                            l.children[j + 1] = o;
                        } else {
                            l.children = (0..=l.keys.len()).flat_map(|_| [s, o]).collect();
                        }
                    }
                    12 => {
                        let (x, y) = (weird(cx), weird(cx));
                        b.levels[li] = codec::Level { keys: vec![], children: vec![x, y] };
                    }
                    _ => {
                        let l = &mut b.levels[li];
                        l.keys.reverse();
                    }
                }
            }
            return codec::encode_node(&codec::encode_index(&b.levels), &b.key, b.value.as_deref());
        }
    }
    cx.obs.add("byte damage", 1);
    let mut r = raw.clone();
    match cx.rng.below(9) {
        0 => r.clear(),
        1 => r.truncate(cx.rng.below(raw.len())),
        2 | 3 => {
            for _ in 0..cx.rng.range(1, 3) {
                let j = cx.rng.below(r.len());
                r[j] ^= 1 << cx.rng.below(8);
            }
        }
        4 => {
            let n = cx.rng.below(60);
            r = cx.rng.bytes(n);
        }
        5 => r = cx.rng.pick(blocks).clone(),
        6 => r = codec::encode_header(None),
        7 => {
            let n = cx.rng.range(1, 9);
            r.extend(cx.rng.bytes(n));
        }
        _ => {
            let j = cx.rng.below(r.len());
            r[j] = *cx.rng.pick(&[0u8, 0x7f, 0x80, 0xff]);
        }
    }
    r
}

/// A log whose nodes form a way down of any length, to the left, to the right or both ways.
fn tall_chain(cx: &mut Ctx) -> R {
    let depth = match cx.rng.below(10) {
        0..=3 => cx.rng.range(2, 30),
        4..=6 => cx.rng.range(31, 130),
        7 => cx.rng.range(131, 3000),
        8 => 20_000,
        _ => 60_000,
    };
    let how = cx.rng.below(3);
    let mut blocks = vec![codec::encode_header(None)];
    let (mut lo, mut hi) = (1u32 << 30, 1u32 << 30);
    let mut key = |left: bool| {
        let x = if left { &mut lo } else { &mut hi };
        *x = if left { *x - 1 } else { *x + 1 };
        format!("{x:010}").into_bytes()
    };
    // key, sequence number, value, level counted from the bottom
    let mut all: Vec<(Entry, usize)> = vec![];
    let leaf = |seq: u64| codec::Level { keys: vec![seq], children: vec![] };
    let put = |blocks: &mut Vec<Vec<u8>>, all: &mut Vec<(Entry, usize)>, key: Bytes, levels: &[codec::Level], at: usize| {
        let seq = blocks.len() as u64;
        let value = (seq % 3 != 0).then(|| seq.to_le_bytes()[..(seq % 7) as usize].to_vec());
        blocks.push(codec::encode_node(&codec::encode_index(levels), &key, value.as_deref()));
        all.push(((key, seq, value), at));
    };
    put(&mut blocks, &mut all, key(true), &[leaf(1)], 1);
    let mut lefts = 1;
    for at in 2..=depth {
        let grows_left = match how {
            0 => true,
            1 => false,
            _ => cx.rng.pct(50),
        };
        let below = blocks.len() as u64 - 1;
        let (parent, own) = if grows_left {
            let p = key(true);
            (p, key(true))
        } else {
            let p = key(false);
            (p, key(false))
        };
        // the way to the left of the tree, for its height
        lefts = if grows_left { 2 } else { lefts + 1 };
        let seq = below + 1;
        put(&mut blocks, &mut all, own, &[leaf(seq)], at - 1);
        let children = if grows_left { vec![seq + 1, 1, below, 0] } else { vec![below, 0, seq + 1, 1] };
        put(&mut blocks, &mut all, parent, &[codec::Level { keys: vec![seq + 1], children }, leaf(seq)], at);
    }
    cx.id(depth as u64);
    cx.id(cx.case);
    cx.t(|| format!("a log of {} blocks with {depth} levels ({how})", blocks.len()));
    cx.obs.add("logs with more or fewer levels", 1);
    cx.obs.max("levels of a log", depth as u64);
    cx.nontrivial();
    // what is at most this far from the root is as good as in any tree
    let sane = depth <= 30;
    let near = |at: usize| depth - at < 30;
    let mut sorted = all.clone();
    sorted.sort();
    let sick = CoreState::with_blocks(blocks.iter().cloned().map(Some).collect(), true);
    let budget = 60_000;
    let warm = bee(&sick);
    for j in 0..10 {
        let fresh = bee(&sick);
        let h = if j % 2 == 0 { &fresh } else { &warm };
        let n = if j < 4 { all.len().min(90) } else { all.len() };
        let ((k, seq, v), at) = if j == 9 { all[0].clone() } else { all[all.len() - 1 - cx.rng.below(n)].clone() };
        let g0 = sick.counters.gets.load(SeqCst);
        let r = exec::run_budget(h.get(&k), budget).map_err(|e| format!("get from a log with {depth} levels: {e}"))?;
        let gets = sick.counters.gets.load(SeqCst) - g0;
        cx.obs.add("reads of damaged logs", 1);
        match r {
            Ok(x) if x == Some((seq, v)) => (),
            Err(_) if !near(at) => cx.obs.add("reads that failed", 1),
            r => return Err(format!("get of a key on level {} of {depth} returned {:?}", depth - at, r.map_err(|e| err_chain(&e)))),
        }
        if gets > 1000 {
            return Err(format!("get from a log with {depth} levels asked for {gets} blocks"));
        }
    }
    for rev in [false, true] {
        let what = format!("a traversal (reverse: {rev}) of a log with {depth} levels");
        let fresh = bee(&sick);
        let (mut items, mut errors) = (vec![], 0);
        let opened = exec::run_budget(fresh.traverse(Cfg { rev, ..Cfg::all() }.make(false)?), budget).map_err(|e| format!("{what}: {e}"))?;
        match opened {
            Err(_) => errors += 1,
            Ok(s) => {
                let mut s = std::pin::pin!(s);
                while let Some(x) = exec::run_budget(s.next(), budget).map_err(|e| format!("{what}: {e}"))? {
                    match x {
                        Ok(x) => items.push((x.key, x.seq, x.value)),
                        Err(_) => errors += 1,
                    }
                    if items.len() + errors > 4 * sorted.len() {
                        return Err(format!("{what} does not end"));
                    }
                }
            }
        }
        if rev {
            items.reverse();
        }
        cx.obs.add("reads of damaged logs", 1);
        cx.obs.add("reads that failed", (errors > 0) as u64);
        if sane && errors > 0 {
            return Err(format!("{what} fails"));
        }
        // in order and only what is there, and all of it if there was no error
        let mut left = sorted.iter().map(|x| &x.0);
        if let Some(x) = items.iter().find(|x| !left.any(|y| y == *x)) {
            return Err(format!("{what} gave {x:02x?} out of turn or twice, or it is not there"));
        }
        if errors == 0 && items.len() != sorted.len() {
            return Err(format!("{what} gave {} of {} entries and no error", items.len(), sorted.len()));
        }
    }
    let r = exec::run_budget(warm.height(), budget).map_err(|e| format!("height of a log with {depth} levels: {e}"))?;
    if sane && !matches!(r, Ok(x) if x == lefts) || matches!(r, Ok(x) if x != lefts) {
        return Err(format!("height of a log with {depth} levels, {lefts} down its left side, gives {r:?}"));
    }
    let r = exec::run_budget(bee(&sick).print(), 40 * budget).map_err(|e| format!("print of a log with {depth} levels: {e}"))?;
    if sane && r.is_err() {
        return Err(format!("print of a log with {depth} levels fails: {r:?}"));
    }
    for j in 0..4 {
        let core = CoreState::with_blocks(blocks.iter().cloned().map(Some).collect(), true);
        let h = bee(&core);
        let k = match j {
            0 => vec![0],
            1 => vec![0xff],
            _ => all[cx.rng.below(all.len())].0 .0.clone(),
        };
        let op = if j == 3 || cx.rng.pct(20) { Op::Del(k.clone()) } else { Op::Put(k.clone(), Some(b"new".to_vec())) };
        let what = format!("{} to a log with {depth} levels", op.short());
        let r = exec::run_budget(perform(&H::Bee(&h), &op, &mut vec![]), budget).map_err(|e| format!("{what}: {e}"))?;
        cx.obs.add("writes to deep logs", 1);
        let now = core.blocks();
        let same = blocks.iter().zip(&now).all(|(a, b)| b.as_ref().is_some_and(|b| a[..] == b[..]));
        if !same || now.len() > blocks.len() + 1 {
            return Err(format!("{what} changed blocks or added {}", now.len() - blocks.len()));
        }
        match (&r, &op) {
            (Err(_), _) if now.len() > blocks.len() => return Err(format!("{what} failed and added a block")),
            (Err(e), Op::Put(..)) if sane => return Err(format!("{what} fails: {}", err_chain(e))),
            (Ok(_), Op::Put(..)) if sane => {
                let mut want: BTreeMap<_, _> = sorted.iter().map(|((k, s, v), _)| (k.clone(), (*s, v.clone()))).collect();
                want.insert(k, (blocks.len() as u64, Some(b"new".to_vec())));
                let want: Vec<Entry> = want.into_iter().map(|(k, (s, v))| (k, s, v)).collect();
                if let Some(d) = diff(&collect_ok(&H::Bee(&h), Default::default())?, &want) {
                    return Err(format!("after {what} a traversal gives {d}"));
                }
            }
            _ => (),
        }
    }
    Ok(())
}

fn c17(cx: &mut Ctx) -> R {
    if cx.case % 400 == 7 {
        return tall_chain(cx);
    }
    let kind = if cx.rng.pct(25) { 0 } else { cx.rng.below(KINDS) };
    let size = *cx.rng.pick(&[1, 5, 9, 10, 14, 30, 60, 60, 120]);
    let keys = universe(&mut cx.rng, kind, size);
    let ops = keys.len() * cx.rng.range(1, 2);
    let (core, _, model) = grown(cx, &keys, ops)?;
    let blocks: Vec<Vec<u8>> = core.blocks().into_iter().map(|b| b.unwrap().to_vec()).collect();
    if blocks.len() < 2 {
        return Ok(());
    }
    let all = model.entries();
    let mut hurt: BTreeMap<u64, Vec<u8>> = Default::default();
    for _ in 0..*cx.rng.pick(&[1usize, 1, 1, 2, 3]) {
        let i = match cx.rng.below(5) {
            0 | 1 => blocks.len() - 1,
            2 if cx.rng.pct(20) => 0,
            _ => cx.rng.below(blocks.len()),
        };
        let b = damage(cx, &blocks, i);
        hurt.insert(i as u64, b);
    }
    let mut raw = blocks.clone();
    for (i, b) in &hurt {
        raw[*i as usize] = b.clone();
    }
    for (i, b) in &hurt {
        cx.t(|| format!("block {i} damaged: {b:02x?} (was {:02x?})", blocks[*i as usize]));
        cx.id(*i);
        cx.id_bytes(b);
    }
    let nodes: Vec<_> = raw.iter().map(|b| lenient(b)).collect();
    let mut view = LogView::default();
    view.extend(&core.blocks()).map_err(|e| format!("HARNESS {e}"))?;
    let spared = |key: Option<&[u8]>| view.way(raw.len() as u64 - 1, key).iter().all(|i| !hurt.contains_key(i));
    // a single block that no decoder can read: whatever needs it must say so
    let sure = undecodable(&hurt, raw.len() as u64 - 1);
    let mut left = 20_000;
    let walk = walk_size(&nodes, (raw.len() as u64 - 1, 0), &mut vec![], &mut left);
    let endless = walk.is_none();
    cx.obs.add("logs with a way down that has no end", endless as u64);
    let size = walk.unwrap_or_else(|| endless_size(&nodes));
    let full = copy(&core);
    let sick = CoreState::with_blocks(raw.iter().cloned().map(Some).collect(), true);
    let hb = bee(&sick);
    let mut changed = false;
    let budget = 2000 + 400 * size;
    // gets
    let mut probes: Vec<Bytes> = all.iter().map(|e| e.0.clone()).collect();
    cx.rng.shuffle(&mut probes);
    probes.truncate(16);
    for _ in 0..3 {
        probes.push(cx.rng.pick(&keys).clone());
    }
    probes.push(vec![]);
    probes.push(vec![0xff; 9]);
    for (j, k) in probes.iter().enumerate() {
        let need = needed(&full, |h| exec::run(h.get(k)).map_err(stuck)?.map(|_| ()).map_err(|e| err_chain(&e)))?;
        let fresh;
        let h = if j % 2 == 0 {
            fresh = bee(&sick);
            &fresh
        } else {
            &hb
        };
        let g0 = sick.counters.gets.load(SeqCst);
        let r = exec::run_budget(h.get(k), budget).map_err(|e| format!("{} on a damaged log: {e}", Op::Get(k.clone()).short()))?;
        let gets = sick.counters.gets.load(SeqCst) - g0;
        cx.obs.add("reads of damaged logs", 1);
        if gets > 64 + 4 * size {
            return Err(format!("{} on a damaged log asked for {gets} blocks", Op::Get(k.clone()).short()));
        }
        let want = model.map.get(k).cloned();
        let ok = matches!(&r, Ok(x) if *x == want);
        if r.is_err() {
            cx.obs.add("reads that failed", 1);
        }
        changed |= !ok;
        if sure.is_some_and(|i| need.contains(&i)) {
            cx.obs.add("reads that had to fail", 1);
            if let Ok(x) = &r {
                return Err(format!("{} needs block {sure:?}, which cannot be decoded, but returned {x:02x?}", Op::Get(k.clone()).short()));
            }
        }
        if need.iter().all(|i| !hurt.contains_key(i)) || spared(Some(k)) {
            cx.obs.add("entries shown to be unaffected", 1);
            if !ok {
                return Err(format!(
                    "{} needs no more than blocks {:?}, none of which is damaged (damaged: {:?}), but returned {:02x?}",
                    Op::Get(k.clone()).short(),
                    view.way(raw.len() as u64 - 1, Some(k)),
                    hurt.keys().collect::<Vec<_>>(),
                    r.map_err(|e| err_chain(&e))
                ));
            }
        }
    }
    // traversals
    let pos = positions(&probes);
    for j in 0..5 {
        let c = match j {
            0 => Cfg::all(),
            1 => Cfg { rev: true, ..Cfg::all() },
            _ => any_cfg(&mut cx.rng, &pos),
        };
        if !c.valid() {
            continue;
        }
        let conf = c.make(false)?;
        let need = needed(&full, |h| collect_ok(&H::Bee(h), c.make(false)?).map(|_| ()))?;
        let fresh = bee(&sick);
        // sometimes a sub-tree in the middle of the damage; what it yields is not judged then
        if endless && j > 1 {
            // how much there is between two entries in a range then, nobody can say
            break;
        }
        let narrow = if j == 4 { let k = cx.rng.pick(&probes); k[..k.len().min(2)].to_vec() } else { vec![] };
        let sub = hb.sub(&narrow, PrefixedConfig { seperator: vec![] });
        let what = format!("a traversal ({c:?}, prefix {narrow:02x?}) of a damaged log");
        let opened = exec::run_budget(
            async {
                Ok::<BoxStream, hyperbee::HyperbeeError>(match j {
                    0 | 2 => Box::pin(fresh.traverse(conf).await?),
                    3 | 4 => Box::pin(sub.traverse(&conf).await?),
                    _ => Box::pin(hb.traverse(conf).await?),
                })
            },
            budget,
        )
        .map_err(|e| format!("{what}: {e}"))?;
        cx.obs.add("reads of damaged logs", 1);
        let unhurt = narrow.is_empty() && (need.iter().all(|i| !hurt.contains_key(i)) || spared(None));
        let must_fail = narrow.is_empty() && sure.is_some_and(|i| need.contains(&i));
        cx.obs.add("reads that had to fail", must_fail as u64);
        match opened {
            Err(e) => {
                cx.obs.add("reads that failed", 1);
                changed = true;
                if unhurt {
                    return Err(format!("{what} needs blocks {need:?}, none of which is damaged, but fails: {}", err_chain(&e)));
                }
            }
            Ok(mut s) => {
                let mut items = vec![];
                let mut errors = 0;
                let mut n = 0;
                while let Some(x) = exec::run_budget(s.next(), budget).map_err(|e| format!("{what}: {e}"))? {
                    n += 1;
                    match x {
                        Ok(x) => items.push((x.key, x.seq, x.value)),
                        Err(_) => errors += 1,
                    }
                    if endless && n > 2000 {
                        cx.obs.add("traversals without end, given up", 1);
                        errors += 1;
                        break;
                    }
                    if !endless && n > 4 * size + 64 {
                        return Err(format!("{what} does not end: {n} results ({errors} errors) from {size} keys and references"));
                    }
                }
                if errors > 0 {
                    cx.obs.add("reads that failed", 1);
                    changed = true;
                }
                if must_fail && errors == 0 {
                    return Err(format!("{what} needs block {sure:?}, which cannot be decoded, but gives {} entries and no error", items.len()));
                }
                if unhurt && (errors > 0 || items != c.pick(&all)) {
                    return Err(format!("{what} needs blocks {need:?}, none of which is damaged, but gives {errors} errors and {} entries", items.len()));
                }
            }
        }
    }
    // diagnostics
    for warm in [false, true] {
        let fresh = bee(&sick);
        let h = if warm { &hb } else { &fresh };
        let r = exec::run_budget(h.height(), budget).map_err(|e| format!("height of a damaged log: {e}"))?;
        let need = needed(&full, |h| exec::run(h.height()).map_err(stuck)?.map(|_| ()).map_err(|e| err_chain(&e)))?;
        cx.obs.add("diagnostics of damaged logs", 1);
        if sure.is_some_and(|i| need.contains(&i)) && r.is_ok() {
            return Err(format!("height needs block {sure:?}, which cannot be decoded, but returned {r:?}"));
        }
        if need.iter().all(|i| !hurt.contains_key(i)) || spared(None) {
            let want = exec::run(bee(&full).height()).map_err(stuck)?.map_err(|e| err_chain(&e))?;
            if !matches!(r, Ok(x) if x == want) {
                return Err(format!("height needs blocks {need:?}, none of which is damaged, but returned {r:?} instead of {want}"));
            }
        }
        if endless {
            continue;
        }
        let r = exec::run_budget(h.print(), budget * 20).map_err(|e| format!("print of a damaged log: {e}"))?;
        cx.obs.add("diagnostics that failed", r.is_err() as u64);
        if let (Ok(r), Some(i)) = (r, sure.filter(|i| *i == raw.len() as u64 - 1)) {
            return Err(format!("print needs block {i}, which cannot be decoded, but returned {r:?}"));
        }
    }
    if changed {
        cx.nontrivial();
    }
    Ok(())
}
