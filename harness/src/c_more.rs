//! C25 observation changes nothing, C26 writes to damaged logs.
use crate::c_conc::{copy, random_op};
use crate::c_fault::{damage, endless_size, lenient, needed, undecodable, walk_size};
use crate::c_range::*;
use crate::case::*;
use crate::codec;
use crate::exec::{self, Sched};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::shape::LogView;
use hyperbee::prefixed::PrefixedConfig;
use hyperbee::Hyperbee;
use hypercore::standin::{CoreState, Decision, Verdict as V};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

pub const CHECKS: &[&Check] = &[&C25, &C26];

const ASSUME: &[&str] = &["hypercore, replicator, derive_builder and futures-lite are stand-ins (see DESIGN.md)"];

// ---------------------------------------------------------------- C25

static C25: Check = Check {
    id: "C25",
    level: "exploration",
    rule: "a case runs one seeded plan of operations, traversals, sub-tree operations and storage failures twice, silently and with every log record and span collected and formatted and all handles formatted with {:?} and {:#?}, and compares all results and the log; then concurrent clients on suspending storage beside a task that formats the handles at every turn; non-trivial if records were collected while the tree had two levels or more; counted by the hash of the plan",
    quick: 500,
    thorough: 15000,
    run: c25,
    require: &[("log records formatted", 100000), ("spans formatted", 200000), ("handles formatted", 10000), ("results compared", 15000), ("concurrent operations under logging", 1500)],
    assumptions: ASSUME,
};

/// Collects everything that is logged, and formats it at once, as a log writer would.
struct Collector {
    level: tracing::Level,
    spans: Arc<AtomicU64>,
    events: Arc<AtomicU64>,
    bytes: Arc<AtomicU64>,
}
struct Format<'a>(&'a AtomicU64, bool);
impl tracing::field::Visit for Format<'_> {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        let s = if self.1 { format!("{}={v:#?}", f.name()) } else { format!("{}={v:?}", f.name()) };
        self.0.fetch_add(s.len() as u64, SeqCst);
    }
}
impl tracing::Subscriber for Collector {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.level() <= &self.level
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        let n = self.spans.fetch_add(1, SeqCst);
        a.record(&mut Format(&self.bytes, n % 2 == 0));
        tracing::span::Id::from_u64(n + 1)
    }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
        r.record(&mut Format(&self.bytes, false));
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let n = self.events.fetch_add(1, SeqCst);
        e.record(&mut Format(&self.bytes, n % 2 == 0));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

/// Formats a handle into a sink that counts (and refuses to grow without end).
struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        if self.0 > 64 << 20 {
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}
fn show_it(x: &impl std::fmt::Debug, alternate: bool) -> R {
    let mut s = Sink(0);
    let r = if alternate { write!(s, "{x:#?}") } else { write!(s, "{x:?}") };
    r.map_err(|_| format!("formatting a handle gives more than {} bytes, or fails", s.0))
}

enum Turn {
    Op(Op, bool),
    Walk(Cfg, bool),
    Version,
    Height,
    /// all storage reads fail during this operation
    Failing(Op),
    Reopen,
}

fn turns(cx: &mut Ctx, keys: &[Bytes], n: usize) -> Vec<Turn> {
    let ph = phases(&mut cx.rng, n, 15);
    let mut hist = History::new(keys.to_vec(), ph);
    let pos = positions(&keys[..keys.len().min(40)]);
    let mut out = vec![];
    while let Some(op) = hist.next(&mut cx.rng) {
        match cx.rng.below(24) {
            0 | 1 => {
                let c = any_cfg(&mut cx.rng, &pos);
                if c.valid() {
                    let sub = cx.rng.pct(25);
                    out.push(Turn::Walk(c, sub));
                }
            }
            2 => out.push(Turn::Version),
            3 => out.push(Turn::Height),
            4 => out.push(Turn::Failing(op.clone())),
            5 if cx.rng.pct(30) => out.push(Turn::Reopen),
            _ => (),
        }
        let sub = cx.rng.pct(20);
        out.push(Turn::Op(op, sub));
    }
    out
}

/// Runs the plan; every result as text, and the handles formatted in between if `loud`.
fn play(plan: &[Turn], seed: u64, pct: u32, loud: bool, shown: &mut u64) -> Result<(Vec<String>, Arc<CoreState>), String> {
    let core = CoreState::in_memory(true, [7; 32]);
    let mut hb = bee(&core);
    let mut sub = hb.sub(b"s", PrefixedConfig { seperator: vec![] });
    let mut out = vec![];
    for (i, t) in plan.iter().enumerate() {
        suspending(&core, seed ^ i as u64, pct);
        if loud && i % 4 == 0 {
            show_it(&hb, i % 8 == 0)?;
            show_it(&sub, i % 8 == 0)?;
            *shown += 2;
        }
        let h = |s: bool| if s { H::Sub(&sub) } else { H::Bee(&hb) };
        match t {
            Turn::Op(op, s) => {
                let mut seen = vec![];
                let r = exec::run(perform(&h(*s), op, &mut seen)).map_err(stuck)?;
                out.push(format!("{:?} {seen:?}", r.map_err(|e| err_chain(&e))));
            }
            Turn::Walk(c, s) => {
                let r = exec::run(collect(&h(*s), c.make(false)?)).map_err(stuck)?;
                out.push(format!("{:?}", r.map_err(|e| err_chain(&e))));
            }
            Turn::Version => out.push(format!("{}", exec::run(hb.version()).map_err(stuck)?)),
            Turn::Height => out.push(format!("{:?}", exec::run(hb.height()).map_err(stuck)?.map_err(|e| err_chain(&e)))),
            Turn::Failing(op) => {
                // on a cold handle, so that something is read
                let cold = bee(&core);
                core.set_policy(Some(Box::new(|op| {
                    let verdict = if matches!(op, hypercore::standin::OpKind::Get(_)) { V::ErrBefore } else { V::Normal };
                    Decision { verdict, ..Decision::NORMAL }
                })));
                let mut seen = vec![];
                let r = exec::run(perform(&H::Bee(&cold), op, &mut seen)).map_err(stuck)?;
                out.push(format!("{:?}", r.map_err(|e| err_chain(&e))));
            }
            Turn::Reopen => {
                hb = bee(&core);
                sub = hb.sub(b"s", PrefixedConfig { seperator: vec![] });
            }
        }
    }
    core.set_policy(None);
    Ok((out, core))
}

fn c25(cx: &mut Ctx) -> R {
    let keys = any_universe(&mut cx.rng, &[1, 5, 9, 14, 30, 60, 140]);
    let n = (keys.len() * cx.rng.range(1, 3)).max(12);
    let plan = turns(cx, &keys, n);
    for t in &plan {
        if let Turn::Op(op, s) = t {
            cx.id_bytes(op.short().as_bytes());
            cx.t(|| format!("{} (through the sub-tree: {s})", op.short()));
        }
    }
    let seed = cx.rng.u64();
    let pct = *cx.rng.pick(&[0u32, 20, 80]);
    let mut shown = 0;
    let (quiet, core_q) = play(&plan, seed, pct, false, &mut 0)?;
    let level = *cx.rng.pick(&[tracing::Level::TRACE, tracing::Level::TRACE, tracing::Level::DEBUG, tracing::Level::INFO]);
    let (spans, events, bytes) = <(Arc<AtomicU64>, Arc<AtomicU64>, Arc<AtomicU64>)>::default();
    let collector = || Collector { level, spans: spans.clone(), events: events.clone(), bytes: bytes.clone() };
    let (loud, core_l) = tracing::subscriber::with_default(collector(), || play(&plan, seed, pct, true, &mut shown))
        .map_err(|e| format!("with logging on ({level}): {e}"))?;
    cx.obs.add("results compared", quiet.len() as u64);
    if let Some(i) = (0..quiet.len().max(loud.len())).find(|i| quiet.get(*i) != loud.get(*i)) {
        return Err(format!("result {i} with logging on ({level}) is {:?}, without {:?}", loud.get(i), quiet.get(i)));
    }
    if core_q.blocks() != core_l.blocks() {
        return Err(format!("the log written with logging on ({level}) differs"));
    }
    if core_l.len() > 10 && events.load(SeqCst) > 0 {
        cx.nontrivial();
    }
    // concurrently, and formatted at every turn
    let hb: Hyperbee = bee(&core_l);
    let sub = hb.sub(b"", PrefixedConfig { seperator: vec![] });
    let model = {
        let mut v = LogView::default();
        v.extend(&core_l.blocks())?;
        let map = if core_l.len() > 1 { v.tree(core_l.len() - 1)?.entries.into_iter().map(|(k, s, v)| (k, (s, v))).collect() } else { Default::default() };
        Model { map, len: core_l.len() }
    };
    let pct = *cx.rng.pick(&[30u32, 100]);
    suspending(&core_l, cx.rng.u64(), pct);
    let clients = cx.rng.range(1, 4);
    let mut plans = vec![];
    for _ in 0..clients {
        let ops: Vec<Op> = (0..cx.rng.range(1, 5)).map(|_| random_op(cx, &keys, &model)).collect();
        plans.push((ops, cx.rng.pct(40)));
    }
    let bad: std::cell::RefCell<Option<String>> = Default::default();
    let left = std::cell::Cell::new(clients);
    let done = std::cell::Cell::new(0u64);
    let count = std::cell::Cell::new(0u64);
    let sticky = *cx.rng.pick(&[0, 40]);
    let r = tracing::subscriber::with_default(collector(), || {
        let mut sched = Sched { sticky, ..Default::default() };
        for (i, (ops, walk)) in plans.iter().enumerate() {
            let (bad, left, done, hb, sub) = (&bad, &left, &done, &hb, &sub);
            sched.spawn(async move {
                let h = if i % 2 == 0 { H::Bee(hb) } else { H::Sub(sub) };
                for op in ops {
                    if let Err(e) = perform(&h, op, &mut vec![]).await {
                        *bad.borrow_mut() = Some(format!("{}: {}", op.short(), err_chain(&e)));
                    }
                    done.set(done.get() + 1);
                }
                if *walk {
                    if let Err(e) = collect(&h, Default::default()).await {
                        *bad.borrow_mut() = Some(format!("traverse: {}", err_chain(&e)));
                    }
                }
                left.set(left.get() - 1);
            });
        }
        let (left, bad, count, hb, sub) = (&left, &bad, &count, &hb, &sub);
        sched.spawn(async move {
            while left.get() > 0 {
                let n = count.get();
                if n % 5 != 0 {
                    count.set(n + 1);
                    tokio_yield().await;
                    continue;
                }
                if let Err(e) = show_it(hb, n % 10 == 0).and_then(|_| show_it(sub, n % 10 == 5)) {
                    *bad.borrow_mut() = Some(e);
                    return;
                }
                count.set(n + 1);
                tokio_yield().await;
            }
        });
        let mut r = Rng::new(seed);
        sched.run(&mut r, 2_000_000).map_err(|e| format!("{} of {clients} clients never finish: {e}", sched.unfinished()))
    });
    core_l.set_policy(None);
    r.map_err(|e| format!("with logging on ({level}): {e}"))?;
    if let Some(e) = bad.into_inner() {
        return Err(format!("with logging on ({level}), concurrently: {e}"));
    }
    cx.obs.add("concurrent operations under logging", done.get());
    cx.obs.add("handles formatted", shown + 2 * count.get() / 5);
    cx.obs.add("log records formatted", events.load(SeqCst));
    cx.obs.add("spans formatted", spans.load(SeqCst));
    cx.obs.add("bytes of log text", bytes.load(SeqCst));
    let mut v = LogView::default();
    v.extend(&core_l.blocks())?;
    let want = if core_l.len() > 1 { v.tree(core_l.len() - 1)?.entries } else { vec![] };
    if let Some(d) = diff(&collect_ok(&H::Bee(&hb), Default::default())?, &want) {
        return Err(format!("after concurrent operations under logging a traversal gives {d}"));
    }
    Ok(())
}

async fn tokio_yield() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            return std::task::Poll::Pending;
        }
        std::task::Poll::Ready(())
    })
    .await
}

// ---------------------------------------------------------------- C26

static C26: Check = Check {
    id: "C26",
    level: "exploration",
    rule: "a case is a log with one to three damaged blocks (as in C17) and puts, deletes and conditional ones on copies of it, through cold and warm handles: no panic, no endless work, a failed one appends nothing, a successful one appends exactly its own readable block, and one that needs no damaged block has exactly the effect it has on the undamaged log; non-trivial if an operation failed or reported something else than on the undamaged log; counted by the hash of the damaged blocks",
    quick: 40000,
    thorough: 1000000,
    run: c26,
    require: &[("writes to damaged logs", 150000), ("writes that failed", 20000), ("writes shown to be unaffected", 30000), ("writes that rebalanced or split", 2500), ("writes that had to fail", 20000), ("logs with a way down that has no end", 200)],
    assumptions: ASSUME,
};

fn c26(cx: &mut Ctx) -> R {
    let keys = any_universe(&mut cx.rng, &[1, 5, 9, 10, 14, 30, 60, 100]);
    let ops = keys.len() * cx.rng.range(1, 3);
    let (core, _, model) = grown(cx, &keys, ops)?;
    let blocks: Vec<Vec<u8>> = core.blocks().into_iter().map(|b| b.unwrap().to_vec()).collect();
    if blocks.len() < 2 {
        return Ok(());
    }
    let mut hurt: BTreeMap<u64, Vec<u8>> = Default::default();
    for _ in 0..*cx.rng.pick(&[1usize, 1, 1, 2, 3]) {
        let i = match cx.rng.below(6) {
            0 | 1 => blocks.len() - 1,
            2 if cx.rng.pct(20) => 0,
            _ => cx.rng.below(blocks.len()),
        };
        let b = damage(cx, &blocks, i);
        hurt.insert(i as u64, b);
    }
    let mut raw = blocks.clone();
    for (i, b) in &hurt {
        raw[*i as usize] = b.clone();
        cx.t(|| format!("block {i} damaged: {b:02x?} (was {:02x?})", blocks[*i as usize]));
        cx.id(*i);
        cx.id_bytes(b);
    }
    let nodes: Vec<_> = raw.iter().map(|b| lenient(b)).collect();
    let mut view = LogView::default();
    view.extend(&core.blocks()).map_err(|e| format!("HARNESS {e}"))?;
    let spared = |key: Option<&[u8]>| view.way(raw.len() as u64 - 1, key).iter().all(|i| !hurt.contains_key(i));
    let mut left = 20_000;
    let walk = walk_size(&nodes, (raw.len() as u64 - 1, 0), &mut vec![], &mut left);
    let endless = walk.is_none();
    cx.obs.add("logs with a way down that has no end", endless as u64);
    let size = walk.unwrap_or_else(|| endless_size(&nodes));
    let budget = 4000 + 400 * size;
    let mut changed = false;
    for _ in 0..10 {
        let op = match random_op(cx, &keys, &model) {
            Op::Get(k) => Op::Del(k),
            op => op,
        };
        // on the undamaged log: which blocks it needs, and what it does
        let full = copy(&core);
        let mut m = model.clone();
        let before = full.len();
        let need = needed(&full, |h| step(&H::Bee(h), &mut m, &op).map(|_| ()))?;
        step(&H::Bee(&bee(&full)), &mut model.clone(), &op)?;
        let (want, _) = model.clone().apply(&op);
        let sick = CoreState::with_blocks(raw.iter().cloned().map(Some).collect(), true);
        let hb = bee(&sick);
        if !endless && cx.rng.pct(30) {
            // warm, as far as that goes
            let _ = exec::run_budget(collect(&H::Bee(&hb), Default::default()), 50 * budget);
        }
        let what = format!("{} on a damaged log", op.short());
        cx.t(|| what.clone());
        let g0 = sick.counters.gets.load(SeqCst);
        let mut seen = vec![];
        let r = exec::run_budget(perform(&H::Bee(&hb), &op, &mut seen), budget).map_err(|e| format!("{what}: {e}"))?;
        let gets = sick.counters.gets.load(SeqCst) - g0;
        cx.obs.add("writes to damaged logs", 1);
        if gets > 64 + 6 * size {
            return Err(format!("{what} asked for {gets} blocks"));
        }
        let now = sick.blocks();
        for (i, b) in raw.iter().enumerate() {
            if now.get(i).and_then(|b| b.as_ref()).map(|b| &b[..]) != Some(&b[..]) {
                return Err(format!("{what} changed block {i}"));
            }
        }
        let new = &now[raw.len()..];
        let wrote = match &r {
            Err(_) => {
                cx.obs.add("writes that failed", 1);
                false
            }
            Ok(Out::Put(_, s)) => s.is_some(),
            Ok(Out::Del(d)) => matches!(d, Some((true, _))),
            Ok(Out::Got(_)) => false,
        };
        if new.len() != wrote as usize {
            return Err(format!("{what} returned {:?} and appended {} blocks", r.as_ref().map(show).map_err(|e| err_chain(e)), new.len()));
        }
        if let (Ok(Out::Put(_, Some(s))), n) = (&r, before) {
            if *s != n {
                return Err(format!("{what} reports sequence number {s} for block {n}"));
            }
        }
        if wrote {
            let b = codec::decode_block(new[0].as_ref().ok_or("HARNESS")?).ok_or_else(|| format!("{what} appended a block that does not decode"))?;
            cx.obs.add("writes that rebalanced or split", (b.levels.len() > 2) as u64);
            let value = match &op {
                Op::Put(_, v) | Op::CasPut(_, v, _) => v.clone(),
                _ => None,
            };
            if &b.key != op.key() || b.value != value {
                return Err(format!("{what} appended a block for key {:02x?} and value {:02x?}", b.key, b.value));
            }
        }
        let ok = matches!(&r, Ok(x) if *x == want);
        changed |= !ok;
        if let Some(i) = undecodable(&hurt, raw.len() as u64 - 1).filter(|i| need.contains(i)) {
            cx.obs.add("writes that had to fail", 1);
            if let Ok(x) = &r {
                return Err(format!("{what} needs block {i}, which cannot be decoded, but returned {}", show(x)));
            }
        }
        // a delete may need the siblings of what is on its way
        let way = if matches!(op, Op::Del(_) | Op::CasDel(..)) { None } else { Some(&op.key()[..]) };
        if need.iter().all(|i| !hurt.contains_key(i)) || spared(way) {
            cx.obs.add("writes shown to be unaffected", 1);
            if !ok {
                return Err(format!(
                    "{what} needs blocks {need:?}, none of which is damaged (damaged: {:?}), but returned {:?} instead of {}",
                    hurt.keys().collect::<Vec<_>>(),
                    r.as_ref().map(show).map_err(|e| err_chain(e)),
                    show(&want)
                ));
            }
            if new != &full.blocks()[raw.len()..] {
                return Err(format!("{what} needs no damaged block, but appended something else than on the undamaged log"));
            }
        }
        // the handle is still of use: an entry the damage does not affect is found
        for _ in 0..3 {
            let k = cx.rng.pick(&keys).clone();
            if &k == op.key() || wrote {
                continue;
            }
            let need = needed(&copy(&core), |h| exec::run(h.get(&k)).map_err(stuck)?.map(|_| ()).map_err(|e| err_chain(&e)))?;
            let got = exec::run_budget(hb.get(&k), budget).map_err(|e| format!("after {what}: get: {e}"))?;
            if (need.iter().all(|i| !hurt.contains_key(i)) || spared(Some(&k))) && !matches!(&got, Ok(x) if *x == model.map.get(&k).cloned()) {
                return Err(format!("after {what}: {} needs no damaged block but returned {:02x?}", Op::Get(k).short(), got.map_err(|e| err_chain(&e))));
            }
        }
        // and another write neither panics nor hangs
        let op2 = random_op(cx, &keys, &model);
        if !wrote {
            let _ = exec::run_budget(perform(&H::Bee(&hb), &op2, &mut vec![]), budget).map_err(|e| format!("{what}, then {}: {e}", op2.short()))?;
        }
    }
    if changed {
        cx.nontrivial();
    }
    Ok(())
}
