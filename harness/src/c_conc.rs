//! C12 linearizability, C14 cancellation, C18 progress and bounded work.
use crate::c_range::*;
use crate::case::*;
use crate::codec;
use crate::exec::{self, Sched, Stuck};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::shape::LogView;
use futures_lite::StreamExt;
use hyperbee::prefixed::Prefixed;
use hyperbee::traverse::TraverseConfig;
use hyperbee::Hyperbee;
use hypercore::standin::{CoreState, Decision, OpKind, Verdict as V};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub const CHECKS: &[&Check] = &[&C12, &C14, &C18];

// ---------------------------------------------------------------- C12

/// One recorded operation: what was called, by whom, when, and what it returned.
#[derive(Clone, Debug)]
pub struct Event {
    pub who: String,
    pub what: What,
    pub call: u64,
    pub ret: u64,
    pub res: Res,
}
#[derive(Clone, Debug)]
pub enum What {
    /// with the full key
    Op(Op),
    /// entries with this prefix
    Traverse(Bytes),
    Version,
    Header,
}
#[derive(Clone, Debug)]
pub enum Res {
    Out(Out, Vec<Seen>),
    /// call and return of the opening, entries
    Items(Vec<Entry>),
    Version(u64),
    /// created
    Header(bool),
    Failed(String),
}
impl Event {
    fn short(&self) -> String {
        let w = match &self.what {
            What::Op(o) => o.short(),
            What::Traverse(p) => format!("traverse {p:02x?}"),
            What::Version => "version".into(),
            What::Header => "create_header".into(),
        };
        format!("{} {w} [{}, {}]", self.who, self.call, self.ret)
    }
}

/// Explains a concurrent history by the log it left, or says why that is impossible.
/// Returns (mutations, reads).
pub fn explain(blocks: &[Option<Arc<Vec<u8>>>], events: &[Event], start: &Model) -> Result<(u64, u64), String> {
    for e in events {
        if let Res::Failed(m) = &e.res {
            return Err(format!("{}: {m}", e.short()));
        }
    }
    // the map after each block, from the trees in the log
    let first = start.len as usize;
    if blocks.is_empty() {
        if events.iter().any(|e| matches!(&e.res, Res::Out(Out::Put(_, Some(_)), _))) {
            return Err("a put was acknowledged but the log is empty".into());
        }
    } else {
        let h = blocks[0].as_ref().ok_or("HARNESS no block 0")?;
        if start.len == 0 && **h != codec::encode_header(None) {
            return Err(format!("block 0 is not the header: {h:02x?}"));
        }
    }
    let mut view = LogView::default();
    view.extend(blocks)?;
    type Map = BTreeMap<Bytes, (u64, Option<Bytes>)>;
    // states[i]: after the first i blocks
    let mut states: Vec<Arc<Map>> = vec![Arc::new(start.map.clone()); first.max(1) + 1];
    // entry seq -> block that removed it
    let mut removed: HashMap<u64, (usize, Bytes)> = HashMap::new();
    for i in first.max(1)..blocks.len() {
        let t = view.tree(i as u64).map_err(|e| format!("tree of version {}: {e}", i + 1))?;
        let now: Map = t.entries.into_iter().map(|(k, s, v)| (k, (s, v))).collect();
        let before = states[i].clone();
        let b = view.blocks[i].as_ref().unwrap();
        let mut want = (*before).clone();
        if now.get(&b.key).is_some_and(|(s, _)| *s == i as u64) {
            want.insert(b.key.clone(), (i as u64, b.value.clone()));
        } else {
            match want.remove(&b.key) {
                None => return Err(format!("block {i} neither stores nor removes its key {:02x?}", b.key)),
                Some((s, _)) => {
                    removed.insert(s, (i, b.key.clone()));
                }
            }
        }
        if now != want {
            let lost: Vec<_> = want.iter().filter(|(k, v)| now.get(*k) != Some(v)).take(3).collect();
            let extra: Vec<_> = now.iter().filter(|(k, v)| want.get(*k) != Some(v)).take(3).collect();
            return Err(format!(
                "the tree of block {i} is not the one before it plus its change: missing {lost:02x?}, unexpected {extra:02x?}"
            ));
        }
        states.push(Arc::new(now));
    }
    let state = |len: u64| &states[(len as usize).min(states.len() - 1)];
    // claim a block for each mutation
    let mut owner: HashMap<usize, usize> = HashMap::new();
    let mut block_of: Vec<Option<usize>> = vec![None; events.len()];
    for (n, e) in events.iter().enumerate() {
        let b = match (&e.what, &e.res) {
            (What::Op(op), Res::Out(out, seen)) => match out {
                Out::Put(old, Some(new)) => {
                    let i = *new as usize;
                    if i < first.max(1) || i >= blocks.len() {
                        return Err(format!("{}: reports block {i}, which does not exist", e.short()));
                    }
                    let blk = view.blocks[i].as_ref().unwrap();
                    let v = match op {
                        Op::Put(_, v) | Op::CasPut(_, v, true) => v,
                        _ => return Err(format!("{}: wrote although its predicate refused", e.short())),
                    };
                    if &blk.key != op.key() || &blk.value != v || !state(new + 1).get(op.key()).is_some_and(|x| x.0 == *new) {
                        return Err(format!("{}: block {i}, which it reports, holds something else", e.short()));
                    }
                    let was = state(*new).get(op.key());
                    if was.map(|x| x.0) != *old {
                        return Err(format!(
                            "{}: reports {old:?} as replaced, but before block {i} the entry was {:?}",
                            e.short(),
                            was.map(|x| x.0)
                        ));
                    }
                    if matches!(op, Op::CasPut(..)) {
                        let old = was.map(|(s, v)| (op.key().clone(), *s, v.clone()));
                        let new = (op.key().clone(), *new, v.clone());
                        if seen != &vec![(old, Some(new))] {
                            return Err(format!("{}: its predicate saw {seen:02x?}, not the state right before block {i}", e.short()));
                        }
                    }
                    Some(i)
                }
                Out::Del(Some((true, old))) => {
                    if matches!(op, Op::CasDel(_, false)) {
                        return Err(format!("{}: deleted although its predicate refused", e.short()));
                    }
                    match removed.get(old) {
                        Some((i, k)) if k == op.key() => {
                            if matches!(op, Op::CasDel(..)) {
                                let was = state(*i as u64).get(op.key()).map(|(s, v)| (op.key().clone(), *s, v.clone()));
                                if seen != &vec![(was, None)] {
                                    return Err(format!("{}: its predicate saw {seen:02x?}, not the state right before block {i}", e.short()));
                                }
                            }
                            Some(*i)
                        }
                        _ => return Err(format!("{}: no block removes entry {old}", e.short())),
                    }
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(i) = b {
            if let Some(o) = owner.insert(i, n) {
                return Err(format!("{} and {} both claim block {i}", events[o].short(), e.short()));
            }
            block_of[n] = b;
        }
    }
    for i in first.max(1)..blocks.len() {
        if !owner.contains_key(&i) {
            return Err(format!("no operation accounts for block {i}"));
        }
    }
    let headers = events.iter().filter(|e| matches!(e.res, Res::Header(true))).count();
    if headers > 1 || headers == 1 && start.len > 0 {
        return Err(format!("{headers} create_header calls succeeded on a log of {} blocks", start.len));
    }
    // order of writes in real time
    let mut writes: Vec<(usize, usize)> = block_of.iter().enumerate().filter_map(|(n, b)| b.map(|b| (b, n))).collect();
    writes.sort();
    let mut latest_call = 0;
    for (b, n) in &writes {
        let e = &events[*n];
        if e.ret < latest_call {
            return Err(format!("{} returned before a write that has an earlier block than its block {b} was called", e.short()));
        }
        latest_call = latest_call.max(e.call);
    }
    // reads: a version for each, consistent with real time
    let mut order: Vec<usize> = (0..events.len()).filter(|n| block_of[*n].is_none()).collect();
    order.sort_by_key(|n| events[*n].call);
    let mut done: Vec<(u64, u64)> = vec![];
    let mut reads = 0;
    let top = blocks.len().max(1) as u64;
    for n in order {
        let e = &events[n];
        // a read of version v sees the first v blocks
        let mut lo = first.max(1) as u64;
        let mut hi = top;
        for (b, w) in &writes {
            if events[*w].ret < e.call {
                lo = lo.max(*b as u64 + 1);
            }
            if events[*w].call > e.ret {
                hi = hi.min(*b as u64);
            }
        }
        for (ret, v) in &done {
            if *ret < e.call {
                lo = lo.max(*v);
            }
        }
        let fits = |v: u64| -> bool {
            let s = state(v);
            match (&e.what, &e.res) {
                (What::Op(op), Res::Out(out, seen)) => {
                    let cur = s.get(op.key());
                    let entry = cur.map(|(s, v)| (op.key().clone(), *s, v.clone()));
                    match (op, out) {
                        (Op::Get(_), Out::Got(x)) => x.as_ref() == cur,
                        (Op::CasPut(k, val, false), Out::Put(old, None)) => {
                            *old == cur.map(|x| x.0)
                                && seen == &vec![(entry, Some((k.clone(), v.max(1), val.clone())))]
                        }
                        (Op::CasDel(_, false), Out::Del(Some((false, s)))) => {
                            cur.is_some_and(|x| x.0 == *s) && seen == &vec![(entry, None)]
                        }
                        (Op::CasDel(..), Out::Del(None)) => cur.is_none() && seen.is_empty(),
                        (Op::Del(_), Out::Del(None)) => cur.is_none(),
                        _ => false,
                    }
                }
                (What::Traverse(p), Res::Items(items)) => {
                    let want: Vec<Entry> = s
                        .iter()
                        .filter(|(k, _)| k.starts_with(p))
                        .map(|(k, (s, v))| (k[p.len()..].to_vec(), *s, v.clone()))
                        .collect();
                    *items == want
                }
                // an empty log has version 0, one with a header 1; `states` has no difference between them
                (What::Version, Res::Version(x)) => *x == v || v == 1 && *x == 0 && start.len == 0,
                (What::Header, Res::Header(_)) => true,
                _ => false,
            }
        };
        match (lo..=hi).find(|v| fits(*v)) {
            Some(v) => done.push((e.ret, v)),
            None => {
                return Err(format!(
                    "{} returned {}, which no version from {lo} to {hi} explains (seen by predicates: {:02x?})",
                    e.short(),
                    match &e.res {
                        Res::Out(o, _) => show(o),
                        r => format!("{r:?}").chars().take(300).collect(),
                    },
                    match &e.res {
                        Res::Out(_, s) => s.clone(),
                        _ => vec![],
                    }
                ))
            }
        }
        reads += 1;
    }
    Ok((writes.len() as u64, reads))
}

struct Shared {
    hb: Hyperbee,
    subs: Vec<(Prefixed, Bytes)>,
    clock: AtomicU64,
    events: Mutex<Vec<Event>>,
}
impl Shared {
    fn now(&self) -> u64 {
        self.clock.fetch_add(1, SeqCst)
    }
    fn handle(&self, i: usize) -> (H<'_>, Bytes) {
        let i = i % (self.subs.len() + 1);
        if i == 0 {
            (H::Bee(&self.hb), vec![])
        } else {
            (H::Sub(&self.subs[i - 1].0), self.subs[i - 1].1.clone())
        }
    }
    fn record(&self, who: &str, what: What, call: u64, ret: Option<u64>, res: Res) {
        let ret = ret.unwrap_or_else(|| self.now());
        self.events.lock().unwrap().push(Event { who: who.to_string(), what, call, ret, res });
    }
    /// Everything but traversals, whose futures cannot move between threads.
    async fn one(&self, who: &str, i: usize, what: What) {
        let (h, prefix) = self.handle(i);
        let call = self.now();
        let (what, res) = match what {
            What::Op(op) => {
                let mut seen = vec![];
                let r = perform(&h, &op, &mut seen).await;
                let full = match op {
                    Op::Put(k, v) => Op::Put([&prefix[..], &k].concat(), v),
                    Op::Del(k) => Op::Del([&prefix[..], &k].concat()),
                    Op::Get(k) => Op::Get([&prefix[..], &k].concat()),
                    Op::CasPut(k, v, y) => Op::CasPut([&prefix[..], &k].concat(), v, y),
                    Op::CasDel(k, y) => Op::CasDel([&prefix[..], &k].concat(), y),
                };
                let res = match r {
                    Ok(o) => Res::Out(o, seen),
                    Err(e) => Res::Failed(err_chain(&e)),
                };
                (What::Op(full), res)
            }
            What::Version => (What::Version, Res::Version(self.hb.version().await)),
            What::Header => {
                let res = match self.hb.create_header(None).await {
                    Ok(_) => Res::Header(true),
                    Err(hyperbee::HyperbeeError::HeaderAlreadyExists) => Res::Header(false),
                    Err(e) => Res::Failed(err_chain(&e)),
                };
                (What::Header, res)
            }
            What::Traverse(_) => return,
        };
        self.record(who, what, call, None, res);
    }
    async fn walk(&self, who: &str, i: usize) {
        let (h, prefix) = self.handle(i);
        let call = self.now();
        // the version is fixed once the traversal is open
        let mut ret = None;
        let mut items = vec![];
        let mut failed = None;
        macro_rules! drain {
            ($s:expr) => {
                match $s {
                    Err(hyperbee::HyperbeeError::NoRootError) => ret = Some(self.now()),
                    Err(e) => failed = Some(err_chain(&e)),
                    Ok(s) => {
                        ret = Some(self.now());
                        let mut s = std::pin::pin!(s);
                        while let Some(x) = s.next().await {
                            match x {
                                Ok(x) => items.push((x.key, x.seq, x.value)),
                                Err(e) => failed = Some(err_chain(&e)),
                            }
                        }
                    }
                }
            };
        }
        match h {
            H::Bee(b) => drain!(b.traverse(TraverseConfig::default()).await),
            H::Sub(s) => drain!(s.traverse(&TraverseConfig::default()).await),
        }
        let res = match failed {
            Some(e) => Res::Failed(e),
            None => Res::Items(items),
        };
        self.record(who, What::Traverse(prefix), call, ret, res);
    }
    async fn client(self: Arc<Self>, name: String, plan: Vec<(usize, What)>) {
        for (i, what) in plan {
            match what {
                What::Traverse(_) => self.walk(&name, i).await,
                w => self.one(&name, i, w).await,
            }
        }
    }
    async fn thread_client(self: Arc<Self>, name: String, plan: Vec<(usize, What)>) {
        for (i, what) in plan {
            self.one(&name, i, what).await;
        }
    }
}

static C12: Check = Check {
    id: "C12",
    level: "exploration",
    rule: "a case is two to six clients with seeded plans on one tree and its sub-trees, interleaved at every suspension by a seeded scheduler (one case in 12: on threads of a tokio runtime); call and return events are explained against the log by an offline checker (writes by the blocks they own, reads by a version, in real-time order); non-trivial if writes of different clients overlapped; counted by the hash of the schedule and events",
    quick: 48000,
    thorough: 2000000,
    run: c12,
    require: &[("mutations explained", 200000), ("reads explained", 200000), ("threaded histories", 3000), ("overlapping writes", 100000)],
    assumptions: &["hypercore, replicator, derive_builder and futures-lite are stand-ins (see DESIGN.md)"],
};

fn plan(r: &mut Rng, keys: &[Bytes], n: usize, uniq: &mut u64, mix: usize) -> Vec<(usize, What)> {
    (0..n)
        .map(|_| {
            let k = r.pick(keys).clone();
            *uniq += 1;
            let v = if r.pct(8) { None } else { Some(format!("v{uniq}").into_bytes()) };
            let w = match (mix, r.below(20)) {
                (1, 0..=12) => What::Op(Op::Put(k, v)),
                (2, 0..=9) => What::Op(Op::Del(k)),
                (3, 0..=12) => What::Op(Op::CasPut(k, v, r.pct(70))),
                (_, 0..=5) => What::Op(Op::Put(k, v)),
                (_, 6..=8) => What::Op(Op::Del(k)),
                (_, 9..=10) => What::Op(Op::CasPut(k, v, r.pct(60))),
                (_, 11..=12) => What::Op(Op::CasDel(k, r.pct(60))),
                (_, 13..=16) => What::Op(Op::Get(k)),
                (_, 17) => What::Traverse(vec![]),
                (_, 18) => What::Version,
                _ => {
                    if r.pct(30) {
                        What::Header
                    } else {
                        What::Op(Op::Get(k))
                    }
                }
            };
            (r.below(8), w)
        })
        .collect()
}

fn c12(cx: &mut Ctx) -> R {
    let threaded = cx.case % 12 == 5;
    let core = CoreState::in_memory(true, [7; 32]);
    let hb = bee(&core);
    let mut model = Model::default();
    let nk = *cx.rng.pick(&[1usize, 2, 3, 5, 12, 30, 60]);
    let keys = universe(&mut cx.rng, 0, nk);
    // sometimes start from a grown tree, seen by a handle with a warm cache
    if cx.rng.pct(60) {
        for i in 0..cx.rng.range(1, nk * 2) {
            let k = cx.rng.pick(&keys).clone();
            let op = if cx.rng.pct(75) { Op::Put(k, Some(format!("s{i}").into_bytes())) } else { Op::Del(k) };
            step(&H::Bee(&hb), &mut model, &op)?;
        }
    }
    let subs = vec![
        (hb.sub(b"p", Default::default()), b"p\0".to_vec()),
        (hb.sub(b"", hyperbee::prefixed::PrefixedConfig { seperator: vec![] }), vec![]),
    ];
    let sh = Arc::new(Shared { hb, subs, clock: AtomicU64::new(0), events: Default::default() });
    // now and then far more clients than any one caller would have
    let crowd = cx.case % 40 == 11;
    let clients = if crowd { cx.rng.range(20, 90) } else { cx.rng.range(2, 6) };
    let per = if threaded { cx.rng.range(3, 15) } else if crowd { cx.rng.range(1, 3) } else { cx.rng.range(1, 8) };
    if crowd {
        cx.obs.add("histories of 20 clients and more", 1);
    }
    let mut uniq = 0;
    let mix = cx.rng.below(6);
    let plans: Vec<_> = (0..clients).map(|_| plan(&mut cx.rng, &keys, per, &mut uniq, mix)).collect();
    let seed = cx.rng.u64();
    let pct = *cx.rng.pick(&[10u32, 40, 80, 100]);
    suspending(&core, seed, pct);
    if threaded {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_time().build().map_err(|e| format!("HARNESS {e}"))?;
        let joined = rt.block_on(async {
            let hs: Vec<_> = plans
                .into_iter()
                .enumerate()
                .map(|(i, p)| tokio::spawn(sh.clone().thread_client(format!("thread client {i}"), p)))
                .collect();
            tokio::time::timeout(std::time::Duration::from_secs(120), async {
                for h in hs {
                    h.await.map_err(|e| format!("a client panicked: {e}"))?;
                }
                Ok::<(), String>(())
            })
            .await
        });
        rt.shutdown_background();
        match joined {
            Err(_) => return Err("clients on threads never finish (waited 120 s)".into()),
            Ok(r) => r?,
        }
        cx.obs.add("threaded histories", 1);
    } else {
        let mut sched = Sched { sticky: *cx.rng.pick(&[0, 30, 70]), spurious: cx.rng.pct(20), ..Default::default() };
        for (i, p) in plans.into_iter().enumerate() {
            sched.spawn(sh.clone().client(format!("client {i}"), p));
        }
        let mut r = cx.rng.fork();
        let res = sched.run(&mut r, 400_000);
        let s = sched.schedule.clone();
        cx.obs.max("polls in a schedule", s.len() as u64);
        cx.id_bytes(&s);
        if let Err(e) = res {
            let unfinished = sched.unfinished();
            return Err(format!("{unfinished} clients never finish: {e}"));
        }
    }
    core.set_policy(None);
    let mut events = std::mem::take(&mut *sh.events.lock().unwrap());
    events.sort_by_key(|e| e.call);
    for e in &events {
        cx.t(|| format!("{} -> {:?}", e.short(), e.res));
        cx.id_bytes(format!("{:?}", e.res).as_bytes());
    }
    let is_write = |e: &Event| matches!(&e.res, Res::Out(Out::Put(_, Some(_)) | Out::Del(Some((true, _))), _));
    let ws: Vec<&Event> = events.iter().filter(|e| is_write(e)).collect();
    let overlap = ws.iter().enumerate().filter(|(i, a)| ws[..*i].iter().any(|b| b.ret > a.call && b.who != a.who)).count();
    cx.obs.add("overlapping writes", overlap as u64);
    if overlap > 0 {
        cx.nontrivial();
    }
    let blocks = core.blocks();
    let (w, r) = explain(&blocks, &events, &model)?;
    cx.obs.add("mutations explained", w);
    cx.obs.add("reads explained", r);
    // the final map, as later operations see it
    let mut view = LogView::default();
    view.extend(&blocks)?;
    let last = if blocks.len() > 1 { view.tree(blocks.len() as u64 - 1)?.entries } else { vec![] };
    for h in [&sh.hb, &bee(&core)] {
        if let Some(d) = diff(&collect_ok(&H::Bee(h), Default::default())?, &last) {
            return Err(format!("afterwards a traversal gives {d}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

static C14: Check = Check {
    id: "C14",
    level: "fault_enumeration",
    rule: "a case is a tree, one operation on it, and every suspension point of that operation in turn: its future is dropped there (alone, while another operation waits for it, or while it waits itself), then log, map and further operations are checked; non-trivial if the operation is a mutation; counted by the hash of tree, operation and point",
    quick: 8000,
    thorough: 150000,
    run: c14,
    require: &[("futures dropped", 30000), ("dropped with a waiting operation", 12000), ("dropped after taking effect", 1000), ("streams dropped", 10000)],
    assumptions: C12.assumptions,
};

fn every_access(before: u32, after: u32) -> hypercore::standin::Policy {
    Box::new(move |_| Decision { before, verdict: V::Normal, after })
}

/// The log left by an operation that was cut short: unchanged, header only, or complete.
pub fn settle(core: &CoreState, model: &mut Model, op: &Op, what: &str) -> Result<bool, String> {
    let n = core.len();
    let mut done = model.clone();
    done.apply(op);
    if n == model.len {
        return Ok(false);
    }
    if model.len == 0 && n == 1 {
        model.len = 1;
        return Ok(false);
    }
    if model.is_mutation(op) && n == done.len {
        *model = done;
        return Ok(true);
    }
    Err(format!("{what}: the log has {n} blocks, {} before", model.len))
}

pub fn random_op(cx: &mut Ctx, keys: &[Bytes], model: &Model) -> Op {
    let k = if cx.rng.pct(60) && !model.map.is_empty() {
        let i = cx.rng.below(model.map.len());
        model.map.keys().nth(i).unwrap().clone()
    } else {
        cx.rng.pick(keys).clone()
    };
    let v = Some(format!("n{}", cx.rng.below(1000)).into_bytes());
    match cx.rng.below(10) {
        0 => Op::Get(k),
        1..=4 => Op::Put(k, v),
        5..=7 => Op::Del(k),
        8 => Op::CasPut(k, v, cx.rng.pct(80)),
        _ => Op::CasDel(k, cx.rng.pct(80)),
    }
}

/// A core with the same blocks.
pub fn copy(core: &CoreState) -> Arc<CoreState> {
    CoreState::with_blocks(core.blocks().into_iter().map(|b| b.map(|b| b.to_vec())).collect(), true)
}

fn c14(cx: &mut Ctx) -> R {
    let keys = any_universe(&mut cx.rng, &[1, 4, 9, 12, 25, 60, 120]);
    let grow = if cx.case % 9 == 0 { 0 } else { keys.len() * cx.rng.range(1, 3) };
    let (base, _, model0) = grown(cx, &keys, grow)?;
    let op = random_op(cx, &keys, &model0);
    let (b, a) = *cx.rng.pick(&[(1u32, 1u32), (1, 0), (0, 1)]);
    // how many polls it takes
    let warm = cx.rng.pct(50);
    let wait_mode = cx.rng.below(4);
    let setup = |warm: bool| -> Result<(Arc<CoreState>, Hyperbee), String> {
        let core = copy(&base);
        let hb = bee(&core);
        if warm {
            collect_ok(&H::Bee(&hb), Default::default())?;
        }
        Ok((core, hb))
    };
    let total = {
        let (core, hb) = setup(warm)?;
        core.set_policy(Some(every_access(b, a)));
        let p0 = exec::polls();
        let mut m = model0.clone();
        step(&H::Bee(&hb), &mut m, &op)?;
        exec::polls() - p0
    };
    cx.id_bytes(op.short().as_bytes());
    cx.id(model0.len);
    let points: Vec<u64> = if total <= 40 || cx.thorough {
        (0..total).collect()
    } else {
        let mut v: Vec<u64> = (0..10).chain(total - 10..total).collect();
        for _ in 0..20 {
            v.push(cx.rng.below(total as usize) as u64);
        }
        v
    };
    for k in points {
        let what = format!("{} dropped after {k} of {total} polls (waiting mode {wait_mode}, warm {warm})", op.short());
        cx.t(|| what.clone());
        cx.id(k);
        let (core, hb) = setup(warm)?;
        let hb2 = bee(&core);
        let sub = hb.sub(b"", hyperbee::prefixed::PrefixedConfig { seperator: vec![] });
        let mut model = model0.clone();
        core.set_policy(Some(every_access(b, a)));
        let h = H::Bee(&hb);
        let next = random_op(cx, &keys, &model);
        match wait_mode {
            0 | 1 => {
                let mut seen = vec![];
                let p = exec::run_partial(perform(&h, &op, &mut seen), k).map_err(|e| format!("{what}: {e}"))?;
                drop(p);
                let did = settle(&core, &mut model, &op, &what)?;
                cx.obs.add("dropped after taking effect", did as u64);
            }
            _ => {
                // another operation waits for it, or it waits for another; then it is dropped
                let first = if wait_mode == 2 { &op } else { &next };
                let second = if wait_mode == 2 { &next } else { &op };
                let victim = if wait_mode == 2 { 0 } else { 1 };
                let outs: std::cell::RefCell<Vec<(usize, Result<Out, String>)>> = Default::default();
                let hs = H::Sub(&sub);
                let mut sched = Sched::default();
                for (i, o) in [first, second].into_iter().enumerate() {
                    let outs = &outs;
                    let h = if i == 0 { &h } else { &hs };
                    sched.spawn(async move {
                        let mut seen = vec![];
                        let r = perform(h, o, &mut seen).await.map_err(|e| err_chain(&e));
                        outs.borrow_mut().push((i, r));
                    });
                }
                // the first gets k polls, the second some, then the victim goes
                let mut last = 0;
                let mut r = Rng::new(k);
                for _ in 0..k {
                    if sched.is_done(0) {
                        break;
                    }
                    sched.step_task(0).map_err(|e| format!("{what}: {e}"))?;
                }
                for _ in 0..cx.rng.below(6) {
                    if sched.is_done(1) || !sched.is_ready(1) {
                        break;
                    }
                    sched.step_task(1).map_err(|e| format!("{what}: {e}"))?;
                }
                let cut = !sched.is_done(victim);
                sched.cancel(victim);
                cx.obs.add("dropped with a waiting operation", cut as u64);
                while sched.step(&mut r, &mut last).map_err(|e| match e {
                    Stuck::NoWakeup { .. } => format!("{what}: the other operation hangs: {e}"),
                    e => format!("{what}: {e}"),
                })? {}
                let outs = outs.borrow();
                // explain the log: the cut one took effect or not, before or after the other
                let other_ix = 1 - victim;
                let (vop, oop) = if victim == 0 { (first, second) } else { (second, first) };
                let other = outs.iter().find(|(i, _)| *i == other_ix).ok_or_else(|| format!("{what}: the other operation did not finish"))?;
                let got = other.1.as_ref().map_err(|e| format!("{what}: the other operation ({}) failed: {e}", oop.short()))?;
                let mut ok = None;
                // 0: only the other; 1: victim then other; 2: other then victim
                for way in 0..3 {
                    let mut m = model.clone();
                    if way == 1 {
                        m.apply(vop);
                    }
                    let (want, _) = m.apply(oop);
                    if way == 2 {
                        m.apply(vop);
                    }
                    let header = m.len == 0 && core.len() == 1;
                    if &want == got && (core.len() == m.len || header) {
                        if header {
                            m.len = 1;
                        }
                        // which of them the content agrees with is decided by the content
                        if same(&bee(&core), &m, &[]).is_ok() {
                            ok = Some(m);
                            break;
                        }
                    }
                }
                model = ok.ok_or_else(|| {
                    format!("{what}: the other operation ({}) returned {} and left {} blocks ({} before); no order of the two explains it", oop.short(), show(got), core.len(), model0.len)
                })?;
            }
        }
        cx.obs.add("futures dropped", 1);
        core.set_policy(None);
        for h in [&hb, &hb2] {
            same(h, &model, &[]).map_err(|e| format!("{what}: then {e}"))?;
        }
        // life goes on, through whichever handle
        let h2 = H::Bee(&hb2);
        let fresh = bee(&core);
        let h3 = H::Bee(&fresh);
        let turns = cx.rng.below(4);
        let zz = Op::Put(b"zz".to_vec(), None);
        let order = if turns < 2 && cx.rng.pct(70) { [&next, &op, &zz] } else { [&op, &next, &zz] };
        for (i, o) in order.into_iter().enumerate() {
            let via = match (turns, i) {
                (0, _) => &h2,
                (1, 0) => &h3,
                (_, 1) => &h2,
                _ => &h,
            };
            step(via, &mut model, o).map_err(|e| format!("{what}: then {e}"))?;
            crate::c_map::allow_header(o, &mut model, &core);
            if turns < 2 {
                same(&hb, &model, &[]).map_err(|e| format!("{what}: then, after {} through another handle, {e}", o.short()))?;
            }
        }
        if k % 5 == 0 {
            same(&bee(&core), &model, &[]).map_err(|e| format!("{what}: in the end {e}"))?;
            let mut view = LogView::default();
            view.extend(&core.blocks())?;
            view.tree(core.len() - 1).map_err(|e| format!("{what}: in the end {e}"))?;
        }
    }
    if model0.is_mutation(&op) {
        cx.nontrivial();
    }
    // a traversal's steps, and the traversal itself, dropped anywhere
    let (core, hb) = setup(false)?;
    core.set_policy(Some(every_access(1, 1)));
    let all = model0.entries();
    for _ in 0..4 {
        let Some(mut s) = open(&H::Bee(&hb), TraverseConfig::default())? else { break };
        let mut got = vec![];
        let stop = cx.rng.below(all.len() + 2);
        loop {
            // give up waiting for the item a few times; it must not be lost
            for _ in 0..cx.rng.below(4) {
                let n = cx.rng.below(6) as u64;
                if let exec::Partial::Done(x) = exec::run_partial(s.next(), n).map_err(stuck)? {
                    match x {
                        Some(Ok(x)) => got.push((x.key, x.seq, x.value)),
                        Some(Err(e)) => return Err(format!("traverse: {}", err_chain(&e))),
                        None => break,
                    }
                }
            }
            if got.len() >= stop {
                break;
            }
            match exec::run(s.next()).map_err(stuck)? {
                Some(Ok(x)) => got.push((x.key, x.seq, x.value)),
                Some(Err(e)) => return Err(format!("traverse: {}", err_chain(&e))),
                None => break,
            }
        }
        if got[..] != all[..got.len().min(all.len())] {
            return Err(format!("a traversal whose steps were given up half-way gives {}", diff(&got, &all).unwrap_or_default()));
        }
        cx.obs.add("streams dropped", 1);
        drop(s);
        let mut m = model0.clone();
        step(&H::Bee(&hb), &mut m, &Op::Get(keys[0].clone()))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

static C18: Check = Check {
    id: "C18",
    level: "exploration",
    rule: "a case is a tree of up to 30000 entries and height 7; operations and traversals run on an executor that polls only woken tasks, alone and concurrently, on storage that suspends at random, and block reads, new nodes and polls of each are counted and compared with a multiple of the height; non-trivial if the tree has height 3 or more; counted by the hash of the history",
    quick: 2400,
    thorough: 40000,
    run: c18,
    require: &[("operations measured", 50000), ("traversals measured", 10000), ("operations finished on suspending storage", 50000), ("streams added meanwhile", 4000)],
    assumptions: C12.assumptions,
};
fn c18(cx: &mut Ctx) -> R {
    let huge = cx.case % 150 == 13;
    let big = cx.case % 6 == 1 || huge;
    let keys = if big {
        let n = if huge { 30000 } else { *cx.rng.pick(&[1000usize, 3000]) };
        let kind = *cx.rng.pick(&[0usize, 2, 5]);
        universe(&mut cx.rng, kind, n)
    } else {
        any_universe(&mut cx.rng, &[1, 9, 25, 60, 140, 260])
    };
    let (core, hb, mut model);
    if huge {
        let (blocks, m) = crate::c_log::random_log(&mut cx.rng, &keys);
        model = m;
        core = CoreState::with_blocks(blocks.into_iter().map(Some).collect(), true);
        hb = bee(&core);
    } else {
        core = CoreState::in_memory(true, [7; 32]);
        hb = bee(&core);
        model = Model::default();
        let ops = keys.len() * 2;
        let ph = phases(&mut cx.rng, ops, 5);
        let mut hist = History::new(keys.clone(), ph);
        while let Some(op) = hist.next(&mut cx.rng) {
            step(&H::Bee(&hb), &mut model, &op)?;
            crate::c_map::allow_header(&op, &mut model, &core);
        }
    }
    cx.id(model.len);
    let c = |x: &AtomicU64| x.load(SeqCst);
    let height = |core: &CoreState| -> Result<u64, String> {
        let mut v = LogView::default();
        v.extend(&core.blocks())?;
        Ok(if v.blocks.len() > 1 { v.tree(v.blocks.len() as u64 - 1)?.height as u64 } else { 1 })
    };
    let h = height(&core)?;
    cx.obs.max("height", h);
    if h >= 3 {
        cx.nontrivial();
    }
    let mut view = LogView::default();
    view.extend(&core.blocks())?;
    // which blocks are asked for
    let asked: Arc<Mutex<BTreeSet<u64>>> = Default::default();
    let watched = || {
        let asked = asked.clone();
        core.set_policy(Some(Box::new(move |op| {
            if let OpKind::Get(i) = op {
                asked.lock().unwrap().insert(*i);
            }
            Decision::NORMAL
        })));
    };
    let judge = |what: &str, allowed: BTreeSet<u64>| -> Result<u64, String> {
        core.set_policy(None);
        let asked = std::mem::take(&mut *asked.lock().unwrap());
        match asked.difference(&allowed).next() {
            Some(i) => Err(format!("{what} asks for block {i}, which it has no need of (asked for {asked:?}, may need {allowed:?})")),
            None => Ok(asked.len() as u64),
        }
    };
    // single operations from a cold handle
    for _ in 0..40 {
        let op = random_op(cx, &keys, &model);
        cx.id_bytes(op.short().as_bytes());
        let cold = bee(&core);
        let allowed = match (core.len(), &op) {
            (0 | 1, _) => Default::default(),
            (n, Op::Del(k) | Op::CasDel(k, _)) => view.near(n - 1, k),
            (n, op) => view.way(n - 1, Some(op.key())),
        };
        watched();
        let (g0, i0, p0) = (c(&core.counters.gets), c(&core.counters.infos), exec::polls());
        let from = core.len();
        step(&H::Bee(&cold), &mut model, &op)?;
        crate::c_map::allow_header(&op, &mut model, &core);
        let distinct = judge(&op.short(), allowed)?;
        cx.obs.add("blocks asked for, all needed", distinct);
        view.extend(&core.blocks_from(from))?;
        let gets = c(&core.counters.gets) - g0;
        let infos = c(&core.counters.infos) - i0;
        let polls = exec::polls() - p0;
        cx.obs.add("operations measured", 1);
        cx.obs.max("block reads of an operation", gets);
        let most = 16 * (h + 2) + 8;
        if gets > most {
            return Err(format!("{}: {gets} block reads in a tree of height {h} (at most {most} expected)", op.short()));
        }
        if infos > 32 || polls > 64 {
            return Err(format!("{}: {infos} length queries, {polls} polls on storage that never suspends", op.short()));
        }
        for b in core.blocks_from(from.max(1)) {
            let d = codec::decode_block(&b.ok_or("HARNESS")?).ok_or("undecodable block")?;
            cx.obs.max("new nodes of an operation", d.levels.len() as u64);
            if d.levels.len() as u64 > 3 * (h + 2) {
                return Err(format!("{}: {} new nodes in a tree of height {h}", op.short(), d.levels.len()));
            }
        }
    }
    // traversals
    let all = model.entries();
    let n = all.len() as u64;
    for _ in 0..6 {
        let rev = cx.rng.pct(50);
        let stop = if cx.rng.pct(50) { n } else { cx.rng.below(n as usize + 1) as u64 };
        let cold = bee(&core);
        let (g0, p0) = (c(&core.counters.gets), exec::polls());
        let conf = Cfg { rev, ..Cfg::all() }.make(false)?;
        let mut got = 0;
        watched();
        if let Some(mut s) = open(&H::Bee(&cold), conf)? {
            while got < stop {
                match exec::run(s.next()).map_err(|e| format!("traversal: {e}"))? {
                    Some(Ok(_)) => got += 1,
                    Some(Err(e)) => return Err(err_chain(&e)),
                    None => break,
                }
            }
            if stop == n && exec::run(s.next()).map_err(|e| format!("traversal: {e}"))?.is_some() {
                return Err("a traversal does not end".into());
            }
        }
        if core.len() > 1 {
            let to = if rev { n.checked_sub(1 + got) } else { Some(got) };
            let to = to.and_then(|i| all.get(i as usize)).map(|e| &e.0[..]);
            let (low, high) = if rev { (to, None) } else { (None, to) };
            let d = judge(&format!("a traversal stopped after {got} of {n} entries"), view.range(core.len() - 1, low, high))?;
            cx.obs.add("blocks asked for, all needed", d);
        }
        core.set_policy(None);
        let gets = c(&core.counters.gets) - g0;
        let polls = exec::polls() - p0;
        cx.obs.add("traversals measured", 1);
        let most = 10 * got + 16 * (h + 2) + 8;
        if gets > most {
            return Err(format!("a traversal stopped after {got} of {n} entries made {gets} block reads (at most {most} expected)"));
        }
        let most = 60 * (got + h + 4);
        cx.obs.max("polls per entry, times 100", polls * 100 / (got + h + 4));
        if polls > most {
            return Err(format!("a traversal of {got} entries took {polls} polls (at most {most} expected)"));
        }
    }
    // a narrow range in a big tree is cheap
    if n > 50 {
        for _ in 0..6 {
            let i = cx.rng.below(all.len());
            let w = cx.rng.below(4);
            let c9 = Cfg {
                min: B::At(all[i].0.clone()),
                max: B::At(all[(i + w).min(all.len() - 1)].0.clone()),
                rev: cx.rng.pct(50),
                ..Cfg::all()
            };
            let cold = bee(&core);
            let g0 = c(&core.counters.gets);
            watched();
            let got = collect_ok(&H::Bee(&cold), c9.make(false)?)?.len() as u64;
            let (low, high) = (&all[i].0, &all[(i + w).min(all.len() - 1)].0);
            let d = judge(&format!("a traversal of {got} entries of {n}"), view.range(core.len() - 1, Some(low), Some(high)))?;
            cx.obs.add("blocks asked for, all needed", d);
            let gets = c(&core.counters.gets) - g0;
            let most = 10 * got + 40 * (h + 2);
            cx.obs.add("traversals measured", 1);
            cx.obs.max("block reads of a narrow traversal", gets);
            if gets > most {
                return Err(format!("a traversal of {got} entries of {n} made {gets} block reads (at most {most} expected)"));
            }
        }
    }
    // on suspending storage, several at once, polled only when woken; streams are added meanwhile
    let rt = tokio::runtime::Builder::new_current_thread().build().map_err(|e| format!("HARNESS {e}"))?;
    for round in 0..if big { 2 } else { 4 } {
        let s = cx.rng.u64();
        let pct = *cx.rng.pick(&[20, 60, 100]);
        // now and then on an empty log, where the first write makes the header
        let other = CoreState::in_memory(true, [7; 32]);
        let other_hb = bee(&other);
        let (core, hb) = if round == 3 && cx.rng.pct(60) { (&other, &other_hb) } else { (&core, &hb) };
        suspending(core, s, pct);
        let crowd = cx.case % 20 == 3 && round == 0 && !big;
        let clients = if crowd { cx.rng.range(20, 70) } else { cx.rng.range(1, 6) };
        let mut plans = vec![];
        for _ in 0..clients {
            let mut ops = vec![];
            for _ in 0..if crowd { 1 } else { cx.rng.range(1, 6) } {
                let op = random_op(cx, &keys, &model);
                cx.id_bytes(op.short().as_bytes());
                ops.push(op);
            }
            plans.push((ops, cx.rng.pct(25)));
        }
        let done = std::cell::Cell::new(0u64);
        let bad: std::cell::RefCell<Option<String>> = Default::default();
        {
            let _in_rt = rt.enter();
            let mut sched = Sched { sticky: 20, ..Default::default() };
            for _ in 0..cx.rng.below(3) {
                let bad = &bad;
                let first = cx.rng.pct(50);
                let (a, _b) = replicator::utils::create_connected_streams();
                sched.spawn(async move {
                    if let Err(e) = hb.add_stream(a, first).await {
                        *bad.borrow_mut() = Some(format!("add_stream: {}", err_chain(&e)));
                    }
                });
                cx.obs.add("streams added meanwhile", 1);
            }
            for (ops, walk) in plans {
                let (done, bad) = (&done, &bad);
                sched.spawn(async move {
                    for op in ops {
                        let mut seen = vec![];
                        if let Err(e) = perform(&H::Bee(hb), &op, &mut seen).await {
                            *bad.borrow_mut() = Some(format!("{}: {}", op.short(), err_chain(&e)));
                        }
                        done.set(done.get() + 1);
                    }
                    if walk {
                        if let Err(e) = collect(&H::Bee(hb), TraverseConfig::default()).await {
                            *bad.borrow_mut() = Some(format!("traverse: {}", err_chain(&e)));
                        }
                        done.set(done.get() + 1);
                    }
                });
            }
            let mut r = cx.rng.fork();
            sched
                .run(&mut r, 3_000_000)
                .map_err(|e| format!("round {round}: {} of {clients} concurrent clients never finish: {e}", sched.unfinished()))?;
        }
        if let Some(e) = bad.into_inner() {
            return Err(e);
        }
        cx.obs.add("operations finished on suspending storage", done.get());
        core.set_policy(None);
        // take over the state for the next round
        let len = core.len();
        let mut view = LogView::default();
        view.extend(&core.blocks())?;
        model.len = len;
        model.map = if len > 1 { view.tree(len - 1)?.entries.into_iter().map(|(k, s, v)| (k, (s, v))).collect() } else { Default::default() };
    }
    let _ = OpKind::Info;
    Ok(())
}
