//! C07 traversal, C08 its configuration, C09 snapshots, C10 and C11 sub-trees.
use crate::case::*;
use crate::exec::{self, Sched};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use futures_lite::{Stream, StreamExt};
use hyperbee::prefixed::{Prefixed, PrefixedConfig, PrefixedConfigBuilder};
use hyperbee::traverse::{KeyDataResult, LimitValue, TraverseConfig, TraverseConfigBuilder};
use hyperbee::{Hyperbee, HyperbeeError};
use hypercore::standin::{CoreState, Decision, OpKind, Verdict as V};
use std::cell::RefCell;
use std::pin::Pin;
use std::sync::Arc;

pub const CHECKS: &[&Check] = &[&C07, &C08, &C09, &C10, &C11];

/// A bound as the harness sees it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum B {
    Low,
    High,
    At(Bytes),
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub min: B,
    pub min_inc: bool,
    pub max: B,
    pub max_inc: bool,
    pub rev: bool,
}
impl Cfg {
    pub fn all() -> Cfg {
        Cfg { min: B::Low, min_inc: true, max: B::High, max_inc: true, rev: false }
    }
    pub fn admits(&self, k: &[u8]) -> bool {
        (match &self.min {
            B::Low => true,
            B::High => false,
            B::At(m) => k > &m[..] || self.min_inc && k == &m[..],
        }) && (match &self.max {
            B::Low => false,
            B::High => true,
            B::At(m) => k < &m[..] || self.max_inc && k == &m[..],
        })
    }
    pub fn pick(&self, all: &[Entry]) -> Vec<Entry> {
        let mut v: Vec<Entry> = all.iter().filter(|e| self.admits(&e.0)).cloned().collect();
        if self.rev {
            v.reverse();
        }
        v
    }
    /// Whether the builder is to accept it (all settings given).
    pub fn valid(&self) -> bool {
        match (&self.min, &self.max) {
            (B::High, _) | (_, B::Low) => false,
            (B::At(a), B::At(b)) => a < b || a == b && self.min_inc && self.max_inc,
            _ => true,
        }
    }
    /// The configuration, through the builder if it accepts it and `literal` is false.
    pub fn make(&self, literal: bool) -> Result<TraverseConfig, String> {
        if !literal && self.valid() {
            return TraverseConfigBuilder::default()
                .min_value(limit(&self.min))
                .min_inclusive(self.min_inc)
                .max_value(limit(&self.max))
                .max_inclusive(self.max_inc)
                .reversed(self.rev)
                .build()
                .map_err(|e| format!("building {self:02x?} failed: {e}"));
        }
        Ok(TraverseConfig {
            min_value: limit(&self.min),
            min_inclusive: self.min_inc,
            max_value: limit(&self.max),
            max_inclusive: self.max_inc,
            reversed: self.rev,
        })
    }
}
pub fn limit(b: &B) -> LimitValue {
    let d = TraverseConfig::default();
    match b {
        B::Low => d.min_value,
        B::High => d.max_value,
        B::At(k) => LimitValue::Finite(k.clone()),
    }
}
fn bound_of(l: &LimitValue) -> B {
    match l {
        LimitValue::Finite(k) => B::At(k.clone()),
        LimitValue::Infinite(i) => match format!("{i:?}").as_str() {
            "Negative" => B::Low,
            _ => B::High,
        },
    }
}

/// Positions on, next to, between and beyond the given keys.
pub fn positions(keys: &[Bytes]) -> Vec<Bytes> {
    let mut v: Vec<Bytes> = vec![vec![], vec![0], vec![0xff; 3]];
    for k in keys {
        v.push(k.clone());
        v.push([&k[..], &[0]].concat());
        let mut a = k.clone();
        if let Some(l) = a.pop() {
            v.push(a.clone());
            if l > 0 {
                v.push([&a[..], &[l - 1, 0xff]].concat());
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn any_cfg(r: &mut Rng, pos: &[Bytes]) -> Cfg {
    let bound = |r: &mut Rng, inf: B, other: B| match r.below(10) {
        0 | 1 => inf,
        2 if r.pct(30) => other,
        _ => B::At(r.pick(pos).clone()),
    };
    let mut min = bound(r, B::Low, B::High);
    let mut max = bound(r, B::High, B::Low);
    if let (B::At(a), B::At(b)) = (&min, &max) {
        if a > b && r.pct(85) {
            std::mem::swap(&mut min, &mut max);
        } else if r.pct(10) {
            max = min.clone();
        }
    }
    Cfg { min, min_inc: r.pct(60), max, max_inc: r.pct(60), rev: r.pct(50) }
}

/// Suspends at storage accesses at random.
pub fn suspending(core: &CoreState, seed: u64, pct: u32) {
    let mut r = Rng::new(seed);
    core.set_policy(Some(Box::new(move |_| Decision {
        before: if r.pct(pct) { r.range(1, 3) as u32 } else { 0 },
        verdict: V::Normal,
        after: if r.pct(pct) { r.range(1, 2) as u32 } else { 0 },
    })));
}

/// A tree with a history behind it, grown here or written elsewhere.
pub fn grown(cx: &mut Ctx, keys: &[Bytes], ops: usize) -> Result<(Arc<CoreState>, Hyperbee, Model), String> {
    if ops > 0 && cx.rng.pct(30) {
        // written elsewhere: any valid shape, such as all nodes at their least or most
        let mut some: Vec<Bytes> = keys.iter().filter(|_| cx.rng.pct(85)).cloned().collect();
        if some.is_empty() {
            some.push(keys[0].clone());
        }
        let (blocks, model) = crate::c_log::random_log(&mut cx.rng, &some);
        cx.t(|| format!("a log of {} blocks with a tree of random shape, {} entries", blocks.len(), model.map.len()));
        let core = CoreState::with_blocks(blocks.into_iter().map(Some).collect(), true);
        let hb = bee(&core);
        return Ok((core, hb, model));
    }
    let core = CoreState::in_memory(true, [7; 32]);
    let hb = bee(&core);
    let mut model = Model::default();
    let ph = phases(&mut cx.rng, ops, 0);
    let mut hist = History::new(keys.to_vec(), ph);
    while let Some(op) = hist.next(&mut cx.rng) {
        if matches!(op, Op::Get(_)) {
            continue;
        }
        cx.t(|| op.short());
        step(&H::Bee(&hb), &mut model, &op)?;
    }
    Ok((core, hb, model))
}

static C07: Check = Check {
    id: "C07",
    level: "exploration",
    rule: "a case is a tree grown by a seeded history (or, three in ten, of random valid shape) and many traversals of it with bounds on, next to and between keys, infinite or not, inclusive or not, forward and reversed (every such combination for trees of up to 5 keys), on storage that suspends or not; non-trivial if a traversal admitted some but not all entries; counted by the hash of tree and bounds",
    quick: 4000,
    thorough: 100000,
    run: c07,
    require: &[("traversals", 30000), ("empty results", 1000), ("proper subranges", 10000), ("bounds in inner nodes", 500)],
    assumptions: &["hypercore, replicator, derive_builder and futures-lite are stand-ins (see DESIGN.md)"],
};
fn c07(cx: &mut Ctx) -> R {
    let tiny = cx.case % 8 == 3;
    let big = cx.case % 25 == 7;
    let keys = if tiny {
        let n = cx.rng.range(1, 5);
        let kind = *cx.rng.pick(&[0usize, 1, 2, 5, 6]);
        universe(&mut cx.rng, kind, n)
    } else if big {
        any_universe(&mut cx.rng, &[700, 1200, 5000])
    } else {
        any_universe(&mut cx.rng, &[8, 9, 10, 12, 17, 25, 45, 60, 90, 140])
    };
    let ops = (keys.len() * cx.rng.range(1, 4)).min(6000);
    let (core, hb, model) = grown(cx, &keys, ops)?;
    let all = model.entries();
    let stored: Vec<Bytes> = all.iter().map(|e| e.0.clone()).collect();
    let pos = positions(&keys);
    let other = bee(&core);
    if cx.rng.pct(40) {
        let s = cx.rng.u64();
        suspending(&core, s, 40);
    }
    // keys of inner nodes
    let mut view = crate::shape::LogView::default();
    view.extend(&core.blocks())?;
    let inner: Vec<Bytes> = if view.blocks.len() > 1 {
        let t = view.tree(view.blocks.len() as u64 - 1)?;
        t.entries.iter().zip(&t.depths).filter(|(_, d)| **d + 1 < t.height).map(|(e, _)| e.0.clone()).collect()
    } else {
        vec![]
    };
    for e in &all {
        cx.id_bytes(&e.0);
    }
    let mut one = |cx: &mut Ctx, c: &Cfg| -> R {
        let literal = cx.rng.pct(20);
        let conf = c.make(literal)?;
        let h = if cx.rng.pct(70) { &hb } else { &other };
        let got = collect_ok(&H::Bee(h), conf).map_err(|e| format!("{c:02x?}: {e}"))?;
        let want = c.pick(&all);
        cx.obs.add("traversals", 1);
        cx.obs.add("entries yielded", got.len() as u64);
        if want.is_empty() {
            cx.obs.add("empty results", 1);
        } else if want.len() < all.len() {
            cx.obs.add("proper subranges", 1);
            cx.id_bytes(format!("{c:?}").as_bytes());
            cx.nontrivial();
        }
        if let Some(d) = diff(&got, &want) {
            return Err(format!("traversal with {c:02x?} of a tree of {} entries gives {d}", all.len()));
        }
        Ok(())
    };
    if tiny {
        let mut bs: Vec<B> = pos.iter().cloned().map(B::At).collect();
        bs.push(B::Low);
        bs.push(B::High);
        for min in &bs {
            for max in &bs {
                for bits in 0..8 {
                    let c = Cfg {
                        min: min.clone(),
                        min_inc: bits & 1 == 0,
                        max: max.clone(),
                        max_inc: bits & 2 == 0,
                        rev: bits & 4 == 0,
                    };
                    one(cx, &c)?;
                }
            }
        }
    } else {
        one(cx, &Cfg::all())?;
        one(cx, &Cfg { rev: true, ..Cfg::all() })?;
        for _ in 0..if big { 25 } else { 120 } {
            let mut c = any_cfg(&mut cx.rng, &pos);
            if !stored.is_empty() && cx.rng.pct(30) {
                c.min = B::At(cx.rng.pick(&stored).clone());
            }
            if !inner.is_empty() && cx.rng.pct(25) {
                let k = cx.rng.pick(&inner).clone();
                cx.obs.add("bounds in inner nodes", 1);
                if cx.rng.pct(50) {
                    c.min = B::At(k);
                } else {
                    c.max = B::At(k);
                }
            }
            one(cx, &c)?;
        }
    }
    Ok(())
}

static C08: Check = Check {
    id: "C08",
    level: "exploration",
    rule: "a case is a set of finite bounds; every combination of minimum, maximum (left out, infinite either way, or one of the set), inclusiveness (left out or given) and direction is built and compared with the rule stated in the property; non-trivial always (accepting and rejecting combinations occur in each); counted by the hash of the set",
    quick: 1000,
    thorough: 25000,
    run: c08,
    require: &[("accepted", 5000), ("rejected", 5000)],
    assumptions: &["derive_builder is a stand-in (see DESIGN.md)"],
};
fn c08(cx: &mut Ctx) -> R {
    let mut vals: Vec<Bytes> = match cx.case {
        0 => vec![b"".to_vec(), b"a".to_vec(), b"a\0".to_vec(), b"b".to_vec(), vec![0xff]],
        1 => vec![b"3".to_vec(), b"10".to_vec(), b"7".to_vec()],
        _ => (0..4)
            .map(|_| {
                let n = cx.rng.below(4);
                cx.rng.bytes(n)
            })
            .collect(),
    };
    vals.sort();
    vals.dedup();
    for v in &vals {
        cx.id_bytes(v);
    }
    cx.nontrivial();
    cx.t(|| format!("finite bounds {vals:02x?}"));
    let mut bs: Vec<Option<B>> = vec![None, Some(B::Low), Some(B::High)];
    bs.extend(vals.iter().cloned().map(|v| Some(B::At(v))));
    let tri = [None, Some(true), Some(false)];
    for min in &bs {
        for max in &bs {
            for mi in tri {
                for ma in tri {
                    for rev in tri {
                        let mut b = TraverseConfigBuilder::default();
                        // order of the setters, and setting twice, do not matter
                        let flip = cx.rng.pct(50);
                        let twice = cx.rng.pct(10);
                        for pass in 0..2 {
                            if (pass == 0) != flip {
                                if let Some(x) = min {
                                    if twice {
                                        b.min_value(limit(&B::High));
                                    }
                                    b.min_value(limit(x));
                                }
                                if let Some(x) = mi {
                                    b.min_inclusive(x);
                                }
                            } else {
                                if let Some(x) = rev {
                                    b.reversed(x);
                                }
                                if let Some(x) = ma {
                                    b.max_inclusive(x);
                                }
                                if let Some(x) = max {
                                    b.max_value(limit(x));
                                }
                            }
                        }
                        let want = match (min, max) {
                            (Some(x), Some(y)) => Cfg {
                                min: x.clone(),
                                min_inc: mi.unwrap_or(true),
                                max: y.clone(),
                                max_inc: ma.unwrap_or(true),
                                rev: rev.unwrap_or(false),
                            }
                            .valid(),
                            _ => true,
                        };
                        let what = || format!("min {min:02x?} (inclusive {mi:?}) max {max:02x?} (inclusive {ma:?}) reversed {rev:?}");
                        match b.build() {
                            Err(_) if !want => cx.obs.add("rejected", 1),
                            Err(e) => return Err(format!("{}: rejected ({e}) although it can admit keys", what())),
                            Ok(_) if !want => return Err(format!("{}: accepted although it admits no key", what())),
                            Ok(c) => {
                                cx.obs.add("accepted", 1);
                                let ok = bound_of(&c.min_value) == min.clone().unwrap_or(B::Low)
                                    && bound_of(&c.max_value) == max.clone().unwrap_or(B::High)
                                    && c.min_inclusive == mi.unwrap_or(true)
                                    && c.max_inclusive == ma.unwrap_or(true)
                                    && c.reversed == rev.unwrap_or(false);
                                if !ok {
                                    return Err(format!("{}: built {c:?}", what()));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let d = TraverseConfig::default();
    if bound_of(&d.min_value) != B::Low
        || bound_of(&d.max_value) != B::High
        || !d.min_inclusive
        || !d.max_inclusive
        || d.reversed
    {
        return Err(format!("TraverseConfig::default() is {d:?}"));
    }
    let n = cx.rng.below(100000);
    if bound_of(&LimitValue::from(n)) != B::At(n.to_string().into_bytes()) {
        return Err(format!("LimitValue::from({n}) is {:?}", LimitValue::from(n)));
    }
    Ok(())
}

pub type BoxStream = Pin<Box<dyn Stream<Item = KeyDataResult>>>;
pub fn open(h: &H<'_>, conf: TraverseConfig) -> Result<Option<BoxStream>, String> {
    let r: Result<BoxStream, HyperbeeError> = exec::run(async {
        Ok(match h {
            H::Bee(b) => Box::pin(b.traverse(conf).await?) as BoxStream,
            H::Sub(s) => Box::pin(s.traverse(&conf).await?) as BoxStream,
        })
    })
    .map_err(stuck)?;
    match r {
        Ok(s) => Ok(Some(s)),
        Err(HyperbeeError::NoRootError) => Ok(None),
        Err(e) => Err(format!("traverse failed without a storage fault: {}", err_chain(&e))),
    }
}

static C09: Check = Check {
    id: "C09",
    level: "exploration",
    rule: "a case is a tree with up to eight traversals opened at different versions and advanced in turn with writes (complete, suspended half-way, failing, abandoned) through several handles; every item is compared with the version the traversal was opened on; non-trivial if a traversal yielded items after the map changed under it; counted by the hash of the history",
    quick: 6400,
    thorough: 160000,
    run: c09,
    require: &[("items yielded", 50000), ("items yielded after the tree changed", 20000), ("writes under open traversals", 10000), ("failed writes under open traversals", 300)],
    assumptions: C07.assumptions,
};
struct Open {
    s: Option<BoxStream>,
    want: Vec<Entry>,
    at: usize,
    born: u64,
    label: String,
}
impl Open {
    /// Takes in one item; true when the stream has ended.
    fn take(&mut self, item: Option<KeyDataResult>) -> Result<bool, String> {
        let x = match item {
            None if self.at == self.want.len() => {
                self.s = None;
                return Ok(true);
            }
            None => {
                return Err(format!(
                    "{}: ended after {} of {} entries",
                    self.label,
                    self.at,
                    self.want.len()
                ))
            }
            Some(Err(e)) => return Err(format!("{}: yielded an error: {}", self.label, err_chain(&e))),
            Some(Ok(x)) => (x.key, x.seq, x.value),
        };
        if self.want.get(self.at) != Some(&x) {
            return Err(format!(
                "{}: item {}: {}",
                self.label,
                self.at,
                diff(&[x], &self.want[self.at.min(self.want.len())..(self.at + 1).min(self.want.len())]).unwrap_or_default()
            ));
        }
        self.at += 1;
        Ok(false)
    }
}
fn c09(cx: &mut Ctx) -> R {
    let big = cx.case % 20 == 7;
    let keys = if big {
        any_universe(&mut cx.rng, &[300, 700])
    } else {
        any_universe(&mut cx.rng, &[2, 9, 12, 25, 45, 90, 140])
    };
    let ops = keys.len() * cx.rng.range(1, 3);
    let (core, hb, model) = grown(cx, &keys, ops)?;
    let model = RefCell::new(model);
    let other = bee(&core);
    let sub = hb.sub(b"", PrefixedConfig { seperator: vec![] });
    let pos = positions(&keys);
    let mut open_: Vec<Open> = vec![];
    let ph: Vec<Phase> = (0..3)
        .map(|_| Phase { ops: 4000, put: 45, del: 50, get: 5, cas: 20, order: cx.rng.below(5) })
        .collect();
    let mut hist = History::new(keys.clone(), ph);
    let rounds = if cx.thorough { 60 } else { 30 };
    // now and then many more traversals are open at once than any one caller would have
    let crowd = cx.case % 25 == 3;
    let (most, more) = if crowd { (cx.rng.range(20, 140), 90) } else { (8, 40) };
    let mut after = 0u64;
    for round in 0..rounds {
        // open some
        while open_.len() < most && cx.rng.pct(more) {
            let c = if cx.rng.pct(40) { Cfg { rev: cx.rng.pct(50), ..Cfg::all() } } else { any_cfg(&mut cx.rng, &pos) };
            let conf = c.make(false)?;
            let h = match cx.rng.below(3) {
                0 => H::Bee(&other),
                1 => H::Sub(&sub),
                _ => H::Bee(&hb),
            };
            let m = model.borrow();
            let label = format!("traversal opened in round {round} at version {} with {c:02x?}", m.len);
            cx.t(|| label.clone());
            if let Some(s) = open(&h, conf)? {
                open_.push(Open { s: Some(s), want: c.pick(&m.entries()), at: 0, born: m.len, label });
            }
        }
        cx.obs.max("traversals open at once", open_.len() as u64);
        match cx.rng.below(4) {
            // advance whole items
            0 => {
                for o in &mut open_ {
                    let n = cx.rng.below(12);
                    for _ in 0..n {
                        let Some(s) = &mut o.s else { break };
                        let item = exec::run(s.next()).map_err(stuck)?;
                        o.take(item)?;
                        cx.obs.add("items yielded", 1);
                        if o.born < model.borrow().len {
                            after += 1;
                        }
                    }
                }
            }
            // write
            1 => {
                for _ in 0..cx.rng.range(1, 8) {
                    let op = hist.next(&mut cx.rng).ok_or("HARNESS history ended")?;
                    cx.t(|| op.short());
                    cx.id_bytes(op.short().as_bytes());
                    // the same handle mostly: its cache is the one at risk
                    let h = if cx.rng.pct(80) { &hb } else { &other };
                    step(&H::Bee(h), &mut model.borrow_mut(), &op)?;
                    cx.obs.add("writes under open traversals", open_.iter().any(|o| o.s.is_some()) as u64);
                }
            }
            // a write that fails, or is given up half-way
            2 => {
                let op = hist.next(&mut cx.rng).ok_or("HARNESS history ended")?;
                let k = cx.rng.below(30) as u64;
                let fail = cx.rng.pct(60);
                cx.t(|| format!("{} {} at access {k}", if fail { "failing" } else { "abandoned" }, op.short()));
                let mut n = 0;
                core.set_policy(Some(Box::new(move |o| {
                    if matches!(o, OpKind::Info) {
                        return Decision { before: 1, ..Decision::NORMAL };
                    }
                    n += 1;
                    let bad = fail && (n > k || matches!(o, OpKind::Append(_)));
                    Decision { before: 1, verdict: if bad { V::ErrBefore } else { V::Normal }, after: 0 }
                })));
                let mut seen = vec![];
                let h = H::Bee(&hb);
                let fut = perform(&h, &op, &mut seen);
                if fail {
                    let r = exec::run(fut).map_err(stuck)?;
                    if r.is_err() {
                        cx.obs.add("failed writes under open traversals", 1);
                    }
                } else {
                    let _ = exec::run_partial(fut, k).map_err(stuck)?;
                    cx.obs.add("abandoned writes under open traversals", 1);
                }
                core.set_policy(None);
                let mut m = model.borrow_mut();
                if m.len == 0 && core.len() == 1 {
                    m.len = 1;
                }
                if core.len() > m.len {
                    m.apply(&op);
                }
                if core.len() != m.len {
                    return Err(format!("{}: the log has {} blocks, expected {}", op.short(), core.len(), m.len));
                }
            }
            // a writer and the traversals interleaved at every suspension
            _ => {
                let s = cx.rng.u64();
                suspending(&core, s, 40);
                let errs: RefCell<Vec<String>> = RefCell::new(vec![]);
                let mut ops = vec![];
                for _ in 0..cx.rng.range(1, 5) {
                    ops.push(hist.next(&mut cx.rng).ok_or("HARNESS history ended")?);
                }
                let writes = ops.len() as u64;
                let counts = RefCell::new((0u64, 0u64));
                {
                    let mut sched = Sched { sticky: 30, spurious: cx.rng.pct(20), ..Default::default() };
                    let (model, errs, hb, counts) = (&model, &errs, &hb, &counts);
                    sched.spawn(async move {
                        for op in ops {
                            let mut seen = vec![];
                            let r = perform(&H::Bee(hb), &op, &mut seen).await;
                            let (want, _) = model.borrow_mut().apply(&op);
                            match r {
                                Ok(got) if got == want => (),
                                Ok(got) => errs.borrow_mut().push(format!(
                                    "{}: returned {}, expected {}",
                                    op.short(),
                                    show(&got),
                                    show(&want)
                                )),
                                Err(e) => errs.borrow_mut().push(format!("{}: {}", op.short(), err_chain(&e))),
                            }
                        }
                    });
                    for o in open_.iter_mut().filter(|o| o.s.is_some()) {
                        let n = cx.rng.below(8);
                        sched.spawn(async move {
                            for _ in 0..n {
                                let Some(s) = &mut o.s else { return };
                                let item = s.next().await;
                                let mut c = counts.borrow_mut();
                                c.0 += 1;
                                if o.born < model.borrow().len {
                                    c.1 += 1;
                                }
                                if let Err(e) = o.take(item) {
                                    errs.borrow_mut().push(e);
                                    return;
                                }
                            }
                        });
                    }
                    let mut rng = cx.rng.fork();
                    sched.run(&mut rng, 200_000).map_err(stuck)?;
                    let d: Vec<u8> = sched.schedule.clone();
                    cx.id_bytes(&d);
                }
                core.set_policy(None);
                let (a, b) = *counts.borrow();
                cx.obs.add("items yielded", a);
                after += b;
                cx.obs.add("writes under open traversals", writes);
                let e = errs.into_inner();
                if !e.is_empty() {
                    return Err(e[0].clone());
                }
            }
        }
        open_.retain(|o| o.s.is_some());
    }
    // drain the rest
    for mut o in open_ {
        while let Some(s) = &mut o.s {
            let item = exec::run(s.next()).map_err(stuck)?;
            o.take(item)?;
            cx.obs.add("items yielded", 1);
            if o.born < model.borrow().len {
                after += 1;
            }
        }
    }
    cx.obs.add("items yielded after the tree changed", after);
    if after > 0 {
        cx.nontrivial();
    }
    let m = model.into_inner();
    same(&hb, &m, &[])?;
    same(&bee(&core), &m, &[])
}

/// Prefixes and separators that try to collide.
fn affixes(r: &mut Rng) -> (Bytes, Bytes) {
    let alpha = [0u8, 1, b'a', b'b', 0xfe, 0xff];
    let pick = |r: &mut Rng, max: usize| -> Bytes {
        let n = r.range(0, max);
        (0..n).map(|_| *r.pick(&alpha)).collect()
    };
    // one now and then is longer than any small buffer or one-byte length holds
    let long = |r: &mut Rng| -> Bytes {
        let n = *r.pick(&[16usize, 31, 32, 33, 64, 127, 128, 254, 255, 256, 300, 1023, 1100]);
        let mut v = vec![*r.pick(&[0u8, b'a', 0xff]); n];
        if r.pct(30) {
            v[n - 1] = *r.pick(&alpha);
        }
        v
    };
    let p = match r.below(24) {
        0..=2 => vec![],
        3..=5 => vec![0xff],
        6..=8 => vec![0xff, 0xff],
        9..=11 => vec![b'a', 0xff],
        12 => long(r),
        _ => pick(r, 3),
    };
    let s = match r.below(24) {
        0..=2 => vec![],
        3..=11 => vec![0],
        12..=14 => vec![0xff],
        15 => long(r),
        _ => pick(r, 2),
    };
    (p, s)
}
fn conf(r: &mut Rng, s: &[u8]) -> PrefixedConfig {
    if s == [0] && r.pct(50) {
        return if r.pct(50) { Default::default() } else { PrefixedConfigBuilder::default().build().unwrap() };
    }
    if r.pct(50) {
        PrefixedConfigBuilder::default().seperator(s.to_vec()).build().unwrap()
    } else {
        PrefixedConfig { seperator: s.to_vec() }
    }
}

static C10: Check = Check {
    id: "C10",
    level: "exploration",
    rule: "a case is a seeded history distributed over several sub-trees with colliding prefixes and separators and the whole tree; each operation is repeated on a second tree with the full key, and results, predicate arguments and logs are compared, as is the map; non-trivial if two sub-trees and the whole tree wrote; counted by the hash of the history",
    quick: 6400,
    thorough: 160000,
    run: c10,
    require: &[("sub-tree operations", 30000), ("sub-tree deletes that hit", 3000), ("sub-tree reads that hit", 1500), ("conditional sub-tree operations", 3000)],
    assumptions: C07.assumptions,
};
fn c10(cx: &mut Ctx) -> R {
    let core = CoreState::in_memory(true, [7; 32]);
    let twin_core = CoreState::in_memory(true, [7; 32]);
    let (hb, twin) = (bee(&core), bee(&twin_core));
    // sometimes far more sub-trees than any one caller would have
    let n = if cx.case % 30 == 7 { cx.rng.range(15, 150) } else { cx.rng.range(1, 5) };
    cx.obs.max("sub-trees at once", n as u64);
    let subs: Vec<(Prefixed, Bytes)> = (0..n)
        .map(|_| {
            let (p, s) = affixes(&mut cx.rng);
            let c = conf(&mut cx.rng, &s);
            (hb.sub(&p, c), [p, s].concat())
        })
        .collect();
    let size = *cx.rng.pick(&[3usize, 10, 25, 60]);
    let kind = *cx.rng.pick(&[0usize, 1, 1, 1, 3, 6]);
    let keys = universe(&mut cx.rng, kind, size);
    let ops = cx.rng.range(40, 300);
    let ph = phases(&mut cx.rng, ops, 20);
    let mut hist = History::new(keys.clone(), ph);
    let mut model = Model::default();
    let mut wrote = std::collections::HashSet::new();
    while let Some(op) = hist.next(&mut cx.rng) {
        let i = cx.rng.below(subs.len() + 1);
        let whole = i == subs.len();
        let full = |k: &Bytes| if whole { k.clone() } else { [&subs[i].1[..], k].concat() };
        let fop = match &op {
            Op::Put(k, v) => Op::Put(full(k), v.clone()),
            Op::Del(k) => Op::Del(full(k)),
            Op::Get(k) => Op::Get(full(k)),
            Op::CasPut(k, v, y) => Op::CasPut(full(k), v.clone(), *y),
            Op::CasDel(k, y) => Op::CasDel(full(k), *y),
        };
        let who = if whole { "whole tree".into() } else { format!("sub {:02x?}", subs[i].1) };
        cx.t(|| format!("{who}: {}", op.short()));
        cx.id_bytes(who.as_bytes());
        cx.id_bytes(op.short().as_bytes());
        let mut seen = vec![];
        let h = if whole { H::Bee(&hb) } else { H::Sub(&subs[i].0) };
        let got = exec::run(perform(&h, &op, &mut seen))
            .map_err(stuck)?
            .map_err(|e| format!("{who}: {}: failed without a storage fault: {}", op.short(), err_chain(&e)))?;
        let mut tseen = vec![];
        let tgot = exec::run(perform(&H::Bee(&twin), &fop, &mut tseen))
            .map_err(stuck)?
            .map_err(|e| format!("whole tree: {}: {}", fop.short(), err_chain(&e)))?;
        if got != tgot {
            return Err(format!("{who}: {} returned {}, {} on the whole tree returns {}", op.short(), show(&got), fop.short(), show(&tgot)));
        }
        let (want, _) = model.apply(&fop);
        crate::c_map::allow_header(&fop, &mut model, &core);
        if got != want {
            return Err(format!("{who}: {} returned {}, expected {}", op.short(), show(&got), show(&want)));
        }
        if matches!(op, Op::CasPut(..) | Op::CasDel(..)) && seen != tseen {
            return Err(format!("{who}: {}: predicate was called with {seen:02x?}, for the whole tree with {tseen:02x?}", op.short()));
        }
        if core.blocks_from(model.len.saturating_sub(1)) != twin_core.blocks_from(model.len.saturating_sub(1)) || core.len() != model.len {
            return Err(format!("{who}: {}: the log differs from the one the whole tree writes", op.short()));
        }
        if !whole {
            cx.obs.add("sub-tree operations", 1);
            match &got {
                Out::Del(Some((true, _))) => cx.obs.add("sub-tree deletes that hit", 1),
                Out::Got(Some(_)) => cx.obs.add("sub-tree reads that hit", 1),
                _ => (),
            }
            if matches!(op, Op::CasPut(..) | Op::CasDel(..)) {
                cx.obs.add("conditional sub-tree operations", 1);
            }
        }
        if matches!(got, Out::Put(_, Some(_)) | Out::Del(Some((true, _)))) {
            wrote.insert(i);
        }
        // what the other handles make of it
        if cx.rng.pct(30) {
            let full = fop.key().clone();
            step(&H::Bee(&hb), &mut model, &Op::Get(full.clone()))?;
            for (s, p) in &subs {
                if let Some(rest) = full.strip_prefix(&p[..]) {
                    let mut none = vec![];
                    let got = exec::run(perform(&H::Sub(s), &Op::Get(rest.to_vec()), &mut none))
                        .map_err(stuck)?
                        .map_err(|e| err_chain(&e))?;
                    if got != Out::Got(model.map.get(&full).cloned()) {
                        return Err(format!("sub {p:02x?} get {rest:02x?} returned {}", show(&got)));
                    }
                }
            }
        }
    }
    same(&hb, &model, &[])?;
    if core.blocks() != twin_core.blocks() {
        return Err("the logs differ".into());
    }
    if wrote.len() > 2 && wrote.contains(&subs.len()) {
        cx.nontrivial();
    }
    Ok(())
}

static C11: Check = Check {
    id: "C11",
    level: "exploration",
    rule: "a case is a tree with keys inside and right next to a sub-tree with hostile prefix and separator (empty, 0xFF, ...), and traversals of the sub-tree with bounds of every kind; non-trivial if the tree had both own and foreign keys; counted by the hash of the tree and the sub-tree",
    quick: 8000,
    thorough: 200000,
    run: c11,
    require: &[("traversals", 15000), ("entries yielded", 30000), ("traversals with foreign keys around", 8000)],
    assumptions: C07.assumptions,
};
fn c11(cx: &mut Ctx) -> R {
    let core = CoreState::in_memory(true, [7; 32]);
    let hb = bee(&core);
    let (p, s) = affixes(&mut cx.rng);
    let c = conf(&mut cx.rng, &s);
    let sub = hb.sub(&p, c);
    let full: Bytes = [&p[..], &s[..]].concat();
    cx.id_bytes(&p);
    cx.id_bytes(&s);
    cx.t(|| format!("prefix {p:02x?} separator {s:02x?}"));
    let size = *cx.rng.pick(&[0usize, 1, 4, 9, 20, 60]);
    let kind = *cx.rng.pick(&[0usize, 1, 1, 3, 6]);
    let mut inner = universe(&mut cx.rng, kind, size.max(1));
    if size == 0 {
        inner.clear();
    }
    let mut keys: Vec<Bytes> = inner.iter().map(|k| [&full[..], k].concat()).collect();
    // neighbours
    let mut near: Vec<Bytes> = vec![vec![], vec![0], vec![0xff], vec![0xff; 6]];
    for i in 0..=full.len() {
        // next to a long one: its ends, and a few places in between
        if full.len() > 12 && i > 3 && i + 3 < full.len() && !cx.rng.pct(2) {
            continue;
        }
        near.push(full[..i].to_vec());
        for x in [0u8, 1, 0x60, 0x61, 0x7f, 0xfe, 0xff] {
            near.push([&full[..i], &[x]].concat());
            near.push([&full[..i], &[x, 0xff, 0]].concat());
        }
        if i > 0 {
            for d in [1u8, 0xff] {
                let mut k = full[..i].to_vec();
                k[i - 1] = k[i - 1].wrapping_add(d);
                near.push(k.clone());
                k.push(0);
                near.push(k);
            }
        }
    }
    near.push([&p[..], b"other"].concat());
    near.push([&p[..], &[0xff; 4]].concat());
    let keep = *cx.rng.pick(&[0u32, 20, 60, 100]);
    near.retain(|_| cx.rng.pct(keep));
    keys.extend(near);
    keys.sort();
    keys.dedup();
    cx.rng.shuffle(&mut keys);
    let mut model = Model::default();
    for (i, k) in keys.iter().enumerate() {
        cx.id_bytes(k);
        let v = value(&mut cx.rng, i as u64);
        // entries of the sub-tree are written through it now and then
        match k.strip_prefix(&full[..]) {
            Some(rest) if cx.rng.pct(50) => {
                let op = Op::Put(rest.to_vec(), v.clone());
                let mut none = vec![];
                let got = exec::run(perform(&H::Sub(&sub), &op, &mut none)).map_err(stuck)?.map_err(|e| err_chain(&e))?;
                let (want, _) = model.apply(&Op::Put(k.clone(), v));
                if got != want {
                    return Err(format!("sub-tree put returned {}", show(&got)));
                }
            }
            _ => {
                step(&H::Bee(&hb), &mut model, &Op::Put(k.clone(), v))?;
            }
        }
    }
    // some disappear again
    for k in keys.iter().filter(|_| cx.rng.pct(15)).cloned().collect::<Vec<_>>() {
        step(&H::Bee(&hb), &mut model, &Op::Del(k))?;
    }
    let own: Vec<Entry> = model
        .entries()
        .into_iter()
        .filter_map(|(k, s, v)| k.strip_prefix(&full[..]).map(|k| (k.to_vec(), s, v.clone())))
        .collect();
    let foreign = model.map.len() - own.len();
    if foreign > 0 && !own.is_empty() {
        cx.nontrivial();
    }
    let mut own_keys: Vec<Bytes> = own.iter().map(|e| e.0.clone()).collect();
    own_keys.push(b"zz".to_vec());
    let pos = positions(&own_keys);
    for i in 0..40 {
        let c = match i {
            0 => Cfg::all(),
            1 => Cfg { rev: true, ..Cfg::all() },
            2 => Cfg { min_inc: false, max_inc: false, ..Cfg::all() },
            _ => any_cfg(&mut cx.rng, &pos),
        };
        let literal = cx.rng.pct(20);
        let conf = c.make(literal)?;
        let what = || format!("traversal of sub-tree prefix {p:02x?} separator {s:02x?} with {c:02x?}");
        let got = collect_ok(&H::Sub(&sub), conf).map_err(|e| format!("{}: {e}", what()))?;
        cx.obs.add("traversals", 1);
        cx.obs.add("entries yielded", got.len() as u64);
        if foreign > 0 {
            cx.obs.add("traversals with foreign keys around", 1);
        }
        if let Some(d) = diff(&got, &c.pick(&own)) {
            return Err(format!("{} gives {d}", what()));
        }
    }
    Ok(())
}
