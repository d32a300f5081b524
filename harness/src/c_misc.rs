//! C21 header, C22 many handles, C23 diagnostics, C24 release of resources.
use crate::balance;
use crate::c_conc::{copy, random_op};
use crate::c_log::{random_log, Stretch};
use crate::c_fault::{open_dir, TempDir};
use crate::c_range::*;
use crate::case::*;
use crate::codec;
use crate::exec;
use crate::gen::*;
use crate::model::*;
use crate::shape::LogView;
use futures_lite::StreamExt;
use hyperbee::prefixed::{Prefixed, PrefixedConfig};
use hyperbee::traverse::TraverseConfig;
use hyperbee::{Hyperbee, HyperbeeError};
use hypercore::standin::{CoreState, Decision, OpKind, Verdict as V};
use std::sync::{Arc, Weak};

pub const CHECKS: &[&Check] = &[&C21, &C22, &C23, &C24];
const ASSUME: &[&str] = &["hypercore, replicator, derive_builder and futures-lite are stand-ins (see DESIGN.md)"];

fn whole() -> PrefixedConfig {
    PrefixedConfig { seperator: vec![] }
}

// ---------------------------------------------------------------- C21

static C21: Check = Check {
    id: "C21",
    level: "fault_enumeration",
    rule: "a case creates a header with seeded metadata on an empty log (directly, after reads, failing or abandoned at each point and retried, or implied by a put), checks its bytes, tries again, and runs the same history on trees with and without explicit header, comparing the logs; non-trivial if metadata was given; counted by the hash of metadata and history",
    quick: 12000,
    thorough: 300000,
    run: c21,
    require: &[("headers with metadata", 2000), ("second headers refused", 6000), ("headers failed or abandoned", 8000), ("reads of an empty log", 20000), ("blocks compared", 50000)],
    assumptions: ASSUME,
};

type Meta = Option<(Option<Bytes>, Option<Bytes>)>;
fn any_meta(cx: &mut Ctx) -> Meta {
    let part = |cx: &mut Ctx| match cx.rng.below(5) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(b"content".to_vec()),
        3 => {
            let n = *cx.rng.pick(&[1usize, 126, 127, 128, 300, 16384]);
            Some(cx.rng.bytes(n))
        }
        _ => {
            let n = cx.rng.below(40);
            Some(cx.rng.bytes(n))
        }
    };
    if cx.rng.pct(25) {
        return None;
    }
    Some((part(cx), part(cx)))
}
fn encode_meta(m: &Meta) -> Vec<u8> {
    codec::encode_header(m.as_ref().map(|(a, b)| (a.as_deref(), b.as_deref())))
}
macro_rules! create {
    ($hb:expr, $m:expr) => {
        $hb.create_header($m.as_ref().map(|(content_feed, user_data)| hyperbee::Metadata {
            content_feed: content_feed.clone(),
            user_data: user_data.clone(),
        }))
    };
}

fn c21(cx: &mut Ctx) -> R {
    let meta = any_meta(cx);
    let raw = encode_meta(&meta);
    cx.id_bytes(&raw);
    cx.t(|| format!("metadata {meta:02x?}"));
    let core = CoreState::in_memory(true, [7; 32]);
    let hb = bee(&core);
    let sub = hb.sub(b"s", Default::default());
    let empty = Model::default();
    // reads do not write it
    for _ in 0..cx.rng.below(8) {
        let k = cx.rng.bytes(2);
        let got = match cx.rng.below(7) {
            0 => exec::run(hb.get(&k)).map_err(stuck)?.map(|x| x.is_none()),
            1 => exec::run(sub.get(&k)).map_err(stuck)?.map(|x| x.is_none()),
            2 => Ok(exec::run(hb.version()).map_err(stuck)? == 0),
            3 => Ok(collect_ok(&H::Bee(&hb), Default::default())?.is_empty()),
            4 => Ok(collect_ok(&H::Sub(&sub), Default::default())?.is_empty()),
            5 => exec::run(hb.height()).map_err(stuck)?.map(|h| h == 0),
            _ => Ok(matches!(exec::run(hb.print()).map_err(stuck)?, Err(HyperbeeError::NoRootError))),
        };
        cx.obs.add("reads of an empty log", 1);
        match got {
            Ok(true) => (),
            Ok(false) => return Err("a read of an empty log finds something".into()),
            Err(e) => return Err(format!("a read of an empty log fails: {}", err_chain(&e))),
        }
        if core.len() != 0 {
            return Err("a read wrote to an empty log".into());
        }
    }
    // create it: at once, or after attempts that fail or are abandoned
    let mut have = false;
    for _ in 0..cx.rng.below(4) {
        let abandon = cx.rng.pct(50);
        let verdict = *cx.rng.pick(&[V::ErrBefore, V::ErrAfter]);
        let k = cx.rng.below(7) as u64;
        cx.obs.add("headers failed or abandoned", 1);
        core.set_policy(Some(Box::new(move |op| {
            let v = if !abandon && matches!(op, OpKind::Append(_)) { verdict } else { V::Normal };
            Decision { before: abandon as u32, verdict: v, after: abandon as u32 }
        })));
        let f = create!(hb, &meta);
        let r = if abandon {
            match exec::run_partial(f, k).map_err(stuck)? {
                exec::Partial::Done(r) => Some(r),
                exec::Partial::Unfinished(_) => None,
            }
        } else {
            Some(exec::run(f).map_err(stuck)?)
        };
        core.set_policy(None);
        if let Some(r) = &r {
            match r {
                Ok(_) if have => return Err("a second header was accepted".into()),
                Ok(_) if !abandon => return Err("create_header succeeded although the storage failed".into()),
                Err(HyperbeeError::HeaderAlreadyExists) if !have => return Err("header-exists on an empty log".into()),
                Err(e) if have && !matches!(e, HyperbeeError::HeaderAlreadyExists) => {
                    return Err(format!("a second header fails with {}", err_chain(e)))
                }
                _ => (),
            }
        }
        match core.len() {
            0 if !have && !matches!(r, Some(Ok(_))) => (),
            1 => have = true,
            n => return Err(format!("an attempt at a header left {n} blocks")),
        }
    }
    if !have {
        let o = exec::run(create!(hb, &meta)).map_err(stuck)?.map_err(|e| format!("create_header: {}", err_chain(&e)))?;
        if o.length != 1 || o.byte_length != raw.len() as u64 {
            return Err(format!("create_header reports {o:?} for a header of {} bytes", raw.len()));
        }
    }
    let b = core.block(0).ok_or("no block 0 after create_header")?;
    if **b != raw {
        return Err(format!("the header with metadata {meta:02x?} is stored as {b:02x?}, expected {raw:02x?}"));
    }
    if meta.is_some() {
        cx.obs.add("headers with metadata", 1);
        cx.nontrivial();
    }
    let mut model = Model { len: 1, ..empty };
    same(&hb, &model, &[vec![], b"k".to_vec()])?;
    // a second one is refused, now and later, through any handle
    let again = |cx: &mut Ctx, core: &Arc<CoreState>, hb: &Hyperbee| -> R {
        let before = core.blocks();
        let other = any_meta(cx);
        let fresh = bee(core);
        let h = if cx.rng.pct(50) { hb } else { &fresh };
        match exec::run(create!(h, &other)).map_err(stuck)? {
            Err(HyperbeeError::HeaderAlreadyExists) => (),
            Err(e) => return Err(format!("a second header fails with {}, not header-exists", err_chain(&e))),
            Ok(_) => return Err(format!("a second header was accepted on a log of {} blocks", before.len())),
        }
        if core.blocks() != before {
            return Err("a refused header changed the log".into());
        }
        cx.obs.add("second headers refused", 1);
        Ok(())
    };
    again(cx, &core, &hb)?;
    // the same history with an explicit and an implied header
    let core2 = CoreState::in_memory(true, [7; 32]);
    let hb2 = bee(&core2);
    let mut model2 = Model::default();
    let keys = any_universe(&mut cx.rng, &[1, 3, 9, 14, 30]);
    let n = cx.rng.range(1, 2 * keys.len());
    for i in 0..n {
        let k = cx.rng.pick(&keys).clone();
        let op = match cx.rng.below(4) {
            0 if i > 0 => Op::Del(k),
            1 if i > 0 => Op::Get(k),
            _ => Op::Put(k, value(&mut cx.rng, i as u64)),
        };
        cx.id_bytes(op.short().as_bytes());
        let a = step(&H::Bee(&hb), &mut model, &op)?;
        let b = step(&H::Bee(&hb2), &mut model2, &op)?;
        if a != b {
            return Err(format!("{} returned {} with an explicit header and {} without", op.short(), show(&a), show(&b)));
        }
        if cx.rng.pct(10) {
            again(cx, &core, &hb)?;
            again(cx, &core2, &hb2)?;
        }
    }
    let (a, b) = (core.blocks(), core2.blocks());
    if **b[0].as_ref().unwrap() != codec::encode_header(None) {
        return Err(format!("the implied header is {:02x?}", b[0]));
    }
    if **a[0].as_ref().unwrap() != raw {
        return Err("the header changed".into());
    }
    cx.obs.add("blocks compared", a.len() as u64);
    if a.len() != b.len() {
        return Err(format!("{} blocks with an explicit header, {} without", a.len(), b.len()));
    }
    if let Some(i) = (1..a.len()).find(|i| a[*i] != b[*i]) {
        return Err(format!("block {i} differs with and without an explicit header"));
    }
    again(cx, &core, &hb)?;
    again(cx, &core2, &hb2)
}

// ---------------------------------------------------------------- C22

static C22: Check = Check {
    id: "C22",
    level: "exploration",
    rule: "a case is a history in which every operation goes through a random one of up to eight (now and then 120) handles on one core (opened and dropped along the way, cold and warm, trees and sub-trees, also with a traversal left open or an operation abandoned on it), one in four on a log in which numbers of blocks repeat by some modulus, compared with the model and with a fresh handle; non-trivial if a handle read after another had written; counted by the hash of the history",
    quick: 8000,
    thorough: 200000,
    run: c22,
    require: &[("operations", 400000), ("reads after a write through another handle", 100000), ("operations on handles idle for over 20 writes", 10000), ("comparisons with a fresh handle", 50000), ("logs whose numbers repeat by some modulus", 1000)],
    assumptions: ASSUME,
};
struct Handle {
    hb: Hyperbee,
    sub: Prefixed,
    /// log length when it was last used
    used: u64,
    streams: Vec<(BoxStream, Vec<Entry>, usize)>,
}
fn c22(cx: &mut Ctx) -> R {
    let keys = any_universe(&mut cx.rng, &[1, 3, 9, 14, 30, 60, 140]);
    let mut core = CoreState::in_memory(true, [7; 32]);
    let mut model = Model::default();
    if cx.rng.pct(25) {
        // a log in which the numbers of blocks are alike
        let (mut blocks, m) = random_log(&mut cx.rng, &keys);
        let st = Stretch::wrap(&mut cx.rng, blocks.len());
        for (i, b) in blocks.iter_mut().enumerate() {
            *b = st.block_on(i, b).map_err(|e| format!("HARNESS {e}"))?;
        }
        core = st.core(&blocks);
        model = st.model(&m);
        cx.t(|| format!("{} blocks missing before block {} of {}", st.gap, st.at, blocks.len()));
        cx.obs.add("logs whose numbers repeat by some modulus", 1);
    }
    let core = core;
    let mut hs: Vec<Handle> = vec![];
    // now and then far more handles than any one caller would have
    let most = if cx.case % 30 == 7 { cx.rng.range(20, 120) } else { 8 };
    let new = || {
        let hb = bee(&core);
        let sub = hb.sub(b"", whole());
        Handle { hb, sub, used: 0, streams: vec![] }
    };
    for _ in 0..if most > 8 { most } else { 1 } {
        hs.push(new());
    }
    let total = (keys.len() * 4 + 20).min(300);
    let ph = phases(&mut cx.rng, total, 10);
    let mut hist = History::new(keys.clone(), ph);
    let mut last_writer = usize::MAX;
    let mut crossed = false;
    let mut n = 0;
    while let Some(mut op) = hist.next(&mut cx.rng) {
        n += 1;
        if cx.rng.pct(25) {
            op = Op::Get(cx.rng.pick(&keys).clone());
        }
        if hs.len() < most && cx.rng.pct(6) {
            hs.push(new());
        }
        if hs.len() > 1 && cx.rng.pct(if most > 8 { 0 } else { 3 }) {
            let i = cx.rng.below(hs.len());
            hs.swap_remove(i);
            last_writer = usize::MAX;
        }
        let i = cx.rng.below(hs.len());
        let warm_up = cx.rng.pct(5);
        let through_sub = cx.rng.pct(30);
        let h = &mut hs[i];
        if h.used + 20 < model.len {
            cx.obs.add("operations on handles idle for over 20 writes", 1);
        }
        if last_writer != usize::MAX && last_writer != i {
            cx.obs.add("reads after a write through another handle", matches!(op, Op::Get(_)) as u64);
            crossed = true;
        }
        if warm_up {
            let all = collect_ok(&H::Bee(&h.hb), Default::default())?;
            if let Some(d) = diff(&all, &model.entries()) {
                return Err(format!("step {n}: a traversal through handle {i} (last used at {} of {} blocks) gives {d}", h.used, model.len));
            }
        }
        if cx.rng.pct(3) && h.streams.len() < 3 {
            if let Some(s) = open(&H::Bee(&h.hb), Default::default())? {
                h.streams.push((s, model.entries(), 0));
            }
        }
        for (s, want, at) in &mut h.streams {
            if cx.rng.pct(20) {
                let got = exec::run(s.next()).map_err(stuck)?;
                let got = match got {
                    Some(Ok(x)) => Some((x.key, x.seq, x.value)),
                    None => None,
                    Some(Err(e)) => return Err(format!("step {n}: an open traversal of handle {i} fails: {}", err_chain(&e))),
                };
                if got.as_ref() != want.get(*at) {
                    return Err(format!("step {n}: an open traversal of handle {i} yields {got:02x?}, expected {:02x?}", want.get(*at)));
                }
                *at = (*at + 1).min(want.len());
            }
        }
        if cx.rng.pct(4) {
            // an operation of this handle is abandoned before it takes effect
            let other = random_op(cx, &keys, &model);
            core.set_policy(Some(Box::new(|op| Decision {
                before: if matches!(op, OpKind::Append(_)) { 1000 } else { 0 },
                verdict: V::Normal,
                after: 0,
            })));
            let mut seen = vec![];
            let h0 = H::Bee(&h.hb);
            match exec::run_partial(perform(&h0, &other, &mut seen), 5).map_err(stuck)? {
                exec::Partial::Done(r) => {
                    let got = r.map_err(|e| format!("{}: {}", other.short(), err_chain(&e)))?;
                    let (want, _) = model.apply(&other);
                    if got != want {
                        return Err(format!("step {n} {}: returned {}, expected {}", other.short(), show(&got), show(&want)));
                    }
                    crate::c_map::allow_header(&other, &mut model, &core);
                }
                exec::Partial::Unfinished(_) => (),
            }
            core.set_policy(None);
        }
        let label = format!("step {n} through handle {i} of {} (last used at {} of {} blocks)", hs.len(), hs[i].used, model.len);
        let h = &mut hs[i];
        cx.t(|| format!("{label}: {}", op.short()));
        cx.id_bytes(op.short().as_bytes());
        cx.id(i as u64);
        let before = model.len;
        {
            let hh = if through_sub { H::Sub(&h.sub) } else { H::Bee(&h.hb) };
            step(&hh, &mut model, &op).map_err(|e| format!("{label}: {e}"))?;
        }
        crate::c_map::allow_header(&op, &mut model, &core);
        cx.obs.add("operations", 1);
        h.used = model.len;
        if model.len > before {
            last_writer = i;
        }
        if core.len() != model.len {
            return Err(format!("{label}: {} blocks in the log, expected {}", core.len(), model.len));
        }
        if n % 8 == 0 {
            let fresh = bee(&core);
            let k = cx.rng.pick(&keys).clone();
            let j = cx.rng.below(hs.len());
            let a = exec::run(hs[j].hb.get(&k)).map_err(stuck)?.map_err(|e| err_chain(&e))?;
            let b = exec::run(fresh.get(&k)).map_err(stuck)?.map_err(|e| err_chain(&e))?;
            if a != b {
                return Err(format!("{label}: then {} gives {a:02x?} through handle {j} and {b:02x?} through a fresh one", Op::Get(k).short()));
            }
            let a = exec::run(hs[j].hb.version()).map_err(stuck)?;
            if a != model.len {
                return Err(format!("{label}: then handle {j} reports version {a}, expected {}", model.len));
            }
            cx.obs.add("comparisons with a fresh handle", 1);
        }
    }
    for (i, h) in hs.iter().enumerate() {
        same(&h.hb, &model, &keys).map_err(|e| format!("in the end handle {i}: {e}"))?;
        if let Some(d) = diff(&collect_ok(&H::Sub(&h.sub), Default::default())?, &model.entries()) {
            return Err(format!("in the end the sub-tree of handle {i} gives {d}"));
        }
    }
    if crossed {
        cx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

static C23: Check = Check {
    id: "C23",
    level: "exploration",
    rule: "a case is a tree with UTF-8 and other keys; after parts of its history height and print are compared with the tree decoded from the log, on plain, suspending and failing storage; non-trivial if the tree has height 2 or more; counted by the hash of the printed tree",
    quick: 3000,
    thorough: 60000,
    run: c23,
    require: &[("trees printed", 10000), ("trees of height 3 and more", 500), ("refused: no root", 500), ("refused: not UTF-8", 1000), ("faults", 3000)],
    assumptions: ASSUME,
};
fn utf8_keys(cx: &mut Ctx, n: usize) -> Vec<Bytes> {
    let parts = ["a", "b", "\u{e9}", "\u{1f41d}", "\t", "\n", " ", "\u{0}", "zz", "0", "\u{7ff}", "\u{ffff}"];
    let mut v: Vec<Bytes> = (0..n)
        .map(|_| {
            let k = cx.rng.below(6);
            (0..k).map(|_| *cx.rng.pick(&parts)).collect::<String>().into_bytes()
        })
        .collect();
    v.sort();
    v.dedup();
    v
}
fn c23(cx: &mut Ctx) -> R {
    let n = *cx.rng.pick(&[1usize, 3, 8, 9, 14, 30, 60, 140, 260, 500]);
    let keys = match cx.rng.below(4) {
        0 => universe(&mut cx.rng, 0, n),
        1 => universe(&mut cx.rng, 3, n),
        2 => any_universe(&mut cx.rng, &[n.min(60)]),
        _ => utf8_keys(cx, n),
    };
    let core = CoreState::in_memory(true, [7; 32]);
    let hb = bee(&core);
    let mut model = Model::default();
    let total = keys.len() * 2;
    let ph = phases(&mut cx.rng, total, 0);
    let mut hist = History::new(keys.clone(), ph);
    let mut view = LogView::default();
    let checks = 6;
    let mut next_check = 0;
    let mut i = 0;
    loop {
        if i >= next_check {
            next_check += (total / checks).max(1);
            view.extend(&core.blocks_from(view.blocks.len() as u64))?;
            let tree = if model.len > 1 { Some(view.tree(model.len - 1)?) } else { None };
            let want: Option<Result<String, ()>> = tree.as_ref().map(|t| {
                let mut s = String::new();
                for ((k, _, _), d) in t.entries.iter().zip(&t.depths) {
                    s += &"\t".repeat(*d);
                    s += std::str::from_utf8(k).map_err(|_| ())?;
                    s += "\n";
                }
                Ok(s)
            });
            let height = tree.as_ref().map_or(0, |t| t.height);
            let cold = bee(&core);
            let before = core.blocks();
            if let Some(Ok(s)) = &want {
                cx.id_bytes(s.as_bytes());
            }
            for (mode, h) in [("plain", &hb), ("cold", &cold), ("suspending", &hb), ("suspending cold", &cold)] {
                if mode == "suspending" {
                    let s = cx.rng.u64();
                    suspending(&core, s, 60);
                }
                let got = exec::run(h.height()).map_err(stuck)?;
                match got {
                    Ok(x) if x == height => (),
                    Ok(x) => return Err(format!("height is {x} ({mode}), but the stored tree has {height} levels")),
                    Err(e) => return Err(format!("height fails ({mode}): {}", err_chain(&e))),
                }
                let got = exec::run(h.print()).map_err(stuck)?;
                match (&want, got) {
                    (None, Err(HyperbeeError::NoRootError)) => cx.obs.add("refused: no root", 1),
                    (Some(Err(())), Err(HyperbeeError::KeyFromUtf8Error(_))) => cx.obs.add("refused: not UTF-8", 1),
                    (Some(Ok(w)), Ok(g)) if *w == g => {
                        cx.obs.add("trees printed", 1);
                        if height >= 3 {
                            cx.obs.add("trees of height 3 and more", 1);
                        }
                        if height >= 2 {
                            cx.nontrivial();
                        }
                    }
                    (w, g) => {
                        return Err(format!("print ({mode}) gives {:?}, expected {w:?}", g.map_err(|e| err_chain(&e))));
                    }
                }
            }
            core.set_policy(None);
            // failing storage gives errors or the truth
            for _ in 0..3 {
                let cold = bee(&core);
                let k = cx.rng.below(12);
                let v = *cx.rng.pick(&[V::ErrBefore, V::Missing]);
                let mut seen = 0;
                let hit = core.counters.faults.load(std::sync::atomic::Ordering::SeqCst);
                core.set_policy(Some(Box::new(move |op| {
                    let go = *op != OpKind::Info;
                    seen += go as usize;
                    Decision { before: 0, verdict: if go && seen == k + 1 { v } else { V::Normal }, after: 0 }
                })));
                if cx.rng.pct(50) {
                    if let Ok(x) = exec::run(cold.height()).map_err(stuck)? {
                        if x != height {
                            return Err(format!("height is {x} on failing storage, the stored tree has {height} levels"));
                        }
                    }
                } else if let Ok(x) = exec::run(cold.print()).map_err(stuck)? {
                    if want != Some(Ok(x.clone())) {
                        return Err(format!("print gives {x:?} on failing storage, expected {want:?} or an error"));
                    }
                }
                core.set_policy(None);
                cx.obs.add("faults", core.counters.faults.load(std::sync::atomic::Ordering::SeqCst) - hit);
            }
            if core.blocks() != before {
                return Err("height or print changed the log".into());
            }
        }
        let Some(op) = hist.next(&mut cx.rng) else { break };
        step(&H::Bee(&hb), &mut model, &op)?;
        i += 1;
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

static C24: Check = Check {
    id: "C24",
    level: "exploration",
    rule: "a case is a tree used through handles, sub-trees and traversals with complete, failing and abandoned operations; all are dropped in random order while the remaining ones are used; then the core, its memory (counted per thread) and its open files must be gone; each case repeats its cycle and requires that nothing grows; non-trivial if a traversal or sub-tree outlived the handle it came from; counted by the hash of the history",
    quick: 3000,
    thorough: 80000,
    run: c24,
    require: &[("cores released", 8000), ("parts used after others were dropped", 10000), ("traversals outliving their handle", 1000), ("directories released", 1000), ("memory balances", 1500)],
    assumptions: ASSUME,
};

fn open_files(dir: &std::path::Path) -> Result<usize, String> {
    let mut n = 0;
    for e in std::fs::read_dir("/proc/self/fd").map_err(|e| format!("HARNESS {e}"))? {
        let Ok(e) = e else { continue };
        if let Ok(p) = std::fs::read_link(e.path()) {
            n += p.starts_with(dir) as usize;
        }
    }
    Ok(n)
}

enum Part {
    Bee(Hyperbee),
    Sub(Prefixed),
    Stream(BoxStream, Vec<Entry>),
}

/// One life of a tree; what remains of it is seen through the returned reference.
fn life(cx: &mut Ctx, dir: Option<&std::path::Path>, keys: &[Bytes], count: bool) -> Result<Weak<CoreState>, String> {
    let (hb, core) = match dir {
        Some(d) => open_dir(d)?,
        None => {
            let core = CoreState::in_memory(true, [7; 32]);
            hypercore::standin::forget_last();
            (bee(&core), core)
        }
    };
    let weak = Arc::downgrade(&core);
    let mut model = Model::default();
    // a directory may hold something already
    if core.len() > 0 {
        let mut v = LogView::default();
        v.extend(&core.blocks())?;
        model.len = core.len();
        if model.len > 1 {
            model.map = v.tree(model.len - 1)?.entries.into_iter().map(|(k, s, v)| (k, (s, v))).collect();
        }
    }
    let mut parts: Vec<Part> = vec![];
    if dir.is_none() && cx.rng.pct(50) {
        parts.push(Part::Bee(bee(&core)));
    }
    parts.push(Part::Sub(hb.sub(b"", whole())));
    parts.push(Part::Sub(hb.sub(b"p", Default::default())));
    parts.push(Part::Bee(hb));
    let use_part = |cx: &mut Ctx, p: &mut Part, model: &mut Model, keys: &[Bytes]| -> R {
        match p {
            Part::Bee(h) => {
                let op = random_op(cx, keys, model);
                step(&H::Bee(h), model, &op)?;
                crate::c_map::allow_header(&op, model, &core);
            }
            Part::Sub(s) => {
                // the two kinds of sub-tree look alike from here: only read
                exec::run(s.get(&keys[0])).map_err(stuck)?.map_err(|e| err_chain(&e))?;
            }
            Part::Stream(s, want) => {
                let got = match exec::run(s.next()).map_err(stuck)? {
                    Some(Ok(x)) => Some((x.key, x.seq, x.value)),
                    Some(Err(e)) => return Err(err_chain(&e)),
                    None => None,
                };
                let w = if want.is_empty() { None } else { Some(want.remove(0)) };
                if got != w {
                    return Err(format!("yields {got:02x?}, expected {w:02x?}"));
                }
            }
        }
        Ok(())
    };
    let n = keys.len() + cx.rng.below(keys.len() * 2);
    for i in 0..n {
        let Some(Part::Bee(h)) = parts.last() else { unreachable!() };
        let op = random_op(cx, keys, &model);
        cx.id_bytes(op.short().as_bytes());
        match cx.rng.below(12) {
            0 => {
                // fails somewhere
                let k = cx.rng.below(8);
                let v = *cx.rng.pick(&[V::ErrBefore, V::ErrAfter, V::Missing]);
                let mut seen = 0;
                core.set_policy(Some(Box::new(move |op| {
                    let go = *op != OpKind::Info;
                    seen += go as usize;
                    Decision { before: 0, verdict: if go && seen == k + 1 { v } else { V::Normal }, after: 0 }
                })));
                let mut calls = vec![];
                let _ = exec::run(perform(&H::Bee(h), &op, &mut calls)).map_err(stuck)?;
            }
            1 | 2 => {
                // abandoned somewhere
                core.set_policy(Some(Box::new(|_| Decision { before: 1, verdict: V::Normal, after: 1 })));
                let k = cx.rng.below(16) as u64;
                let mut calls = vec![];
                let hh = H::Bee(h);
                let p = exec::run_partial(perform(&hh, &op, &mut calls), k).map_err(stuck)?;
                drop(p);
            }
            _ => {
                step(&H::Bee(h), &mut model, &op)?;
                crate::c_map::allow_header(&op, &mut model, &core);
            }
        }
        core.set_policy(None);
        // what became of it
        if core.len() != model.len {
            let mut v = LogView::default();
            v.extend(&core.blocks())?;
            model.len = core.len();
            if model.len > 1 {
                model.map = v.tree(model.len - 1)?.entries.into_iter().map(|(k, s, v)| (k, (s, v))).collect();
            }
        }
        if parts.len() < 9 && cx.rng.pct(8) {
            let Some(Part::Bee(h)) = parts.last() else { unreachable!() };
            let rev = cx.rng.pct(50);
            let conf = Cfg { rev, ..Cfg::all() }.make(false)?;
            if let Some(mut s) = open(&H::Bee(h), conf)? {
                let mut want = model.entries();
                if rev {
                    want.reverse();
                }
                for _ in 0..cx.rng.below(6) {
                    if want.is_empty() {
                        break;
                    }
                    let x = exec::run(s.next()).map_err(stuck)?.ok_or("a traversal ends early")?.map_err(|e| err_chain(&e))?;
                    if (x.key, x.seq, x.value) != want.remove(0) {
                        return Err("a traversal yields something else".into());
                    }
                }
                parts.insert(0, Part::Stream(s, want));
            }
        }
        let _ = i;
    }
    // drop them one after the other, use the rest
    cx.rng.shuffle(&mut parts);
    let mut bees_gone = false;
    while !parts.is_empty() {
        if weak.strong_count() == 0 {
            return Err("the core is gone while handles are alive".into());
        }
        for p in parts.iter_mut() {
            if cx.rng.pct(40) {
                use_part(cx, p, &mut model, keys).map_err(|e| format!("after other parts of the tree were dropped: {e}"))?;
                if count {
                    cx.obs.add("parts used after others were dropped", 1);
                }
            }
        }
        if !bees_gone && !parts.iter().any(|p| matches!(p, Part::Bee(_))) {
            bees_gone = true;
            if parts.iter().any(|p| matches!(p, Part::Stream(..))) {
                if count {
                    cx.obs.add("traversals outliving their handle", 1);
                }
                cx.nontrivial();
            }
        }
        parts.pop();
    }
    drop(parts);
    drop(core);
    Ok(weak)
}

fn c24(cx: &mut Ctx) -> R {
    let keys = any_universe(&mut cx.rng, &[2, 5, 9, 14, 30, 60]);
    let tmp = if cx.case % 4 == 1 { Some(TempDir::new("c24")?) } else { None };
    let dir = tmp.as_ref().map(|t| t.0.join("tree"));
    if let Some(t) = &tmp {
        if open_files(&t.0)? != 0 {
            return Err("HARNESS files open before the case".into());
        }
    }
    for _ in 0..6 {
        let weak = life(cx, dir.as_deref(), &keys, true)?;
        if weak.strong_count() != 0 {
            return Err(format!(
                "after all handles, sub-trees and traversals were dropped the core is still held by {} owners",
                weak.strong_count()
            ));
        }
        cx.obs.add("cores released", 1);
        if let Some(t) = &tmp {
            let n = open_files(&t.0)?;
            if n != 0 {
                return Err(format!("after all handles were dropped {n} files in the storage directory are open"));
            }
            cx.obs.add("directories released", 1);
        }
    }
    // the same life again and again holds no more memory each time
    if dir.is_none() {
        let rng = cx.rng.fork();
        let mut held = vec![];
        for _ in 0..6 {
            let (trace, r) = (cx.trace.len(), std::mem::replace(&mut cx.rng, rng.clone()));
            let w = life(cx, None, &keys, false)?;
            drop(w);
            cx.rng = r;
            cx.trace.truncate(trace);
            held.push(balance::held());
        }
        cx.obs.add("memory balances", 1);
        let (b2, b5) = (held[2], held[5]);
        if b5.1 > b2.1 && b5.0 > b2.0 && held[3].1 > b2.1 && held[4].1 > held[3].1 {
            return Err(format!(
                "each life of a tree leaves memory behind: {} bytes in {} allocations after three more",
                b5.0 - b2.0,
                b5.1 - b2.1
            ));
        }
    }
    let _ = (copy as fn(&CoreState) -> Arc<CoreState>, TraverseConfig::default);
    Ok(())
}
