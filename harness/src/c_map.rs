//! C01 ordered map, C02 compare-and-swap, C03 B-tree shape, C04 append-only history.
use crate::case::*;
use crate::exec;
use crate::gen::*;
use crate::model::*;
use crate::shape::LogView;
use hypercore::standin::{CoreState, Decision};
use std::future::Future;
use std::sync::Arc;
use std::task::Poll;

pub const CHECKS: &[&Check] = &[&C01, &C02, &C03, &C04];

/// Sizes that give histories from a single node to trees of height five and more.
fn sizes(cx: &mut Ctx, max_ops: usize) -> (Vec<Bytes>, usize) {
    let big = cx.case % 16 == 7;
    let keys = if big {
        any_universe(&mut cx.rng, &[900, 2500])
    } else {
        any_universe(&mut cx.rng, &[1, 2, 5, 9, 10, 14, 25, 45, 60, 90, 140, 260])
    };
    let ops = if big { max_ops * 4 } else { (keys.len() * cx.rng.range(2, 6) + 10).min(max_ops) };
    (keys, ops)
}

/// An empty log may gain its header through a rejected conditional put.
pub fn allow_header(op: &Op, model: &mut Model, core: &CoreState) {
    if matches!(op, Op::CasPut(_, _, false)) && model.len == 0 {
        model.len = core.len().min(1);
    }
}

static C01: Check = Check {
    id: "C01",
    level: "exploration",
    rule: "a case is a seeded history of puts, gets and deletes over one of seven key families (1 to 2500 keys), each result and, at intervals, the whole content compared with an ordered-map model; non-trivial if it replaced or deleted an entry; counted by the hash of the history",
    quick: 1600,
    thorough: 40000,
    run: c01,
    require: &[("deletes that hit", 5000), ("replacements", 5000), ("histories reaching height 4", 5), ("operations with megabytes", 200)],
    assumptions: &["hypercore, replicator, derive_builder and futures-lite are stand-ins (see DESIGN.md)"],
};
/// Keys and values of megabytes (their lengths take three or four bytes).
fn c01_huge(cx: &mut Ctx) -> R {
    let core = CoreState::in_memory(true, [7; 32]);
    let hb = bee(&core);
    let h = H::Bee(&hb);
    let mut model = Model::default();
    let sizes = [1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 5, 65536, 3 << 20];
    let mut keys: Vec<Bytes> = vec![];
    for i in 0..cx.rng.range(2, 6) {
        // long keys that differ in the last byte only, or not at all but in length
        let mut k = vec![b'k'; *cx.rng.pick(&[3usize, 300, 16384, 1 << 20, 1 << 21])];
        k.push(i as u8);
        keys.push(k);
    }
    for n in 0..12 {
        let k = cx.rng.pick(&keys).clone();
        let op = match cx.rng.below(4) {
            0 if n > 4 => Op::Del(k),
            1 => Op::Get(k),
            _ => {
                let mut v = cx.rng.bytes(64);
                v.resize(*cx.rng.pick(&sizes), n);
                Op::Put(k, Some(v))
            }
        };
        cx.t(|| op.short());
        cx.id(op.key().len() as u64);
        step(&h, &mut model, &op)?;
        cx.obs.add("operations with megabytes", 1);
    }
    cx.id(cx.case);
    cx.nontrivial();
    for hb in [&hb, &bee(&core)] {
        for k in &keys {
            step(&H::Bee(hb), &mut model, &Op::Get(k.clone()))?;
        }
        if let Some(d) = diff(&collect_ok(&H::Bee(hb), Default::default())?, &model.entries()) {
            return Err(format!("a traversal gives {d}").chars().take(400).collect());
        }
    }
    Ok(())
}

fn c01(cx: &mut Ctx) -> R {
    if cx.case % 40 == 9 {
        return c01_huge(cx);
    }
    let (keys, ops) = sizes(cx, 1500);
    let core = CoreState::in_memory(true, [7; 32]);
    let hb = bee(&core);
    let h = H::Bee(&hb);
    let mut model = Model::default();
    let ph = phases(&mut cx.rng, ops, 0);
    let mut hist = History::new(keys.clone(), ph);
    let every = (keys.len() / 2).max(8);
    let (mut n, mut changed) = (0usize, false);
    // keys that are never stored: neighbours of stored ones
    let mut foreign: Vec<Bytes> = vec![];
    for k in keys.iter().take(40) {
        let mut a = k.clone();
        a.push(0);
        foreign.push(a);
        let mut b = k.clone();
        if let Some(l) = b.pop() {
            foreign.push(b.clone());
            b.push(l.wrapping_add(1));
            foreign.push(b);
        }
    }
    foreign.retain(|k| keys.binary_search(k).is_err());
    let mut hmax = 0;
    while let Some(op) = hist.next(&mut cx.rng) {
        cx.t(|| op.short());
        cx.id_bytes(op.short().as_bytes());
        let before = model.map.len();
        let out = step(&h, &mut model, &op)?;
        match out {
            Out::Put(Some(_), Some(_)) => {
                cx.obs.add("replacements", 1);
                changed = true
            }
            Out::Put(..) => cx.obs.add("insertions", 1),
            Out::Del(Some(_)) => {
                cx.obs.add("deletes that hit", 1);
                changed = true
            }
            Out::Del(None) => cx.obs.add("deletes that miss", 1),
            Out::Got(Some(_)) => cx.obs.add("gets that hit", 1),
            Out::Got(None) => cx.obs.add("gets that miss", 1),
        }
        // the key just touched, and a random one
        if cx.rng.pct(30) {
            step(&h, &mut model, &Op::Get(op.key().clone()))?;
            let k = cx.rng.pick(&keys).clone();
            step(&h, &mut model, &Op::Get(k))?;
        }
        let _ = before;
        n += 1;
        if n % every == 0 {
            cx.t(|| "compare everything".into());
            same(&hb, &model, &keys)?;
            same(&bee(&core), &model, &foreign)?;
            let ht = exec::run(hb.height()).map_err(stuck)?.map_err(|e| e.to_string())?;
            hmax = hmax.max(ht as u64);
        }
    }
    same(&hb, &model, &keys)?;
    same(&bee(&core), &model, &keys)?;
    same(&hb, &model, &foreign)?;
    cx.obs.max("height", hmax);
    cx.obs.max("entries", model.map.len() as u64);
    if hmax >= 4 {
        cx.obs.add("histories reaching height 4", 1);
    }
    if changed {
        cx.nontrivial();
    }
    Ok(())
}

static C02: Check = Check {
    id: "C02",
    level: "exploration",
    rule: "a case is a seeded history in which most mutations are conditional, with accepting and rejecting predicates; predicate arguments and calls, results, log and content are compared with the model after every operation; non-trivial if a predicate was rejected on a present key; counted by the hash of the history",
    quick: 2400,
    thorough: 60000,
    run: c02,
    require: &[("predicates rejected", 5000), ("predicates accepted", 5000), ("conditional deletes of absent keys", 500), ("predicates that panicked", 2000), ("writes at the same time as a panicking predicate", 500)],
    assumptions: C01.assumptions,
};
/// A conditional write whose predicate panics, sometimes with another write waiting for it.
fn predicate_panics(cx: &mut Ctx, hb: &hyperbee::Hyperbee, core: &Arc<CoreState>, model: &mut Model, keys: &[Bytes]) -> R {
    use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
    let (k, other) = (cx.rng.pick(keys).clone(), cx.rng.pick(keys).clone());
    let del = cx.rng.pct(50);
    let present = model.map.contains_key(&k);
    let what = format!("a conditional {} of {} key whose predicate panics", if del { "delete" } else { "put" }, if present { "a present" } else { "an absent" });
    cx.t(|| what.clone());
    let waiting = cx.rng.pct(50);
    let polls = cx.rng.below(6) as u64;
    if waiting {
        core.set_policy(Some(Box::new(|_| Decision { before: 1, verdict: hypercore::standin::Verdict::Normal, after: 1 })));
    }
    let mut first: std::pin::Pin<Box<dyn Future<Output = Result<String, hyperbee::HyperbeeError>> + '_>> = if del {
        Box::pin(async { hb.del_compare_and_swap(&k, |_| resume_unwind(Box::new(()))).await.map(|r| format!("{r:?}")) })
    } else {
        Box::pin(async { hb.put_compare_and_swap(&k, Some(b"never"), |_, _| resume_unwind(Box::new(()))).await.map(|r| format!("{r:?}")) })
    };
    let op = Op::Put(other, Some(b"waited".to_vec()));
    let mut seen = vec![];
    let before = core.blocks();
    let h = H::Bee(hb);
    let mut second = Box::pin(perform(&h, &op, &mut seen));
    let (mut one, mut two) = (None, None);
    // both on one task, the second beginning after the first was polled some times
    let mut round = 0;
    let end = exec::run(std::future::poll_fn(|c| {
        if one.is_none() {
            match catch_unwind(AssertUnwindSafe(|| first.as_mut().poll(c))) {
                Ok(Poll::Ready(r)) => one = Some(Ok(r)),
                Ok(Poll::Pending) => (),
                Err(p) => one = Some(Err(p)),
            }
            if one.is_some() {
                // as when a task unwinds: what it held is released
                first = Box::pin(std::future::pending());
            }
        }
        if waiting && two.is_none() && (round >= polls || one.is_some()) {
            if let Poll::Ready(r) = second.as_mut().poll(c) {
                two = Some(r);
            }
        }
        round += 1;
        if one.is_some() && (!waiting || two.is_some()) { Poll::Ready(()) } else { Poll::Pending }
    }));
    drop((first, second));
    if let Err(e) = end {
        return Err(format!("{what}{}: {e}", if waiting { ", with a put at the same time" } else { "" }));
    }
    match one.unwrap() {
        Ok(Ok(x)) if del && !present => {
            if x != "None" {
                return Err(format!("{what}: returned {x}"));
            }
        }
        Ok(r) => return Err(format!("{what}: ended with {r:?}, the panic did not reach the caller")),
        Err(p) if p.downcast_ref::<()>().is_none() => resume_unwind(p),
        Err(_) => {
            cx.obs.add("predicates that panicked", 1);
            cx.obs.add("writes at the same time as a panicking predicate", waiting as u64);
        }
    }
    if let Some(r) = two {
        let got = r.map_err(|e| format!("{what}, the put at the same time failed: {}", err_chain(&e)))?;
        let (want, _) = model.apply(&op);
        if got != want {
            return Err(format!("{what}, the put at the same time returned {}, expected {}", show(&got), show(&want)));
        }
    }
    core.set_policy(None);
    if model.len == 0 && core.len() == 1 {
        model.len = 1;
    }
    let after = core.blocks();
    if core.len() != model.len || after[..before.len()] != before[..] {
        return Err(format!("{what}: the log has {} blocks, expected {}", core.len(), model.len));
    }
    step(&h, model, &Op::Get(k)).map(|_| ())
}

fn c02(cx: &mut Ctx) -> R {
    let (keys, ops) = sizes(cx, 900);
    let core = CoreState::in_memory(true, [7; 32]);
    let hb = bee(&core);
    let sub = hb.sub(b"s", Default::default());
    let mut model = Model::default();
    let ph = phases(&mut cx.rng, ops, 75);
    let mut hist = History::new(keys.clone(), ph);
    let mut rejected = false;
    let use_sub = cx.rng.pct(25);
    while let Some(op) = hist.next(&mut cx.rng) {
        cx.t(|| op.short());
        cx.id_bytes(op.short().as_bytes());
        let present = model.map.contains_key(op.key());
        if use_sub {
            // the same through a sub-tree: predicates see full keys
            let mut seen = vec![];
            let got = exec::run(perform(&H::Sub(&sub), &op, &mut seen))
                .map_err(stuck)?
                .map_err(|e| format!("{}: failed without a storage fault: {}", op.short(), err_chain(&e)))?;
            let (want, _) = model.apply(&op);
            if got != want {
                return Err(format!("sub-tree {}: returned {}, expected {}", op.short(), show(&got), show(&want)));
            }
            let calls = match op {
                Op::CasPut(..) => 1,
                Op::CasDel(..) => present as usize,
                _ => 0,
            };
            if seen.len() != calls {
                return Err(format!("sub-tree {}: predicate called {} times, expected {calls}", op.short(), seen.len()));
            }
        } else {
            step(&H::Bee(&hb), &mut model, &op)?;
        }
        allow_header(&op, &mut model, &core);
        match &op {
            Op::CasPut(_, _, y) | Op::CasDel(_, y) => {
                if matches!(op, Op::CasDel(..)) && !present {
                    cx.obs.add("conditional deletes of absent keys", 1);
                } else if *y {
                    cx.obs.add("predicates accepted", 1);
                } else {
                    cx.obs.add("predicates rejected", 1);
                    rejected |= present;
                }
            }
            _ => cx.obs.add("plain operations", 1),
        }
        if !use_sub && cx.rng.pct(6) {
            predicate_panics(cx, &hb, &core, &mut model, &keys)?;
        }
        // the log: unchanged, or longer by exactly what the model says
        if core.len() != model.len {
            return Err(format!("{}: the log has {} blocks, expected {}", op.short(), core.len(), model.len));
        }
        // content through the same and (sometimes) a fresh handle
        let k = op.key();
        if !use_sub {
            step(&H::Bee(&hb), &mut model, &Op::Get(k.clone()))?;
            if cx.rng.pct(4) {
                let probe: Vec<Bytes> = (0..10).map(|_| cx.rng.pick(&keys).clone()).collect();
                if keys.len() < 200 || cx.rng.pct(10) {
                    same(&hb, &model, &probe)?;
                    same(&bee(&core), &model, &probe)?;
                }
            }
        } else {
            step(&H::Sub(&sub), &mut model, &Op::Get(k.clone()))?;
        }
    }
    if !use_sub {
        same(&hb, &model, &keys)?;
        same(&bee(&core), &model, &keys)?;
    }
    if rejected {
        cx.nontrivial();
    }
    Ok(())
}

static C03: Check = Check {
    id: "C03",
    level: "exploration",
    rule: "a case is a seeded history of puts and deletes; after every append the new block, and at intervals the whole stored tree, is decoded by an independent decoder and checked (order, fill, depth, references, no unused node, entries equal to the model); non-trivial if the tree reached two levels and shrank again; counted by the hash of the history",
    quick: 1600,
    thorough: 40000,
    run: c03,
    require: &[("blocks checked", 50000), ("whole trees checked", 10000), ("height decreases", 50), ("height increases", 300)],
    assumptions: C01.assumptions,
};
fn c03(cx: &mut Ctx) -> R {
    let (keys, ops) = sizes(cx, 1200);
    let core = CoreState::in_memory(true, [7; 32]);
    let hb = bee(&core);
    let h = H::Bee(&hb);
    let mut model = Model::default();
    let ph = phases(&mut cx.rng, ops, 5);
    let mut hist = History::new(keys.clone(), ph);
    let mut view = LogView::default();
    let mut height = 0usize;
    let mut shrank = false;
    let mut n = 0;
    while let Some(op) = hist.next(&mut cx.rng) {
        if matches!(op, Op::Get(_)) {
            continue;
        }
        cx.t(|| op.short());
        cx.id_bytes(op.short().as_bytes());
        step(&h, &mut model, &op)?;
        allow_header(&op, &mut model, &core);
        let from = view.blocks.len();
        view.extend(&core.blocks_from(from as u64)).map_err(|e| format!("{}: {e}", op.short()))?;
        let len = view.blocks.len();
        for at in from.max(1)..len {
            cx.obs.add("blocks checked", 1);
            view.check_block(at as u64, 3 * (height + 1) + 2).map_err(|e| format!("{}: {e}", op.short()))?;
        }
        n += 1;
        let small = model.map.len() <= 60;
        if len > 1 && len > from && (small || n % 25 == 0 || cx.rng.pct(1)) {
            let t = view.tree(len as u64 - 1).map_err(|e| format!("{}: {e}", op.short()))?;
            cx.obs.add("whole trees checked", 1);
            cx.obs.add("nodes checked", t.nodes as u64);
            if let Some(d) = diff(&t.entries, &model.entries()) {
                return Err(format!("{}: the stored tree has {d}", op.short()));
            }
            if t.height > height && height > 0 {
                cx.obs.add("height increases", 1);
            }
            if t.height < height {
                cx.obs.add("height decreases", 1);
                shrank = true;
            }
            height = t.height;
            cx.obs.max("height", height as u64);
        }
    }
    if view.blocks.len() > 1 {
        let t = view.tree(view.blocks.len() as u64 - 1)?;
        if let Some(d) = diff(&t.entries, &model.entries()) {
            return Err(format!("the stored tree has {d}"));
        }
    }
    if shrank {
        cx.nontrivial();
    }
    Ok(())
}

static C04: Check = Check {
    id: "C04",
    level: "exploration",
    rule: "a case is a seeded history mixing mutations with reads, no-ops and rejected conditional operations; every operation's appends are counted, all blocks are compared with their first content, and sampled prefixes of the log are opened and compared with the model of that version; non-trivial if versions with deletions were reopened; counted by the hash of the history",
    quick: 1200,
    thorough: 30000,
    run: c04,
    require: &[("operations that must not append", 20000), ("versions reopened", 1500), ("appending operations", 20000)],
    assumptions: C01.assumptions,
};
fn c04(cx: &mut Ctx) -> R {
    let (keys, ops) = sizes(cx, 700);
    let core = CoreState::in_memory(true, [7; 32]);
    let hb = bee(&core);
    let h = H::Bee(&hb);
    let mut model = Model::default();
    let ph = phases(&mut cx.rng, ops, 20);
    let mut hist = History::new(keys.clone(), ph);
    let mut versions: Vec<(u64, Model)> = vec![];
    let keep = cx.rng.range(2, 12) as u32;
    let mut dels = false;
    let mut n = 0;
    let appends = |c: &CoreState| c.counters.appends.load(std::sync::atomic::Ordering::SeqCst);
    while let Some(op) = hist.next(&mut cx.rng) {
        cx.t(|| op.short());
        cx.id_bytes(op.short().as_bytes());
        let before = core.blocks();
        let a0 = appends(&core);
        let mutation = model.is_mutation(&op);
        step(&h, &mut model, &op)?;
        allow_header(&op, &mut model, &core);
        let after = core.blocks();
        if after.len() as u64 != model.len {
            return Err(format!(
                "{}: the log went from {} to {} blocks, expected {}",
                op.short(),
                before.len(),
                after.len(),
                model.len
            ));
        }
        if after[..before.len()] != before[..] {
            return Err(format!("{}: an existing block changed", op.short()));
        }
        let made = appends(&core) - a0;
        let expect = if mutation { 1 + (before.is_empty()) as u64 } else { (after.len() - before.len()) as u64 };
        if made != expect {
            return Err(format!("{}: {made} appends, expected {expect}", op.short()));
        }
        cx.obs.add(if mutation { "appending operations" } else { "operations that must not append" }, 1);
        let v = exec::run(hb.version()).map_err(stuck)?;
        if v != model.len {
            return Err(format!("{}: version is {v} with {} blocks", op.short(), model.len));
        }
        n += 1;
        // reads of other kinds do not append either
        if n % 16 == 0 {
            let a0 = appends(&core);
            collect_ok(&h, Default::default())?;
            let _ = exec::run(hb.height()).map_err(stuck)?;
            let _ = exec::run(hb.print()).map_err(stuck)?;
            let k = cx.rng.pick(&keys).clone();
            let sub = hb.sub(b"x", Default::default());
            step(&H::Sub(&sub), &mut Model::default(), &Op::Get([&k[..], b"-"].concat())).map_err(|e| format!("in sub-tree x: {e}"))
                .or_else(|e| if e.contains("failed") { Err(e) } else { Ok(Out::Got(None)) })?;
            collect_ok(&H::Sub(&sub), Default::default())?;
            if appends(&core) != a0 || core.len() != model.len {
                return Err("a read appended to the log".into());
            }
            cx.obs.add("operations that must not append", 5);
        }
        if mutation && cx.rng.pct(keep) {
            dels |= matches!(op, Op::Del(_) | Op::CasDel(..));
            versions.push((model.len, model.clone()));
        }
        if versions.len() > 24 {
            let i = cx.rng.below(versions.len());
            versions.swap_remove(i);
        }
    }
    // all versions, long after they were written
    let blocks: Vec<Option<Vec<u8>>> = core.blocks().into_iter().map(|b| b.map(|b| b.to_vec())).collect();
    for (len, m) in &versions {
        let old = CoreState::with_blocks(blocks[..*len as usize].to_vec(), true);
        let mut probe = keys.clone();
        cx.rng.shuffle(&mut probe);
        probe.truncate(25);
        same(&bee(&old), m, &probe).map_err(|e| format!("log cut to its first {len} blocks: {e}"))?;
        cx.obs.add("versions reopened", 1);
    }
    // the tree in each block is readable too, by the independent decoder
    let mut view = LogView::default();
    view.extend(&core.blocks())?;
    for (len, m) in &versions {
        let t = view.tree(len - 1)?;
        if let Some(d) = diff(&t.entries, &m.entries()) {
            return Err(format!("the tree of block {} has {d}", len - 1));
        }
    }
    if dels && !versions.is_empty() {
        cx.nontrivial();
    }
    Ok(())
}
