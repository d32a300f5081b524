//! C05 same bytes as the JavaScript implementation, C06 logs written elsewhere.
use crate::case::*;
use crate::codec::*;
use crate::gen::*;
use crate::model::*;
use crate::refbee::RefBee;
use crate::rng::Rng;
use crate::shape::LogView;
use hypercore::standin::CoreState;

pub const CHECKS: &[&Check] = &[&C05, &C06];

fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(200).map(|x| format!("{x:02x}")).collect();
    if b.len() > 200 {
        s += "..";
    }
    s
}

/// Renumbers a log as if many more blocks had come before block `at`: sequence numbers of every magnitude, cheaply.
#[derive(Clone, Copy, Default)]
pub struct Stretch {
    pub at: u64,
    pub gap: u64,
}
impl Stretch {
    pub fn any(r: &mut Rng, blocks: usize) -> Stretch {
        if blocks < 2 {
            return Stretch::default();
        }
        // lengths of varints, and of the integer and floating-point types a number may pass through
        let edge = 1u64 << *r.pick(&[7u32, 8, 14, 15, 16, 21, 24, 28, 31, 32, 33, 35, 42, 48, 53, 56, 62]);
        let near = r.below(2 * blocks + 2) as u64;
        Stretch { at: r.range(1, blocks - 1) as u64, gap: if r.pct(70) { edge.saturating_sub(near) } else { edge + r.below(1000) as u64 } }
    }
    /// One in which blocks before and after the gap have the same number by some modulus.
    pub fn wrap(r: &mut Rng, blocks: usize) -> Stretch {
        if blocks < 2 {
            return Stretch::default();
        }
        let modulus = if r.pct(85) { 1u64 << r.range(6, 62) } else { 10u64.pow(r.range(2, 18) as u32) };
        let times = if modulus < 1 << 40 && r.pct(30) { r.range(2, 1000) as u64 } else { 1 };
        let near = r.below(2 * blocks + 2) as u64;
        Stretch { at: r.range(1, blocks - 1) as u64, gap: (modulus * times).saturating_sub(near) }
    }
    pub fn on(&self, seq: u64) -> u64 {
        if seq >= self.at && self.gap > 0 {
            seq + self.gap
        } else {
            seq
        }
    }
    fn off(&self, seq: u64) -> u64 {
        if self.gap > 0 && seq >= self.at + self.gap {
            seq - self.gap
        } else {
            seq
        }
    }
    fn block(&self, raw: &[u8], f: impl Fn(u64) -> u64) -> Result<Vec<u8>, String> {
        let mut b = decode_block(raw).ok_or_else(|| format!("block does not decode as a Hyperbee node: {}", hex(raw)))?;
        for l in &mut b.levels {
            l.keys.iter_mut().for_each(|k| *k = f(*k));
            l.children.chunks_mut(2).for_each(|c| c[0] = f(c[0]));
        }
        Ok(encode_node(&encode_index(&b.levels), &b.key, b.value.as_deref()))
    }
    /// The `i`th block, renumbered.
    pub fn block_on(&self, i: usize, raw: &[u8]) -> Result<Vec<u8>, String> {
        if i == 0 || self.gap == 0 {
            return Ok(raw.to_vec());
        }
        self.block(raw, |s| self.on(s))
    }
    pub fn block_off(&self, i: usize, raw: &[u8]) -> Result<Vec<u8>, String> {
        if i == 0 || self.gap == 0 {
            return Ok(raw.to_vec());
        }
        self.block(raw, |s| self.off(s))
    }
    pub fn model(&self, m: &Model) -> Model {
        let mut m = m.clone();
        m.map.values_mut().for_each(|(s, _)| *s = self.on(*s));
        if m.len > self.at {
            m.len += self.gap;
        }
        m
    }
    pub fn core(&self, blocks: &[Vec<u8>]) -> std::sync::Arc<CoreState> {
        if self.gap == 0 || blocks.len() as u64 <= self.at {
            return CoreState::with_blocks(blocks.iter().cloned().map(Some).collect(), true);
        }
        CoreState::with_gap(blocks.to_vec(), self.at as usize, self.gap)
    }
}

/// Compares the blocks the core gained with the reference's.
pub fn same_blocks(core: &CoreState, reference: &RefBee, from: usize, what: &str, st: &Stretch) -> Result<usize, String> {
    let got = core.blocks_from(from as u64);
    let want = &reference.blocks[from..];
    if got.len() != want.len() {
        return Err(format!("{what}: appended {} blocks, the reference appends {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let g = g.as_ref().ok_or("HARNESS missing block")?;
        let w = &st.block_on(from + i, w)?;
        if &***g != w.as_slice() {
            return Err(format!(
                "{what}: block {} is {} = {:?}, the reference writes {} = {:?}",
                from + i,
                hex(g),
                decode_block(g).map(|b| b.levels),
                hex(w),
                decode_block(w).map(|b| b.levels)
            ));
        }
    }
    Ok(got.len())
}

static C05: Check = Check {
    id: "C05",
    level: "exploration",
    rule: "a case is a seeded history of puts and deletes, each appended block compared byte for byte with the one an independent implementation of the JavaScript algorithm writes; non-trivial if blocks with three or more nodes (splits, rotations, merges) were compared; counted by the hash of the history",
    quick: 1600,
    thorough: 40000,
    run: c05,
    require: &[("blocks compared", 50000), ("blocks with three or more new nodes", 5000), ("delete blocks", 10000)],
    assumptions: &[
        "the JavaScript algorithm is represented by an implementation written after its source (no node.js packages offline)",
        "hypercore, replicator, derive_builder and futures-lite are stand-ins (see DESIGN.md)",
    ],
};
fn c05(cx: &mut Ctx) -> R {
    let big = cx.case % 16 == 7;
    let keys = if big {
        any_universe(&mut cx.rng, &[900, 2500])
    } else {
        any_universe(&mut cx.rng, &[1, 3, 9, 10, 12, 14, 25, 45, 60, 90, 140, 260])
    };
    let ops = if big { 5000 } else { (keys.len() * cx.rng.range(2, 7) + 10).min(1500) };
    let core = CoreState::in_memory(true, [7; 32]);
    let hb = bee(&core);
    let h = H::Bee(&hb);
    let mut reference = RefBee::new();
    let mut model = Model::default();
    let ph = phases(&mut cx.rng, ops, 3);
    let mut hist = History::new(keys, ph);
    let mut many = false;
    while let Some(op) = hist.next(&mut cx.rng) {
        if matches!(op, Op::Get(_)) {
            continue;
        }
        cx.t(|| op.short());
        cx.id_bytes(op.short().as_bytes());
        let from = core.len() as usize;
        let mutation = model.is_mutation(&op);
        step(&h, &mut model, &op)?;
        if mutation {
            match &op {
                Op::Put(k, v) | Op::CasPut(k, v, _) => reference.put(k, v.as_deref()),
                Op::Del(k) | Op::CasDel(k, _) => {
                    if !reference.del(k) {
                        return Err("HARNESS reference and model disagree".into());
                    }
                    cx.obs.add("delete blocks", 1);
                }
                Op::Get(_) => (),
            }
        } else if model.len == 0 && core.len() == 1 {
            model.len = 1;
            reference.header(None);
        }
        let n = same_blocks(&core, &reference, from, &op.short(), &Stretch::default())?;
        cx.obs.add("blocks compared", n as u64);
        if mutation {
            let nodes = decode_block(reference.blocks.last().unwrap()).map_or(0, |b| b.levels.len());
            cx.obs.max("nodes in a block", nodes as u64);
            if nodes >= 3 {
                cx.obs.add("blocks with three or more new nodes", 1);
                many = true;
            }
        }
    }
    if many {
        cx.nontrivial();
    }
    Ok(())
}

static C06: Check = Check {
    id: "C06",
    level: "exploration",
    rule: "a case is a log not written by this crate (the reference's, with batches and header metadata, or one whose tree has a random valid shape spread over random blocks), also renumbered as if up to 2^62 blocks came before, opened, compared with the map it stores, and extended by a seeded history checked like C01 and C03; non-trivial if the log has an inner node; counted by the hash of the log",
    quick: 3200,
    thorough: 80000,
    run: c06,
    require: &[("logs opened", 300), ("entries read", 10000), ("operations after opening", 10000), ("versions reopened", 500), ("logs with large sequence numbers", 150)],
    assumptions: C05.assumptions,
};

struct Shape {
    keys: Vec<u64>,
    kids: Vec<usize>,
    /// highest block the subtree's entries need
    need: u64,
    at: (u64, u64),
}
/// A tree of random valid shape over `entries` (sorted seqs), returned as nodes; the last is the root.
fn random_tree(r: &mut Rng, seqs: &[u64]) -> Vec<Shape> {
    // bottom up: cut a level into nodes of 4..=8 keys with single keys between them
    let mut nodes: Vec<Shape> = vec![];
    let mut kids: Vec<usize> = vec![];
    let mut keys: Vec<u64> = seqs.to_vec();
    loop {
        if keys.len() <= 8 && (keys.len() < 4 || kids.is_empty() || r.pct(50)) || keys.len() < 9 {
            let need = keys.iter().copied().chain(kids.iter().map(|k| nodes[*k].need)).max().unwrap_or(0);
            nodes.push(Shape { keys, kids, need, at: (0, 0) });
            return nodes;
        }
        // sizes: groups of 4..=8 keys separated by one key each
        let n = keys.len();
        let bias = r.below(3);
        let sizes = loop {
            let mut sizes = vec![];
            let mut left = n;
            loop {
                if left <= 8 {
                    sizes.push(left);
                    break;
                }
                let hi = 8.min(left - 5);
                let s = match bias {
                    0 => 4,
                    1 => hi,
                    _ => r.range(4, hi),
                };
                sizes.push(s);
                left -= s + 1;
            }
            if sizes.iter().all(|s| (4..=8).contains(s)) && sizes.len() > 1 {
                break sizes;
            }
        };
        let (mut up_keys, mut up_kids) = (vec![], vec![]);
        let mut at = 0;
        for (i, s) in sizes.iter().enumerate() {
            let ks = keys[at..at + s].to_vec();
            let cs = if kids.is_empty() { vec![] } else { kids[at..at + s + 1].to_vec() };
            let need = ks.iter().copied().chain(cs.iter().map(|k| nodes[*k].need)).max().unwrap();
            nodes.push(Shape { keys: ks, kids: cs, need, at: (0, 0) });
            up_kids.push(nodes.len() - 1);
            at += s;
            if i + 1 < sizes.len() {
                up_keys.push(keys[at]);
                at += 1;
            }
        }
        keys = up_keys;
        kids = up_kids;
    }
}

/// A log whose last block's tree has a random valid shape; every block before it is part of one batch.
pub fn random_log(r: &mut Rng, keys: &[Bytes]) -> (Vec<Vec<u8>>, Model) {
    let mut blocks = vec![encode_header(None)];
    let mut model = Model::default();
    // entries in a random order, with blocks of deleted keys strewn in
    let mut order: Vec<usize> = (0..keys.len()).collect();
    r.shuffle(&mut order);
    let junk = if r.pct(50) { keys.len() / 3 } else { 0 };
    let mut kv: Vec<(Bytes, Option<Bytes>)> = vec![(vec![], None)];
    let mut i = 0;
    let mut junked = 0;
    while i < order.len() {
        if junked < junk && r.pct(25) {
            junked += 1;
            kv.push((r.bytes(3), None));
            continue;
        }
        let k = keys[order[i]].clone();
        let v = value(r, i as u64);
        model.map.insert(k.clone(), (kv.len() as u64, v.clone()));
        kv.push((k, v));
        i += 1;
    }
    let last = kv.len() as u64 - 1;
    let seqs: Vec<u64> = model.map.values().map(|(s, _)| *s).collect();
    let mut nodes = random_tree(r, &seqs);
    let root = nodes.len() - 1;
    let spread = r.pct(60);
    // parents come after children; a node's block is at least its children's
    let mut levels: Vec<Vec<usize>> = vec![vec![]; last as usize + 1];
    for n in 0..nodes.len() {
        let need = nodes[n].kids.iter().map(|k| nodes[*k].at.0).max().unwrap_or(0).max(nodes[n].need);
        let at = if n == root || !spread { last } else { need + r.below((last - need) as usize + 1) as u64 };
        nodes[n].at.0 = at;
        levels[at as usize].push(n);
    }
    for (b, ns) in levels.iter_mut().enumerate() {
        r.shuffle(ns);
        if b as u64 == last {
            let i = ns.iter().position(|n| *n == root).unwrap();
            ns.swap(0, i);
        }
        for (o, n) in ns.iter().enumerate() {
            nodes[*n].at.1 = o as u64;
        }
    }
    for b in 1..=last as usize {
        let ls: Vec<Level> = levels[b]
            .iter()
            .map(|n| Level {
                keys: nodes[*n].keys.clone(),
                children: nodes[*n].kids.iter().flat_map(|k| [nodes[*k].at.0, nodes[*k].at.1]).collect(),
            })
            .collect();
        blocks.push(encode_node(&encode_index(&ls), &kv[b].0, kv[b].1.as_deref()));
    }
    model.len = blocks.len() as u64;
    (blocks, model)
}

fn c06(cx: &mut Ctx) -> R {
    let big = cx.case % 16 == 7;
    let huge = cx.case % 400 == 11;
    let keys = if huge {
        let n = *cx.rng.pick(&[20000usize, 40000, 70000]);
        let kind = *cx.rng.pick(&[0usize, 2, 5]);
        universe(&mut cx.rng, kind, n)
    } else if big {
        any_universe(&mut cx.rng, &[500, 1500])
    } else {
        any_universe(&mut cx.rng, &[1, 3, 8, 9, 10, 14, 25, 45, 60, 90, 140, 260])
    };
    let shaped = huge || cx.rng.pct(50);
    let mut model = Model::default();
    let mut reference = RefBee::new();
    let mut versions: Vec<(usize, Model)> = vec![];
    let mut blocks;
    if shaped {
        let mut some = keys.clone();
        if cx.rng.pct(50) {
            some = some.into_iter().filter(|_| cx.rng.pct(80)).collect();
        }
        if some.is_empty() {
            some.push(keys[0].clone());
        }
        (blocks, model) = random_log(&mut cx.rng, &some);
        if cx.rng.pct(50) {
            blocks[0] = encode_header(Some((Some(&[1; 32]), Some(b"user data"))));
        }
        versions.push((blocks.len(), model.clone()));
    } else {
        match cx.rng.below(4) {
            0 => reference.header(Some((Some(&[7; 32]), None))),
            1 => reference.header(Some((None, Some(b"\xff\x00meta")))),
            2 => reference.header(Some((Some(&[]), Some(&[])))),
            _ => (),
        }
        let ops = (keys.len() * cx.rng.range(1, 4)).min(if big { 3000 } else { 600 });
        let ph = phases(&mut cx.rng, ops, 0);
        let mut hist = History::new(keys.clone(), ph);
        let mut left_in_batch = 0;
        model.len = reference.blocks.len() as u64;
        while let Some(op) = hist.next(&mut cx.rng) {
            if left_in_batch == 0 && cx.rng.pct(10) {
                reference.begin_batch();
                model.len = model.len.max(1);
                left_in_batch = cx.rng.range(1, 20);
            }
            if !model.is_mutation(&op) {
                continue;
            }
            model.apply(&op);
            match &op {
                Op::Put(k, v) => reference.put(k, v.as_deref()),
                Op::Del(k) => {
                    reference.del(k);
                }
                _ => (),
            }
            if left_in_batch > 0 {
                left_in_batch -= 1;
                if left_in_batch == 0 {
                    reference.flush();
                    cx.obs.add("batches", 1);
                }
            }
            if left_in_batch == 0 && cx.rng.pct(3) {
                versions.push((model.len as usize, model.clone()));
            }
        }
        if left_in_batch > 0 {
            if reference.batch_len() > 0 {
                reference.flush();
            } else {
                reference.abandon_batch();
            }
        }
        if reference.blocks.is_empty() {
            reference.header(None);
            model.len = 1;
        }
        blocks = reference.blocks.clone();
        if blocks.len() as u64 != model.len {
            return Err(format!("HARNESS reference log {} model {}", blocks.len(), model.len));
        }
    }
    for b in &blocks {
        cx.id_bytes(b);
    }
    cx.t(|| format!("log of {} blocks, shaped {shaped}, {} entries", blocks.len(), model.map.len()));
    if blocks.len() > 1 {
        let root = decode_block(blocks.last().unwrap()).ok_or("HARNESS undecodable")?;
        if root.levels.first().is_some_and(|l| !l.children.is_empty()) {
            cx.nontrivial();
        }
    }
    // and the same log far up
    let mut st = Stretch::default();
    if cx.rng.pct(40) {
        st = Stretch::any(&mut cx.rng, blocks.len());
        for (i, b) in blocks.iter_mut().enumerate() {
            *b = st.block_on(i, b).map_err(|e| format!("HARNESS {e}"))?;
        }
        model = st.model(&model);
        for (_, m) in &mut versions {
            *m = st.model(m);
        }
        cx.t(|| format!("{} blocks missing before block {}", st.gap, st.at));
        cx.obs.add("logs with large sequence numbers", 1);
    }
    let core = st.core(&blocks);
    let hb = bee(&core);
    let mut probe = keys.clone();
    if huge {
        cx.rng.shuffle(&mut probe);
    }
    probe.truncate(300);
    same(&hb, &model, &probe).map_err(|e| format!("right after opening: {e}"))?;
    cx.obs.add("logs opened", 1);
    cx.obs.add("entries read", model.map.len() as u64);
    // go on writing
    let ops = (keys.len() * 2 + 10).min(300);
    let ph = phases(&mut cx.rng, ops, 5);
    let mut hist = History::new(keys.clone(), ph);
    let h = H::Bee(&hb);
    let mut view = LogView::default();
    let renumbered = |from: usize| -> Result<Vec<Option<std::sync::Arc<Vec<u8>>>>, String> {
        let new = core.blocks_from(from as u64);
        new.into_iter()
            .enumerate()
            .map(|(i, b)| Ok(Some(std::sync::Arc::new(st.block_off(from + i, &b.ok_or("HARNESS missing block")?)?))))
            .collect()
    };
    view.extend(&renumbered(0)?).map_err(|e| format!("HARNESS {e}"))?;
    if blocks.len() > 1 {
        let t = view.tree(blocks.len() as u64 - 1).map_err(|e| format!("HARNESS {e}"))?;
        cx.obs.max("height", t.height as u64);
    }
    while let Some(op) = hist.next(&mut cx.rng) {
        cx.t(|| op.short());
        let from = (core.len() - st.gap) as usize;
        let mutation = model.is_mutation(&op);
        step(&h, &mut model, &op)?;
        cx.obs.add("operations after opening", 1);
        if !shaped && mutation {
            match &op {
                Op::Put(k, v) | Op::CasPut(k, v, _) => reference.put(k, v.as_deref()),
                Op::Del(k) | Op::CasDel(k, _) => {
                    reference.del(k);
                }
                _ => (),
            }
            same_blocks(&core, &reference, from, &op.short(), &st)?;
        }
        if mutation {
            view.extend(&renumbered(from)?)?;
            if model.map.len() < 100 || !huge && cx.rng.pct(3) {
                let t = view.tree(view.blocks.len() as u64 - 1).map_err(|e| format!("{}: {e}", op.short()))?;
                let entries: Vec<Entry> = t.entries.into_iter().map(|(k, s, v)| (k, st.on(s), v)).collect();
                if let Some(d) = diff(&entries, &model.entries()) {
                    return Err(format!("{}: the stored tree has {d}", op.short()));
                }
            }
        }
        if cx.rng.pct(2) {
            versions.push(((model.len - st.gap) as usize, model.clone()));
        }
    }
    same(&hb, &model, &probe)?;
    let all: Vec<Vec<u8>> = core.blocks().into_iter().flatten().map(|b| b.to_vec()).collect();
    for (n, m) in versions.iter().take(6) {
        let old = st.core(&all[..*n]);
        same(&bee(&old), m, &probe[..probe.len().min(20)]).map_err(|e| format!("log cut to {n} blocks: {e}"))?;
        cx.obs.add("versions reopened", 1);
    }
    Ok(())
}
