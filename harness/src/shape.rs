//! Reads the tree out of raw blocks and checks that it is a B-tree.
use crate::codec::*;
use std::sync::Arc;

#[derive(Default)]
pub struct LogView {
    pub blocks: Vec<Option<Block>>,
}

#[derive(Debug, Default, Clone)]
pub struct TreeInfo {
    pub height: usize,
    /// (key, seq, value), in tree order
    pub entries: Vec<(Vec<u8>, u64, Option<Vec<u8>>)>,
    pub nodes: usize,
    /// nodes of the last block that the root reaches
    pub fresh: usize,
    /// (depth, key), in tree order
    pub depths: Vec<usize>,
}

impl LogView {
    /// Takes in blocks appended since the last call.
    pub fn extend(&mut self, new: &[Option<Arc<Vec<u8>>>]) -> Result<(), String> {
        for b in new {
            let i = self.blocks.len();
            if i == 0 {
                self.blocks.push(None);
                continue;
            }
            let raw = b.as_ref().ok_or_else(|| format!("block {i} is missing"))?;
            let d = decode_block(raw).ok_or_else(|| format!("block {i} does not decode as a Hyperbee node: {raw:02x?}"))?;
            self.blocks.push(Some(d));
        }
        Ok(())
    }
    fn node(&self, at: u64, seq: u64, off: u64) -> Result<&Level, String> {
        if seq > at || seq == 0 {
            return Err(format!("a node in the tree of block {at} refers to block {seq}"));
        }
        self.blocks[seq as usize]
            .as_ref()
            .and_then(|b| b.levels.get(off as usize))
            .ok_or_else(|| format!("dangling reference ({seq}, {off}) in the tree of block {at}"))
    }
    fn walk(
        &self,
        at: u64,
        (seq, off): (u64, u64),
        depth: usize,
        out: &mut TreeInfo,
        seen: &mut std::collections::HashSet<(u64, u64)>,
    ) -> Result<(), String> {
        if depth > 64 {
            return Err(format!("tree of block {at} is deeper than 64 levels"));
        }
        if !seen.insert((seq, off)) {
            return Err(format!("node ({seq}, {off}) occurs twice in the tree of block {at}"));
        }
        let n = self.node(at, seq, off)?;
        out.nodes += 1;
        if seq == at {
            out.fresh += 1;
        }
        if n.children.len() % 2 != 0 {
            return Err(format!("node ({seq}, {off}) has an odd list of children"));
        }
        let nc = n.children.len() / 2;
        if depth > 0 && n.keys.len() < 4 || n.keys.len() > 8 {
            return Err(format!("node ({seq}, {off}) at depth {depth} in the tree of block {at} holds {} keys", n.keys.len()));
        }
        if nc == 0 {
            if out.height == 0 {
                out.height = depth + 1;
            } else if out.height != depth + 1 {
                return Err(format!(
                    "leaves at different depths in the tree of block {at}: {} and {}",
                    out.height,
                    depth + 1
                ));
            }
        } else if nc != n.keys.len() + 1 {
            return Err(format!("node ({seq}, {off}) has {} keys and {nc} children", n.keys.len()));
        }
        for i in 0..=n.keys.len() {
            if nc > 0 {
                self.walk(at, (n.children[2 * i], n.children[2 * i + 1]), depth + 1, out, seen)?;
            }
            if let Some(k) = n.keys.get(i) {
                if *k > at || *k == 0 {
                    return Err(format!("node ({seq}, {off}) names block {k} as a key in the tree of block {at}"));
                }
                let b = self.blocks[*k as usize].as_ref().ok_or_else(|| format!("key block {k} is missing"))?;
                if let Some((last, _, _)) = out.entries.last() {
                    if *last >= b.key {
                        return Err(format!(
                            "keys out of order or repeated in the tree of block {at}: {:02x?} then {:02x?}",
                            last, b.key
                        ));
                    }
                }
                out.entries.push((b.key.clone(), *k, b.value.clone()));
                out.depths.push(depth);
            }
        }
        Ok(())
    }
    /// The tree of the version whose last block is `at`, fully checked.
    pub fn tree(&self, at: u64) -> Result<TreeInfo, String> {
        let mut out = TreeInfo::default();
        if at == 0 {
            return Ok(out);
        }
        self.walk(at, (at, 0), 0, &mut out, &mut Default::default())?;
        let levels = self.blocks[at as usize].as_ref().unwrap().levels.len();
        if out.fresh != levels {
            return Err(format!("block {at} holds {levels} nodes, of which its tree uses {}", out.fresh));
        }
        Ok(out)
    }
    /// The blocks of the nodes on the way to `key` from the root in block `at`, and of the keys in them; or of all
    /// nodes and keys. Nothing else is needed to find `key`. (Only for sound logs.)
    pub fn way(&self, at: u64, key: Option<&[u8]>) -> std::collections::BTreeSet<u64> {
        self.between(at, key, key, true)
    }
    /// The same for everything from `low` to `high`, and what is right next to it.
    pub fn range(&self, at: u64, low: Option<&[u8]>, high: Option<&[u8]>) -> std::collections::BTreeSet<u64> {
        self.between(at, low, high, false)
    }
    /// What a delete of `key` may need besides: the entries next to it, and the siblings of what is on the ways there.
    pub fn near(&self, at: u64, key: &[u8]) -> std::collections::BTreeSet<u64> {
        let mut out = self.range(at, Some(key), Some(key));
        let mut todo = vec![(at, 0)];
        while let Some((seq, off)) = todo.pop() {
            let Ok(n) = self.node(at, seq, off) else { continue };
            let key_of = |i: usize| self.blocks[n.keys[i] as usize].as_ref().map_or(&[][..], |b| &b.key);
            for (i, c) in n.children.chunks(2).enumerate() {
                out.insert(c[0]);
                if !(i > 0 && key < key_of(i - 1)) && !(i < n.keys.len() && key > key_of(i)) {
                    todo.push((c[0], c[1]));
                }
            }
        }
        out
    }
    fn between(&self, at: u64, low: Option<&[u8]>, high: Option<&[u8]>, one: bool) -> std::collections::BTreeSet<u64> {
        let mut out = std::collections::BTreeSet::new();
        let mut todo = vec![(at, 0)];
        while let Some((seq, off)) = todo.pop() {
            out.insert(seq);
            let Ok(n) = self.node(at, seq, off) else { continue };
            out.extend(&n.keys);
            let key_of = |i: usize| self.blocks[n.keys[i] as usize].as_ref().map_or(&[][..], |b| &b.key);
            if one && low.is_some() && (0..n.keys.len()).any(|i| Some(key_of(i)) == low) {
                continue;
            }
            for (i, c) in n.children.chunks(2).enumerate() {
                let before = high.is_some_and(|h| i > 0 && h < key_of(i - 1));
                let after = low.is_some_and(|l| i < n.keys.len() && l > key_of(i));
                if !before && !after {
                    todo.push((c[0], c[1]));
                }
            }
        }
        out
    }
    /// The cheap part, for one new block: sizes, references backwards, all nodes used.
    pub fn check_block(&self, at: u64, max_nodes: usize) -> Result<(), String> {
        let b = self.blocks[at as usize].as_ref().ok_or("no such block")?;
        if b.levels.is_empty() {
            return Err(format!("block {at} holds no node"));
        }
        if b.levels.len() > max_nodes {
            return Err(format!("block {at} rewrites {} nodes, expected at most {max_nodes}", b.levels.len()));
        }
        let mut used = vec![0; b.levels.len()];
        used[0] = 1;
        for (o, l) in b.levels.iter().enumerate() {
            if l.keys.len() > 8 || (o > 0 && l.keys.len() < 4) {
                return Err(format!("node ({at}, {o}) holds {} keys", l.keys.len()));
            }
            if !l.children.is_empty() && l.children.len() != 2 * (l.keys.len() + 1) {
                return Err(format!("node ({at}, {o}) has {} keys and {} child numbers", l.keys.len(), l.children.len()));
            }
            for c in l.children.chunks(2) {
                self.node(at, c[0], c[1])?;
                if c[0] == at {
                    used[c[1] as usize] += 1;
                }
            }
        }
        if let Some(o) = used.iter().position(|u| *u != 1) {
            return Err(format!("node {o} of block {at} is referred to {} times", used[o]));
        }
        Ok(())
    }
}
