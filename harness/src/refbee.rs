//! Reference implementation of JavaScript Hyperbee's write path (holepunchto/hyperbee index.js at e1b398f: `put`,
//! `del`, `rebalance`, `setKeyToNearestLeaf`, `indexChanges`), written after that algorithm and not after this crate:
//! a mutable tree whose changed nodes are numbered depth first when a block is written.
use crate::codec::*;
use std::sync::Arc;

const MAX_CHILDREN: usize = 9;
const MIN_KEYS: usize = 4;

struct Child {
    seq: u64,
    offset: u64,
    node: usize,
}
struct TNode {
    keys: Vec<u64>,
    children: Vec<Child>,
    changed: bool,
}

#[derive(Default)]
pub struct RefBee {
    pub blocks: Vec<Vec<u8>>,
    /// key and value of each block
    kv: Vec<(Arc<Vec<u8>>, Option<Arc<Vec<u8>>>)>,
    nodes: Vec<TNode>,
    root: Option<usize>,
    /// while in a batch, blocks are written without a tree
    batch: Option<Vec<(Vec<u8>, Option<Vec<u8>>)>>,
}

impl RefBee {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn header(&mut self, metadata: Option<(Option<&[u8]>, Option<&[u8]>)>) {
        assert!(self.blocks.is_empty());
        self.push(encode_header(metadata), b"", None);
    }
    fn push(&mut self, block: Vec<u8>, key: &[u8], value: Option<&[u8]>) {
        self.blocks.push(block);
        self.kv.push((Arc::new(key.to_vec()), value.map(|v| Arc::new(v.to_vec()))));
    }
    fn mk(&mut self) -> usize {
        self.nodes.push(TNode { keys: vec![], children: vec![], changed: true });
        self.nodes.len() - 1
    }
    fn key(&self, seq: u64) -> Arc<Vec<u8>> {
        if (seq as usize) < self.kv.len() {
            return self.kv[seq as usize].0.clone();
        }
        let b = self.batch.as_ref().unwrap();
        Arc::new(b[seq as usize - self.kv.len()].0.clone())
    }
    fn seq(&self) -> u64 {
        self.blocks.len() as u64 + self.batch.as_ref().map_or(0, |b| b.len() as u64)
    }
    /// Ok(i): key i matches; Err(i): would be child/position i
    fn search(&self, n: usize, key: &[u8]) -> Result<usize, usize> {
        self.nodes[n].keys.binary_search_by(|s| self.key(*s).as_slice().cmp(key))
    }

    pub fn put(&mut self, key: &[u8], value: Option<&[u8]>) {
        if self.blocks.is_empty() {
            self.header(None);
        }
        let root = match self.root {
            Some(r) => r,
            None => {
                let r = self.mk();
                self.root = Some(r);
                r
            }
        };
        let seq = self.seq();
        let mut stack = vec![];
        let mut node = root;
        loop {
            self.nodes[node].changed = true;
            match self.search(node, key) {
                Ok(i) => {
                    self.nodes[node].keys[i] = seq;
                    return self.append(seq, key, value);
                }
                Err(i) => {
                    if self.nodes[node].children.is_empty() {
                        self.nodes[node].keys.insert(i, seq);
                        break;
                    }
                    stack.push((node, i));
                    node = self.nodes[node].children[i].node;
                }
            }
        }
        while self.nodes[node].keys.len() >= MAX_CHILDREN {
            // split: the right half moves to a new node
            let len = self.nodes[node].keys.len() >> 1;
            let right = self.mk();
            let n = &mut self.nodes[node];
            let rk = n.keys.split_off(n.keys.len() - len);
            let median = n.keys.pop().unwrap();
            let rc = if n.children.is_empty() { vec![] } else { n.children.split_off(n.children.len() - len - 1) };
            self.nodes[right].keys = rk;
            self.nodes[right].children = rc;
            match stack.pop() {
                Some((p, i)) => {
                    self.nodes[p].keys.insert(i, median);
                    self.nodes[p].children.insert(i + 1, Child { seq: 0, offset: 0, node: right });
                    node = p;
                }
                None => {
                    let r = self.mk();
                    self.nodes[r].keys.push(median);
                    self.nodes[r].children.push(Child { seq: 0, offset: 0, node });
                    self.nodes[r].children.push(Child { seq: 0, offset: 0, node: right });
                    self.root = Some(r);
                    break;
                }
            }
        }
        self.append(seq, key, value)
    }

    pub fn del(&mut self, key: &[u8]) -> bool {
        let Some(root) = self.root else { return false };
        let seq = self.seq();
        let mut stack = vec![];
        let mut node = root;
        loop {
            stack.push(node);
            match self.search(node, key) {
                Ok(i) => {
                    if self.nodes[node].children.is_empty() {
                        self.nodes[node].keys.remove(i);
                    } else {
                        self.set_key_to_nearest_leaf(node, i, &mut stack);
                    }
                    break;
                }
                Err(i) => {
                    if self.nodes[node].children.is_empty() {
                        return false;
                    }
                    node = self.nodes[node].children[i].node;
                }
            }
        }
        for n in &stack {
            self.nodes[*n].changed = true;
        }
        self.root = Some(self.rebalance(stack));
        self.append(seq, key, None);
        true
    }
    fn edge_leaf(&self, mut n: usize, leftmost: bool) -> Vec<usize> {
        let mut path = vec![n];
        while !self.nodes[n].children.is_empty() {
            let c = &self.nodes[n].children;
            n = if leftmost { c[0].node } else { c[c.len() - 1].node };
            path.push(n);
        }
        path
    }
    fn set_key_to_nearest_leaf(&mut self, node: usize, i: usize, stack: &mut Vec<usize>) {
        let left = self.edge_leaf(self.nodes[node].children[i].node, false);
        let right = self.edge_leaf(self.nodes[node].children[i + 1].node, true);
        let (l, r) = (*left.last().unwrap(), *right.last().unwrap());
        if self.nodes[l].keys.len() < self.nodes[r].keys.len() {
            stack.extend(right);
            let k = self.nodes[r].keys.remove(0);
            self.nodes[node].keys[i] = k;
        } else {
            stack.extend(left);
            let k = self.nodes[l].keys.pop().unwrap();
            self.nodes[node].keys[i] = k;
        }
    }
    fn rebalance(&mut self, mut stack: Vec<usize>) -> usize {
        let root = stack[0];
        while stack.len() > 1 {
            let node = stack.pop().unwrap();
            let parent = *stack.last().unwrap();
            if self.nodes[node].keys.len() >= MIN_KEYS {
                return root;
            }
            let mut index = self.nodes[parent].children.iter().position(|c| c.node == node).unwrap();
            let sib = |s: &Self, i: usize| s.nodes[parent].children.get(i).map(|c| c.node);
            let left = if index > 0 { sib(self, index - 1) } else { None };
            let right = sib(self, index + 1);
            if let Some(l) = left.filter(|l| self.nodes[*l].keys.len() > MIN_KEYS) {
                self.nodes[l].changed = true;
                let pk = self.nodes[parent].keys[index - 1];
                self.nodes[node].keys.insert(0, pk);
                if let Some(c) = self.nodes[l].children.pop() {
                    self.nodes[node].children.insert(0, c);
                }
                let lk = self.nodes[l].keys.pop().unwrap();
                self.nodes[parent].keys[index - 1] = lk;
                return root;
            }
            if let Some(r) = right.filter(|r| self.nodes[*r].keys.len() > MIN_KEYS) {
                self.nodes[r].changed = true;
                let pk = self.nodes[parent].keys[index];
                self.nodes[node].keys.push(pk);
                if !self.nodes[r].children.is_empty() {
                    let c = self.nodes[r].children.remove(0);
                    self.nodes[node].children.push(c);
                }
                let rk = self.nodes[r].keys.remove(0);
                self.nodes[parent].keys[index] = rk;
                return root;
            }
            let (l, r) = match left {
                Some(l) => {
                    index -= 1;
                    (l, node)
                }
                None => (node, right.unwrap()),
            };
            let median = self.nodes[parent].keys.remove(index);
            self.nodes[parent].children.remove(index + 1);
            let mut rk = std::mem::take(&mut self.nodes[r].keys);
            let mut rc = std::mem::take(&mut self.nodes[r].children);
            let ln = &mut self.nodes[l];
            ln.changed = true;
            ln.keys.push(median);
            ln.keys.append(&mut rk);
            ln.children.append(&mut rc);
        }
        if self.nodes[root].keys.is_empty() && !self.nodes[root].children.is_empty() {
            return self.nodes[root].children[0].node;
        }
        root
    }

    fn append(&mut self, seq: u64, key: &[u8], value: Option<&[u8]>) {
        if let Some(b) = &mut self.batch {
            b.push((key.to_vec(), value.map(|v| v.to_vec())));
            return;
        }
        let index = self.index(seq);
        self.push(encode_node(&index, key, value), key, value);
    }
    fn index(&mut self, seq: u64) -> Vec<u8> {
        let mut order = vec![];
        let root = self.root.unwrap();
        self.index_changes(root, seq, &mut order);
        let levels: Vec<Level> = order
            .iter()
            .map(|n| Level {
                keys: self.nodes[*n].keys.clone(),
                children: self.nodes[*n].children.iter().flat_map(|c| [c.seq, c.offset]).collect(),
            })
            .collect();
        encode_index(&levels)
    }
    fn index_changes(&mut self, n: usize, seq: u64, order: &mut Vec<usize>) -> u64 {
        let offset = order.len() as u64;
        order.push(n);
        self.nodes[n].changed = false;
        for i in 0..self.nodes[n].children.len() {
            let c = self.nodes[n].children[i].node;
            if self.nodes[c].changed {
                let o = self.index_changes(c, seq, order);
                let c = &mut self.nodes[n].children[i];
                c.seq = seq;
                c.offset = o;
            }
        }
        offset
    }

    /// From here on, changes are collected and written by `flush`.
    pub fn begin_batch(&mut self) {
        if self.blocks.is_empty() {
            self.header(None);
        }
        self.batch = Some(vec![]);
    }
    pub fn batch_len(&self) -> usize {
        self.batch.as_ref().map_or(0, |b| b.len())
    }
    pub fn abandon_batch(&mut self) {
        assert_eq!(self.batch_len(), 0);
        self.batch = None;
    }
    /// Writes the batch: only its last block carries the tree.
    pub fn flush(&mut self) {
        let b = self.batch.take().unwrap();
        let n = b.len();
        for (i, (k, v)) in b.into_iter().enumerate() {
            let index = if i + 1 == n {
                let seq = self.blocks.len() as u64;
                self.index(seq)
            } else {
                vec![]
            };
            self.push(encode_node(&index, &k, v.as_deref()), &k, v.as_deref());
        }
    }
}
