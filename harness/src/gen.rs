//! Workload generation: key universes, values, histories.
use crate::rng::Rng;

pub type Bytes = Vec<u8>;

/// Distinct keys, sorted.
pub fn universe(r: &mut Rng, kind: usize, n: usize) -> Vec<Bytes> {
    let mut v: Vec<Bytes> = match kind {
        // decimal strings
        0 => (0..n).map(|i| i.to_string().into_bytes()).collect(),
        // short strings over hostile bytes, the empty one included
        1 => {
            let alpha = [0u8, 1, 0x61, 0x7f, 0x80, 0xfe, 0xff];
            let mut v = vec![vec![]];
            let mut tries = 0;
            while v.len() < n && tries < 20 * n {
                tries += 1;
                let len = r.range(1, if n > 300 { 7 } else { 4 });
                v.push((0..len).map(|_| *r.pick(&alpha)).collect());
                if tries % 64 == 0 {
                    v.sort();
                    v.dedup();
                }
            }
            v
        }
        // big-endian numbers, spread over all of u32
        2 => (0..n).map(|i| ((i as u64 * 4_000_000_000 / n.max(1) as u64) as u32).to_be_bytes().to_vec()).collect(),
        // each a prefix of the next
        3 => (0..n.min(400)).map(|i| vec![b'a'; i]).collect(),
        // long with a long common prefix
        4 => {
            let common = r.bytes(180);
            (0..n.min(300))
                .map(|_| {
                    let mut k = common.clone();
                    let tail = r.range(0, 40);
                    k.extend(r.bytes(tail));
                    if r.pct(2) {
                        let n = *r.pick(&[5000usize, 5000, 16200, 65400]);
                        k.extend(vec![0xff; n]);
                    }
                    k
                })
                .collect()
        }
        // little-endian numbers (what the crate's own tests use)
        5 => (0..n).map(|i| (i as i32).to_le_bytes().to_vec()).collect(),
        // random bytes of random length
        _ => (0..n)
            .map(|_| {
                let l = r.range(0, 12);
                r.bytes(l)
            })
            .collect(),
    };
    v.sort();
    v.dedup();
    v
}
pub const KINDS: usize = 7;

pub fn any_universe(r: &mut Rng, sizes: &[usize]) -> Vec<Bytes> {
    let kind = r.below(KINDS);
    let n = *r.pick(sizes);
    universe(r, kind, n)
}

/// Values: absent, empty, a unique token, now and then a big one.
pub fn value(r: &mut Rng, uniq: u64) -> Option<Bytes> {
    match r.below(20) {
        0 | 1 => None,
        2 => Some(vec![]),
        3 => {
            // lengths around the boundaries of one-, two- and three-byte lengths
            let n = if r.pct(3) { *r.pick(&[65535usize, 65536, 65537, 100_000]) } else { *r.pick(&[1usize, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385]) };
            let mut v = uniq.to_le_bytes().to_vec();
            v.resize(n, 0xab);
            Some(v)
        }
        4 => {
            let n = r.below(40);
            Some(r.bytes(n))
        }
        _ => Some(format!("v{uniq}").into_bytes()),
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Put(Bytes, Option<Bytes>),
    Del(Bytes),
    Get(Bytes),
    /// key, value, answer of the predicate
    CasPut(Bytes, Option<Bytes>, bool),
    CasDel(Bytes, bool),
}
impl Op {
    pub fn key(&self) -> &Bytes {
        match self {
            Op::Put(k, _) | Op::Del(k) | Op::Get(k) | Op::CasPut(k, _, _) | Op::CasDel(k, _) => k,
        }
    }
    pub fn short(&self) -> String {
        fn b(x: &[u8]) -> String {
            if x.len() > 24 {
                format!("{}..({} bytes)", b(&x[..12]), x.len())
            } else if !x.is_empty() && x.iter().all(|c| (0x21..0x7f).contains(c)) {
                String::from_utf8_lossy(x).into_owned()
            } else {
                format!("x'{}'", x.iter().map(|c| format!("{c:02x}")).collect::<String>())
            }
        }
        let v = |v: &Option<Bytes>| v.as_ref().map_or("none".into(), |v| b(v));
        match self {
            Op::Put(k, x) => format!("put {} = {}", b(k), v(x)),
            Op::Del(k) => format!("del {}", b(k)),
            Op::Get(k) => format!("get {}", b(k)),
            Op::CasPut(k, x, y) => format!("put-if({y}) {} = {}", b(k), v(x)),
            Op::CasDel(k, y) => format!("del-if({y}) {}", b(k)),
        }
    }
}

/// How a phase of a history picks its operations.
#[derive(Clone, Copy, Debug)]
pub struct Phase {
    pub ops: usize,
    pub put: u32,
    pub del: u32,
    pub get: u32,
    pub cas: u32,
    /// 0 uniform, 1 ascending, 2 descending, 3 hot spot, 4 inside out
    pub order: usize,
}

pub fn phases(r: &mut Rng, total: usize, cas: u32) -> Vec<Phase> {
    let n = r.range(1, 4);
    let mut out = vec![];
    for i in 0..n {
        let kind = if i == 0 { 0 } else { r.below(4) };
        let (put, del, get) = match kind {
            0 => (90, 4, 6),
            1 => (45, 45, 10),
            2 => (5, 85, 10),
            _ => (30, 60, 10),
        };
        out.push(Phase { ops: total / n, put, del, get, cas, order: r.below(5) });
    }
    out
}

/// A history of operations; `present` follows what is stored so that deletes usually hit.
pub struct History {
    pub keys: Vec<Bytes>,
    pub phases: Vec<Phase>,
    at: usize,
    step: usize,
    cursor: usize,
    present: Vec<bool>,
    pub uniq: u64,
}
impl History {
    pub fn new(keys: Vec<Bytes>, phases: Vec<Phase>) -> Self {
        let n = keys.len();
        History { keys, phases, at: 0, step: 0, cursor: 0, present: vec![false; n], uniq: 0 }
    }
    fn index(&mut self, r: &mut Rng, order: usize) -> usize {
        let n = self.keys.len();
        self.cursor += 1;
        match order {
            1 => self.cursor % n,
            2 => n - 1 - self.cursor % n,
            3 => (n / 2 + r.below((n / 8).max(1))) % n,
            4 => {
                let d = (self.cursor / 2) % n.div_ceil(2).max(1);
                if self.cursor % 2 == 0 {
                    (n / 2 + d) % n
                } else {
                    (n / 2 + n - d) % n
                }
            }
            _ => r.below(n),
        }
    }
    pub fn next(&mut self, r: &mut Rng) -> Option<Op> {
        while self.at < self.phases.len() && self.step >= self.phases[self.at].ops {
            self.at += 1;
            self.step = 0;
        }
        let p = *self.phases.get(self.at)?;
        self.step += 1;
        let mut i = self.index(r, p.order);
        let roll = r.below((p.put + p.del + p.get) as usize) as u32;
        let del = roll >= p.put && roll < p.put + p.del;
        if del && r.pct(85) {
            // usually delete something that is there
            if let Some(d) = (0..self.keys.len().min(64)).find(|d| self.present[(i + d) % self.keys.len()]) {
                i = (i + d) % self.keys.len();
            }
        }
        let k = self.keys[i].clone();
        let cas = r.pct(p.cas);
        let yes = r.pct(70);
        self.uniq += 1;
        Some(if roll < p.put {
            if !cas || yes {
                self.present[i] = true;
            }
            let v = value(r, self.uniq);
            if cas {
                Op::CasPut(k, v, yes)
            } else {
                Op::Put(k, v)
            }
        } else if del {
            if !cas || yes {
                self.present[i] = false;
            }
            if cas {
                Op::CasDel(k, yes)
            } else {
                Op::Del(k)
            }
        } else {
            Op::Get(k)
        })
    }
}
