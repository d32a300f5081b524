//! Monitoring and fault injection: what the harness sees of, and decides about, every operation on a core.
use crate::{HypercoreError, Info, PartialKeypair};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::Poll;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum OpKind {
    Info,
    Get(u64),
    Append(Vec<Vec<u8>>),
}

/// What the policy makes an operation do.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Verdict {
    Normal,
    /// fail, no effect
    ErrBefore,
    /// take effect (appends), then report failure
    ErrAfter,
    /// `get` reports the block as absent
    Missing,
}

#[derive(Debug, Clone, Copy)]
pub struct Decision {
    /// suspensions before the effect
    pub before: u32,
    pub verdict: Verdict,
    /// suspensions between the effect and the return
    pub after: u32,
}

impl Decision {
    pub const NORMAL: Decision = Decision { before: 0, verdict: Verdict::Normal, after: 0 };
}

pub type Policy = Box<dyn FnMut(&OpKind) -> Decision + Send>;

#[derive(Default, Debug)]
pub struct Counters {
    pub infos: AtomicU64,
    pub gets: AtomicU64,
    pub appends: AtomicU64,
    pub suspensions: AtomicU64,
    pub faults: AtomicU64,
}

#[derive(Default)]
struct Data {
    blocks: Vec<Option<Arc<Vec<u8>>>>,
    /// this many blocks, known to exist and not here, come before `blocks[gap_at]`
    gap: u64,
    gap_at: usize,
    bytes: u64,
    file: Option<fs::File>,
    /// where a disk core looks for instructions of a harness that cannot set a policy
    script: Option<PathBuf>,
    /// appends refused so far because of them, by length of the log
    refused: HashSet<u64>,
}

impl Data {
    fn len(&self) -> u64 {
        self.blocks.len() as u64 + self.gap
    }
    fn block(&self, i: u64) -> Option<Arc<Vec<u8>>> {
        let i = if i < self.gap_at as u64 { i } else { i.checked_sub(self.gap).filter(|i| *i >= self.gap_at as u64)? };
        self.blocks.get(usize::try_from(i).ok()?).cloned().flatten()
    }
}

pub struct CoreState {
    data: Mutex<Data>,
    policy: Mutex<Option<Policy>>,
    pub counters: Counters,
    writeable: bool,
    public: [u8; 32],
    watch: tokio::sync::watch::Sender<u64>,
}

impl std::fmt::Debug for CoreState {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "CoreState({:?})", self.info())
    }
}

thread_local! {
    static LAST: RefCell<Option<Arc<CoreState>>> = const { RefCell::new(None) };
}

/// The core built most recently on this thread (for constructors that hide theirs).
pub fn last_created() -> Option<Arc<CoreState>> {
    LAST.with(|l| l.borrow().clone())
}
pub fn forget_last() {
    LAST.with(|l| *l.borrow_mut() = None)
}

pub struct Ran {
    pub block: Option<Vec<u8>>,
}

async fn suspend(n: u32, c: &AtomicU64) {
    for _ in 0..n {
        c.fetch_add(1, SeqCst);
        let mut first = true;
        std::future::poll_fn(move |cx| {
            if first {
                first = false;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            Poll::Ready(())
        })
        .await
    }
}

fn injected() -> HypercoreError {
    HypercoreError::IO {
        context: Some("injected".into()),
        source: std::io::Error::new(std::io::ErrorKind::Other, "injected fault"),
    }
}

impl CoreState {
    fn make(data: Data, writeable: bool, public: [u8; 32]) -> Arc<Self> {
        let n = data.len();
        let s = Arc::new(Self {
            data: Mutex::new(data),
            policy: Mutex::new(None),
            counters: Counters::default(),
            writeable,
            public,
            watch: tokio::sync::watch::channel(n).0,
        });
        LAST.with(|l| *l.borrow_mut() = Some(s.clone()));
        s
    }
    pub fn in_memory(writeable: bool, public: [u8; 32]) -> Arc<Self> {
        Self::make(Data::default(), writeable, public)
    }
    /// A memory core that already holds these blocks (`None`: known to exist, not here).
    pub fn with_blocks(blocks: Vec<Option<Vec<u8>>>, writeable: bool) -> Arc<Self> {
        let bytes = blocks.iter().flatten().map(|b| b.len() as u64).sum();
        let blocks = blocks.into_iter().map(|b| b.map(Arc::new)).collect();
        Self::make(Data { blocks, bytes, ..Data::default() }, writeable, [7; 32])
    }
    /// As `with_blocks`, with a long stretch of absent blocks before `blocks[at]`. `blocks`, `blocks_from` and the like
    /// leave it out; indices given to and lengths told to hyperbee count it.
    pub fn with_gap(blocks: Vec<Vec<u8>>, at: usize, gap: u64) -> Arc<Self> {
        let bytes = blocks.iter().map(|b| b.len() as u64).sum();
        let blocks = blocks.into_iter().map(|b| Some(Arc::new(b))).collect();
        Self::make(Data { blocks, bytes, gap, gap_at: at, ..Data::default() }, true, [7; 32])
    }
    pub(crate) fn on_disk(
        dir: &Path,
        overwrite: bool,
        must_exist: bool,
        writeable: bool,
        public: [u8; 32],
    ) -> Result<Arc<Self>, HypercoreError> {
        let path = dir.join("data");
        if must_exist && !path.exists() {
            return Err(HypercoreError::EmptyStorage { store: "oplog".into() });
        }
        fs::create_dir_all(dir)?;
        let mut file = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(overwrite)
            .open(&path)?;
        let mut raw = vec![];
        file.read_to_end(&mut raw)?;
        let mut data = Data::default();
        let mut at = 0usize;
        // a record cut short by a crash was never acknowledged: drop it
        while raw.len() - at >= 8 {
            let n = u64::from_le_bytes(raw[at..at + 8].try_into().unwrap()) as usize;
            if raw.len() - at - 8 < n {
                break;
            }
            data.bytes += n as u64;
            data.blocks.push(Some(Arc::new(raw[at + 8..at + 8 + n].to_vec())));
            at += 8 + n;
        }
        file.set_len(at as u64)?;
        use std::io::Seek;
        file.seek(std::io::SeekFrom::End(0))?;
        data.file = Some(file);
        // a harness that only has the directory asks for a gap (see `with_gap`) with a file of two numbers
        let gap = fs::read_to_string(dir.join("gap")).unwrap_or_default();
        if let [at, n] = gap.split_whitespace().filter_map(|x| x.parse::<u64>().ok()).collect::<Vec<_>>()[..] {
            (data.gap_at, data.gap) = (at as usize, n);
        }
        data.script = Some(dir.join("faults"));
        Ok(Self::make(data, writeable, public))
    }

    pub fn set_policy(&self, p: Option<Policy>) {
        *self.policy.lock().unwrap() = p;
    }
    pub fn info(&self) -> Info {
        let d = self.data.lock().unwrap();
        let mut contiguous = d.blocks.iter().position(|b| b.is_none()).unwrap_or(d.blocks.len());
        if d.gap > 0 {
            contiguous = contiguous.min(d.gap_at);
        }
        Info {
            length: d.len(),
            byte_length: d.bytes,
            contiguous_length: contiguous as u64,
            fork: 0,
            writeable: self.writeable,
        }
    }
    pub fn key_pair(&self) -> PartialKeypair {
        PartialKeypair { public: self.public, secret: self.writeable.then_some([9; 32]) }
    }
    pub fn len(&self) -> u64 {
        self.data.lock().unwrap().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn block(&self, i: u64) -> Option<Arc<Vec<u8>>> {
        self.data.lock().unwrap().block(i)
    }
    pub fn blocks(&self) -> Vec<Option<Arc<Vec<u8>>>> {
        self.data.lock().unwrap().blocks.clone()
    }
    /// Blocks from `from` on.
    pub fn blocks_from(&self, from: u64) -> Vec<Option<Arc<Vec<u8>>>> {
        let d = self.data.lock().unwrap();
        d.blocks.get(from as usize..).map(|s| s.to_vec()).unwrap_or_default()
    }
    /// What replication does to a reader: learn of a longer log, receive a block.
    pub fn extend_to(&self, len: u64) {
        let mut d = self.data.lock().unwrap();
        if (d.blocks.len() as u64) < len {
            d.blocks.resize(len as usize, None);
        }
        let n = d.blocks.len() as u64;
        drop(d);
        self.watch.send_replace(n);
    }
    pub fn ingest(&self, i: u64, block: Vec<u8>) {
        self.extend_to(i + 1);
        let mut d = self.data.lock().unwrap();
        if d.blocks[i as usize].is_none() {
            d.bytes += block.len() as u64;
            d.blocks[i as usize] = Some(Arc::new(block));
        }
    }
    pub fn subscribe(&self) -> tokio::sync::watch::Receiver<u64> {
        self.watch.subscribe()
    }

    fn apply_append(&self, blocks: &[Vec<u8>]) -> Result<(), HypercoreError> {
        let mut d = self.data.lock().unwrap();
        if let Some(f) = &mut d.file {
            let mut rec = vec![];
            for b in blocks {
                rec.extend((b.len() as u64).to_le_bytes());
                rec.extend(b);
            }
            f.write_all(&rec)?;
        }
        for b in blocks {
            d.bytes += b.len() as u64;
            d.blocks.push(Some(Arc::new(b.clone())));
        }
        let n = d.len();
        drop(d);
        self.watch.send_replace(n);
        Ok(())
    }

    /// What the file `faults` beside the data says about an operation: a line `get N` fails reads of block N, `append N`
    /// fails the first append to a log of N blocks, `suspend N` makes every operation suspend N times.
    fn scripted(&self, op: &OpKind) -> Decision {
        let mut dec = Decision::NORMAL;
        let mut d = self.data.lock().unwrap();
        let Some(text) = d.script.as_ref().and_then(|p| fs::read_to_string(p).ok()) else { return dec };
        let len = d.blocks.len() as u64;
        for l in text.lines() {
            let Some((what, n)) = l.split_once(' ') else { continue };
            let Ok(n) = n.parse::<u64>() else { continue };
            match (what, op) {
                ("get", OpKind::Get(i)) if *i == n => dec.verdict = Verdict::ErrBefore,
                ("append", OpKind::Append(_)) if len == n && d.refused.insert(n) => dec.verdict = Verdict::ErrBefore,
                ("suspend", _) => dec.before = n as u32,
                _ => (),
            }
        }
        dec
    }

    pub async fn run(&self, op: OpKind) -> Result<Ran, HypercoreError> {
        let c = &self.counters;
        match &op {
            OpKind::Info => c.infos.fetch_add(1, SeqCst),
            OpKind::Get(_) => c.gets.fetch_add(1, SeqCst),
            OpKind::Append(_) => c.appends.fetch_add(1, SeqCst),
        };
        let d = match &mut *self.policy.lock().unwrap() {
            None => self.scripted(&op),
            Some(p) => p(&op),
        };
        suspend(d.before, &c.suspensions).await;
        if d.verdict != Verdict::Normal {
            c.faults.fetch_add(1, SeqCst);
        }
        if d.verdict == Verdict::ErrBefore {
            return Err(injected());
        }
        let mut block = None;
        match &op {
            OpKind::Info => (),
            OpKind::Get(i) => {
                if d.verdict != Verdict::Missing {
                    block = self.block(*i).map(|b| b.to_vec());
                }
            }
            OpKind::Append(b) => {
                if !self.writeable {
                    return Err(HypercoreError::NotWritable);
                }
                self.apply_append(b)?;
            }
        }
        suspend(d.after, &c.suspensions).await;
        if d.verdict == Verdict::ErrAfter {
            return Err(injected());
        }
        Ok(Ran { block })
    }
}
