//! Stand-in for `hypercore` 0.14: an append-only list of blocks, in memory or in a directory, with the API subset
//! hyperbee uses. It has no Merkle tree, signatures or network protocol; see /verif/DESIGN.md.
//!
//! Semantics kept from the real crate: blocks are immutable and numbered from 0; `append` puts one block at the end
//! and returns the new length; `get` of an absent block is `Ok(None)`; a core without the secret key refuses `append`
//! with `NotWritable`; a `SharedCore` runs one operation at a time behind an async mutex; operations may suspend.
use std::path::PathBuf;
use std::sync::Arc;

pub mod standin;
use standin::{CoreState, OpKind};

#[derive(thiserror::Error, Debug)]
pub enum HypercoreError {
    #[error("Bad argument. {context}")]
    BadArgument { context: String },
    #[error("Hypercore not writable")]
    NotWritable,
    #[error("Given signature was invalid. {context}")]
    InvalidSignature { context: String },
    #[error("Invalid checksum. {context}")]
    InvalidChecksum { context: String },
    #[error("Empty storage")]
    EmptyStorage { store: String },
    #[error("Corrupt storage. {}", .context.as_ref().map_or_else(String::new, |c| c.clone()))]
    CorruptStorage { store: String, context: Option<String> },
    #[error("Invalid operation. {context}")]
    InvalidOperation { context: String },
    #[error("Unrecoverable input/output error occured.{}", .context.as_ref().map_or_else(String::new, |c| format!(" {c}")))]
    IO {
        context: Option<String>,
        #[source]
        source: std::io::Error,
    },
}

impl From<std::io::Error> for HypercoreError {
    fn from(source: std::io::Error) -> Self {
        Self::IO { context: None, source }
    }
}

/// Information about an appended block
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct AppendOutcome {
    pub length: u64,
    pub byte_length: u64,
}

/// Information about a core
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Info {
    pub length: u64,
    pub byte_length: u64,
    pub contiguous_length: u64,
    pub fork: u64,
    pub writeable: bool,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct PartialKeypair {
    pub public: [u8; 32],
    pub secret: Option<[u8; 32]>,
}

#[derive(Debug, Clone)]
enum Backing {
    Memory,
    Disk { dir: PathBuf, overwrite: bool },
}

/// Where a core keeps its blocks.
#[derive(Debug, Clone)]
pub struct Storage(Backing);

impl Storage {
    pub async fn new_memory() -> Result<Self, HypercoreError> {
        Ok(Self(Backing::Memory))
    }
    pub async fn new_disk(dir: &PathBuf, overwrite: bool) -> Result<Self, HypercoreError> {
        Ok(Self(Backing::Disk { dir: dir.clone(), overwrite }))
    }
}

#[derive(Debug)]
pub struct HypercoreBuilder {
    storage: Storage,
    key_pair: Option<PartialKeypair>,
    open: bool,
}

impl HypercoreBuilder {
    pub fn new(storage: Storage) -> Self {
        Self { storage, key_pair: None, open: false }
    }
    pub fn key_pair(mut self, key_pair: PartialKeypair) -> Self {
        self.key_pair = Some(key_pair);
        self
    }
    pub fn open(mut self, open: bool) -> Self {
        self.open = open;
        self
    }
    pub async fn build(self) -> Result<Hypercore, HypercoreError> {
        let writeable = self.key_pair.as_ref().map_or(true, |k| k.secret.is_some());
        let public = self.key_pair.as_ref().map_or([7; 32], |k| k.public);
        let state = match self.storage.0 {
            Backing::Memory => {
                if self.open {
                    return Err(HypercoreError::EmptyStorage { store: "oplog".into() });
                }
                CoreState::in_memory(writeable, public)
            }
            Backing::Disk { dir, overwrite } => {
                CoreState::on_disk(&dir, overwrite, self.open, writeable, public)?
            }
        };
        Ok(Hypercore { state })
    }
}

/// An append-only log of blocks.
#[derive(Debug)]
pub struct Hypercore {
    state: Arc<CoreState>,
}

impl Hypercore {
    /// Stand-in only: a core over existing state (which may be shared with other cores).
    pub fn from_state(state: Arc<CoreState>) -> Self {
        Self { state }
    }
    /// Stand-in only: the state behind this core.
    pub fn state(&self) -> Arc<CoreState> {
        self.state.clone()
    }
    pub fn info(&self) -> Info {
        self.state.info()
    }
    pub fn key_pair(&self) -> PartialKeypair {
        self.state.key_pair()
    }
    pub fn has(&self, index: u64) -> bool {
        self.state.block(index).is_some()
    }
    pub async fn get(&mut self, index: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        self.state.run(OpKind::Get(index)).await.map(|r| r.block)
    }
    pub async fn append(&mut self, data: &[u8]) -> Result<AppendOutcome, HypercoreError> {
        self.state.run(OpKind::Append(vec![data.to_vec()])).await?;
        let i = self.state.info();
        Ok(AppendOutcome { length: i.length, byte_length: i.byte_length })
    }
    pub async fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]>>(
        &mut self,
        batch: B,
    ) -> Result<AppendOutcome, HypercoreError> {
        let b = batch.as_ref().iter().map(|x| x.as_ref().to_vec()).collect();
        self.state.run(OpKind::Append(b)).await?;
        let i = self.state.info();
        Ok(AppendOutcome { length: i.length, byte_length: i.byte_length })
    }
}

pub mod replication {
    use super::*;
    use std::future::Future;
    use tokio::sync::Mutex;

    /// Hypercore that can have multiple owners
    #[derive(Debug, Clone)]
    pub struct SharedCore(pub Arc<Mutex<Hypercore>>);

    impl From<Hypercore> for SharedCore {
        fn from(core: Hypercore) -> Self {
            SharedCore(Arc::new(Mutex::new(core)))
        }
    }
    impl SharedCore {
        pub fn from_hypercore(core: Hypercore) -> Self {
            core.into()
        }
    }

    #[derive(thiserror::Error, Debug)]
    pub enum CoreMethodsError {
        #[error("Got a hypercore error: [{0}]")]
        HypercoreError(#[from] HypercoreError),
    }

    /// Methods related to just this core's information
    pub trait CoreInfo {
        fn info(&self) -> impl Future<Output = Info> + Send;
        fn key_pair(&self) -> impl Future<Output = PartialKeypair> + Send;
    }

    /// Trait for things that consume Hypercore can instead use this trait
    pub trait CoreMethods: CoreInfo {
        fn has(&self, index: u64) -> impl Future<Output = bool> + Send;
        fn get(
            &self,
            index: u64,
        ) -> impl Future<Output = Result<Option<Vec<u8>>, CoreMethodsError>> + Send;
        fn append(
            &self,
            data: &[u8],
        ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
        fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]> + Send>(
            &self,
            batch: B,
        ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
    }

    impl CoreInfo for SharedCore {
        fn info(&self) -> impl Future<Output = Info> + Send {
            async move {
                let core = self.0.lock().await;
                // suspension point only: `info` cannot fail in the real crate either
                let _ = core.state.run(OpKind::Info).await;
                core.info()
            }
        }
        fn key_pair(&self) -> impl Future<Output = PartialKeypair> + Send {
            async move { self.0.lock().await.key_pair() }
        }
    }

    impl CoreMethods for SharedCore {
        fn has(&self, index: u64) -> impl Future<Output = bool> + Send {
            async move { self.0.lock().await.has(index) }
        }
        fn get(
            &self,
            index: u64,
        ) -> impl Future<Output = Result<Option<Vec<u8>>, CoreMethodsError>> + Send {
            async move { Ok(self.0.lock().await.get(index).await?) }
        }
        fn append(
            &self,
            data: &[u8],
        ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send {
            async move { Ok(self.0.lock().await.append(data).await?) }
        }
        fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]> + Send>(
            &self,
            batch: B,
        ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send {
            let b: Vec<Vec<u8>> = batch.as_ref().iter().map(|x| x.as_ref().to_vec()).collect();
            async move { Ok(self.0.lock().await.append_batch(b).await?) }
        }
    }
}
