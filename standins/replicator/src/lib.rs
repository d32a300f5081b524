//! Stand-in for `replicator`: `ReplicatingCore` is a `SharedCore` that can be connected to a peer's.
//!
//! Wire protocol of the stand-in: the initiator sends `I`, the other side `R` (two equal roles do not connect, as with
//! the Noise handshake of the real one); then each side announces its length and sends the blocks the peer lacks, in
//! order, as they come to exist. A side only takes blocks it has not got.
use futures_lite::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use hypercore::{
    replication::{CoreInfo, CoreMethods, CoreMethodsError, SharedCore},
    AppendOutcome, Hypercore, HypercoreError, Info, PartialKeypair,
};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

#[derive(thiserror::Error, Debug)]
#[non_exhaustive]
pub enum ReplicatorError {
    #[error("There was an error in hypercore")]
    HypercoreError(#[from] HypercoreError),
    #[error("Error in CoreMethods: {0}")]
    CoreMethodsError(#[from] CoreMethodsError),
    #[error("IO error: {0}")]
    IoError(#[from] std::io::Error),
    #[error("Both peers have the same role")]
    SameRole,
}

#[derive(Debug, Clone)]
pub struct ReplicatingCore {
    core: SharedCore,
    connections: Arc<Mutex<Vec<bool>>>,
}

impl From<SharedCore> for ReplicatingCore {
    fn from(core: SharedCore) -> Self {
        Self { core, connections: Default::default() }
    }
}
impl From<Hypercore> for ReplicatingCore {
    fn from(core: Hypercore) -> Self {
        SharedCore::from(core).into()
    }
}

/// A stream both halves of a connection can use.
struct Halves<S>(Arc<Mutex<S>>);
impl<S> Clone for Halves<S> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<S: AsyncRead + Unpin> AsyncRead for Halves<S> {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<std::io::Result<usize>> {
        Pin::new(&mut *self.0.lock().unwrap()).poll_read(cx, buf)
    }
}
impl<S: AsyncWrite + Unpin> AsyncWrite for Halves<S> {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<std::io::Result<usize>> {
        Pin::new(&mut *self.0.lock().unwrap()).poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut *self.0.lock().unwrap()).poll_flush(cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut *self.0.lock().unwrap()).poll_close(cx)
    }
}

async fn send<S: AsyncWrite + Unpin>(
    mut s: Halves<S>,
    core: SharedCore,
    mut start: u64,
) -> Result<(), ReplicatorError> {
    let state = core.0.lock().await.state();
    let mut rx = state.subscribe();
    loop {
        let len = *rx.borrow_and_update();
        while start < len {
            if let Some(b) = state.block(start) {
                let mut m = start.to_le_bytes().to_vec();
                m.extend((b.len() as u64).to_le_bytes());
                m.extend_from_slice(&b);
                s.write_all(&m).await?;
                s.flush().await?;
            }
            start += 1;
        }
        if rx.changed().await.is_err() {
            return Ok(());
        }
    }
}

async fn receive<S: AsyncRead + Unpin>(
    mut s: Halves<S>,
    core: SharedCore,
) -> Result<(), ReplicatorError> {
    let state = core.0.lock().await.state();
    loop {
        let mut h = [0u8; 16];
        s.read_exact(&mut h).await?;
        let i = u64::from_le_bytes(h[..8].try_into().unwrap());
        let n = u64::from_le_bytes(h[8..].try_into().unwrap());
        let mut b = vec![0; n as usize];
        s.read_exact(&mut b).await?;
        if !state.info().writeable {
            state.ingest(i, b);
        }
    }
}

impl ReplicatingCore {
    pub async fn add_stream<S: AsyncRead + AsyncWrite + Send + Sync + Unpin + 'static>(
        &self,
        stream: S,
        is_initiator: bool,
    ) {
        self.connections.lock().unwrap().push(is_initiator);
        let core = self.core.clone();
        tokio::spawn(async move {
            let mut s = Halves(Arc::new(Mutex::new(stream)));
            let role = if is_initiator { b"I" } else { b"R" };
            s.write_all(role).await?;
            s.flush().await?;
            let mut other = [0u8; 1];
            s.read_exact(&mut other).await?;
            if &other == role {
                return Err(ReplicatorError::SameRole);
            }
            let info = core.0.lock().await.info();
            s.write_all(&info.length.to_le_bytes()).await?;
            s.flush().await?;
            let mut theirs = [0u8; 8];
            s.read_exact(&mut theirs).await?;
            let start = u64::from_le_bytes(theirs);
            tokio::select! {
                r = send(s.clone(), core.clone(), start) => r,
                r = receive(s.clone(), core.clone()) => r,
            }
        });
    }
}

impl CoreInfo for ReplicatingCore {
    fn info(&self) -> impl Future<Output = Info> + Send {
        self.core.info()
    }
    fn key_pair(&self) -> impl Future<Output = PartialKeypair> + Send {
        self.core.key_pair()
    }
}

impl CoreMethods for ReplicatingCore {
    fn has(&self, index: u64) -> impl Future<Output = bool> + Send {
        self.core.has(index)
    }
    fn get(
        &self,
        index: u64,
    ) -> impl Future<Output = Result<Option<Vec<u8>>, CoreMethodsError>> + Send {
        self.core.get(index)
    }
    fn append(
        &self,
        data: &[u8],
    ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send {
        self.core.append(data)
    }
    fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]> + Send>(
        &self,
        batch: B,
    ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send {
        self.core.append_batch(batch)
    }
}

/// Connected in-memory byte streams and connected cores, for tests.
#[cfg(feature = "utils")]
pub mod utils {
    use super::*;
    use hypercore::{HypercoreBuilder, Storage};
    use std::collections::VecDeque;
    use std::task::Waker;

    #[derive(Default)]
    struct Pipe {
        buf: VecDeque<u8>,
        closed: bool,
        reader: Option<Waker>,
        writer: Option<Waker>,
    }

    /// One end of an in-memory duplex stream.
    pub struct End {
        rx: Arc<Mutex<Pipe>>,
        tx: Arc<Mutex<Pipe>>,
    }
    impl Drop for End {
        fn drop(&mut self) {
            for p in [&self.rx, &self.tx] {
                let mut p = p.lock().unwrap();
                p.closed = true;
                p.reader.take().map(Waker::wake);
                p.writer.take().map(Waker::wake);
            }
        }
    }
    impl AsyncRead for End {
        fn poll_read(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            buf: &mut [u8],
        ) -> Poll<std::io::Result<usize>> {
            let mut p = self.rx.lock().unwrap();
            let n = buf.len().min(p.buf.len());
            if n == 0 && !buf.is_empty() {
                if p.closed {
                    return Poll::Ready(Ok(0));
                }
                p.reader = Some(cx.waker().clone());
                return Poll::Pending;
            }
            for x in &mut buf[..n] {
                *x = p.buf.pop_front().unwrap();
            }
            p.writer.take().map(Waker::wake);
            Poll::Ready(Ok(n))
        }
    }
    impl AsyncWrite for End {
        fn poll_write(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            buf: &[u8],
        ) -> Poll<std::io::Result<usize>> {
            let mut p = self.tx.lock().unwrap();
            if p.closed {
                return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
            }
            let n = buf.len().min(4096usize.saturating_sub(p.buf.len()));
            if n == 0 && !buf.is_empty() {
                p.writer = Some(cx.waker().clone());
                return Poll::Pending;
            }
            p.buf.extend(&buf[..n]);
            p.reader.take().map(Waker::wake);
            Poll::Ready(Ok(n))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            let mut p = self.tx.lock().unwrap();
            p.closed = true;
            p.reader.take().map(Waker::wake);
            Poll::Ready(Ok(()))
        }
    }

    pub fn create_connected_streams() -> (End, End) {
        let (a, b): (Arc<Mutex<Pipe>>, Arc<Mutex<Pipe>>) = Default::default();
        (End { rx: a.clone(), tx: b.clone() }, End { rx: b, tx: a })
    }

    pub async fn writer_and_reader_cores() -> Result<(SharedCore, SharedCore), HypercoreError> {
        let w = HypercoreBuilder::new(Storage::new_memory().await?).build().await?;
        let mut k = w.key_pair();
        k.secret = None;
        let r = HypercoreBuilder::new(Storage::new_memory().await?).key_pair(k).build().await?;
        Ok((w.into(), r.into()))
    }
}
