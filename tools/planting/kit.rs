// helpers of the demonstrations
#![allow(dead_code)]
pub use futures_lite::StreamExt;
pub use hyperbee::{traverse::*, prefixed::*, *};
pub use hypercore::{standin::*, *};
pub use std::sync::Arc;
use std::future::Future;

/// Runs a future; the program fails when it takes more than a minute.
pub fn run<F: Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(60), f).await })
        .unwrap_or_else(|_| {
            eprintln!("did not finish");
            std::process::exit(3)
        })
}
pub fn open(s: &Arc<CoreState>) -> Hyperbee {
    Hyperbee::from_hypercore(Hypercore::from_state(s.clone())).unwrap()
}
pub fn fresh() -> (Arc<CoreState>, Hyperbee) {
    let s = CoreState::in_memory(true, [7; 32]);
    let h = open(&s);
    (s, h)
}
/// A core that starts with the first `n` blocks of another.
pub fn prefix(s: &Arc<CoreState>, n: usize) -> Arc<CoreState> {
    CoreState::with_blocks(s.blocks()[..n].iter().map(|b| b.as_ref().map(|b| b.to_vec())).collect(), true)
}
pub fn k(i: usize) -> Vec<u8> {
    format!("{i:04}").into_bytes()
}
pub async fn all(h: &Hyperbee, c: TraverseConfig) -> Vec<Vec<u8>> {
    let s = h.traverse(c).await.unwrap();
    futures_lite::pin!(s);
    let mut out = vec![];
    while let Some(x) = s.next().await {
        out.push(x.unwrap().key)
    }
    out
}
pub fn fin(x: &[u8]) -> LimitValue {
    LimitValue::Finite(x.to_vec())
}
/// Polls a future `n` times, then drops it. True: it had finished.
pub async fn poll_then_drop<F: Future>(f: F, n: usize) -> bool {
    let mut f = Box::pin(f);
    for _ in 0..n {
        // tokio makes everything wait for a task that never yields
        tokio::task::yield_now().await;
        if futures_lite::future::poll_once(f.as_mut()).await.is_some() {
            return true;
        }
    }
    false
}
