//! C27: runs seeded histories and prints one line per case: what it did and saw, as a digest. The same program is built
//! with different features and profiles of hyperbee; all must print the same.
//! usage: hbplain SEED CASES DIR [CASE]   (with CASE: prints every result of that case instead)
use futures_lite::StreamExt;
use hyperbee::prefixed::{Prefixed, PrefixedConfig};
use hyperbee::traverse::{LimitValue, TraverseConfig};
use hyperbee::{Hyperbee, HyperbeeError};
use hypercore::standin::{CoreState, Decision, OpKind, Verdict};
use hypercore::Hypercore;
use std::sync::Arc;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

struct Log {
    digest: u64,
    results: u64,
    say: bool,
}
impl Log {
    fn put(&mut self, s: String) {
        for b in s.bytes().chain([0]) {
            self.digest = (self.digest ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.results += 1;
        if self.say {
            println!("{}", s.chars().take(400).collect::<String>());
        }
    }
}

fn chain(e: HyperbeeError) -> String {
    let mut s = e.to_string();
    let mut c = std::error::Error::source(&e);
    while let Some(x) = c {
        s += &format!(": {x}");
        c = x.source();
    }
    s
}

fn key(r: &mut Rng, kind: usize, n: usize) -> Vec<u8> {
    let i = r.below(n);
    match kind {
        0 => format!("{i}").into_bytes(),
        1 => (i as u32).to_be_bytes().to_vec(),
        2 => vec![b'a'; i % 40],
        3 => vec![(i % 4 * 85) as u8; i / 4 % 12],
        _ => {
            let mut k = format!("p{}", i % 3).into_bytes();
            k.push((i % 5 * 63) as u8);
            k.extend((i as u16).to_le_bytes());
            k
        }
    }
}
fn limit(r: &mut Rng, kind: usize, n: usize, or: LimitValue) -> LimitValue {
    if r.below(3) == 0 {
        or
    } else {
        LimitValue::Finite(key(r, kind, n))
    }
}

async fn walk(h: Result<&Hyperbee, &Prefixed>, conf: TraverseConfig, stop: usize) -> String {
    let mut out = String::new();
    macro_rules! go {
        ($s:expr) => {
            match $s {
                Err(e) => out += &chain(e),
                Ok(s) => {
                    let mut s = std::pin::pin!(s);
                    let mut n = 0;
                    while n < stop {
                        match s.next().await {
                            None => break,
                            Some(Ok(x)) => out += &format!("{:02x?} {} {:02x?};", x.key, x.seq, x.value),
                            Some(Err(e)) => out += &chain(e),
                        }
                        n += 1;
                    }
                }
            }
        };
    }
    match h {
        Ok(h) => go!(h.traverse(conf).await),
        Err(s) => go!(s.traverse(&conf).await),
    }
    out
}

async fn case(r: &mut Rng, log: &mut Log, dir: &std::path::Path) {
    let kind = r.below(5);
    let n = [3, 12, 40, 120, 400][r.below(5)];
    let on_disk = r.below(6) == 0;
    let core: Arc<CoreState>;
    let mut hb = if on_disk {
        let h = Hyperbee::from_storage_dir(dir).await.expect("from_storage_dir");
        core = hypercore::standin::last_created().expect("core");
        h
    } else {
        core = CoreState::in_memory(true, [7; 32]);
        Hyperbee::from_hypercore(Hypercore::from_state(core.clone())).expect("from_hypercore")
    };
    hypercore::standin::forget_last();
    let conf = || PrefixedConfig { seperator: vec![] };
    let mut sub = hb.sub(b"p", conf());
    let def = hb.sub(b"", Default::default());
    let _ = def;
    let ops = 20 + r.below(n * 3);
    let deletes = 1 + r.below(6);
    for i in 0..ops {
        let k = key(r, kind, n);
        let v = match r.below(4) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec![i as u8; r.below(300)]),
            _ => Some(format!("v{i}").into_bytes()),
        };
        let through_sub = r.below(5) == 0;
        let fault = r.below(12) == 0;
        if fault {
            let at = r.below(5);
            let mut seen = 0;
            let verdict = [Verdict::ErrBefore, Verdict::ErrAfter, Verdict::Missing][r.below(3)];
            core.set_policy(Some(Box::new(move |op| {
                if *op == OpKind::Info {
                    return Decision::NORMAL;
                }
                seen += 1;
                Decision { verdict: if seen == at + 1 { verdict } else { Verdict::Normal }, ..Decision::NORMAL }
            })));
        }
        let what = r.below(10 + deletes);
        let yes = r.below(3) > 0;
        macro_rules! on {
            ($h:expr) => {{
                let h = $h;
                match what {
                    0..=5 => format!("put {:?}", h.put(&k, v.as_deref()).await.map_err(chain)),
                    6 => format!(
                        "put-if {:?}",
                        h.put_compare_and_swap(&k, v.as_deref(), |a, b| {
                            yes && (a.is_none() || a.map(|a| a.seq) < Some(b.seq))
                        })
                        .await
                        .map_err(chain)
                    ),
                    7 => format!("get {:02x?}", h.get(&k).await.map_err(chain)),
                    8 => format!("del-if {:?}", h.del_compare_and_swap(&k, |a| yes || a.value.is_none()).await.map_err(chain)),
                    9 => String::new(),
                    _ => format!("del {:?}", h.del(&k).await.map_err(chain)),
                }
            }};
        }
        let mut s = if through_sub { on!(&sub) } else { on!(&hb) };
        if what == 9 {
            let d = TraverseConfig::default();
            let conf = TraverseConfig {
                min_value: limit(r, kind, n, d.min_value),
                max_value: limit(r, kind, n, d.max_value),
                min_inclusive: r.below(2) == 0,
                max_inclusive: r.below(2) == 0,
                reversed: r.below(2) == 0,
            };
            let stop = if r.below(2) == 0 { 10_000 } else { r.below(20) };
            s = format!("walk {}", walk(if through_sub { Err(&sub) } else { Ok(&hb) }, conf, stop).await);
        }
        log.put(s);
        if fault {
            core.set_policy(None);
            log.put(format!("blocks {}", core.len()));
        }
        if r.below(60) == 0 && !on_disk {
            hb = Hyperbee::from_hypercore(Hypercore::from_state(core.clone())).expect("from_hypercore");
            hypercore::standin::forget_last();
            sub = hb.sub(b"p", conf());
        }
        if r.below(40) == 0 {
            log.put(format!("version {}", hb.version().await));
        }
        #[cfg(feature = "debug")]
        if i % 40 == 0 {
            // only there with this feature, so not part of the digest
            let other = Hyperbee::from_hypercore(Hypercore::from_state(core.clone())).expect("from_hypercore");
            hypercore::standin::forget_last();
            let _ = (other.height().await, other.print().await);
        }
    }
    log.put(walk(Ok(&hb), TraverseConfig::default(), usize::MAX).await);
    for b in core.blocks() {
        log.put(format!("{:02x?}", b));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().expect("seed");
    let cases: u64 = a[2].parse().expect("cases");
    let only: Option<u64> = a.get(4).map(|s| s.parse().expect("case"));
    std::panic::set_hook(Box::new(|_| ()));
    for c in 0..cases {
        if only.is_some_and(|o| o != c) {
            continue;
        }
        let dir = std::path::Path::new(&a[3]).join(format!("{c}"));
        let mut log = Log { digest: 0xcbf29ce484222325, results: 0, say: only.is_some() };
        let mut r = Rng(seed.wrapping_mul(0x2545f4914f6cdd1d) ^ c);
        let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
        let ended = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(case(&mut r, &mut log, &dir))));
        if let Err(p) = ended {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
            log.put(format!("panicked: {m:?}"));
        }
        let _ = std::fs::remove_dir_all(&dir);
        println!("{c} {:016x} {}", log.digest, log.results);
    }
}
