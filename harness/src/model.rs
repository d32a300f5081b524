//! The sequential model: an ordered map with sequence numbers, and the handles it is compared with.
use crate::exec::{self, Stuck};
use crate::gen::{Bytes, Op};
use futures_lite::StreamExt;
use hyperbee::prefixed::Prefixed;
use hyperbee::traverse::TraverseConfig;
use hyperbee::{Hyperbee, HyperbeeError, KeyValueData};
use hypercore::standin::CoreState;
use hypercore::Hypercore;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Entry = (Bytes, u64, Option<Bytes>);

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Model {
    pub map: BTreeMap<Bytes, (u64, Option<Bytes>)>,
    /// number of blocks in the log
    pub len: u64,
}

/// What an operation returned.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Got(Option<(u64, Option<Bytes>)>),
    Put(Option<u64>, Option<u64>),
    Del(Option<(bool, u64)>),
}
pub fn show(o: &Out) -> String {
    let s = format!("{o:?}");
    if s.len() > 300 {
        format!("{}.. ({} chars)", &s[..s.char_indices().nth(300).unwrap().0], s.len())
    } else {
        s
    }
}

/// A call of a predicate: what it was given.
pub type Seen = (Option<Entry>, Option<Entry>);

impl Model {
    pub fn entries(&self) -> Vec<Entry> {
        self.map.iter().map(|(k, (s, v))| (k.clone(), *s, v.clone())).collect()
    }
    fn entry(&self, k: &[u8]) -> Option<Entry> {
        self.map.get(k).map(|(s, v)| (k.to_vec(), *s, v.clone()))
    }
    /// Applies `op`; returns its result and the predicate call it should have made.
    /// `header`: whether an empty log gains its header even if nothing is written.
    pub fn apply(&mut self, op: &Op) -> (Out, Option<Seen>) {
        match op {
            Op::Get(k) => (Out::Got(self.map.get(k).cloned()), None),
            Op::Put(k, v) | Op::CasPut(k, v, true) => {
                let old = self.entry(k);
                let seq = self.len.max(1);
                self.len = seq + 1;
                let new = (k.clone(), seq, v.clone());
                self.map.insert(k.clone(), (seq, v.clone()));
                (Out::Put(old.as_ref().map(|e| e.1), Some(seq)), Some((old, Some(new))))
            }
            Op::CasPut(k, v, false) => {
                let old = self.entry(k);
                let new = (k.clone(), self.len.max(1), v.clone());
                (Out::Put(old.as_ref().map(|e| e.1), None), Some((old, Some(new))))
            }
            Op::Del(k) | Op::CasDel(k, true) => match self.entry(k) {
                None => (Out::Del(None), None),
                Some(e) => {
                    self.map.remove(k);
                    self.len += 1;
                    (Out::Del(Some((true, e.1))), Some((Some(e), None)))
                }
            },
            Op::CasDel(k, false) => match self.entry(k) {
                None => (Out::Del(None), None),
                Some(e) => (Out::Del(Some((false, e.1))), Some((Some(e), None))),
            },
        }
    }
    pub fn is_mutation(&self, op: &Op) -> bool {
        match op {
            Op::Get(_) | Op::CasPut(_, _, false) | Op::CasDel(_, false) => false,
            Op::Put(..) | Op::CasPut(..) => true,
            Op::Del(k) | Op::CasDel(k, _) => self.map.contains_key(k),
        }
    }
}

fn kv(d: &KeyValueData) -> Entry {
    (d.key.clone(), d.seq, d.value.clone())
}

/// The two kinds of handle.
pub enum H<'a> {
    Bee(&'a Hyperbee),
    Sub(&'a Prefixed),
}
/// Runs `op` on a handle; `seen` receives the arguments of each predicate call.
pub async fn perform(h: &H<'_>, op: &Op, seen: &mut Vec<Seen>) -> Result<Out, HyperbeeError> {
    macro_rules! go {
        ($t:expr) => {
            match op {
                Op::Get(k) => Out::Got($t.get(k).await?),
                Op::Put(k, v) => {
                    let (a, b) = $t.put(k, v.as_deref()).await?;
                    Out::Put(a, Some(b))
                }
                Op::CasPut(k, v, yes) => {
                    let (a, b) = $t
                        .put_compare_and_swap(k, v.as_deref(), |old, new| {
                            seen.push((old.map(kv), Some(kv(new))));
                            *yes
                        })
                        .await?;
                    Out::Put(a, b)
                }
                Op::Del(k) => Out::Del($t.del(k).await?.map(|s| (true, s))),
                Op::CasDel(k, yes) => Out::Del(
                    $t.del_compare_and_swap(k, |old| {
                        seen.push((Some(kv(old)), None));
                        *yes
                    })
                    .await?,
                ),
            }
        };
    }
    Ok(match h {
        H::Bee(t) => go!(t),
        H::Sub(t) => go!(t),
    })
}

pub fn stuck(s: Stuck) -> String {
    s.to_string()
}
pub fn err_chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s += &format!(": {x}");
        c = x.source();
    }
    s
}

/// Runs `op` on handle and model and compares results and predicate calls.
pub fn step(h: &H<'_>, model: &mut Model, op: &Op) -> Result<Out, String> {
    let mut seen = vec![];
    let got = exec::run(perform(h, op, &mut seen))
        .map_err(|s| format!("{}: {s}", op.short()))?
        .map_err(|e| format!("{}: failed without a storage fault: {}", op.short(), err_chain(&e)))?;
    let (want, called) = model.apply(op);
    if got != want {
        return Err(format!("{}: returned {}, expected {}", op.short(), show(&got), show(&want)));
    }
    if matches!(op, Op::CasPut(..) | Op::CasDel(..)) {
        let want: Vec<Seen> = called.into_iter().collect();
        if seen != want {
            return Err(format!("{}: predicate calls {seen:02x?}, expected {want:02x?}", op.short()));
        }
    }
    Ok(got)
}

pub fn bee(core: &Arc<CoreState>) -> Hyperbee {
    Hyperbee::from_hypercore(Hypercore::from_state(core.clone())).expect("from_hypercore")
}

/// Everything a handle yields in a traversal with `conf`; an absent root counts as nothing.
pub async fn collect(h: &H<'_>, conf: TraverseConfig) -> Result<Vec<Entry>, HyperbeeError> {
    async fn drain(
        s: impl futures_lite::Stream<Item = hyperbee::traverse::KeyDataResult>,
    ) -> Result<Vec<Entry>, HyperbeeError> {
        let mut s = std::pin::pin!(s);
        let mut out = vec![];
        while let Some(x) = s.next().await {
            out.push(kv(&x?));
        }
        Ok(out)
    }
    let r = match h {
        H::Bee(t) => match t.traverse(conf).await {
            Ok(s) => drain(s).await,
            Err(e) => Err(e),
        },
        H::Sub(t) => match t.traverse(&conf).await {
            Ok(s) => drain(s).await,
            Err(e) => Err(e),
        },
    };
    match r {
        Err(HyperbeeError::NoRootError) => Ok(vec![]),
        r => r,
    }
}
pub fn collect_ok(h: &H<'_>, conf: TraverseConfig) -> Result<Vec<Entry>, String> {
    exec::run(collect(h, conf))
        .map_err(|s| format!("traverse: {s}"))?
        .map_err(|e| format!("traverse failed without a storage fault: {}", err_chain(&e)))
}

/// First difference of two lists of entries, for messages.
pub fn diff(got: &[Entry], want: &[Entry]) -> Option<String> {
    if got == want {
        return None;
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let f = |e: Option<&Entry>| match e {
        None => "end".to_string(),
        Some((k, s, v)) => {
            let v = v.as_ref().map(|v| if v.len() > 16 { format!("{:02x?}..{}", &v[..16], v.len()) } else { format!("{v:02x?}") });
            let k = if k.len() > 32 { format!("{:02x?}..{}", &k[..32], k.len()) } else { format!("{k:02x?}") };
            format!("({k}, seq {s}, {v:?})")
        }
    };
    Some(format!(
        "{} entries, expected {}; first difference at {i}: {} instead of {}",
        got.len(),
        want.len(),
        f(got.get(i)),
        f(want.get(i))
    ))
}

/// The handle's whole content equals the model: by traversal, by version, and by get of present and absent keys.
pub fn same(h: &Hyperbee, model: &Model, probe: &[Bytes]) -> Result<(), String> {
    let v = exec::run(h.version()).map_err(stuck)?;
    if v != model.len {
        return Err(format!("version is {v}, expected {}", model.len));
    }
    let all = collect_ok(&H::Bee(h), TraverseConfig::default())?;
    if let Some(d) = diff(&all, &model.entries()) {
        return Err(format!("traversal of everything gives {d}"));
    }
    for k in probe {
        let got = exec::run(h.get(k)).map_err(stuck)?.map_err(|e| format!("get: {}", err_chain(&e)))?;
        if got != model.map.get(k).cloned() {
            return Err(format!(
                "{}: returned {}, expected {}",
                Op::Get(k.clone()).short(),
                show(&Out::Got(got)),
                show(&Out::Got(model.map.get(k).cloned()))
            ));
        }
    }
    Ok(())
}
