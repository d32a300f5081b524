//! Runs a file of operations through the Rust interface and prints one line per result; tools/bindings_driver.py does the
//! same through the generated Python. usage: apply OPS DIR
use hyperbee::{prefixed::PrefixedConfig, Hyperbee, HyperbeeError};
use std::collections::HashMap;
use std::panic::AssertUnwindSafe;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// `x6162`, or `@1000:61` for a thousand bytes 61
fn bytes(s: &str) -> Vec<u8> {
    if let Some(r) = s.strip_prefix('@') {
        let (n, b) = r.split_once(':').expect("@N:B");
        return vec![u8::from_str_radix(b, 16).expect("hex"); n.parse().expect("count")];
    }
    let h = s.strip_prefix('x').expect("xHEX").as_bytes();
    h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).expect("hex")).collect()
}
fn opt<T: ToString>(x: Option<T>) -> String {
    x.map_or("-".into(), |x| x.to_string())
}
fn res(r: Result<String, HyperbeeError>) -> String {
    match r {
        Ok(s) => format!("ok {s}"),
        Err(_) => "error".into(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let ops = std::fs::read_to_string(&a[1]).expect("ops");
    let dir = std::path::PathBuf::from(&a[2]);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("runtime");
    let mut hb: Option<Hyperbee> = None;
    let mut subs = HashMap::new();
    for l in ops.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let run = std::panic::catch_unwind(AssertUnwindSafe(|| {
            rt.block_on(async {
                match w[0] {
                    "open" => {
                        subs.clear();
                        hb = None;
                        let at = if w.len() > 1 { dir.join(String::from_utf8(bytes(w[1])).expect("UTF-8")) } else { dir.clone() };
                        match Hyperbee::from_storage_dir(at).await {
                            Ok(h) => {
                                hb = Some(h);
                                "ok".into()
                            }
                            Err(_) => "error".to_string(),
                        }
                    }
                    "faults" => {
                        std::fs::write(dir.join("faults"), l[7..].replace(';', "\n")).expect("faults");
                        "ok".into()
                    }
                    "flip" => {
                        subs.clear();
                        hb = None;
                        let p = dir.join("data");
                        let mut d = std::fs::read(&p).expect("data");
                        let n = d.len();
                        if n > 0 {
                            d[w[1].parse::<usize>().unwrap() % n] ^= w[2].parse::<u8>().unwrap();
                        }
                        std::fs::write(&p, d).expect("data");
                        "ok".into()
                    }
                    _ if hb.is_none() => "no tree".into(),
                    "sub" => {
                        let c = match w[3] {
                            "default" => PrefixedConfig::default(),
                            s => PrefixedConfig { seperator: bytes(s) },
                        };
                        subs.insert(w[1].to_string(), hb.as_ref().unwrap().sub(&bytes(w[2]), c));
                        "ok".into()
                    }
                    "version" => format!("ok {}", hb.as_ref().unwrap().version().await),
                    "forget" => "ok".into(),
                    op => {
                        let k = bytes(w[2]);
                        let v = w.get(3).filter(|v| **v != "-").map(|v| bytes(v));
                        let whole = hb.as_ref().unwrap();
                        let sub = subs.get(w[1]);
                        match (op, sub) {
                            ("put", None) => res(whole.put(&k, v.as_deref()).await.map(|(o, n)| format!("{} {n}", opt(o)))),
                            ("put", Some(s)) => res(s.put(&k, v.as_deref()).await.map(|(o, n)| format!("{} {n}", opt(o)))),
                            ("del", None) => res(whole.del(&k).await.map(opt)),
                            ("del", Some(s)) => res(s.del(&k).await.map(opt)),
                            ("get", t) => {
                                let r = match t {
                                    None => whole.get(&k).await,
                                    Some(s) => s.get(&k).await,
                                };
                                res(r.map(|g| g.map_or("absent".into(), |(s, v)| format!("{s} {}", v.map_or("-".into(), |v| format!("x{}", hex(&v)))))))
                            }
                            _ => panic!("unknown operation {op}"),
                        }
                    }
                }
            })
        }));
        println!("{}", run.unwrap_or_else(|_| "panic".into()));
    }
}
