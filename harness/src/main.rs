mod balance;
mod case;
mod codec;
mod exec;
mod gen;
mod model;
mod refbee;
mod rng;
mod shape;
mod watch;

mod c_conc;
mod c_fault;
mod c_log;
mod c_misc;
mod c_map;
mod c_more;
mod c_range;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("--child") {
        c_fault::child(&a[2], a[3].parse().expect("seed"));
    }
    let id = a.get(1).map(String::as_str).unwrap_or("");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let mut only = None;
    let mut seed = seed;
    let mut i = 2;
    while i < a.len() {
        match a[i].as_str() {
            "quick" => thorough = false,
            "thorough" => thorough = true,
            "--replay" => {
                i += 1;
                let (s, c) = a[i].split_once(':').expect("seed:case");
                seed = s.parse().expect("seed");
                only = Some(c.parse().expect("case"));
            }
            x => {
                eprintln!("unknown argument {x}");
                std::process::exit(64);
            }
        }
        i += 1;
    }
    let checks: Vec<&'static case::Check> = [c_map::CHECKS, c_log::CHECKS, c_range::CHECKS, c_conc::CHECKS, c_fault::CHECKS, c_misc::CHECKS, c_more::CHECKS].concat().into_iter().collect();
    match checks.iter().find(|c| c.id == id) {
        Some(c) => std::process::exit(case::run_check(c, seed, thorough, only)),
        None => {
            eprintln!("unknown check {id:?}");
            std::process::exit(64);
        }
    }
}
